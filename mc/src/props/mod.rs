//! The spaces explored for each property.

use crate::engine::*;

pub mod basic;
pub mod files;
pub mod history;
pub mod images;
pub mod io;
pub mod splice;
pub mod stages;
pub mod texts;
pub mod typed;

pub const IDS: &[&str] = &[
  "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
  "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

pub fn spaces(id: &str, quick: bool) -> Vec<Space> {
  match id {
    "C01" => basic::c01(quick),
    "C02" => basic::c02(quick),
    "C03" => files::c03(quick),
    "C04" => texts::c04(quick),
    "C05" => files::c05(quick),
    "C06" => texts::c06(quick),
    "C07" => texts::c07(quick),
    "C08" => texts::c08(quick),
    "C09" => texts::c09(quick),
    "C10" => texts::c10(quick),
    "C11" => texts::c11(quick),
    "C12" => texts::c12(quick),
    "C13" => images::c13(quick),
    "C14" => images::c14(quick),
    "C15" => images::c15(quick),
    "C16" => stages::c16(quick),
    "C17" => stages::c17(quick),
    "C18" => splice::c18(quick),
    "C19" => files::c19(quick),
    "C20" => splice::c20(quick),
    "C21" => io::c21(quick),
    "C22" => typed::c22(quick),
    "C23" => history::c23(quick),
    "C24" => texts::c24(quick),
    "C25" => basic::c25(quick),
    "C26" => files::c26(quick),
    "C27" => texts::c27(quick),
    _ => panic!("unknown property {}", id),
  }
}
