//! Brings what the library reports into the vocabulary of the reference model,
//! and compares the two.

use crate::model::*;
use dockerfile_parser as d;

fn sp(s: &d::Span) -> Sp {
  (s.start, s.end)
}

fn s(x: &d::SpannedString) -> S {
  S { span: sp(&x.span), text: x.content.clone() }
}

pub fn br(b: &d::BreakableString) -> Br {
  Br {
    span: sp(&b.span),
    parts: b
      .components
      .iter()
      .map(|c| match c {
        d::BreakableStringComponent::String(x) => (false, s(x)),
        d::BreakableStringComponent::Comment(x) => {
          (true, S { span: sp(&x.span), text: x.content.clone() })
        }
      })
      .collect(),
  }
}

pub fn img(i: &d::ImageRef) -> Img {
  Img { registry: i.registry.clone(), image: i.image.clone(), tag: i.tag.clone(), hash: i.hash.clone() }
}

fn expr(e: &d::ShellOrExecExpr) -> Body {
  match e {
    d::ShellOrExecExpr::Shell(b) => Body::Shell(br(b)),
    d::ShellOrExecExpr::Exec(a) => {
      Body::Exec { span: sp(&a.span), items: a.elements.iter().map(s).collect() }
    }
  }
}

pub fn ins(i: &d::Instruction) -> Ins {
  let (kind, span, body) = match i {
    d::Instruction::From(x) => (
      Kind::From,
      sp(&x.span),
      Body::From {
        flags: x
          .flags
          .iter()
          .map(|f| Flag { span: sp(&f.span), name: s(&f.name), value: s(&f.value) })
          .collect(),
        image: s(&x.image),
        parsed: img(&x.image_parsed),
        index: x.index,
        alias: x.alias.as_ref().map(s),
      },
    ),
    d::Instruction::Arg(x) => {
      (Kind::Arg, sp(&x.span), Body::Arg { name: s(&x.name), value: x.value.as_ref().map(s) })
    }
    d::Instruction::Label(x) => (
      Kind::Label,
      sp(&x.span),
      Body::Label(x.labels.iter().map(|l| (sp(&l.span), s(&l.name), s(&l.value))).collect()),
    ),
    d::Instruction::Run(x) => (Kind::Run, sp(&x.span), expr(&x.expr)),
    d::Instruction::Entrypoint(x) => (Kind::Entrypoint, sp(&x.span), expr(&x.expr)),
    d::Instruction::Cmd(x) => (Kind::Cmd, sp(&x.span), expr(&x.expr)),
    d::Instruction::Copy(x) => (
      Kind::Copy,
      sp(&x.span),
      Body::Copy {
        flags: x
          .flags
          .iter()
          .map(|f| Flag { span: sp(&f.span), name: s(&f.name), value: s(&f.value) })
          .collect(),
        sources: x.sources.iter().map(s).collect(),
        dest: s(&x.destination),
      },
    ),
    d::Instruction::Env(x) => (
      Kind::Env,
      sp(&x.span),
      Body::Env(x.vars.iter().map(|v| (sp(&v.span), s(&v.key), br(&v.value))).collect()),
    ),
    d::Instruction::Misc(x) => (
      Kind::Misc,
      sp(&x.span),
      Body::Misc { name: s(&x.instruction), args: br(&x.arguments) },
    ),
  };
  Ins { kind, span, body }
}

pub fn all(f: &d::Dockerfile) -> Vec<Ins> {
  f.instructions.iter().map(ins).collect()
}

/// What a file reports besides its instructions: the numbers of those that are
/// global arguments; per stage its number, name, instructions, parent and root.
#[derive(Debug, PartialEq, Clone, Default)]
pub struct Outline {
  pub globals: Vec<Ins>,
  pub stages: Vec<(usize, Option<String>, Vec<usize>, String, String)>,
}

pub fn outline(f: &d::Dockerfile) -> Outline {
  let numbers: std::collections::HashMap<*const d::Instruction, usize> = f.instructions.iter().enumerate().map(|(n, i)| (i as *const _, n)).collect();
  Outline {
    globals: f.global_args.iter().map(|a| ins(&d::Instruction::Arg(a.clone()))).collect(),
    stages: f
      .stages()
      .stages
      .iter()
      .map(|s| {
        let own = s.instructions.iter().map(|i| numbers.get(&(*i as *const _)).copied().unwrap_or(usize::MAX)).collect();
        (s.index, s.name.clone(), own, s.parent.to_string(), s.root.to_string())
      })
      .collect(),
  }
}

pub fn err(e: &d::Error) -> Err {
  match e {
    d::Error::ParseError { .. } => Err::Syntax,
    d::Error::UnescapeError { .. } => Err::Unescape,
    d::Error::GenericParseError { .. } => Err::Digest,
    _ => Err::Other,
  }
}

pub fn parse(text: &str) -> Parsed {
  match d::Dockerfile::parse(text) {
    Ok(f) => Ok(all(&f)),
    Err(e) => Err(err(&e)),
  }
}

pub mod aspect {
  pub const ACCEPT: u32 = 1;
  pub const ERRKIND: u32 = 2;
  pub const COUNT: u32 = 4;
  pub const KIND: u32 = 8;
  pub const SPAN: u32 = 16;
  pub const FROM: u32 = 32;
  pub const ARG: u32 = 64;
  pub const LABEL: u32 = 128;
  pub const SHELL: u32 = 256;
  pub const EXEC: u32 = 512;
  pub const COPY: u32 = 1024;
  pub const ENV: u32 = 2048;
  pub const MISC: u32 = 4096;
  pub const ALL: u32 = 8191;
  pub const VALUES: u32 = FROM | ARG | LABEL | SHELL | EXEC | COPY | ENV | MISC;
}
use aspect::*;

fn br_text(b: &Br) -> Vec<(bool, &str)> {
  b.parts.iter().map(|p| (p.0, p.1.text.as_str())).collect()
}

fn diff_ins(a: &Ins, m: &Ins) -> u32 {
  if a.kind != m.kind {
    return KIND;
  }
  let mut out = 0;
  if a.without_spans() != m.without_spans() {
    out |= match (&a.body, &m.body) {
      (Body::From { .. }, _) => FROM,
      (Body::Arg { .. }, _) => ARG,
      (Body::Label(_), _) => LABEL,
      (Body::Copy { .. }, _) => COPY,
      (Body::Shell(_), Body::Shell(_)) => SHELL,
      (Body::Shell(_), _) | (Body::Exec { .. }, Body::Shell(_)) => SHELL | EXEC,
      (Body::Exec { .. }, _) => EXEC,
      (Body::Env(x), Body::Env(y)) => {
        let same = x.len() == y.len() && x.iter().zip(y).all(|(x, y)| br_text(&x.2) == br_text(&y.2));
        if same { ENV } else { ENV | SHELL }
      }
      (Body::Misc { args: x, .. }, Body::Misc { args: y, .. }) => {
        if br_text(x) == br_text(y) { MISC } else { MISC | SHELL }
      }
      _ => KIND,
    };
  } else if a != m {
    out |= SPAN;
  }
  out
}

/// Which aspects differ between what was observed and what the model says.
pub fn diff(a: &Parsed, m: &Parsed) -> u32 {
  match (a, m) {
    (Ok(a), Ok(m)) => {
      let mut out = if a.len() != m.len() { COUNT } else { 0 };
      for (a, m) in a.iter().zip(m) {
        out |= diff_ins(a, m);
      }
      out
    }
    (Err(a), Err(m)) => if a != m { ERRKIND } else { 0 },
    _ => ACCEPT,
  }
}
