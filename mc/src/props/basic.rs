//! Properties of single texts: termination (C01), spans (C02), acceptance (C25).

use crate::corpus::*;
use crate::engine::*;
use crate::lexicon::placed_words;
use crate::model::{self, Body, Ins, Kind, Sp};
use crate::norm::{self, aspect};
use dockerfile_parser as d;

/// Judges a text by comparing what the library reports with the model.
pub fn against_model(mask: u32) -> impl Fn(&str, &mut Ctx) -> Res + Send + Sync + Clone + 'static {
  move |t, ctx| {
    let a = norm::parse(t);
    let m = model::parse(t);
    ctx.trace();
    ctx.state(&a);
    compare(t, &a, &m, mask)
  }
}

pub fn compare(_t: &str, a: &model::Parsed, m: &model::Parsed, mask: u32) -> Res {
  let diff = norm::diff(a, m) & mask;
  if diff == 0 {
    return Ok(());
  }
  Err(format!("the library gives {}\n  expected {}", clip(&format!("{:?}", a), 1500), clip(&format!("{:?}", m), 1500)))
}

/// All spans of an instruction with the depth they are nested at, in source order.
pub fn spans_of(i: &Ins) -> Vec<(usize, Sp)> {
  let mut v = vec![];
  let mut c = i.clone();
  let kind_depth = |k: usize| k;
  match &mut c.body {
    Body::Label(l) => {
      v.push((0, i.span));
      for (sp, n, x) in l {
        v.push((1, *sp));
        v.push((2, n.span));
        v.push((2, x.span));
      }
      return v;
    }
    Body::Env(l) => {
      v.push((0, i.span));
      for (sp, n, b) in l {
        v.push((1, *sp));
        v.push((2, n.span));
        v.push((2, b.span));
        for p in &b.parts {
          v.push((3, p.1.span));
        }
      }
      return v;
    }
    Body::Shell(b) => {
      v.push((0, i.span));
      v.push((1, b.span));
      for p in &b.parts {
        v.push((2, p.1.span));
      }
      return v;
    }
    Body::Exec { span, items } => {
      v.push((0, i.span));
      v.push((1, *span));
      for p in items {
        v.push((2, p.span));
      }
      return v;
    }
    Body::Misc { name, args } => {
      v.push((0, i.span));
      v.push((1, name.span));
      v.push((1, args.span));
      for p in &args.parts {
        v.push((2, p.1.span));
      }
      return v;
    }
    Body::From { flags, image, alias, .. } => {
      v.push((0, i.span));
      for f in flags {
        v.push((1, f.span));
        v.push((2, f.name.span));
        v.push((2, f.value.span));
      }
      v.push((1, image.span));
      if let Some(a) = alias {
        v.push((1, a.span));
      }
    }
    Body::Copy { flags, sources, dest } => {
      v.push((0, i.span));
      for f in flags {
        v.push((1, f.span));
        v.push((2, f.name.span));
        v.push((2, f.value.span));
      }
      for s in sources {
        v.push((1, s.span));
      }
      v.push((1, dest.span));
    }
    Body::Arg { name, value } => {
      v.push((kind_depth(0), i.span));
      v.push((1, name.span));
      if let Some(x) = value {
        v.push((1, x.span));
      }
    }
  }
  v
}

pub fn q<T>(quick: bool, a: T, b: T) -> T {
  if quick {
    a
  } else {
    b
  }
}

// ---------------------------------------------------------------- C01

/// Calls every read-only view of a parse result.
pub fn views(text: &str) -> usize {
  let mut calls = 1;
  let f = match d::Dockerfile::parse(text) {
    Ok(f) => f,
    Err(e) => {
      let shown = format!("{} {:?}", e, e);
      return 3 + (shown.len() == 0) as usize;
    }
  };
  let small = text.len() < 400;
  let _ = f.instructions.iter().map(|i| i.span().start).sum::<usize>();
  if small {
    let _ = format!("{:?}", f);
  }
  let stages = f.stages();
  let count = stages.stages.len();
  for (n, s) in stages.iter().enumerate() {
    if n > 60 && n + 60 < count {
      continue;
    }
    calls += 6;
    let _ = format!("{} {}", s.parent, s.root);
    let _ = stages.get(&n.to_string()).map(|s| s.index);
    if let Some(name) = &s.name {
      let _ = stages.get(name).map(|s| s.index);
      let _ = stages.get_by_name(name).map(|s| s.index);
    }
    let _ = s.arg_index("a");
    let _ = &stages[n];
  }
  let _ = (stages.get("x").is_some(), stages.get("").is_some(), stages.get("99").is_some());
  let _ = f.get_global_arg("a").is_some();
  let mut spans: Vec<Sp> = vec![];
  for (n, i) in f.instructions.iter().enumerate() {
    if n > 60 && n + 60 < f.instructions.len() {
      continue;
    }
    spans.extend(spans_of(&norm::ins(i)).into_iter().map(|s| s.1));
    match i {
      d::Instruction::From(x) => {
        calls += 4;
        let _ = x.image_parsed.to_string();
        let _ = x.image_parsed.resolve_vars(&f);
        let _ = x.image_parsed.resolve_vars_with_context(&f);
      }
      d::Instruction::Env(x) => x.vars.iter().for_each(|v| {
        let _ = v.value.to_string();
      }),
      d::Instruction::Misc(x) => {
        let _ = x.arguments.to_string();
      }
      d::Instruction::Run(x) => {
        let _ = (x.as_shell().map(|s| s.to_string()), x.as_exec().map(|e| e.as_str_vec().len()));
      }
      d::Instruction::Cmd(x) => {
        let _ = (x.as_shell().map(|s| s.to_string()), x.as_exec().map(|e| e.as_str_vec().len()));
      }
      d::Instruction::Entrypoint(x) => {
        let _ = (x.as_shell().map(|s| s.to_string()), x.as_exec().map(|e| e.as_str_vec().len()));
      }
      _ => (),
    }
  }
  if spans.len() > 60 {
    let tail = spans.split_off(spans.len() - 30);
    spans.truncate(30);
    spans.extend(tail);
  }
  for s in spans {
    let span = d::Span::new(s.0, s.1);
    let _ = span.relative_span(&f);
    let mut sp = f.splicer();
    sp.splice(&span, "é1");
    sp.splice(&span, "");
    calls += 3;
  }
  calls
}

fn c01_judge(t: &str, ctx: &mut Ctx) -> Res {
  let calls = views(t);
  ctx.steps(calls);
  ctx.trace();
  let mut n: [u16; 4] = [0; 4];
  n[0] = calls as u16;
  n[1] = t.len() as u16;
  ctx.state(&(n, t.as_bytes().first().copied(), t.as_bytes().last().copied()));
  Ok(())
}

fn c01_reference(t: &str, ctx: &mut Ctx) -> Res {
  let r = d::ImageRef::parse(t);
  let s = r.to_string();
  let again = d::ImageRef::parse(&s);
  ctx.steps(3);
  ctx.trace();
  ctx.state(&(s.len(), again.image.len(), again.hash.is_some(), t.len()));
  Ok(())
}

fn c01_value(t: &str, ctx: &mut Ctx) -> Res {
  ctx.steps(4);
  ctx.trace();
  if let Ok(f) = d::Dockerfile::parse(&format!("ARG v={}\nARG w=\"$v{}\"\nFROM a$v\nFROM $w@${{v}}", t, t)) {
    let mut n = [0; 3];
    for i in &f.instructions {
      if let d::Instruction::From(x) = i {
        n[0] += x.image_parsed.resolve_vars(&f).map_or(0, |r| r.to_string().len());
        n[1] += x.image_parsed.resolve_vars_with_context(&f).map_or(0, |r| r.1.len());
      }
    }
    n[2] = t.len();
    ctx.state(&n);
  }
  Ok(())
}

fn on_small_stack(texts: Texts, stack: usize) -> Space {
  let name = format!("{} on a {} KiB stack", texts.name, stack >> 10);
  let show = texts.get.clone();
  let get = texts.get;
  Space::new(name, texts.size, move |i| clip(&format!("{:?}", show(i).0), 400), move |i, ctx| {
    let (t, steps) = get(i);
    ctx.steps(steps);
    let r = std::thread::Builder::new().stack_size(stack).spawn(move || views(&t)).unwrap().join();
    ctx.trace();
    match r {
      Ok(n) => {
        ctx.state(&n);
        Ok(())
      }
      Err(p) => Err(format!("the library panicked: {}", panic_text(p))),
    }
  })
  .chunk(1)
}

/// Runs the behaviours in the build whose library is compiled without
/// optimizations: there, calls in tail position use up stack as well.
fn unoptimized(s: Space) -> Space {
  let exe = std::env::current_exe().ok().and_then(|e| Some(e.parent()?.parent()?.join("plain/mc")));
  let (name, space) = (format!("{}, library not optimized", s.name), s.name.clone());
  let Space { size, show, eval, .. } = s;
  Space::new(name, size, move |i| show(i), move |i, ctx| {
    let exe = exe.as_ref().filter(|_| std::env::var("MC_PLAIN").is_err());
    let exe = match exe {
      None => return eval(i, ctx),
      Some(e) => e,
    };
    let o = std::process::Command::new(exe)
      .args(["named", "C01", if ctx.quick { "quick" } else { "thorough" }, &space, &i.to_string()])
      .env("MC_PLAIN", "1")
      .output()
      .map_err(|e| format!("cannot run {:?}: {}", exe, e))?;
    ctx.steps(1);
    ctx.trace();
    use std::os::unix::process::ExitStatusExt;
    match (o.status.code(), o.status.signal()) {
      (Some(0), _) => Ok(()),
      (Some(3), _) => Err(String::from_utf8_lossy(&o.stdout).trim().to_string()),
      (_, Some(sig)) => Err(format!("the library ended the process (signal {})", sig)),
      (c, _) => panic!("unexpected exit {:?}", c),
    }
  })
  .chunk(1)
}

const IMAGE_TOKENS: &[&str] = &[
  "a", "@", ":", "/", "sha256", "sha256:", "0", HEX64, ".", "$v", "${", "}", "G", "sha512", "-",
];

/// texts in which each element refers to the one before
pub const CHAINS: &[Family] = &[
  ("stages built on one another", |n| {
    let mut t = String::from("FROM a AS s0\n");
    (0..n).for_each(|k| t.push_str(&format!("FROM s{} AS s{}\n", k, k + 1)));
    t
  }),
  ("arguments that use one another", |n| {
    let mut t = String::from("ARG s0=a\n");
    (0..n).for_each(|k| t.push_str(&format!("ARG s{}=$s{}\n", k + 1, k)));
    t + &format!("FROM $s0\nFROM $s{}\n", n)
  }),
  ("stages that repeat one name", |n| format!("FROM a AS b\n{}", "FROM b AS b\n".repeat(n))),
];

pub const RAW: &[&str] = &[
  "a", " ", "\n", "\r", "\\", "#", "\"", "'", "=", "[", "]", ",", "-", "$", "{", "}", ":", "@", "/", "é", "\u{1f600}",
  "\u{feff}", "\0", "\t", "RUN ", "ENV ", "LABEL ", "FROM ", "COPY ", "ARG ", "CMD ", "x ",
];

pub fn c01(quick: bool) -> Vec<Space> {
  let mut v = vec![
    tokens("texts of raw characters and keywords", &[""], RAW, q(quick, 4, 5), &[""]).space(c01_judge),
    general(q(quick, 3, 4)).space(c01_judge),
    edits1("single edits of seed files", &all_seeds(), &all_chars()).space(c01_judge),
    unicode("scalar values in context", CONTEXTS, q(quick, 0x20000, 0x110000)).space(c01_judge),
    families("families", FAMILIES, sizes(q(quick, 64, 400), q(quick, 4096, 16384))).space(c01_judge).chunk(1),
    tokens("image references", &["FROM ", "FROM a@", "FROM a@sha256:", "FROM $v@"], IMAGE_TOKENS, q(quick, 4, 5), &["", " AS b\n"]).space(c01_judge),
    on_small_stack(families("families", FAMILIES, q(quick, vec![1, 100, 1000, 5000, 20000], vec![1, 100, 1000, 5000, 20000, 60000, 100000])), 2 << 20),
    unoptimized(on_small_stack(families("families", FAMILIES, q(quick, vec![3000, 12000], vec![3000, 20000, 60000, 100000])), 1 << 20)),
    unoptimized(on_small_stack(families("chained families", CHAINS, q(quick, vec![100, 4000, 8000], vec![100, 1000, 4000, 8000, 16000])), 256 << 10)),
  ];
  // references of any short text, and variables whose values are such texts
  let toks = &["a", ".", ":", "/", "@", "é", "日", "\u{1d11e}", "$", "A", "-", "aaaa", "sha256:", "}"];
  v.push(tokens("short image references", &["", "a@", "r.io/a:1@", "é/"], toks, q(quick, 5, 6), &[""]).space(c01_reference));
  v.push(tokens("short values of variables in images", &["", "a@", "é:"], toks, q(quick, 4, 5), &[""]).space(c01_value));
  for t in per_instruction(quick) {
    v.push(t.space(c01_judge));
  }
  for t in vocabulary(if quick { &["FROM", "ARG", "ENV", "LABEL", "shell", "exec", "misc", "comments", "lines", "wide"] } else { ALL_REAL }).into_iter().chain(placed_words(&all_seeds())) {
    v.push(t.space(c01_judge));
  }
  if !quick {
    v.push(edits2("double edits of seed files", &all_seeds(), &role_chars()).space(c01_judge));
  }
  v
}

pub const CONTEXTS: &[(&str, &str)] = &[
  ("", ""),
  ("", "\nRUN a"),
  ("RUN ", " b\nCMD c"),
  ("RUN a \\\n", " c"),
  ("RUN [\"", "\"]\nCMD c"),
  ("ENV a=", " b=c"),
  ("ENV a ", "\nRUN b"),
  ("ENV a=\"", "\" b=c"),
  ("ENV a", "=b"),
  ("LABEL a", "b=c"),
  ("LABEL a=\"b", "\" c=d"),
  ("LABEL a ", ""),
  ("ARG a", "\nRUN b"),
  ("ARG a=", ""),
  ("ARG a='", "'"),
  ("COPY a", "b c"),
  ("COPY --f=a", " b c"),
  ("FROM a", " as b"),
  ("FROM a as b", "\nRUN c"),
  ("FROM --f=", " a"),
  ("FROM a ", "as b"),
  ("# a", "\nRUN b"),
  ("ADD a", "b"),
  ("AD", "D a"),
  ("RUN", " a"),
  ("RUN a\n", "RUN b"),
  ("RUN a \\", "\n b"),
];

// ---------------------------------------------------------------- C02

fn c02_judge(t: &str, ctx: &mut Ctx) -> Res {
  let a = norm::parse(t);
  let m = model::parse(t);
  ctx.trace();
  ctx.state(&a);
  if let Ok(list) = &a {
    let mut floor = 0;
    for i in list {
      ctx.steps(1);
      let spans = spans_of(i);
      // open[d]: the enclosing span at depth d and how far its parts have come
      let mut open: Vec<(Sp, usize)> = vec![((0, t.len()), floor)];
      for (depth, s) in spans {
        let text = t.get(s.0..s.1);
        if s.0 >= s.1 || text.is_none() {
          return Err(format!("span {:?} of {:?} is not a non-empty range of characters", s, i));
        }
        open.truncate(depth + 1);
        let (parent, reached) = *open.last().unwrap();
        if s.0 < parent.0 || s.1 > parent.1 {
          return Err(format!("span {:?} of {:?} lies outside {:?}", s, i, parent));
        }
        if s.0 < reached {
          return Err(format!("span {:?} of {:?} overlaps the part before it", s, i));
        }
        open.last_mut().unwrap().1 = s.1;
        open.push((s, s.0));
      }
      floor = i.span.1;
      if i.kind != Kind::Misc {
        let kw = model::keyword_of(i.kind);
        if !t.get(i.span.0..i.span.0 + kw.len()).map_or(false, |k| k.eq_ignore_ascii_case(kw)) {
          return Err(format!("the span of {:?} does not start at its keyword", i));
        }
      }
      // each unquoted part is the text it covers
      let mut bad = None;
      each_part(i, &mut |s| {
        let src = &t[s.span.0..s.span.1];
        if !src.starts_with(['"', '\'', '`']) && src != s.text {
          bad = Some(format!("{:?} covers {:?}", s, src));
        }
      });
      if let Some(b) = bad {
        return Err(b);
      }
      // the covered text parsed alone gives the same instruction
      if t.len() < 3000 {
        let alone = norm::parse(&t[i.span.0..i.span.1]);
        ctx.trace();
        let froms = match &i.body {
          Body::From { index, .. } => *index,
          _ => 0,
        };
        let same = match &alone {
          Ok(v) => v.len() == 1 && v[0].shift(i.span.0, froms) == *i,
          _ => false,
        };
        if !same {
          return Err(format!(
            "the text {:?} of the span of {:?} parsed alone gives {:?}",
            &t[i.span.0..i.span.1], i, alone
          ));
        }
      }
    }
  }
  compare(t, &a, &m, aspect::SPAN)
}

/// Calls f for every value with a span.
pub fn each_part(i: &Ins, f: &mut dyn FnMut(&model::S)) {
  match &i.body {
    Body::From { flags, image, alias, .. } => {
      for x in flags {
        f(&x.name);
        f(&x.value);
      }
      f(image);
      if let Some(a) = alias {
        f(a);
      }
    }
    Body::Arg { name, value } => {
      f(name);
      if let Some(v) = value {
        f(v);
      }
    }
    Body::Label(l) => {
      for (_, n, v) in l {
        f(n);
        f(v);
      }
    }
    Body::Shell(b) => b.parts.iter().for_each(|p| f(&p.1)),
    Body::Exec { items, .. } => items.iter().for_each(f),
    Body::Copy { flags, sources, dest } => {
      for x in flags {
        f(&x.name);
        f(&x.value);
      }
      sources.iter().for_each(&mut *f);
      f(dest);
    }
    Body::Env(l) => {
      for (_, n, b) in l {
        f(n);
        // a single quoted value has its quotes inside the part's span
        b.parts.iter().for_each(|p| f(&p.1));
      }
    }
    Body::Misc { name, args } => {
      f(name);
      args.parts.iter().for_each(|p| f(&p.1));
    }
  }
}

/// Spaces that put a judge of single texts to work on everything.
pub fn everywhere(quick: bool, judge: impl Fn(&str, &mut Ctx) -> Res + Send + Sync + Clone + 'static) -> Vec<Space> {
  let roles = role_chars();
  let mut v = vec![
    general(q(quick, 4, 5)).space(judge.clone()),
    edits1("single edits of seed files", &all_seeds(), &all_chars()).space(judge.clone()),
    unicode("scalar values in context", CONTEXTS, q(quick, 0x20000, 0x110000)).space(judge.clone()),
    families("families", FAMILIES, sizes(q(quick, 80, 400), q(quick, 1024, 4096))).space(judge.clone()).chunk(1),
    families("huge families", FAMILIES, HUGE.to_vec()).space(judge.clone()).chunk(1),
    crlf(families("families", FAMILIES, q(quick, vec![1, 2, 3, 9, 65, 130, 257, 1025, 2049, 4097], sizes(80, 4096)))).space(judge.clone()).chunk(1),
    far(families("families", FAMILIES, q(quick, vec![0, 1, 2, 3, 9, 17, 65, 130, 257, 513, 1025, 2049, 4097], sizes(80, 4096)))).space(judge.clone()).chunk(1),
  ];
  for t in per_instruction(quick) {
    v.push(t.space(judge.clone()));
  }
  v.push(placed(edits1("single edits of seed files", &all_seeds(), if quick { &['\n', '"', ' ', 'a', '\\', '#'] } else { &roles })).space(judge.clone()));
  for t in vocabulary(ALL_REAL).into_iter().chain(placed_words(&all_seeds())) {
    v.push(t.space(judge.clone()));
  }
  v.push(slot_words(&[""], q(quick, 3, 4)).space(judge.clone()));
  v.push(super::texts::gap_texts().space(judge.clone()));
  if !quick {
    v.push(edits2("double edits of seed files", &all_seeds(), &role_chars()).space(judge));
  }
  v
}

pub fn c02(quick: bool) -> Vec<Space> {
  everywhere(quick, c02_judge)
}

// ---------------------------------------------------------------- C25

pub fn c25(quick: bool) -> Vec<Space> {
  everywhere(quick, against_model(aspect::ACCEPT | aspect::COUNT | aspect::KIND | aspect::VALUES))
}
