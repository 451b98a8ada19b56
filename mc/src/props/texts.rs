//! Properties of single instructions: C04, C06-C12, C24, C27.

use super::basic::{against_model, compare, q};
use crate::corpus::*;
use crate::engine::*;
use crate::lexicon::{lexicon, placed_words};
use crate::model::{self, Body, Ins, Kind, Parsed};
use crate::norm::{self, aspect};
use dockerfile_parser as d;

fn plain(p: Parsed) -> Result<Vec<Ins>, model::Err> {
  p.map(|v| v.iter().map(|i| i.without_spans()).collect())
}

// ---------------------------------------------------------------- C04

/// all ways to write a word in upper and lower case
fn cases(w: &str) -> Vec<String> {
  let n = w.len() as u32;
  (0..1u32 << n)
    .map(|m| {
      w.chars()
        .enumerate()
        .map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect()
    })
    .collect()
}

const KNOWN: &[Kind] =
  &[Kind::From, Kind::Arg, Kind::Label, Kind::Run, Kind::Entrypoint, Kind::Cmd, Kind::Copy, Kind::Env];

fn args_for(k: Kind) -> &'static [&'static str] {
  match k {
    Kind::From => &[" a", " a AS b", "\t--x=y a:b", " \\\n# c\n a"],
    Kind::Arg => &[" a", " a=b", "\ta=\"b c\"", " \\\n a"],
    Kind::Label => &[" a=b", " a b", "\ta=b \"c\"=d", " \\\n# c\n a=b"],
    Kind::Copy => &[" a b", "\t--x=y a b c", " \\\n a b"],
    Kind::Env => &[" a=b", " a b c", "\ta=\"b\" c=d", " \\\n a=b"],
    _ => &[" a", " [\"a\"]", "\ta \\\n b", " \\\n# c\n a b", " a=b", " a b"],
  }
}

const ANY_ARGS: &[&str] = &[" a b", " a=b", " a", "\t[\"a\"]", " a \\\n # c\n b", " \\\n a b", " \"a\" b", "  x  "];

/// kinds of everything in a file made of one instruction between two others
fn around(ins: &str) -> String {
  format!("RUN 1\n{}\nRUN 2\n", ins)
}

fn middle(text: &str, ctx: &mut Ctx) -> Result<Ins, String> {
  let p = norm::parse(text);
  ctx.trace();
  ctx.steps(3);
  ctx.state(&p);
  match p {
    Ok(v) if v.len() == 3 && v[0].kind == Kind::Run && v[2].kind == Kind::Run => Ok(v[1].clone()),
    o => Err(format!("the library gives {}", clip(&format!("{:?}", o), 800))),
  }
}

/// args as the text of an unknown instruction
fn expect_misc(word: &str, args: &str, ctx: &mut Ctx) -> Res {
  let i = middle(&around(&format!("{}{}", word, args)), ctx)?;
  let want = crate::model::parse(&format!("zz{}", args));
  let want_parts = match &want {
    Ok(v) => match &v[0].body {
      Body::Misc { args, .. } => args.parts.iter().map(|p| (p.0, p.1.text.clone())).collect::<Vec<_>>(),
      _ => unreachable!(),
    },
    _ => unreachable!(),
  };
  match &i.body {
    Body::Misc { name, args } if name.text == word => {
      let parts: Vec<_> = args.parts.iter().map(|p| (p.0, p.1.text.clone())).collect();
      if parts != want_parts {
        return Err(format!("the arguments are {:?}, expected {:?}", parts, want_parts));
      }
      Ok(())
    }
    _ => Err(format!("{:?} is reported as {:?}", word, i)),
  }
}

fn is_known(w: &str) -> bool {
  KNOWN.iter().any(|k| model::keyword_of(*k).eq_ignore_ascii_case(w))
}

pub fn c04(quick: bool) -> Vec<Space> {
  // every spelling of every keyword with well-formed arguments
  let mut known: Vec<(Kind, String, &'static str)> = vec![];
  for k in KNOWN {
    for w in cases(model::keyword_of(*k)) {
      for a in args_for(*k) {
        known.push((*k, w.clone(), a));
      }
    }
  }
  let k2 = known.clone();
  let a = Space::new(
    "every letter case of every keyword with well-formed arguments",
    known.len() as u64,
    move |i| format!("{:?}", k2[i as usize]),
    move |i, ctx| {
      let (k, w, args) = &known[i as usize];
      let i = middle(&around(&format!("{}{}", w, args)), ctx)?;
      if i.kind != *k {
        return Err(format!("{:?} is reported as {:?}", w, i));
      }
      Ok(())
    },
  );
  // all words within one letter of a keyword, in three cases; real other keywords
  let mut words: Vec<String> = vec![];
  let letters: Vec<char> = ('a'..='z').collect();
  for k in KNOWN {
    let w: Vec<char> = model::keyword_of(*k).chars().collect();
    for p in 0..=w.len() {
      for c in &letters {
        let mut x = w.clone();
        x.insert(p, *c);
        words.push(x.iter().collect());
        if p < w.len() {
          let mut x = w.clone();
          x[p] = *c;
          words.push(x.iter().collect());
        }
      }
      if p < w.len() {
        let mut x = w.clone();
        x.remove(p);
        words.push(x.iter().collect());
        words.push(w[..p].iter().collect());
        words.push(w[p..].iter().collect());
        if p + 1 < w.len() {
          let mut x = w.clone();
          x.swap(p, p + 1);
          words.push(x.iter().collect());
        }
      }
    }
    for j in KNOWN {
      words.push(format!("{}{}", model::keyword_of(*k), model::keyword_of(*j)));
    }
  }
  for w in [
    "add", "workdir", "user", "expose", "volume", "onbuild", "stopsignal", "healthcheck", "shell", "maintainer", "include",
    "misc", "args", "labels", "runs", "entrypoints", "environment", "copyfrom", "fromage", "command", "as", "scratch", "instruction", "step", "comment",
  ] {
    words.push(w.into());
  }
  words.sort();
  words.dedup();
  words.retain(|w| !w.is_empty() && !is_known(w));
  let spell = |w: &str, n: u64| match n {
    0 => w.to_string(),
    1 => w.to_ascii_uppercase(),
    _ => w.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
  };
  let per = 3 * ANY_ARGS.len() as u64;
  let w2 = words.clone();
  let pick = move |i: u64, w: &Vec<String>| {
    (spell(&w[(i / per) as usize], i % 3), ANY_ARGS[(i / 3 % ANY_ARGS.len() as u64) as usize])
  };
  let p2 = pick.clone();
  let b = Space::new(
    "words that resemble keywords, and other keywords",
    words.len() as u64 * per,
    move |i| format!("{:?}", p2(i, &w2)),
    move |i, ctx| {
      let (w, a) = pick(i, &words);
      expect_misc(&w, a, ctx)
    },
  );
  // all short words
  let top = q(quick, 3, 4);
  let n = pow_sum(26, top) - 1;
  let word = |i: u64| seq(i + 1, 26).iter().map(|k| (b'a' + *k as u8) as char).collect::<String>();
  let c = Space::new(
    format!("all words of up to {} letters", top),
    n * 2,
    move |i| word(i / 2),
    move |i, ctx| {
      let mut w = word(i / 2);
      if i % 2 == 1 {
        w.make_ascii_uppercase();
      }
      if is_known(&w) {
        return Ok(());
      }
      expect_misc(&w, ANY_ARGS[(i % ANY_ARGS.len() as u64) as usize], ctx)
    },
  );
  let mask = aspect::KIND | aspect::MISC | aspect::COUNT;
  let mut v = vec![
    a,
    b,
    c,
    misc_tokens(q(quick, 5, 6)).space(against_model(mask | aspect::ACCEPT | aspect::SHELL)),
    edits1("single edits of seed files", &all_seeds(), &all_chars()).space(by_keyword(mask)),
    general(q(quick, 4, 5)).space(by_keyword(mask)),
    unicode("scalar values in context", CONTEXTS_KEYWORD, q(quick, 0x20000, 0x110000)).space(against_model(mask | aspect::ACCEPT)),
    families("families", FAMILIES, [sizes(q(quick, 80, 300), 1024), HUGE.to_vec()].concat()).space(by_keyword(mask)).chunk(1),
  ];
  for t in vocabulary(ALL_REAL).into_iter().chain(placed_words(&all_seeds())) {
    v.push(t.space(by_keyword(mask)));
  }
  if !quick {
    v.push(edits2("double edits of seed files", &all_seeds(), &role_chars()).space(by_keyword(mask)));
  }
  v
}

/// as the model; files with other keywords must also be accepted
fn by_keyword(mask: u32) -> impl Fn(&str, &mut Ctx) -> Res + Send + Sync + Clone + 'static {
  move |t, ctx| {
    let a = norm::parse(t);
    let m = model::parse(t);
    ctx.trace();
    ctx.state(&a);
    let other = m.as_ref().map_or(false, |v| v.iter().any(|i| i.kind == Kind::Misc));
    compare(t, &a, &m, if other { mask | aspect::ACCEPT } else { mask })
  }
}

const CONTEXTS_KEYWORD: &[(&str, &str)] = &[
  ("", "RUN a"), ("R", "N a"), ("RUN", "a"), ("RU", " a"), ("", "UN a"), ("FRO", " a"), ("AR", " a"), ("LABE", " a=b"),
  ("ENTRYPOIN", " a"), ("CM", " a"), ("COP", " a b"), ("EN", " a b"), ("WOR", "DIR a"), ("ENV", "a=b"), ("F", "OM a"), ("CM", "D a"),
];

// ---------------------------------------------------------------- C06

const CONTENT: &[&str] =
  &["a", " b ", "# c", "a # b", "\\", "x\\y", "é", "a\\\\", "\"q", "'", "\t#t", "=", "\\ z", "$v", "&& d", "\u{1f600}#", "[\"e\"", "#"];
const CONTS: &[&str] = &["\\\n", "\\ \n", "\\\t \r\n", "\\\r"];
const COMMENTS: &[&str] = &["", "# c\n", "  # d\r\n", "#\n\t# e \\\n", "# f\n# g\n#h\n", " #é\r"];
const HEADS: &[(&str, Kind)] = &[
  ("RUN ", Kind::Run), ("CMD ", Kind::Cmd), ("ENTRYPOINT ", Kind::Entrypoint), ("ENV n ", Kind::Env), ("ADD", Kind::Misc),
  ("run \\\n# z\n ", Kind::Run), ("cmd\t", Kind::Cmd), ("Env n\\\n ", Kind::Env),
];
const TAILS: &[&str] = &["", "\n", "\nRUN z\n", "\r\n# c\r\n", "\n\n"];

/// How many of the heads, tails, contents, continuations and comments are used.
type Widths = [usize; 5];
const FULL: Widths = [HEADS.len(), TAILS.len(), CONTENT.len(), CONTS.len(), COMMENTS.len()];
const NARROW: Widths = [8, 3, 7, 2, 4];

/// Text made of lines, with the pieces it must be reported as.
fn shell_case(mut i: u64, blocks: u32, w: Widths) -> (String, Kind, Vec<(bool, String)>, usize) {
  fn take(i: &mut u64, n: usize) -> usize {
    let r = (*i % n as u64) as usize;
    *i /= n as u64;
    r
  }
  let head = HEADS[take(&mut i, w[0])];
  let tail = TAILS[take(&mut i, w[1])];
  let mut parts: Vec<(bool, String)> = vec![];
  let mut t = head.0.to_string();
  let mut first = CONTENT[take(&mut i, w[2])].to_string();
  if head.1 == Kind::Misc {
    first.insert(0, ' ');
  } else {
    // blanks would belong to the separator
    first = first.trim_start().to_string();
  }
  if head.0.contains('\n') && first.starts_with('#') || head.1 == Kind::Env && first.starts_with(['"', '\'']) {
    first.insert(0, 'q');
  }
  t.push_str(&first);
  parts.push((false, first));
  for _ in 0..blocks {
    t.push_str(CONTS[take(&mut i, w[3])]);
    let comments = COMMENTS[take(&mut i, w[4])];
    t.push_str(comments);
    for c in comments.split(['\n', '\r']).map(|c| c.trim_start()).filter(|c| !c.is_empty()) {
      parts.push((true, c.to_string()));
    }
    let c = CONTENT[take(&mut i, w[2])];
    // at the start of a continued line a # would be a comment
    let c = if c.trim_start().starts_with('#') { "a#" } else { c };
    t.push_str(c);
    parts.push((false, c.into()));
  }
  // a backslash at the end would continue the line
  if t.ends_with('\\') {
    t.push('.');
    parts.last_mut().unwrap().1.push('.');
  }
  t.push_str(tail);
  (t, head.1, parts, if tail.contains("RUN") { 2 } else { 1 })
}

fn shell_space(blocks: u32, w: Widths) -> Space {
  Space::new(
    format!("free-form texts of {} lines with comments between, choices {:?}", blocks + 1, w),
    (w[0] * w[1] * w[2]) as u64 * ((w[3] * w[4] * w[2]) as u64).pow(blocks),
    move |i| format!("{:?}", shell_case(i, blocks, w)),
    move |i, ctx| {
      let (t, kind, parts, count) = shell_case(i, blocks, w);
      judge_shell(&t, kind, &parts, count, ctx)
    },
  )
}

fn judge_shell(t: &str, kind: Kind, parts: &[(bool, String)], count: usize, ctx: &mut Ctx) -> Res {
  let f = d::Dockerfile::parse(t).map_err(|e| format!("rejected: {}", e))?;
  ctx.trace();
  ctx.steps(parts.len());
  if f.instructions.len() != count {
    return Err(format!("{} instructions, expected {}", f.instructions.len(), count));
  }
  let i = &f.instructions[0];
  let n = norm::ins(i);
  ctx.state(&n);
  if n.kind != kind {
    return Err(format!("reported as {:?}", n));
  }
  let b = match i {
    d::Instruction::Run(x) => x.as_shell(),
    d::Instruction::Cmd(x) => x.as_shell(),
    d::Instruction::Entrypoint(x) => x.as_shell(),
    d::Instruction::Misc(x) => Some(&x.arguments),
    d::Instruction::Env(x) if x.vars.len() == 1 && x.vars[0].key.content == "n" => Some(&x.vars[0].value),
    _ => None,
  };
  let b = b.ok_or_else(|| format!("no free-form text in {:?}", n))?;
  let got: Vec<(bool, String)> = norm::br(b).parts.into_iter().map(|p| (p.0, p.1.text)).collect();
  if got != parts {
    return Err(format!("the pieces are {:?}, expected {:?}", got, parts));
  }
  let printed: String = parts.iter().filter(|p| !p.0).map(|p| p.1.as_str()).collect();
  if b.to_string() != printed {
    return Err(format!("prints as {:?}, expected {:?}", b.to_string(), printed));
  }
  Ok(())
}

/// as the model, and free-form text prints as its pieces that are not comments
fn shell_model(mask: u32) -> impl Fn(&str, &mut Ctx) -> Res + Send + Sync + Clone + 'static {
  let judge = against_model(mask);
  move |t, ctx| {
    judge(t, ctx)?;
    let Ok(f) = d::Dockerfile::parse(t) else { return Ok(()) };
    for i in &f.instructions {
      let all: Vec<&d::BreakableString> = match i {
        d::Instruction::Run(x) => x.as_shell().into_iter().collect(),
        d::Instruction::Cmd(x) => x.as_shell().into_iter().collect(),
        d::Instruction::Entrypoint(x) => x.as_shell().into_iter().collect(),
        d::Instruction::Env(x) => x.vars.iter().map(|v| &v.value).collect(),
        d::Instruction::Misc(x) => vec![&x.arguments],
        _ => vec![],
      };
      for b in all {
        let want: String = norm::br(b).parts.iter().filter(|p| !p.0).map(|p| p.1.text.as_str()).collect();
        if b.to_string() != want {
          return Err(format!("{:?} prints as {:?}", clip(&want, 500), clip(&b.to_string(), 500)));
        }
      }
    }
    Ok(())
  }
}

pub fn c06(quick: bool) -> Vec<Space> {
  let mask = aspect::SHELL | aspect::COUNT | aspect::ACCEPT;
  let toks: &[&str] = &["a", " ", "#", "\\", "\\\n", "\n", "\r\n", "é", "\\ \n", "\t"];
  let line_families: u64 = 6;
  let big = sizes(q(quick, 150, 600), q(quick, 1024, 8192));
  let nb = big.len() as u64;
  let make = move |i: u64| {
    let n = big[(i / line_families / 5) as usize];
    let (head, kind) = HEADS[(i % 5) as usize];
    let first = if kind == Kind::Misc { " a" } else { "a" };
    let mut t = format!("{}{}", head, first);
    let mut parts = vec![(false, first.to_string())];
    for k in 0..n {
      t.push_str(" \\\n");
      parts.last_mut().unwrap().1.push(' ');
      let form = i / 5 % line_families;
      if form == 1 || (form == 2 && k % 7 == 3) || (form == 3 && k + 1 == n) {
        let c = format!("# comment {}", k);
        t.push_str(&format!(" {}\n", c));
        parts.push((true, c));
      }
      if form == 4 {
        t.push_str("#\n# x\n");
        parts.push((true, "#".into()));
        parts.push((true, "# x".into()));
      }
      let c = if form == 5 { format!("é{}#", k) } else { format!("  line{}", k) };
      t.push_str(&c);
      parts.push((false, c));
    }
    (t, kind, parts)
  };
  let m2 = make.clone();
  let mut v = vec![
    shell_space(0, FULL),
    shell_space(1, FULL),
    shell_space(2, NARROW),
    Space::new(
      "free-form texts of many lines",
      nb * line_families * 5,
      move |i| clip(&format!("{:?}", m2(i)), 500),
      move |i, ctx| {
        let (t, kind, parts) = make(i);
        judge_shell(&format!("{}\n", t), kind, &parts, 1, ctx)
      },
    )
    .chunk(4),
    tokens("free-form texts", &["RUN ", "CMD a", "ENTRYPOINT", "ENV a ", "ADD"], toks, q(quick, 5, 6), AFTER)
      .space(shell_model(mask)),
    edits1("single edits", &[COMMAND_SEEDS, MISC_SEEDS, ENV_SEEDS, &["RUN a \\\n  # b\n\t#c\n d # e \\\n f\\g \\ \n h"]].concat(), &all_chars())
      .space(shell_model(mask)),
    unicode("scalar values in context", SHELL_CONTEXTS, q(quick, 0x20000, 0x110000)).space(shell_model(mask)),
    families("families", FAMILIES, sizes(q(quick, 80, 400), q(quick, 1024, 8192))).space(shell_model(mask)).chunk(2),
    families("huge families", FAMILIES, HUGE.to_vec()).space(shell_model(mask)).chunk(1),
  ];
  let blanks: &[&str] = &["", " ", "  ", "   ", "\t", "\t\t", " \t", "\t "];
  v.push(
    product(
      "blanks around continuations",
      &[&["RUN a", "CMD a", "ENTRYPOINT a", "ENV n a", "ADD a"], blanks, &["\\\n", "\\ \n", "\\\r\n"], &["", "# c\n", " # c \n"], blanks, &["b", "\"c", "'"], blanks, &["", "\n", "\\\n  d\n"]],
    )
    .space(shell_model(mask)),
  );
  for t in vocabulary(&["shell", "misc", "ENV", "comments", "wide", "lines"]).into_iter().chain(placed_words(&[COMMAND_SEEDS, MISC_SEEDS, ENV_SEEDS, LONGER].concat())) {
    v.push(t.space(shell_model(mask)));
  }
  v.push(slot_words(&["RUN a", "RUN @", "CMD @", "ENTRYPOINT @", "@ a", "ADD", "ENV a @"], q(quick, 4, 5)).space(shell_model(mask)));
  if !quick {
    v.push(shell_space(3, [5, 2, 5, 2, 3]));
    v.push(shell_space(2, FULL));
    v.push(edits2("double edits", &[COMMAND_SEEDS, MISC_SEEDS].concat(), &role_chars()).space(shell_model(mask)));
  }
  v
}

const SHELL_CONTEXTS: &[(&str, &str)] = &[
  ("RUN ", ""), ("RUN ", "b\nCMD x"), ("RUN a", ""), ("RUN a \\\n", "b"), ("RUN a \\\n ", "b\nRUN c"), ("CMD a \\", "\nb"),
  ("ENTRYPOINT a \\\n#", "\nb"), ("ENV a b", "c"), ("ADD", " a"), ("ADD a", "\nRUN b"), ("CMD a#", ""), ("RUN a\\", "b"), ("RUN a \\ ", "\n b"),
];

// ---------------------------------------------------------------- C07

/// (written, value)
const ELEMS: &[(&str, &str)] = &[
  ("\"a\"", "a"), ("'b c'", "b c"), ("\"\"", ""), ("\"d\\\"e\"", "d\"e"), ("\"[,]\"", "[,]"), ("'\\'f'", "'f"), ("\"é\\n\"", "é\n"),
  ("\"# g\"", "# g"), ("'\"'", "\""), ("\"\\\\\"", "\\"), ("\"h\ni\"", "h\ni"), ("\"--x=$y\"", "--x=$y"), ("''", ""), ("\"\\u00e9\"", "é"),
];
const SEPS: &[&str] = &["", " ", "\t ", "\\\n", " \\\n# c\n ", " \\ \r\n\n  # d\n\n", "\\\n\\\n"];
const EXEC_HEADS: &[(&str, Kind)] =
  &[("RUN ", Kind::Run), ("CMD ", Kind::Cmd), ("ENTRYPOINT ", Kind::Entrypoint), ("entrypoint \\\n# x\n ", Kind::Entrypoint)];

fn judge_exec(t: &str, kind: Kind, want: &[&str], count: usize, ctx: &mut Ctx) -> Res {
  let f = d::Dockerfile::parse(t).map_err(|e| format!("rejected: {}", e))?;
  ctx.trace();
  ctx.steps(want.len() + 1);
  let i = f.instructions.first().ok_or("no instruction")?;
  ctx.state(&norm::ins(i));
  let (k, e) = match i {
    d::Instruction::Run(x) => (Kind::Run, x.as_exec()),
    d::Instruction::Cmd(x) => (Kind::Cmd, x.as_exec()),
    d::Instruction::Entrypoint(x) => (Kind::Entrypoint, x.as_exec()),
    _ => (Kind::Misc, None),
  };
  if k != kind || f.instructions.len() != count {
    return Err(format!("parsed as {}", clip(&format!("{:?}", f.instructions), 600)));
  }
  let e = e.ok_or_else(|| format!("not in exec form: {}", clip(&format!("{:?}", i), 600)))?;
  let got = e.as_str_vec();
  if got != want {
    return Err(format!("the elements are {}, expected {}", clip(&format!("{:?}", got), 600), clip(&format!("{:?}", want), 600)));
  }
  Ok(())
}

pub fn c07(quick: bool) -> Vec<Space> {
  let mut v = vec![];
  // n elements, one separator before and after everything, or different ones at each place
  let ne = ELEMS.len() as u64;
  let ns = SEPS.len() as u64;
  for n in 0..=q(quick, 3u32, 4) {
    // four independent separators: after [, before comma, after comma, before ]; trailing comma; head
    let heads = EXEC_HEADS.len() as u64;
    let limited = if n >= 3 { 6 } else { ne };
    let size = limited.pow(n) * ns.pow(4) * heads * 2;
    let size = if n == 0 { ns * heads } else { size };
    let make = move |mut i: u64| {
      let mut take = |n: u64| {
        let r = i % n;
        i /= n;
        r as usize
      };
      let (h, kind) = EXEC_HEADS[take(heads)];
      let s0 = SEPS[take(ns)];
      let mut t = format!("{}[{}", h, s0);
      let mut want = vec![];
      if n > 0 {
        let (s1, s2, s3) = (SEPS[take(ns)], SEPS[take(ns)], SEPS[take(ns)]);
        let trailing = take(2) == 1;
        for k in 0..n {
          if k > 0 {
            t.push_str(s1);
            t.push(',');
            t.push_str(s2);
          }
          let e = ELEMS[take(limited)];
          t.push_str(e.0);
          want.push(e.1);
        }
        if trailing {
          t.push(',');
        }
        t.push_str(s3);
      }
      t.push(']');
      (t, kind, want)
    };
    let m2 = make.clone();
    v.push(Space::new(
      format!("lists of {} elements with all separators", n),
      size,
      move |i| format!("{:?}", make(i)),
      move |i, ctx| {
        let (t, kind, want) = m2(i);
        judge_exec(&t, kind, &want, 1, ctx)?;
        judge_exec(&format!("{} \t\nRUN z", t), kind, &want, 2, ctx)
      },
    ));
  }
  // lists of many elements
  let big = sizes(q(quick, 300, 1200), q(quick, 1024, 8192));
  let forms = 4u64 * 3;
  let make = move |i: u64| {
    let n = big[(i / forms) as usize];
    let (h, kind) = EXEC_HEADS[(i % 3) as usize];
    let (sep, e) = match i / 3 % 4 {
      0 => (", ", vec![ELEMS[0]]),
      1 => (",", ELEMS.to_vec()),
      2 => (", \\\n  ", vec![ELEMS[1], ELEMS[3]]),
      _ => (" ,\\\n# c\n", vec![ELEMS[4], ELEMS[6], ELEMS[0]]),
    };
    let w: Vec<&str> = (0..n).map(|k| e[k % e.len()].0).collect();
    let want: Vec<&str> = (0..n).map(|k| e[k % e.len()].1).collect();
    (format!("{}[{}]", h, w.join(sep)), kind, want)
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      "lists of many elements",
      sizes(q(quick, 300, 1200), q(quick, 1024, 8192)).len() as u64 * forms,
      move |i| clip(&format!("{:?}", make(i)), 400),
      move |i, ctx| {
        let (t, kind, want) = m2(i);
        judge_exec(&t, kind, &want, 1, ctx)
      },
    )
    .chunk(4),
  );
  // lists and near misses: agreement with the model, and of the three instructions with one another
  let alike = |t: &str, ctx: &mut Ctx| -> Res {
    let mut first: Option<Vec<(Body, usize)>> = None;
    for h in ["RUN ", "CMD ", "ENTRYPOINT "] {
      let text = format!("{}{}", h, t);
      let p = norm::parse(&text);
      ctx.trace();
      ctx.state(&p);
      compare(&text, &p, &model::parse(&text), aspect::EXEC | aspect::ACCEPT | aspect::COUNT)?;
      let bodies: Vec<(Body, usize)> = match p {
        Ok(v) => v.iter().map(|i| (i.without_spans().body, 0)).map(|(mut b, _)| {
          // malformed arguments make it a miscellaneous instruction under its own name
          if let Body::Misc { name, .. } = &mut b {
            name.text.clear();
          }
          (b, 0)
        }).collect(),
        Err(_) => vec![],
      };
      match &first {
        None => first = Some(bodies),
        Some(f) if *f != bodies => return Err(format!("{}reports {:?}, RUN {:?}", h, bodies, f)),
        _ => (),
      }
    }
    Ok(())
  };
  let toks: &[&str] = &["\"a\"", "[", "]", ",", " ", "'b'", "\\\n", "x", "\"", "#", "\n", "\\", "'"];
  v.push(tokens("lists and near misses", &["[", ""], toks, q(quick, 5, 6), &[""]).space(alike));
  v.push(families("families", FAMILIES, [sizes(q(quick, 80, 400), q(quick, 1024, 8192)), HUGE.to_vec()].concat()).space(against_model(aspect::EXEC | aspect::ACCEPT | aspect::COUNT)).chunk(1));
  v.push(tokens("rest of a list", &["[\"a\"", "[ 'x' ,"], toks, q(quick, 4, 5), &["", "]", "\nRUN z"]).space(alike));
  v.push(
    edits1(
      "single edits of lists",
      &["[\"a\", 'b']", "[ \"a\\\"b\" , \\\n# c\n \"c\" ]", "[]", "[\"a\",]", "[ ] ", "[\"é\", \"\"]", "[\"a\"] && b", "[\"a\" \"b\"]"],
      &all_chars(),
    )
    .space(alike),
  );
  v.push(
    unicode(
      "scalar values in lists",
      &[("[\"", "\"]"), ("['", "', \"b\"]"), ("[", "\"a\"]"), ("[\"a\"", "]"), ("[\"a\",", "\"b\"]"), ("[\"a\"]", ""), ("", "[\"a\"]"), ("[\"a\\", "\"]"), ("[]", "")],
      q(quick, 0x20000, 0x110000),
    )
    .space(alike),
  );
  for t in vocabulary(&["exec", "shell", "comments", "wide", "lines"]).into_iter().chain(placed_words(&[COMMAND_SEEDS, LONGER].concat())) {
    v.push(t.space(against_model(aspect::EXEC | aspect::ACCEPT | aspect::COUNT)));
  }
  v.push(slot_words(&["RUN [", "CMD [", "ENTRYPOINT ["], q(quick, 4, 5)).space(against_model(aspect::EXEC | aspect::ACCEPT | aspect::COUNT)));
  v.push(product("lists of one, two and three", &[&["[", "[ "], REAL_ELEMENTS, &["", ",", ", \"x\"", ", \"x\", 'y'"], &["]", " ]", "] z", "] # z"]]).space(alike));
  if !quick {
    v.push(edits2("double edits of lists", &["[\"a\", 'b']", "[\"a\", \\\n# c\n \"c\" ]", "[]", "[\"a\",]"], &role_chars()).space(alike));
  }
  v
}

// ---------------------------------------------------------------- C08-C12

fn own(quick: bool, word: &'static str, mask: u32, toks: Vec<Texts>, seeds: &[&'static str], contexts: &'static [(&'static str, &'static str)], fam: &'static [Family]) -> Vec<Space> {
  let mut v: Vec<Space> = toks.into_iter().map(|t| t.space(against_model(mask))).collect();
  v.push(edits1("single edits", seeds, &all_chars()).space(against_model(mask)));
  v.push(unicode("scalar values in context", contexts, q(quick, 0x20000, 0x110000)).space(against_model(mask)));
  v.push(families("families", fam, [sizes(q(quick, 200, 600), q(quick, 2048, 8192)), HUGE.to_vec()].concat()).space(against_model(mask)).chunk(1));
  v.push(placed(edits1("single edits", seeds, &role_chars())).space(against_model(mask)));
  for t in vocabulary(&[word, "comments", "wide", "lines", "lists"]).into_iter().chain(placed_words(&[seeds, LONGER].concat())) {
    v.push(t.space(against_model(mask)));
  }
  v.push(slot_words(&[word], q(quick, 4, 5)).space(against_model(mask)));
  v.push(edits2("double edits", if quick { &seeds[..2] } else { seeds }, &role_chars()).space(against_model(mask)));
  v
}

const M: u32 = aspect::ACCEPT | aspect::COUNT | aspect::KIND;

const ENV_CONTEXTS: &[(&str, &str)] = &[
  ("ENV ", "=b"), ("ENV a", "=b"), ("ENV a=", ""), ("ENV a=b", " c=d"), ("ENV a=b ", "c=d"), ("ENV a=b", "\nRUN x"), ("ENV a=\"", "\" b=c"),
  ("ENV a='", "'"), ("ENV a=\"b\"", " c=d"), ("ENV a ", "b"), ("ENV a", " b"), ("ENV a b", "=c"), ("ENV a \"b\"", ""), ("ENV a \"", "\""), ("ENV a=\"\\", "\""),
  ("ENV a=b \\\n", "c=d"), ("ENV a\\", "\nb"), ("ENV a=b\\", "\n c=d"),
];

const ENV_FAMILIES: &[Family] = &[
  ("distinct variables", |n| format!("ENV a=b{}", (0..n).map(|k| format!(" v{}=x{}", k, k * 7)).collect::<String>())),
  ("variables on lines", |n| format!("ENV a=b{}\nRUN x", (0..n).map(|k| format!(" \\\n  v{}=\"x {}\"", k, k)).collect::<String>())),
  ("variables with comments", |n| format!("ENV a=b{}", (0..n).map(|k| format!(" \\\n# {}\n\n v{}='x{}'", k, k, k)).collect::<String>())),
  ("one name again and again", |n| format!("ENV a=0{}", (0..n).map(|k| format!(" a={}", k)).collect::<String>())),
  ("lines of one value", |n| format!("ENV a b{}", (0..n).map(|k| format!(" \\\n v{}=x{}", k, k)).collect::<String>())),
  ("long name", |n| format!("ENV {}=b c=d", "n".repeat(n + 1))),
  ("long value", |n| format!("ENV a={} c=d", "v".repeat(n + 1))),
  ("long quoted value", |n| format!("ENV a=\"{}\" c=d", "v =".repeat(n))),
  ("long single value", |n| format!("ENV a {}\nRUN x", "v =".repeat(n + 1))),
  ("escapes", |n| format!("ENV a=\"{}\" c=d", "\\\"".repeat(n))),
  ("equals signs", |n| format!("ENV a=b{} c=d", "=".repeat(n))),
  ("blanks", |n| format!("ENV a=b{}c=d", " ".repeat(n + 1))),
  ("instructions", |n| (0..n).map(|k| format!("ENV a{}=b\nENV c d {}\n", k, k)).collect()),
];

pub fn c08(quick: bool) -> Vec<Space> {
  let m = M | aspect::ENV | aspect::ERRKIND;
  let toks: &[&str] = &["a", "=", " ", "\"b c\"", "d=e", "\\\n", "'", "\"", "#", "\n", "\\", "é", "-", "f='g'", "\t", "\\ \n# h\n"];
  own(
    quick, "ENV",
    m,
    vec![
      env_tokens(q(quick, 5, 6)),
      tokens("more ENV texts", &["ENV ", "ENV a=b ", "env a "], toks, q(quick, 4, 5), AFTER),
      tokens("values of variables", &["ENV a=", "ENV a "], &["a", "$", "{", "}", "\\", "\"", "'", "`", ":", "/", " ", "\\n", "#", "[", "]", "é"], q(quick, 4, 5), &["", " c=d"]),
    ],
    ENV_SEEDS,
    ENV_CONTEXTS,
    ENV_FAMILIES,
  )
}

const LABEL_CONTEXTS: &[(&str, &str)] = &[
  ("LABEL ", "=b"), ("LABEL a", "=b"), ("LABEL a=", ""), ("LABEL a=b", " c=d"), ("LABEL a=b ", "c=d"), ("LABEL a=b", "\nRUN x"), ("LABEL \"", "\"=b"),
  ("LABEL a=\"", "\" b=c"), ("LABEL a='", "'"), ("LABEL a ", "b"), ("LABEL a", " b"), ("LABEL a b", ""), ("LABEL a=\"\\", "\""), ("LABEL a=\"b\\", "\nc\""),
  ("LABEL a=b \\\n", "c=d"), ("LABEL \"a\"", "=b"), ("LABEL a=\"b\"", " c=d"), ("LABEL a \"", "\""), ("LABEL a\\", "\n b"),
];

const LABEL_FAMILIES: &[Family] = &[
  ("distinct labels", |n| format!("LABEL a=b{}", (0..n).map(|k| format!(" v{}=x{}", k, k * 7)).collect::<String>())),
  ("labels on lines", |n| format!("LABEL a=b{}\nRUN x", (0..n).map(|k| format!(" \\\n  \"v {}\"=\"x {}\"", k, k)).collect::<String>())),
  ("labels with comments", |n| format!("LABEL a=b{}", (0..n).map(|k| format!(" \\\n# {}\n\n v{}='x{}'", k, k, k)).collect::<String>())),
  ("one name again and again", |n| format!("LABEL a=0{}", (0..n).map(|k| format!(" a={}", k)).collect::<String>())),
  ("joined lines", |n| format!("LABEL a=\"b{}\" c=d", "\\\n c".repeat(n))),
  ("joined CRLF lines", |n| format!("LABEL \"a{}\"=b c=d", "\\\r\nc".repeat(n))),
  ("unjoined lines", |n| format!("LABEL a=\"b{}\" c=d", "\nc".repeat(n))),
  ("long name", |n| format!("LABEL {}=b c=d", "n".repeat(n + 1))),
  ("long value", |n| format!("LABEL a={} c=d", "v".repeat(n + 1))),
  ("long quoted name", |n| format!("LABEL \"{}\" d", "v =".repeat(n))),
  ("long quoted value", |n| format!("LABEL a=\"{}\" c=d", "v =".repeat(n))),
  ("escapes", |n| format!("LABEL a=\"{}\" c=d", "\\\"".repeat(n))),
  ("equals signs", |n| format!("LABEL a=b{} c=d", "=".repeat(n))),
  ("blanks", |n| format!("LABEL a=b{}c=d", " ".repeat(n + 1))),
  ("instructions", |n| (0..n).map(|k| format!("LABEL a{}=b\nLABEL c d{}\n", k, k)).collect()),
];

pub fn c09(quick: bool) -> Vec<Space> {
  let m = M | aspect::LABEL | aspect::ERRKIND;
  let toks: &[&str] = &["a", "=", " ", "\"b c\"", "d=e", "\\\n", "'", "\"", "#", "\n", "\\", "é", ".", "f='g'", "\t", "\\ \n# h\n"];
  own(
    quick, "LABEL",
    m,
    vec![
      label_tokens(q(quick, 5, 6)),
      tokens("more LABEL texts", &["LABEL ", "LABEL a=b ", "label a "], toks, q(quick, 4, 5), AFTER),
      tokens(
        "quoted names and values",
        &["LABEL a=\"", "LABEL \"", "LABEL a '", "LABEL a=b c='"],
        &["a", "\\", "\n", "\r\n", "\"", "'", "\\\n", "\\\r\n", "\\\r", "é", " ", "\\n", "#", "="],
        q(quick, 4, 5),
        &["\"", "'", "\"=b", "\" c=d"],
      ),
    ],
    LABEL_SEEDS,
    LABEL_CONTEXTS,
    LABEL_FAMILIES,
  )
}

const COPY_CONTEXTS: &[(&str, &str)] = &[
  ("COPY ", " b"), ("COPY a", "b"), ("COPY a ", ""), ("COPY a", " b\nRUN x"), ("COPY --f=", " a b"), ("COPY --", "=x a b"), ("COPY -", "-f=x a b"),
  ("COPY --f=x", " a b"), ("COPY a --f=x", " b"), ("COPY a \\", "\n b"), ("COPY a b", "\nRUN x"), ("COPY \"a", "b\" c"), ("COPY --f=x", "y a b"), ("COPY --f", "x a b"),
];

const COPY_FAMILIES: &[Family] = &[
  ("distinct sources", |n| format!("COPY{} d", (0..=n).map(|k| format!(" s{}", k)).collect::<String>())),
  ("sources on lines", |n| format!("COPY{} d\nRUN x", (0..=n).map(|k| format!(" s{} \\\n # {}\n", k, k)).collect::<String>())),
  ("distinct flags", |n| format!("COPY{} s d", (0..n).map(|k| format!(" --f{}=v{}", (b'a' + (k % 26) as u8) as char, k)).collect::<String>())),
  ("flags and sources", |n| format!("COPY{}{} d", " --f=v".repeat(n), " s".repeat(n + 1))),
  ("flags after a path", |n| format!("COPY s{} d", " --f=v".repeat(n))),
  ("long source", |n| format!("COPY {} d", "s".repeat(n + 1))),
  ("long destination", |n| format!("COPY s {}", "/d".repeat(n + 1))),
  ("long flag", |n| format!("COPY --{}={} s d", "f".repeat(n + 1), "v".repeat(n + 1))),
  ("instructions", |n| (0..n).map(|k| format!("COPY --from={} s{} d\n", k, k)).collect()),
];

pub fn c10(quick: bool) -> Vec<Space> {
  let m = M | aspect::COPY | aspect::ERRKIND;
  let toks: &[&str] = &["--from=x", " ", "a", "--", "-", "=", "\\\n", "--f=\"q\"", "#", "\"b c\"", "'d'", "\n", "é", "\t", "--f-g=h", "["];
  own(
    quick, "COPY",
    m,
    vec![
      copy_tokens(q(quick, 5, 6)),
      tokens("more COPY texts", &["COPY ", "COPY a ", "copy --f=v "], toks, q(quick, 4, 5), AFTER),
      tokens("words of COPY", &["COPY"], &[" --a=b", " --c=d", " e", " --f=", " --g", " -h=i", " \"j\"", " \\\n# x\n k", " --=l", " --m1=n"], q(quick, 5, 6), &["", " z"]),
    ],
    COPY_SEEDS,
    COPY_CONTEXTS,
    COPY_FAMILIES,
  )
}

const FROM_CONTEXTS: &[(&str, &str)] = &[
  ("FROM ", ""), ("FROM a", ""), ("FROM a", " AS b"), ("FROM a ", "AS b"), ("FROM a A", "S b"), ("FROM a AS", "b"), ("FROM a AS ", "b"), ("FROM a AS b", ""),
  ("FROM a AS b", "\nRUN x"), ("FROM a AS b ", ""), ("FROM --f=", " a"), ("FROM --", "=x a"), ("FROM --f=x", " a"), ("FROM a\\", "\n AS b"), ("FROM a:", "b"),
  ("FROM a@", "b"), ("FROM --f=x", "y a"),
];

const FROM_FAMILIES: &[Family] = &[
  ("distinct flags", |n| format!("FROM{} a AS b", (0..n).map(|k| format!(" --f{}=v{}", (b'a' + (k % 26) as u8) as char, k)).collect::<String>())),
  ("flags on lines", |n| format!("FROM{} a", " --f=v \\\n# c\n".repeat(n))),
  ("image", |n| format!("FROM {} AS b\nRUN x", "a".repeat(n + 1))),
  ("image path", |n| format!("FROM a.b{}:c", "/d".repeat(n))),
  ("tag", |n| format!("FROM a:{}", "t".repeat(n))),
  ("alias", |n| format!("FROM a AS {}\nRUN x", "b".repeat(n + 1))),
  ("digest", |n| format!("FROM a@sha256:{}", "0".repeat(n))),
  ("digest with alias", |n| format!("FROM a.b/c@sha256:{} AS d", "aF".repeat(n))),
  ("multi-digit stages", |n| (0..n).map(|k| format!("FROM a{} AS b{}\n", k, k)).collect()),
];

/// digests: every single-character edit of a good one, and prefixes of wrong length
fn digests() -> Vec<Texts> {
  let good = format!("a@sha256:{}", HEX64);
  let b: &'static str = Box::leak(format!("FROM {}", good).into_boxed_str());
  let c: &'static str = Box::leak(format!("FROM r.io/{} AS b", good).into_boxed_str());
  let pre: &'static [&'static str] =
    &["sha256:", "SHA256:", "sha257:", "sha256", "", "sha256::", ":", "sha512:", "sha256:sha256:", "xsha256:", "sha256@", "sha256/", "sha256: "];
  let n = pre.len() as u64;
  vec![
    edits1("single edits of digests", &[b, c], &all_chars()),
    Texts::new("digest prefixes and lengths", n * 140 * 3, move |i| {
      let (p, i) = (pre[(i % n) as usize], i / n);
      let (len, form) = ((i % 140) as usize, i / 140);
      let hex: String = HEX64.chars().cycle().take(len).collect();
      (
        match form {
          0 => format!("FROM a@{}{}", p, hex),
          1 => format!("FROM a:b@{}{} AS c\nRUN x", p, hex),
          _ => format!("FROM l:5/a@{}{}@{}", p, hex, hex),
        },
        3,
      )
    }),
  ]
}

pub fn c11(quick: bool) -> Vec<Space> {
  let m = M | aspect::FROM | aspect::ERRKIND;
  let toks: &[&str] = &["a", " ", "AS", "as ", "aS", "b-1", "--f=v", "\\\n", "#", "\n", "--", "=", "x:y", "/", "\t", "é", "_", "\""];
  let mut t = vec![
    from_tokens(q(quick, 4, 5)),
    tokens("more FROM texts", &["FROM ", "FROM a ", "from --p=q "], toks, q(quick, 4, 5), AFTER),
    tokens("words of FROM", &["FROM"], &[" --a=b", " c", " AS", " d", " as e", " --f=", " --g=h", " \\\n# x\n i", " -j=k", " $l", " ${m}:n"], q(quick, 5, 6), &[""]),
  ];
  t.extend(digests());
  own(quick, "FROM", m, t, IMAGE_SEEDS, FROM_CONTEXTS, FROM_FAMILIES)
}

const ARG_CONTEXTS: &[(&str, &str)] = &[
  ("ARG ", ""), ("ARG a", ""), ("ARG a", "=b"), ("ARG ", "a=b"), ("ARG a=", ""), ("ARG a=b", ""), ("ARG a=b", "\nRUN x"), ("ARG a=\"", "\""), ("ARG a='", "'"),
  ("ARG a=\"b\"", ""), ("ARG a=\"\\", "\""), ("ARG a ", ""), ("ARG a\\", "\n"), ("ARG\\", "\na"),
];

const ARG_FAMILIES: &[Family] = &[
  ("name", |n| format!("ARG {}\nRUN x", "a".repeat(n + 1))),
  ("value", |n| format!("ARG a={}\nRUN x", "b".repeat(n + 1))),
  ("quoted value", |n| format!("ARG a=\"{}\"\nRUN x", "b c=".repeat(n))),
  ("escapes", |n| format!("ARG a='{}'\nRUN x", "\\'".repeat(n))),
  ("arguments before", |n| format!("{}FROM a", (0..n).map(|k| format!("ARG a{}={}\nRUN x\n", k, k)).collect::<String>())),
  ("arguments after", |n| format!("ARG x\nFROM a\n{}", "ARG x=1\n".repeat(n))),
];

/// the global arguments against those the text says precede the first FROM
fn globals_judge(t: &str, ctx: &mut Ctx) -> Res {
  let f = match d::Dockerfile::parse(t) {
    Ok(f) => f,
    Err(_) => return Ok(()),
  };
  ctx.trace();
  let m = model::parse(t).map_err(|_| "accepted".to_string())?;
  let want: Vec<Ins> =
    m.iter().take_while(|i| i.kind != Kind::From).filter(|i| i.kind == Kind::Arg).cloned().collect();
  let got: Vec<Ins> = f.global_args.iter().map(|a| norm::ins(&d::Instruction::Arg(a.clone()))).collect();
  ctx.state(&got);
  if got != want {
    return Err(format!("the global arguments are {:?}, expected {:?}", got, want));
  }
  let mut names: Vec<String> = ["a", "b", "A", "x", "", "aa", "a=", "nope", "a_1"].iter().map(|s| s.to_string()).collect();
  for i in m.iter().take(50) {
    if let Body::Arg { name, .. } = &i.body {
      names.push(name.text.clone());
      names.push(name.text.to_ascii_uppercase());
    }
  }
  for n in names {
    let want = want.iter().find(|i| matches!(&i.body, Body::Arg { name, .. } if name.text == n));
    let got = f.get_global_arg(&n);
    let same = match (got, want) {
      (None, None) => true,
      (Some(g), Some(w)) => norm::ins(&d::Instruction::Arg(g.clone())) == *w,
      _ => false,
    };
    if !same {
      return Err(format!("get_global_arg({:?}) gives {:?}, expected {:?}", n, got, want));
    }
  }
  Ok(())
}

pub fn c12(quick: bool) -> Vec<Space> {
  let m = M | aspect::ARG | aspect::ERRKIND;
  let toks: &[&str] = &["a", "=", " ", "\"b c\"", "'d'", "\\\n", "'", "\"", "#", "\n", "\\", "é", "_", "0", "$x", "`", "\t"];
  let mut v = own(
    quick, "ARG",
    m,
    vec![
      arg_tokens(q(quick, 5, 6)),
      tokens("more ARG texts", &["ARG ", "ARG a=", "arg\t"], toks, q(quick, 4, 5), AFTER),
    ],
    ARG_SEEDS,
    ARG_CONTEXTS,
    ARG_FAMILIES,
  );
  let lines: &'static [&'static str] = &[
    "ARG a", "ARG a=1", "ARG b=\"2\"", "ARG A=3", "FROM x", "FROM y AS z", "RUN r", "# c", "arg a=4", "LABEL l=m", "", "ENV a=5", "CMD c", "ONBUILD ARG a",
    "COPY s d", "ENTRYPOINT e",
  ];
  let base = lines.len() as u64;
  let depth = q(quick, 5, 6);
  let seqs = Texts::new(
    &format!("files of up to {} lines out of {}", depth, base),
    pow_sum(base, depth),
    move |i| {
      let s = seq(i, base);
      (s.iter().map(|k| format!("{}\n", lines[*k])).collect(), s.len())
    },
  );
  v.push(seqs.space(globals_judge));
  for t in vocabulary(&["ARG", "lines", "wide"]).into_iter().chain(placed_words(&["ARG a=b\nRUN x\nARG c\nFROM d\nARG e=f\n", "arg a\nARG A=1\nfrom x\nfrom y"])) {
    v.push(t.space(globals_judge));
  }
  v.push(families("families", ARG_FAMILIES, [sizes(q(quick, 300, 1000), 4096), HUGE.to_vec()].concat()).space(globals_judge).chunk(1));
  v.push(look_alike_texts("names", sizes_to(70, q(quick, 1024, 8192), 5000), &[
    |a, b, c| format!("ARG {}\nARG {}=1\nFROM {}\nARG {}=2\n", a, b, c, c),
    |a, b, c| format!("arg {}=1\nARG {}\nRUN x\nARG {}=\"\"\nFROM a", a, b, c),
  ]).space(globals_judge));
  v.push(edits1("single edits", &["ARG a=b\nRUN x\nARG c\nFROM d\nARG e=f\n", "arg a\nARG A=1\nfrom x\nfrom y"], &all_chars()).space(globals_judge));
  v
}

// ---------------------------------------------------------------- C24

/// where a quoted string may stand: (before, after, may lines be joined)
const PLACES: &[(&str, &str, bool)] = &[
  ("ARG a=", "", false),
  ("ENV a=", " b=c", false),
  ("ENV a ", "", false),
  ("LABEL a=", " b=c", true),
  ("LABEL ", "=b", true),
  ("LABEL a ", "", true),
  ("LABEL ", " b", true),
  ("RUN [", "]", false),
  ("CMD [\"x\", ", "]", false),
  ("ENTRYPOINT [", ", \"y\"]", false),
];

/// the value the library gives for the string at a place
fn at_place(place: usize, quoted: &str, ctx: &mut Ctx) -> Result<String, model::Err> {
  let p = PLACES[place];
  let t = format!("{}{}{}", p.0, quoted, p.1);
  ctx.trace();
  let f = d::Dockerfile::parse(&t).map_err(|e| norm::err(&e))?;
  if f.instructions.len() != 1 {
    return Ok(format!("?{} instructions", f.instructions.len()));
  }
  Ok(match norm::ins(&f.instructions[0]).body {
    Body::Arg { value: Some(v), .. } => v.text,
    Body::Env(v) if v.len() == 1 && place == 2 => v[0].2.display(),
    Body::Env(v) if v.len() == 2 && place == 1 => v[0].2.display(),
    Body::Label(l) if place == 3 && l.len() == 2 => l[0].2.text.clone(),
    Body::Label(l) if (place == 4 || place == 6) && l.len() == 1 => l[0].1.text.clone(),
    Body::Label(l) if place == 5 && l.len() == 1 => l[0].2.text.clone(),
    Body::Exec { items, .. } if place == 7 && items.len() == 1 => items[0].text.clone(),
    Body::Exec { items, .. } if place == 8 && items.len() == 2 => items[1].text.clone(),
    Body::Exec { items, .. } if place == 9 && items.len() == 2 => items[0].text.clone(),
    b => format!("?{:?}", b),
  })
}

/// inner must be a complete string body for the quote (no bare quote in it)
fn judge_quoted(inner: &str, quote: char, ctx: &mut Ctx) -> Res {
  let quoted = format!("{}{}{}", quote, inner, quote);
  for (n, p) in PLACES.iter().enumerate() {
    let want = if p.2 {
      model::decode_inner(&model::join_lines(inner), quote)
    } else {
      model::decode_inner(inner, quote)
    };
    let got = at_place(n, &quoted, ctx);
    ctx.steps(1);
    ctx.state(&(n, &got));
    if got != want {
      return Err(format!("{}{}{} decodes to {:?}, expected {:?}", p.0, quoted, p.1, got, want));
    }
  }
  Ok(())
}

/// is it the body of one string, as the syntax delimits strings?
fn one_string(inner: &str, quote: char) -> bool {
  let c: Vec<char> = inner.chars().collect();
  let mut i = 0;
  while i < c.len() {
    if c[i] == quote || c[i] == '\0' || c[i] == '\u{1f}' {
      return false;
    }
    if c[i] == '\\' {
      if i + 1 == c.len() {
        return false;
      }
      if matches!(c[i + 1], '"' | '\'' | '\\') {
        i += 1;
      }
    }
    i += 1;
  }
  true
}

pub fn c24(quick: bool) -> Vec<Space> {
  let judge = |inner: &str, ctx: &mut Ctx| -> Res {
    for quote in ['"', '\''] {
      if one_string(inner, quote) {
        judge_quoted(inner, quote, ctx)?;
      }
    }
    Ok(())
  };
  let toks: &[&str] =
    &["a", "\\", "n", "\"", "'", "u", "x", "0", "4", "1", "\n", "`", "é", " ", "#", "t", "U", "e", "]", ",", "r", "$", "="];
  let hex = |n: u64, w: usize| format!("{:0w$x}", n, w = w);
  let mut list_ = vec![];
  // \xHH, octal and the simple escapes completely; \u completely; \U at the edges
  for b in 0..256u64 {
    list_.push(format!("\\x{}", hex(b, 2)));
    list_.push(format!("a\\x{}b", hex(b, 2).to_uppercase()));
  }
  for o in 0..1000u64 {
    list_.push(format!("\\{:03}", o));
    list_.push(format!("a\\{:03}9", o));
    list_.push(format!("\\{:02}", o % 100));
  }
  for u in [
    0u64, 1, 9, 10, 13, 0x1f, 0x20, 0x22, 0x27, 0x5c, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000,
    0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xfffff, 0x100000, 0x10fffd, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff,
  ] {
    list_.push(format!("\\U{}", hex(u, 8)));
    list_.push(format!("x\\U{}y", hex(u, 8).to_uppercase()));
  }
  for s in [
    "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\u 123", "\\u+123", "\\u-123", "\\U0001f60", "\\U", "\\x", "\\x1", "\\x1g", "\\xg1", "\\x+1", "\\1", "\\12",
    "\\400", "\\777", "\\8", "\\128", "\\+12", "\\u{41}", "\\x{41}", "\\0", "\\ud83d\\ude00", "\\q", "\\ ", "\\$", "\\\u{e9}", "\\e", "\\E", "\\N", "\\X41", "\\/",
    "\\u00e9\\n\\\\", "\\\\n", "\\\\\\n", "\\\\\\\\", "\\\\\\\"", "\\\\u0041", "\\x5cn", "\\u005cn", "\\134n", "\\x22", "\\u0022", "\\042",
  ] {
    list_.push(s.to_string());
  }
  let n_u = 65536u64;
  let top = q(quick, 4, 5);
  let mut v = vec![
    list("escapes", list_).space(judge),
    Texts::new("every \\u escape", n_u * 2, move |i| {
      (if i % 2 == 0 { format!("\\u{:04x}", i / 2) } else { format!("é\\u{:04X}z", i / 2) }, 1)
    })
    .space(judge),
    Texts::new("every two characters after a backslash (ASCII)", 128 * 128, |i| {
      (format!("\\{}{}", (i / 128) as u8 as char, (i % 128) as u8 as char), 2)
    })
    .space(judge),
    tokens("bodies of strings", &[""], toks, top, &[""]).space(judge),
    tokens("escapes in a row", &[""], &["\\n", "\\\\", "\\\"", "\\'", "\\t", "\\x41", "\\u00e9", "\\101", "a", "é", "\\`", "\\a\\b\\f\\r\\v", "\\U0001f600"], q(quick, 4, 5), &[""])
      .space(judge),
    tokens("broken lines in strings", &["a", ""], &["\\\n", "\\\r\n", "\\\r", "\n", "\r\n", "b", " ", "\\\\", "\\n", "#", "\\ \n"], q(quick, 4, 5), &["", "c"])
      .space(judge),
    unicode("every scalar value", &[("", ""), ("a\\", ""), ("\\", "b"), ("a", "\\n")], q(quick, 0x20000, 0x110000)).space(judge),
    families(
      "families",
      &[
        ("plain", |n| "a".repeat(n)),
        ("escapes", |n| "\\n".repeat(n)),
        ("backslashes", |n| "\\\\".repeat(n)),
        ("unicode escapes", |n| "\\u00e9".repeat(n)),
        ("multi-byte", |n| "é漢".repeat(n)),
        ("quotes", |n| "\\\"\\'".repeat(n)),
        ("late bad escape", |n| format!("{}\\q", "a\\t".repeat(n))),
        ("hex", |n| (0..n).map(|k| format!("\\x{:02x}", k % 256)).collect()),
      ],
      sizes(q(quick, 150, 600), q(quick, 2048, 16384)),
    )
    .space(judge)
    .chunk(2),
  ];
  // bodies from real files
  let bodies: Vec<String> = lexicon().new.iter().map(|s| s.as_str()).collect::<Vec<_>>().iter().chain(REAL_SHELL).chain(REAL_PATHS).chain(REAL_VALUES).chain(REAL_ELEMENTS).chain(REAL_COMMENTS).chain(REAL_NAMES).chain(REAL_IMAGES).chain(REAL_MISC).map(|s| s.to_string()).collect();
  let bodies: &'static [String] = Box::leak(bodies.into_boxed_slice());
  let nb = bodies.len() as u64;
  v.push(Texts::new("bodies of real words", nb * nb * 3, move |i| {
    let sep = ["", " ", "\n"][(i % 3) as usize];
    (format!("{}{}{}", bodies[(i / 3 % nb) as usize], sep, bodies[(i / 3 / nb) as usize]), 2)
  }).space(judge));
  // strings with unescaped ends, as files
  let m = aspect::ALL & !aspect::SPAN;
  let toks: &[&str] = &["\"", "'", "a", "\\", " ", "\n", "=", "\\\n", "`", "]"];
  v.push(
    tokens("texts with quotes", &["ARG a=", "ENV a=", "LABEL a=", "LABEL ", "RUN [", "ENV a ", "CMD [\"x\","], toks, q(quick, 5, 6), &[""])
      .space(against_model(m)),
  );
  v
}

// ---------------------------------------------------------------- C27

/// instructions as words; "~" is a place for a separator, "^" for an optional one
const TEMPLATES: &[&str] = &[
  "FROM~a", "FROM~a:b~AS~c", "from~--p=q~--r=s~a/b~as~c", "ARG~a", "ARG~a=b", "ARG~a=\"b c\"", "COPY~a~b", "COPY~--f=g~a~b~c", "COPY~--f=g~--h=i~a~b",
  "ENV~a=b", "ENV~a=b~c=d", "ENV~a=\"b c\"~d='e'~f=g", "ENV~a~b", "ENV~a~\"b c\"", "LABEL~a=b", "LABEL~a=b~c=d", "LABEL~\"a b\"=c~d='e'", "LABEL~a~b", "LABEL~\"a\"~'b c'",
  "RUN~[^\"a\"^]", "CMD~[^\"a\"^,^'b'^]", "ENTRYPOINT~[^\"a\"^,^\"b\"^,^\"c\"^]", "RUN~[^]", "RUN~a", "CMD~a b", "ENTRYPOINT~a",
  "copy~a=b~--c=d~e", "CMD~[^\"a\",^]", "LABEL~a=b~c=d~e=f~g=h",
];

const GAPS: &[&str] = &[
  " ", "\t", "  \t", "\\\n", " \\\n", "\\\n ", " \\\n\t", "\\ \t\n ", " \\\r\n  ", " \\\r ", " \\\n\\\n ", " \\\n# c\n ", " \\\n\n", " \\\n  # c \\\n\n\t# d\n ", " \\\n#\n#\n \\\n\n",
  "\\\n \t\n\n # \"x\"\r\n\r\n", " \\\n# a=b\n", "\\\n\t\\\n", " \\\n# é\n ", "\\\n# c\n# d\n\n",
];

fn fill(template: &str, pick: &mut dyn FnMut(bool) -> &'static str) -> String {
  let mut t = String::new();
  for c in template.chars() {
    match c {
      '~' => t.push_str(pick(false)),
      '^' => t.push_str(pick(true)),
      c => t.push(c),
    }
  }
  t
}

fn baseline(template: &str) -> String {
  fill(template, &mut |_| " ")
}

fn same_as_baseline(template: &str, t: &str, ctx: &mut Ctx) -> Res {
  let a = plain(norm::parse(t));
  let b = plain(norm::parse(&baseline(template)));
  ctx.trace();
  ctx.state(&(t.len(), &a));
  let ok = match &b {
    Ok(v) => v.len() == 1 && v[0].kind != Kind::Misc,
    Err(_) => false,
  };
  if !ok {
    return Err(format!("with single spaces the library gives {:?}", b));
  }
  if a != b {
    return Err(format!("the library gives {:?}, with single spaces {:?}", a, b));
  }
  // with something after it
  let after = plain(norm::parse(&format!("{}\nRUN z", t)));
  match after {
    Ok(v) if v.len() == 2 && Some(&v[0]) == b.as_ref().ok().and_then(|v| v.first()) => Ok(()),
    o => Err(format!("followed by RUN z the library gives {:?}", o)),
  }
}

/// Every template with all separators at any two places.
pub fn gap_texts() -> Texts {
  let g = GAPS.len() as u64 + 1;
  let sizes: Vec<u64> = TEMPLATES.iter().map(|t| (t.matches(['~', '^']).count() as u64).pow(2) * g * g).collect();
  let blocks = Blocks::new(sizes.into_iter());
  Texts::new("instructions with all separators at any two places", blocks.total() * 2, move |i| {
    let (b, i) = (blocks.find(i / 2), i % 2);
    let (t, i2) = (TEMPLATES[b.0], b.1);
    let nn = t.matches(['~', '^']).count() as u64;
    let (p1, i2) = (i2 % nn, i2 / nn);
    let (p2, i2) = (i2 % nn, i2 / nn);
    let (g1, g2) = (i2 % g, i2 / g);
    let mut at = 0;
    let t = fill(t, &mut |opt| {
      let k = if at == p1 { g1 } else if at == p2 { g2 } else { g - 1 };
      at += 1;
      if k as usize == GAPS.len() {
        if opt { "" } else { " " }
      } else {
        GAPS[k as usize]
      }
    });
    (if i == 0 { t } else { format!("{}\nRUN z", t) }, nn as usize)
  })
}

pub fn c27(quick: bool) -> Vec<Space> {
  let mut v = vec![];
  let count = |t: &str| t.matches(['~', '^']).count() as u32;
  // every combination of separators for up to three places, the same one everywhere, and all pairs of places
  for t in TEMPLATES {
    let n = count(t);
    // separators everywhere from a list of g; optional places may also have none
    let g = GAPS.len() as u64 + 1;
    let full = if n <= q(quick, 3, 4) { g.pow(n) } else { 0 };
    let make = move |mut i: u64| {
      fill(t, &mut |opt| {
        let k = (i % g) as usize;
        i /= g;
        if k == GAPS.len() {
          if opt { "" } else { " " }
        } else {
          GAPS[k]
        }
      })
    };
    if full > 0 {
      v.push(Space::new(
        format!("{} with every combination of separators", t),
        full,
        move |i| format!("{:?}", make(i)),
        move |i, ctx| {
          ctx.steps(n as usize);
          same_as_baseline(t, &make(i), ctx)
        },
      ));
    } else {
      // two places vary, the others hold a third separator
      let nn = n as u64;
      let make = move |i: u64| {
        let (p1, i) = (i % nn, i / nn);
        let (p2, i) = (i % nn, i / nn);
        let (g1, i) = (i % g, i / g);
        let (g2, rest) = (i % g, i / g);
        let mut at = 0;
        fill(t, &mut |opt| {
          let k = if at == p1 { g1 } else if at == p2 { g2 } else { [g - 1, 0, 11][rest as usize] };
          at += 1;
          if k as usize == GAPS.len() {
            if opt { "" } else { " " }
          } else {
            GAPS[k as usize]
          }
        })
      };
      v.push(Space::new(
        format!("{} with all separators at any two places", t),
        nn * nn * g * g * 3,
        move |i| format!("{:?}", make(i)),
        move |i, ctx| {
          ctx.steps(n as usize);
          same_as_baseline(t, &make(i), ctx)
        },
      ));
    }
  }
  // separators built from tokens at each place of each template
  let toks: &'static [&'static str] = &[" ", "\t", "\\\n", "\\ \r\n", "\\\n# c\n", "\\\n\n", "\\\n # d\r\n\t\n", "\\\r"];
  let base = toks.len() as u64;
  let d = q(quick, 3, 4);
  let seqs = pow_sum(base, d) - 1;
  let places: Vec<(&'static str, u64)> =
    TEMPLATES.iter().flat_map(|t| (0..count(t) as u64).map(move |p| (*t, p))).collect();
  let n = places.len() as u64;
  let places: &'static [(&'static str, u64)] = Box::leak(places.into_boxed_slice());
  let make = move |i: u64| {
    let (t, p) = places[(i % n) as usize];
    let sep: String = seq(i / n + 1, base).iter().map(|k| toks[*k]).collect();
    let mut at = 0;
    let mut o = String::new();
    for c in t.chars() {
      match c {
        '~' | '^' => {
          o.push_str(if at == p { &sep } else { " " });
          at += 1;
        }
        c => o.push(c),
      }
    }
    (t, o)
  };
  let m2 = make.clone();
  v.push(Space::new(
    format!("separators of up to {} tokens at each place", d),
    n * seqs,
    move |i| format!("{:?}", m2(i)),
    move |i, ctx| {
      let (t, o) = make(i);
      ctx.steps(d as usize);
      same_as_baseline(t, &o, ctx)
    },
  ));
  // real comments in the separators
  let nc = REAL_COMMENTS.len() as u64;
  let make = move |i: u64| {
    let (t, p) = places[(i % n) as usize];
    let c = REAL_COMMENTS[(i / n % nc) as usize];
    let (sep, same) = match i / n / nc {
      0 => (format!(" \\\n{}\n", c), false),
      1 => (format!("\\\n  {}\r\n\n{}\n ", c, c), false),
      _ => (format!(" \\\n\t{}\n", c), true),
    };
    let mut at = 0;
    let mut o = String::new();
    for c in t.chars() {
      match c {
        '~' | '^' => {
          o.push_str(if at == p || same { &sep } else { " " });
          at += 1;
        }
        c => o.push(c),
      }
    }
    (t, o)
  };
  let m2 = make.clone();
  v.push(Space::new(
    "real comments in separators",
    n * nc * 3,
    move |i| format!("{:?}", m2(i)),
    move |i, ctx| {
      let (t, o) = make(i);
      ctx.steps(2);
      same_as_baseline(t, &o, ctx)
    },
  ));
  // long separators
  let sz = sizes(q(quick, 100, 500), q(quick, 1024, 8192));
  let forms: &'static [fn(usize) -> String] = &[
    |n| " ".repeat(n + 1),
    |n| "\t \t".repeat(n + 1),
    |n| "\\\n".repeat(n + 1),
    |n| format!(" \\\n{}", "# c\n".repeat(n)),
    |n| format!(" \\\n{}", "\n".repeat(n)),
    |n| format!(" \\\n{} ", "# c\n\n".repeat(n)),
    |n| format!(" \\{}\n ", " ".repeat(n)),
    |n| format!(" \\\n# {}\n ", "c".repeat(n)),
    |n| " \\\r\n # x\r\n".repeat(n + 1),
  ];
  let (ns, nf) = (sz.len() as u64, forms.len() as u64);
  let nt = TEMPLATES.len() as u64;
  let make = move |i: u64| {
    let t = TEMPLATES[(i % nt) as usize];
    let sep = forms[(i / nt % nf) as usize](sz[(i / nt / nf) as usize]);
    (t, t.replace(['~', '^'], &sep))
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      "long separators",
      nt * nf * ns,
      move |i| clip(&format!("{:?}", m2(i)), 300),
      move |i, ctx| {
        let (t, o) = make(i);
        ctx.steps(1);
        same_as_baseline(t, &o, ctx)
      },
    )
    .chunk(4),
  );
  v
}
