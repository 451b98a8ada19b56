//! Files made of pieces: concatenation (C03), layout (C05), edits (C19) and
//! the place of syntax errors (C26).

use super::basic::{compare, q};
use crate::corpus::*;
use crate::engine::*;
use crate::lexicon::placed_words;
use crate::model::{self, Body, Ins, Kind, Parsed, Sp, S};
use crate::norm::{self, aspect};
use dockerfile_parser as d;
use std::collections::HashMap;
use std::sync::OnceLock;

fn hash_texts(v: &[Ins]) -> Vec<Ins> {
  v.iter().map(|i| i.without_spans()).collect()
}

/// Parses a piece alone, once.
fn alone(piece: &'static str) -> &'static Parsed {
  thread_local! {
    static CACHE: std::cell::RefCell<HashMap<&'static str, &'static Parsed>> = Default::default();
  }
  CACHE.with(|c| {
    if let Some(p) = c.borrow().get(piece) {
      return *p;
    }
    let p: &'static Parsed = Box::leak(Box::new(norm::parse(piece)));
    c.borrow_mut().insert(piece, p);
    p
  })
}

// ---------------------------------------------------------------- C03

/// Complete pieces that do not reach beyond their own text.
const GOOD: &[&str] = &[
  "FROM a", "FROM --platform=x r.io:1/b:2 AS c", "from $x \\\n as d", "ARG a", "ARG b=c", "ARG b=\"d e\\n\"", "LABEL a=b", "LABEL a b",
  "LABEL \"a\nb\"=c d='e'", "RUN a", "RUN a \\\n  # c\n b", "RUN [\"a\", \\\n 'b']", "CMD é # x", "CMD []", "ENTRYPOINT [\"a\"] && b", "ENTRYPOINT a\\b",
  "COPY a b", "COPY --from=c a \\\n\n# d\n b e", "ENV a b \\\n c", "ENV a=b c=\"d\ne\"", "ENV a \"b c\"", "ENV a=1 \\\n b=2", "ADD a b", "X \\\n# y\nz",
  "# comment", "", " \t", "#", "  RUN indented", "RUN trailing  ", "WORKDIR /a\\", "FROM scratch", "# a \\\n\n# FROM b", "MAINTAINER #", "ENV v 'w'", "run\ta",
  "RUN b \\\n# c\nFROM c", "CMD a \\\nFROM b", "LABEL a=\"x\\\nFROM b\"", "COPY \\\nFROM b", "ADD a\\\n\nFROM b AS c", "ENV a=\"\n# c\nFROM b\n\"", "RUN \"q", "USER 'x", "HEALTHCHECK CMD [", "onbuild RUN [\"a\"]", "\tENV\tz=y\t", "ARG a=b # c",
];
/// Pieces that are not accepted.
const BAD: &[&str] = &["RUN", "1", "FROM a b c", "ARG a=\"\\q\"", "FROM a@sha256:0", "=", "é", "LABEL a=b c", "RUN a \\\n", "CMD [\"\\400\"]", "\u{feff}"];
const SEPS: &[&str] = &["\n", "\r\n", "\n\n", "\n# between\n", "\r", "\r\n \t\r\n"];

fn pieces() -> &'static [&'static str] {
  static P: OnceLock<Vec<&'static str>> = OnceLock::new();
  P.get_or_init(|| {
    // a piece ending in a backslash or a continuation reaches into the next line
    GOOD.iter().chain(BAD).copied().filter(|p| !p.ends_with('\\') && !p.ends_with("\\\n")).collect()
  })
}

fn judge_concat(list: &[&'static str], sep: &dyn Fn(usize) -> &'static str, ctx: &mut Ctx) -> Res {
  let mut t = String::new();
  let mut want: Vec<Ins> = vec![];
  let mut bad = false;
  let mut froms = 0;
  for (n, p) in list.iter().enumerate() {
    if n > 0 {
      t.push_str(sep(n));
    }
    match alone(p) {
      Ok(v) => {
        for i in v {
          want.push(i.shift(t.len(), froms));
        }
        froms += v.iter().filter(|i| i.kind == Kind::From).count();
      }
      Err(_) => bad = true,
    }
    t.push_str(p);
  }
  ctx.steps(list.len());
  ctx.trace();
  let f = match d::Dockerfile::parse(&t) {
    Ok(f) => f,
    Err(e) => {
      ctx.state(&(t.len(), norm::err(&e) as u8));
      return if bad { Ok(()) } else { Err(format!("every piece is accepted alone, the file is rejected: {}", clip(&e.to_string(), 600))) };
    }
  };
  if bad {
    return Err("a piece is rejected alone, the file is accepted".into());
  }
  if f.content != t {
    return Err(format!("the kept text is {}", clip(&format!("{:?}", f.content), 600)));
  }
  let got = norm::all(&f);
  ctx.state(&hash_texts(&got[got.len().saturating_sub(4)..]));
  if got.len() != want.len() {
    return Err(format!("{} instructions, the pieces have {}", got.len(), want.len()));
  }
  let globals: Vec<&Ins> = want.iter().take_while(|i| i.kind != Kind::From).filter(|i| i.kind == Kind::Arg).collect();
  if f.global_args.len() != globals.len() || f.global_args.iter().zip(&globals).any(|(a, g)| norm::ins(&d::Instruction::Arg(a.clone())) != **g) {
    return Err(format!("the global arguments are {:?}, the pieces have {:?}", f.global_args, globals));
  }
  for (n, (g, w)) in got.iter().zip(&want).enumerate() {
    if g != w {
      return Err(format!("instruction {} is {:?}, alone it is {:?}", n, g, w));
    }
  }
  if t.len() < 300 {
    compare(&t, &Ok(got), &model::parse(&t), aspect::ACCEPT | aspect::COUNT | aspect::KIND)?;
  }
  Ok(())
}

fn repeat_sizes(quick: bool) -> Vec<usize> {
  let mut v = sizes_to(q(quick, 24, 70), q(quick, 300, 1100), 3000);
  v.retain(|n| *n > 0);
  v
}

pub fn c03(quick: bool) -> Vec<Space> {
  let p = pieces();
  let (np, ns) = (p.len() as u64, SEPS.len() as u64);
  let mut v = vec![];
  let depth = q(quick, 3, 4);
  for n in 1..=depth {
    let seps = if n == depth { q(quick, 3, 2) } else { ns };
    let gaps = seps.pow((n - 1) as u32);
    let make = move |mut i: u64| {
      let mut g = vec![];
      for _ in 1..n {
        g.push(SEPS[(i % seps) as usize]);
        i /= seps;
      }
      let mut l = vec![];
      for _ in 0..n {
        l.push(p[(i % np) as usize]);
        i /= np;
      }
      (l, g)
    };
    v.push(Space::new(
      format!("files of {} pieces out of {}, {} separators", n, np, seps),
      np.pow(n as u32) * gaps,
      move |i| format!("{:?}", make(i)),
      move |i, ctx| {
        let (l, g) = make(i);
        judge_concat(&l, &|k| g[k - 1], ctx)
      },
    ));
  }
  // one piece many times, then another
  let sz = repeat_sizes(quick);
  let nz = sz.len() as u64;
  let make = move |i: u64| {
    let a = p[(i % np) as usize];
    let b = p[(i / np % np) as usize];
    let n = sz[(i / np / np) as usize];
    (a, b, n)
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      format!("a piece up to {} times, then another", repeat_sizes(quick).last().unwrap()),
      np * np * nz,
      move |i| format!("{:?}", make(i)),
      move |i, ctx| {
        let (a, b, n) = m2(i);
        let mut l = vec![a; n];
        l.push(b);
        judge_concat(&l, &|_| "\n", ctx)
      },
    )
    .chunk(8),
  );
  // some of one piece, some of another, then a third
  let few: &'static [&'static str] = &[
    "FROM a", "FROM a AS b", "FROM b", "ARG a", "ARG b=c", "LABEL a=b", "RUN a \\\n# c\n b", "RUN [\"a\"]", "CMD a", "ENTRYPOINT [\"a\"] b", "COPY a b", "ENV a=b", "ENV a b", "X y", "# c", "", "RUN \"q", "FROM a@sha256:0",
  ];
  let (nk, top) = (few.len() as u64, q(quick, 4u64, 7));
  let make = move |i: u64| {
    let (a, b, c) = (few[(i % nk) as usize], few[(i / nk % nk) as usize], few[(i / nk / nk % nk) as usize]);
    let i = i / nk / nk / nk;
    let mut l = vec![a; (i % top) as usize + 1];
    l.extend(vec![b; (i / top) as usize + 1]);
    l.push(c);
    l
  };
  v.push(Space::new(
    format!("up to {} of one piece and of another, then a third", top),
    nk * nk * nk * top * top,
    move |i| format!("{:?}", make(i)),
    move |i, ctx| judge_concat(&make(i), &|_| "\n", ctx),
  ));
  // all pieces in rotation, up to large files
  let limit = if crate::lexicon::lexicon().numbers.len() > 4 { 9000 } else { 20_000 };
  let big = sizes_to(8, q(quick, 2048, 20000), limit);
  let good: Vec<&'static str> = GOOD.iter().copied().filter(|p| !p.ends_with('\\') && !p.ends_with("\\\n")).collect();
  let ng = good.len() as u64;
  let make = move |i: u64| {
    let n = big[(i / ng) as usize];
    let at = (i % ng) as usize;
    (0..n).map(|k| good[(k * 7 + at) % good.len()]).collect::<Vec<_>>()
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      "all pieces in rotation",
      ng * sizes_to(8, q(quick, 2048, 20000), limit).len() as u64,
      move |i| clip(&format!("{:?}", make(i)), 300),
      move |i, ctx| judge_concat(&m2(i), &|k| SEPS[k % 3], ctx),
    )
    .chunk(1),
  );
  // comments as they stand in real files, around and between the pieces
  let nc = REAL_COMMENTS.len() as u64;
  let make = move |i: u64| {
    let c = REAL_COMMENTS[(i % nc) as usize];
    let (a, b) = (p[(i / nc % np) as usize], p[(i / nc / np % np) as usize]);
    match i / nc / np / np {
      0 => vec![c, a, b],
      1 => vec![a, c, b],
      2 => vec![a, b, c],
      _ => vec![a, c, "", b, c],
    }
  };
  v.push(Space::new(
    "pieces with real comments",
    nc * np * np * 4,
    move |i| format!("{:?}", make(i)),
    move |i, ctx| judge_concat(&make(i), &|_| "\n", ctx),
  ));
  // any instruction, with others after it: what it is made of must not matter to them
  let mut first = vocabulary(&["FROM", "ARG", "ENV", "LABEL", "COPY", "exec", "misc", "lists"]);
  first.extend([
    from_tokens(q(quick, 3, 4)), arg_tokens(q(quick, 4, 5)), label_tokens(q(quick, 4, 5)), command_tokens(q(quick, 3, 5)), copy_tokens(q(quick, 4, 5)), env_tokens(q(quick, 4, 5)), misc_tokens(q(quick, 3, 4)),
    edits1("single edits of seed files", &all_seeds(), if quick { &['\n', '"', ' ', 'a', '\\', '#', '='] } else { &[' ', '\t', '\n', '\r', '\\', '#', '"', '\'', '=', '[', ']', ',', '-', ':', '@', '/', '$', 'a', '0', 'é'] }),
  ]);
  for t in first {
    let get = t.get;
    v.push(Texts::new(&format!("{}, with others after it", t.name), t.size, move |i| {
      let (t, k) = get(i);
      (format!("{}\nFROM h AS i\nARG j\n", t), k + 1)
    }).space(super::basic::against_model(aspect::ACCEPT | aspect::COUNT | aspect::KIND | aspect::VALUES)));
  }
  for t in vocabulary(&["comments", "FROM", "misc", "lines"]).into_iter().chain(placed_words(&[all_seeds(), LONGER.to_vec()].concat())) {
    v.push(t.space(super::basic::against_model(aspect::ACCEPT | aspect::COUNT | aspect::KIND | aspect::VALUES)));
  }
  // any text, before or after a piece, divided by the model
  let mask = aspect::ACCEPT | aspect::COUNT | aspect::KIND;
  v.push(general(q(quick, 4, 5)).space(super::basic::against_model(mask)));
  for t in [families("families", FAMILIES, sizes(q(quick, 80, 400), q(quick, 1024, 8192))), families("huge families", FAMILIES, HUGE.to_vec())] {
    v.push(t.clone().space(kept(mask)).chunk(1));
    v.push(crlf(t).space(kept(mask)).chunk(1));
  }
  v
}

/// as the model, and the file keeps its text
fn kept(mask: u32) -> impl Fn(&str, &mut Ctx) -> Res + Send + Sync + Clone + 'static {
  let judge = super::basic::against_model(mask);
  move |t, ctx| {
    judge(t, ctx)?;
    match d::Dockerfile::parse(t) {
      Ok(f) if f.content != t => Err(format!("the kept text is {}", clip(&format!("{:?}", f.content), 600))),
      _ => Ok(()),
    }
  }
}

// ---------------------------------------------------------------- C05

/// (keyword, rest, whether blanks after it belong to the value)
const LINES: &[(&str, &str, bool)] = &[
  ("FROM", " a", false),
  ("FROM", " --p=q a:1 AS \\\n b", false),
  ("ARG", " a", false),
  ("ARG", " a=b", false),
  ("ARG", " a=\"b c\"", false),
  ("LABEL", " a=b \\\n # c\n\n c=d", false),
  ("LABEL", " a b", false),
  ("LABEL", " \"a\nb\" 'c'", false),
  ("RUN", " a", true),
  ("RUN", " a \\\n # c\n b # d", true),
  ("RUN", " [\"a\", \\\n 'b']", false),
  ("CMD", " []", false),
  ("CMD", " \\\n a", true),
  ("ENTRYPOINT", " [ \"a\nb\" ]", false),
  ("ENTRYPOINT", "\ta\tb", true),
  ("COPY", " --f=g a b \\\n\n c", false),
  ("ENV", " a=b \\\n c=\"d e\"", false),
  ("ENV", " a b \\\n c", true),
  ("ENV", " a \"b c\"", false),
  ("EXPOSE", " a \\\n# c\n b", true),
  ("Volume", "\t[\"a\"]", true),
  ("COPY", " a", true),
];
const INDENTS: &[&str] = &["", " ", "\t", " \t  "];
const TRAILS: &[&str] = &["", " ", "\t", "  \t "];
const BEFORE: &[&str] = &["", "\n", "# c\n", " \t\n  # d \\\n\n", "#\n#\n", "\n\n\n# FROM x\n\t\n", "# RUN \"\n", "## é 'x\n"];
const AFTERS: &[&str] = &["", "\n", "\n\n", "\n# c", "\n \t# c\n", "\n\n# ARG \"x\n \n", "\n\t", "\n#"];
const CASES: usize = 4;

fn recase(w: &str, how: usize) -> String {
  match how {
    0 => w.to_uppercase(),
    1 => w.to_lowercase(),
    2 => w.char_indices().map(|(n, c)| if n % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    _ => w.char_indices().map(|(n, c)| if n == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
  }
}

/// Values without what layout may change: spans, the case of keywords, and the kind of line breaks inside quotes.
fn bare(p: &Parsed) -> Parsed {
  fn fix(s: &mut String) {
    // an escaped \r may stand before a line break
    while s.contains("\r\n") {
      *s = s.replace("\r\n", "\n");
    }
  }
  p.clone().map(|v| {
    v.iter()
      .map(|i| {
        let mut i = i.without_spans();
        for (_, s) in parts_mut(&mut i) {
          fix(&mut s.text);
        }
        if let Body::Misc { name, .. } = &mut i.body {
          name.text.make_ascii_lowercase();
        }
        i
      })
      .collect()
  })
}

/// The instructions, and the outline of the file, both without what layout may change.
fn seen(t: &str) -> (Parsed, norm::Outline) {
  match d::Dockerfile::parse(t) {
    Ok(f) => {
      let mut o = if f.instructions.len() > 200 { Default::default() } else { norm::outline(&f) };
      o.globals = bare(&Ok(o.globals)).unwrap_or_default();
      (bare(&Ok(norm::all(&f))), o)
    }
    Err(e) => (Err(norm::err(&e)), Default::default()),
  }
}

fn judge_layout(plain: &str, laid: &str, ctx: &mut Ctx) -> Res {
  let (a, oa) = seen(plain);
  let (b, ob) = seen(laid);
  ctx.trace();
  ctx.state(&(laid.len(), &b));
  if a == b && oa == ob {
    return Ok(());
  }
  if a == b {
    return Err(format!("the file has {:?}\n  without the layout ({}) {:?}", ob, clip(&format!("{:?}", plain), 400), oa));
  }
  Err(format!(
    "parsed as {}\n  without the layout ({}) as {}",
    clip(&format!("{:?}", b), 900),
    clip(&format!("{:?}", plain), 400),
    clip(&format!("{:?}", a), 900)
  ))
}

#[derive(Clone, Copy, Debug)]
struct Layout {
  indent: usize,
  trail: usize,
  before: usize,
  case: usize,
}

fn laid_line(n: usize, l: Layout) -> String {
  let (kw, rest, text) = LINES[n];
  let trail = if text { "" } else { TRAILS[l.trail] };
  format!("{}{}{}{}{}", BEFORE[l.before], INDENTS[l.indent], recase(kw, l.case), rest, trail)
}

fn plain_line(n: usize) -> String {
  format!("{}{}", LINES[n].0, LINES[n].1)
}

/// The layouts of one line: everything, or one thing at a time.
fn layouts(all: bool) -> Vec<Layout> {
  let mut v = vec![];
  for before in 0..BEFORE.len() {
    for indent in 0..INDENTS.len() {
      for trail in 0..TRAILS.len() {
        for case in 0..CASES {
          let l = Layout { indent, trail, before, case };
          if all || [indent, trail, before, case].iter().filter(|x| **x != 0).count() <= 1 {
            v.push(l);
          }
        }
      }
    }
  }
  v
}

pub fn c05(quick: bool) -> Vec<Space> {
  let mut v = vec![];
  let nl = LINES.len() as u64;
  let na = AFTERS.len() as u64;
  for (lines, all) in [(1usize, true), (2, false), (3, false)] {
    let ls = layouts(all);
    // files of three lines: the same layout for all of them in quick runs
    let free = if lines < 3 || !quick { lines } else { 1 };
    let size = nl.pow(lines as u32) * (ls.len() as u64).pow(free as u32) * na * 2;
    let make = move |mut i: u64| {
      let crlf = i % 2 == 1;
      i /= 2;
      let after = AFTERS[(i % na) as usize];
      i /= na;
      let mut ids = vec![];
      for _ in 0..lines {
        ids.push((i % nl) as usize);
        i /= nl;
      }
      let mut lay = vec![];
      for _ in 0..free {
        lay.push(ls[(i % ls.len() as u64) as usize]);
        i /= ls.len() as u64;
      }
      let plain: Vec<String> = ids.iter().map(|n| plain_line(*n)).collect();
      let laid: Vec<String> = ids.iter().enumerate().map(|(k, n)| laid_line(*n, lay[k % free])).collect();
      let mut t = laid.join("\n") + after;
      if crlf {
        t = t.replace('\n', "\r\n");
      }
      (plain.join("\n"), t)
    };
    if lines == 3 && !quick {
      // three free layouts are too many: all lines, free layouts of the first two
      continue;
    }
    let m2 = make.clone();
    v.push(Space::new(
      format!("files of {} lines in every layout", lines),
      size,
      move |i| format!("{:?}", make(i)),
      move |i, ctx| {
        ctx.steps(lines);
        let (p, t) = m2(i);
        judge_layout(&p, &t, ctx)
      },
    ));
  }
  // blanks, blank lines and comments in any number
  let sz = sizes(q(quick, 70, 300), q(quick, 1024, 16384));
  let forms: &'static [fn(usize) -> (String, String)] = &[
    |n| (" ".repeat(n), String::new()),
    |n| ("\t ".repeat(n), String::new()),
    |n| ("\n".repeat(n), String::new()),
    |n| ("# c\n".repeat(n), String::new()),
    |n| (format!("#{}\n", "x".repeat(n)), String::new()),
    |n| (" \n#\n".repeat(n), String::new()),
    |n| (String::new(), " ".repeat(n)),
    |n| (String::new(), "\n".repeat(n)),
    |n| (String::new(), "\n# c".repeat(n)),
    |n| ("\r\n".repeat(n), "\r\n\t".repeat(n)),
  ];
  let (nf, nz) = (forms.len() as u64, sz.len() as u64);
  let make = move |i: u64| {
    let n = (i % nl) as usize;
    let m = ((i + i / nl) % nl) as usize;
    let (b, a) = forms[(i / nl % nf) as usize](sz[(i / nl / nf) as usize]);
    // blanks after free-form text belong to it
    let a = if a.starts_with(' ') && LINES[n].2 { String::new() } else { a };
    (format!("{}\n{}\nRUN z\nARG w\n{}", plain_line(m), plain_line(n), plain_line(n)), format!("{}\n{}{}{}\nRUN z\nARG w\n{}{}{}", plain_line(m), b, plain_line(n), a, b, plain_line(n), a))
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      "any number of blanks, blank lines and comments",
      nl * nf * nz,
      move |i| clip(&format!("{:?}", m2(i)), 300),
      move |i, ctx| {
        let (p, t) = make(i);
        ctx.steps(2);
        judge_layout(&p, &t, ctx)
      },
    )
    .chunk(8),
  );
  // comments as they stand in real files, where they might be taken for something else
  let nc = REAL_COMMENTS.len() as u64;
  let more: &'static [&'static str] = &[
    "RUN a `\nRUN b", "RUN a ` \nRUN b", "RUN a ^\nRUN b", "RUN a `\\\n b", "CMD [\"`a`\"]", "ENV a=`b", "COPY a` b", "RUN a \\\n b", "EXPOSE 1 `\nCMD a", "LABEL a=\"b`\nc\"", "ENV a=b \\\n c=d", "RUN cat <<EOF", "ARG a=\"\\n\"",
  ];
  let ntext = nl + more.len() as u64;
  let line = move |n: usize| if n < LINES.len() { plain_line(n) } else { more[n - LINES.len()].to_string() };
  let make = move |i: u64| {
    let c = REAL_COMMENTS[(i % nc) as usize];
    let (a, b) = (line((i / nc % ntext) as usize), line((i / nc / ntext % ntext) as usize));
    let t = match i / nc / ntext / ntext {
      0 => format!("{}\n{}\n{}", c, a, b),
      1 => format!("{}\n{}\n{}", a, c, b),
      2 => format!("{}\n{}\n{}", a, b, c),
      3 => format!("\n  {}\n\n{}\n{}\n", c, a, b),
      4 => format!("{}\r\n{}\r\n{}\r\n{}\r\n", c, c, a, b),
      _ => format!("# x\n{}\n{}\n{}\n{}", c, a, c, b),
    };
    (format!("{}\n{}", a, b), t)
  };
  v.push(Space::new(
    "lines with real comments",
    nc * ntext * ntext * 6,
    move |i| format!("{:?}", make(i)),
    move |i, ctx| {
      let (p, t) = make(i);
      ctx.steps(3);
      judge_layout(&p, &t, ctx)
    },
  ));
  for t in vocabulary(&["FROM", "ARG", "misc", "shell", "lines", "lists"]).into_iter().chain(placed_words(&[&all_seeds()[..], LONGER, &["# c d\nRUN a\n# e\nRUN b"]].concat())) {
    v.push(t.space(|t, ctx| if t.contains('\r') { Ok(()) } else { any_text(t, ctx) }));
  }
  // any text whatsoever: CRLF instead of LF, blank and comment lines and indentation before it
  let toks: Vec<&'static str> = GENERAL.iter().copied().filter(|t| !t.contains('\r')).collect();
  v.push(tokens("texts over tokens of all instructions", &[""], &toks, q(quick, 4, 5), &[""]).space(any_text));
  for t in [
    tokens("instructions and blank space", &["", "RUN a", "ENV a=b", "COPY a b"], &["\n", " ", "\\\n", "# c", "RUN b", "ENV c=d", "x", "\"", "LABEL e f"], q(quick, 5, 6), &[""]),
    list("seed files", all_seeds().iter().filter(|s| !s.contains('\r')).map(|s| s.to_string()).collect()),
  ] {
    v.push(t.space(any_text));
  }
  v.push(families("families", FAMILIES, sizes(q(quick, 70, 300), q(quick, 1024, 8192))).space(|t, ctx| if t.contains('\r') { Ok(()) } else { any_text(t, ctx) }).chunk(2));
  v.push(unicode("comment and blank characters", &[("# ", "\nRUN a"), ("RUN a\n#", "\nRUN b"), ("FROM a\n  # x", "y\nRUN b"), ("# c\nARG ", "\n")], q(quick, 0x20000, 0x110000)).space(|t, ctx| {
    // a comment's characters never matter
    let p = norm::parse(t);
    ctx.trace();
    ctx.state(&p);
    compare(t, &p, &model::parse(t), aspect::ACCEPT | aspect::COUNT | aspect::KIND)
  }));
  v
}

/// Layout changes that apply to every text.
fn any_text(t: &str, ctx: &mut Ctx) -> Res {
  let base = norm::parse(t);
  ctx.trace();
  ctx.state(&base);
  let (plain, own) = seen(t);
  let check = |what: &str, laid: String| -> Res {
    let (b, o) = seen(&laid);
    if b != plain {
      return Err(format!("with {} ({:?}) parsed as {}\n  without as {}", what, laid, clip(&format!("{:?}", b), 700), clip(&format!("{:?}", plain), 700)));
    }
    if o != own {
      return Err(format!("with {} ({:?}) the file has {:?}\n  without {:?}", what, laid, o, own));
    }
    Ok(())
  };
  ctx.steps(5);
  if t.contains('\n') {
    check("CRLF line breaks", t.replace('\n', "\r\n"))?;
  }
  check("a comment before", format!("# \"c\" \\\n{}", t))?;
  check("blank lines before", format!("\n \t\n{}", t))?;
  check("indentation", format!(" \t{}", t))?;
  if let Ok(list) = &base {
    // between instructions
    if list.len() > 1 {
      let mut o = t.to_string();
      for i in list.iter().rev() {
        let line = t[..i.span.0].rfind('\n').map_or(0, |n| n + 1);
        o.insert_str(line, "\n\t# é\n");
      }
      check("comments and blank lines between instructions", o)?;
    }
    // at the end, unless the last line is open
    let last = t.rsplit('\n').next().unwrap().trim_end_matches([' ', '\t']);
    if !last.ends_with('\\') {
      check("a final line break", format!("{}\n", t))?;
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
  FlagName,
  FlagValue,
  Image,
  Alias,
  ArgName,
  Value,
  LabelName,
  LabelSingleName,
  LabelValue,
  Item,
  FirstText,
  Text,
  Comment,
  Path,
  VarName,
  VarValue,
  Keyword,
  MiscText,
}

/// Every named part of an instruction.
pub fn parts_mut(i: &mut Ins) -> Vec<(Part, &mut S)> {
  let mut v = vec![];
  match &mut i.body {
    Body::From { flags, image, alias, .. } => {
      for f in flags {
        v.push((Part::FlagName, &mut f.name));
        v.push((Part::FlagValue, &mut f.value));
      }
      v.push((Part::Image, image));
      if let Some(a) = alias {
        v.push((Part::Alias, a));
      }
    }
    Body::Arg { name, value } => {
      v.push((Part::ArgName, name));
      if let Some(x) = value {
        v.push((Part::Value, x));
      }
    }
    Body::Label(l) => {
      for (_, n, x) in l {
        v.push((Part::LabelName, n));
        v.push((Part::LabelValue, x));
      }
    }
    Body::Shell(b) => {
      for (k, p) in b.parts.iter_mut().enumerate() {
        v.push((if p.0 { Part::Comment } else if k == 0 { Part::FirstText } else { Part::Text }, &mut p.1));
      }
    }
    Body::Exec { items, .. } => v.extend(items.iter_mut().map(|x| (Part::Item, x))),
    Body::Copy { flags, sources, dest } => {
      for f in flags {
        v.push((Part::FlagName, &mut f.name));
        v.push((Part::FlagValue, &mut f.value));
      }
      v.extend(sources.iter_mut().map(|x| (Part::Path, x)));
      v.push((Part::Path, dest));
    }
    Body::Env(l) => {
      for (_, n, b) in l {
        v.push((Part::VarName, n));
        let one = b.parts.len() == 1;
        for (k, p) in b.parts.iter_mut().enumerate() {
          v.push((if p.0 { Part::Comment } else if one { Part::VarValue } else if k == 0 { Part::FirstText } else { Part::Text }, &mut p.1));
        }
      }
    }
    Body::Misc { name, args } => {
      v.push((Part::Keyword, name));
      for (k, p) in args.parts.iter_mut().enumerate() {
        v.push((if p.0 { Part::Comment } else if k == 0 { Part::MiscText } else { Part::Text }, &mut p.1));
      }
    }
  }
  v
}

/// (written, value) of texts valid for a part: shorter, longer, multi-byte or quoted
fn replacements(p: Part) -> [(&'static str, &'static str); 3] {
  fn same(a: [&'static str; 3]) -> [(&'static str, &'static str); 3] {
    [(a[0], a[0]), (a[1], a[1]), (a[2], a[2])]
  }
  match p {
    Part::FlagName => same(["n", "longflagname", "Ab"]),
    Part::FlagValue => same(["1", "linux/amd64=\"x\"/very-long", "é:漢"]),
    Part::Image => same(["z", "registry.example.com:5000/some/image:12.3", "localhost/$y"]),
    Part::Alias => same(["q", "a-very-long_alias-0", "Z9"]),
    Part::ArgName => same(["n", "Long_Argument_Name_0", "Z9"]),
    Part::Value => [("1", "1"), ("\"a \\\"long\\\" \\n value\"", "a \"long\" \n value"), ("é=漢", "é=漢")],
    Part::LabelName => [("n", "n"), ("com.example.long-name", "com.example.long-name"), ("'é b'", "é b")],
    Part::LabelSingleName => [("n", "n"), ("com.example.long-name", "com.example.long-name"), ("'é b'", "é b")],
    Part::LabelValue => [("1", "1"), ("\"long \\\nvalue\"", "long value"), ("é'", "é'")],
    Part::Item => [("''", ""), ("\"a, [long] \\\"element\\\"\"", "a, [long] \"element\""), ("'é'", "é")],
    Part::FirstText => same(["x", "a long line # of \"text\" [", "é 漢  "]),
    Part::Text => same(["x", "  a long line # of 'text' ]", "é\t漢 "]),
    Part::Comment => same(["#", "# a long comment \\", "#é漢 \""]),
    Part::Path => same(["p", "/a/long/path/--to=\"it\"", "é漢"]),
    Part::VarName => same(["n", "Long_Variable_Name_0", "0Z"]),
    Part::VarValue => [("1", "1"), ("\"a long \\t value\"", "a long \t value"), ("é$x", "é$x")],
    Part::Keyword => same(["X", "longkeyword", "Runs"]),
    Part::MiscText => same([" x", " a long text = \"v", "\té漢"]),
  }
}

const DOCS: &[&str] = &[
  "FROM alpine:3 AS base\nRUN a\n",
  "# c\nARG v=1\nARG w\nFROM --platform=linux a/b:$v as c\nCOPY --from=x a b c\n",
  "# é\nLABEL a=b \"c d\"='e'\nLABEL f g\nLABEL 'h' \"i\"\n",
  "ENV a=b c=\"d e\" f='é'\nENV g h\nENV i \"j k\"\nRUN x",
  "RUN a \\\n # c\n b \\\n# d\n# e\n  c\nCMD é",
  "CMD [\"a\", 'b', \"é\"]\nENTRYPOINT [ \"c\" , \\\n# x\n \"d\" ]\n",
  "Volume /a \\\n # c\n b\nEXPOSE 80\nUSER é\n",
  "FROM a\nFROM a as a\nFROM --a=b --c=d --e=f a\n",
  "ENV a b \\\n # c\n\tc\nENV d \\\n e=f\r\nARG e=\"x\"\nARG x=\"é é\"",
  "COPY --chown=a:b --from=c d e f g\r\ncopy \\\n h i\r\n",
  "\tRUN [\"a\"] && b\n\tENTRYPOINT c\\d\n",
  "LABEL a=b \\\n  # c\n  c.d=e\\\n f=\"g\nh\"\nRUN i",
  "# é é é\nARG a\nARG v=é\nADD é b \\\n é\nCOPY é é\n",
  "ENV a=1 \\\n\n b=2 \\\n# c\n c=3\n\n\nCMD a\n# end",
];

struct Doc {
  text: &'static str,
  parsed: Vec<Ins>,
  /// (instruction, number of the part in it, its kind, span)
  parts: Vec<(usize, usize, Part, Sp)>,
}

fn docs() -> &'static Vec<Doc> {
  static DS: OnceLock<Vec<Doc>> = OnceLock::new();
  DS.get_or_init(|| DOCS.iter().filter_map(|t| doc(t)).collect())
}

fn doc(text: &'static str) -> Option<Doc> {
  let parsed = norm::parse(text).ok()?;
  let mut parts = vec![];
  for (n, i) in parsed.iter().enumerate() {
    let mut c = i.clone();
    for (k, (p, s)) in parts_mut(&mut c).into_iter().enumerate() {
      parts.push((n, k, p, s.span));
    }
  }
  Some(Doc { text, parsed, parts })
}

/// Replaces the given parts in the given order, and judges the outcome.
fn judge_edit(doc: &Doc, edits: &[(usize, usize)], ctx: &mut Ctx) -> Res {
  let f = d::Dockerfile::parse(doc.text).map_err(|e| format!("{:?} is rejected: {}", doc.text, e))?;
  let mut sp = f.splicer();
  let mut want = doc.parsed.clone();
  let mut expect: Vec<(Sp, &str)> = vec![];
  for (n, r) in edits {
    let (i, k, p, span) = doc.parts[*n];
    let (written, value) = replacements(p)[*r];
    sp.splice(&d::Span::new(span.0, span.1), written);
    expect.push((span, written));
    let mut list = parts_mut(&mut want[i]);
    list[k].1.text = value.to_string();
  }
  for i in &mut want {
    if let Body::From { image, parsed, .. } = &mut i.body {
      *parsed = model::split_image(&image.text);
    }
  }
  // the text outside the spans is unchanged
  let mut text = doc.text.to_string();
  expect.sort();
  for (s, w) in expect.iter().rev() {
    text.replace_range(s.0..s.1, w);
  }
  ctx.steps(edits.len());
  ctx.trace();
  if sp.content != text {
    return Err(format!("the edited text is {:?}, expected {:?}", sp.content, text));
  }
  let got = match norm::parse(&sp.content) {
    Ok(g) => g,
    Err(e) => return Err(format!("the edited text {:?} is rejected: {:?}", sp.content, e)),
  };
  ctx.state(&(sp.content.len(), &got));
  let (g, w) = (hash_texts(&got), hash_texts(&want));
  if g != w {
    return Err(format!("the edited text {:?} parses as {:?}\n  expected {:?}", sp.content, g, w));
  }
  // the replaced parts are reported where they were put
  for (n, r) in edits {
    let (i, k, p, span) = doc.parts[*n];
    let at = span.0 as i64
      + expect.iter().filter(|e| e.0 .0 < span.0).map(|e| e.1.len() as i64 - (e.0 .1 - e.0 .0) as i64).sum::<i64>();
    let mut c = got[i].clone();
    let list = parts_mut(&mut c);
    let written = replacements(p)[*r].0;
    let s = list[k].1.span;
    if s != (at as usize, at as usize + written.len()) {
      return Err(format!("the replaced part {} of instruction {} is reported at {:?}, it was put at {}", k, i, s, at));
    }
  }
  Ok(())
}

pub fn c19(quick: bool) -> Vec<Space> {
  let mut v = vec![];
  for (n, text) in DOCS.iter().enumerate() {
    // the number of parts is taken from the model, so that the space does not depend on the library
    let parsed = model::parse(text).expect("document");
    let parts: u64 = parsed.iter().map(|i| parts_mut(&mut i.clone()).len() as u64).sum();
    let depth = q(quick, 3u32, if parts > 14 { 3 } else { 4 });
    let one = parts * 3;
    let decode = move |i: u64| -> Option<Vec<(usize, usize)>> {
      let ids = seq(i, one);
      let e: Vec<(usize, usize)> = ids.iter().map(|x| (x / 3, x % 3)).collect();
      let mut seen = e.iter().map(|x| x.0).collect::<Vec<_>>();
      seen.sort();
      seen.dedup();
      Some(e).filter(|e| seen.len() == e.len())
    };
    v.push(Space::new(
      format!("document {}: edits of up to {} of {} parts in every order", n, depth, parts),
      pow_sum(one, depth),
      move |i| format!("{:?}", decode(i).map(|e| edit_text(n, &e))),
      move |i, ctx| {
        let Some(e) = decode(i) else { return Ok(()) };
        judge_edit(find_doc(n, parts)?, &e, ctx)
      },
    ));
  }
  // every part replaced by any short text
  const TOKENS: &[&str] = &["\"", "'", "\\", "a", "é", "=", "#", "$x", " ", ",", "[", "]", "\n", "--", "`", "\t", ":", "@", "FROM"];
  let places: &'static [(usize, usize)] = Box::leak(
    DOCS.iter()
      .enumerate()
      .flat_map(|(n, t)| {
        let parts = parts_of(&model::parse(t).expect("document")).len();
        (0..parts).map(move |k| (n, k))
      })
      .collect::<Vec<_>>()
      .into_boxed_slice(),
  );
  let (np, nt) = (places.len() as u64, TOKENS.len() as u64);
  let make = move |i: u64| {
    let (n, k) = places[(i % np) as usize];
    (n, k, seq(i / np, nt).iter().map(|k| TOKENS[*k]).collect::<String>())
  };
  v.push(Space::new(
    format!("any part replaced by any text (parts={}, tokens={}, depth<={})", np, nt, q(quick, 2, 3)),
    np * pow_sum(nt, q(quick, 2, 3)),
    move |i| {
      let (n, k, w) = make(i);
      format!("document {:?}, part {} replaced by {:?}", DOCS[n], k, w)
    },
    move |i, ctx| {
      let (n, k, w) = make(i);
      judge_written(n, k, &w, ctx)
    },
  ));
  // all parts at once, in various orders
  let docs_n = DOCS.len() as u64;
  let order = |n: usize, parts: usize, how: u64| -> Vec<(usize, usize)> {
    let mut ids: Vec<usize> = (0..parts).collect();
    match how % 4 {
      0 => (),
      1 => ids.reverse(),
      2 => ids.rotate_left((how as usize / 12) % parts.max(1)),
      _ => ids.sort_by_key(|k| (k * 7 + how as usize / 12 + n) % parts.max(1)),
    }
    ids.into_iter().map(|k| (k, (k * (how as usize / 36 % 2) + how as usize / 4) % 3)).collect()
  };
  v.push(Space::new(
    "all parts of a document at once",
    docs_n * 288,
    move |i| format!("document {:?} order {}", DOCS[(i % docs_n) as usize], i / docs_n),
    move |i, ctx| {
      let n = (i % docs_n) as usize;
      let Some(doc) = docs().iter().find(|x| x.text == DOCS[n]) else {
        return Err(format!("{:?} is rejected", DOCS[n]));
      };
      judge_edit(doc, &order(n, doc.parts.len(), i / docs_n), ctx)
    },
  ));
  // long documents
  let sz = sizes_to(q(quick, 30, 100), q(quick, 256, 1024), 3000);
  let nz = sz.len() as u64;
  let make = move |i: u64| -> (String, u64) {
    let n = sz[(i / docs_n / 6) as usize].max(1);
    let d = DOCS[(i % docs_n) as usize].trim_end_matches(['\n', '\r']);
    (vec![d; n].join("\n"), i / docs_n % 6)
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      "all parts of long documents",
      nz * docs_n * 6,
      move |i| clip(&format!("{:?}", m2(i)), 300),
      move |i, ctx| {
        let (t, how) = make(i);
        judge_long(&t, how, ctx)
      },
    )
    .chunk(1),
  );
  // parts of any texts
  v.push(edits1("parts of edited seed files", &all_seeds(), &q(quick, role_chars(), all_chars())).space(edit_any));
  for t in [from_tokens(q(quick, 3, 4)), arg_tokens(q(quick, 4, 5)), label_tokens(q(quick, 4, 5)), command_tokens(q(quick, 4, 5)), copy_tokens(q(quick, 4, 5)), env_tokens(q(quick, 4, 5)), misc_tokens(q(quick, 4, 5))] {
    v.push(t.space(edit_any));
  }
  v.push(general(q(quick, 3, 4)).space(edit_any));
  for t in vocabulary(if quick { &["FROM", "ARG", "exec", "misc", "lines"] } else { ALL_REAL }).into_iter().chain(placed_words(&all_seeds())) {
    v.push(t.space(edit_any));
  }
  let words: &'static [&'static str] = &["", "''", "\"\"", "'a'", "\"\\n\"", "a", "\"b c\"", "é", "'é'", "\"\\\"\"", "a=", "#", "$x", "--f=v", "[]", "[\"\"]", "['a',\"\"]", "\"a\"b", "\\", "a:b@c"];
  let heads: &'static [&'static str] = &[
    "ARG a=", "ENV a=", "ENV a ", "LABEL a=", "LABEL a ", "LABEL ", "RUN ", "CMD [", "ENTRYPOINT ", "COPY ", "COPY --f=", "FROM ", "FROM --p=", "ADD ", "LABEL a=b ", "ENV a=b c=", "FROM a AS ", "USER",
  ];
  let tails: &'static [&'static str] = &["", " ", "=", "\nRUN z", " x=y", " x", "=''", " \\\n # c\n x", "]", " \"\"", " ''\n"];
  let (nw, nh, nt) = (words.len() as u64, heads.len() as u64, tails.len() as u64);
  v.push(
    Texts::new("parts of words in every place", nh * nw * nw * nt, move |i| {
      let (h, i) = (i % nh, i / nh);
      let (t, i) = (i % nt, i / nt);
      (format!("{}{}{}{}", heads[h as usize], words[(i % nw) as usize], words[(i / nw) as usize], tails[t as usize]), 3)
    })
    .space(edit_any),
  );
  v
}

/// One part of a document replaced by a text that may or may not fit there.
/// The edited text has that text in that place whatever it is, and means what
/// the model says if, to the model, the rest means what it did.
fn judge_written(n: usize, k: usize, w: &str, ctx: &mut Ctx) -> Res {
  let t = DOCS[n];
  let doc = docs().iter().find(|x| x.text == t).ok_or_else(|| format!("{:?} is rejected", t))?;
  let (i, _, _, span) = *doc.parts.get(k).ok_or_else(|| format!("{:?} has {} parts only", t, doc.parts.len()))?;
  let f = d::Dockerfile::parse(t).map_err(|e| format!("{:?} is rejected: {}", t, e))?;
  let mut sp = f.splicer();
  sp.splice(&d::Span::new(span.0, span.1), w);
  ctx.steps(2);
  ctx.trace();
  let want = format!("{}{}{}", &t[..span.0], w, &t[span.1..]);
  if sp.content != want {
    return Err(format!("the edited text is {:?}, expected {:?}", sp.content, want));
  }
  let Ok(m) = model::parse(&want) else { return Ok(()) };
  let plain = |l: &[Ins]| l.iter().map(|i| i.without_spans()).collect::<Vec<_>>();
  let (was, m) = (plain(&doc.parsed), plain(&m));
  if was.len() != m.len() || (0..m.len()).any(|j| if j == i { was[j].kind != m[j].kind } else { was[j] != m[j] }) {
    return Ok(());
  }
  let got = norm::parse(&want).map(|v| plain(&v));
  ctx.state(&got);
  if got.as_ref().ok() != Some(&m) {
    return Err(format!("the edited text {:?} parses as {:?}\n  expected {:?}", want, got, m));
  }
  Ok(())
}

/// The reference model's parse of `t` with the given parts changed, if the model agrees that
/// writing these texts there changes exactly these parts: (edited text, its instructions).
fn model_edit(t: &str, m: &[Ins], parts: &[(usize, usize, Part, Sp)], edits: &[(usize, usize)]) -> Option<(String, Vec<Ins>)> {
  let mut want: Vec<Ins> = m.iter().map(|i| i.without_spans()).collect();
  let mut at: Vec<(Sp, &str)> = vec![];
  for (n, r) in edits {
    let (i, k, p, span) = parts[*n];
    let (written, value) = replacements(p)[*r];
    at.push((span, written));
    parts_mut(&mut want[i])[k].1.text = value.to_string();
  }
  at.sort();
  let mut text = t.to_string();
  for (s, w) in at.iter().rev() {
    text.replace_range(s.0..s.1, w);
  }
  for i in &mut want {
    if let Body::From { image, parsed, .. } = &mut i.body {
      *parsed = model::split_image(&image.text);
    }
  }
  let again: Vec<Ins> = model::parse(&text).ok()?.iter().map(|i| i.without_spans()).collect();
  Some((text, want)).filter(|x| x.1 == again)
}

fn parts_of(list: &[Ins]) -> Vec<(usize, usize, Part, Sp)> {
  let mut parts = vec![];
  for (n, i) in list.iter().enumerate() {
    for (k, (p, s)) in parts_mut(&mut i.clone()).into_iter().enumerate() {
      parts.push((n, k, p, s.span));
    }
  }
  parts
}

/// Every single part replaced by each of its texts, all neighbouring pairs, and all parts at once.
fn edit_any(t: &str, ctx: &mut Ctx) -> Res {
  let m = match model::parse(t) {
    Ok(m) if !m.is_empty() => m,
    _ => return Ok(()),
  };
  let f = match d::Dockerfile::parse(t) {
    Ok(f) => f,
    Err(_) => return Ok(()),
  };
  let g: Vec<Ins> = f.instructions.iter().map(norm::ins).collect();
  if g.len() != m.len() || g.iter().zip(&m).any(|(a, b)| a.without_spans() != b.without_spans()) {
    return Ok(());
  }
  // where the model has the parts, and where the library reports them
  let (theirs, ours) = (parts_of(&m), parts_of(&g));
  let n = theirs.len();
  let mut sets: Vec<Vec<(usize, usize)>> = vec![];
  for k in 0..n.min(12) {
    for r in 0..3 {
      sets.push(vec![(k, r)]);
      if k + 1 < n {
        sets.push(vec![(k + 1, (r + 1) % 3), (k, r)]);
        sets.push(vec![(k, r), (k + 1, r)]);
      }
    }
  }
  for r in 0..3 {
    sets.push((0..n).map(|k| (k, (k + r) % 3)).collect());
    sets.push((0..n).rev().map(|k| (k, r)).collect());
  }
  for e in sets {
    let Some((text, want)) = model_edit(t, &m, &theirs, &e) else { continue };
    let mut sp = f.splicer();
    for (k, r) in &e {
      let (_, _, p, span) = ours[*k];
      sp.splice(&d::Span::new(span.0, span.1), replacements(p)[*r].0);
    }
    ctx.steps(e.len());
    ctx.trace();
    if sp.content != text {
      return Err(format!("with {:?} the edited text is {:?}, expected {:?}", e, sp.content, text));
    }
    let got = norm::parse(&text).map(|v| v.iter().map(|i| i.without_spans()).collect::<Vec<_>>());
    ctx.state(&got);
    if got.as_ref().ok() != Some(&want) {
      return Err(format!("the edited text {:?} parses as {:?}\n  expected {:?}", text, got, want));
    }
  }
  Ok(())
}

fn judge_long(t: &str, how: u64, ctx: &mut Ctx) -> Res {
  let parsed = norm::parse(t).map_err(|e| format!("rejected: {:?}", e))?;
  let mut parts = vec![];
  for (n, i) in parsed.iter().enumerate() {
    for (k, (p, s)) in parts_mut(&mut i.clone()).into_iter().enumerate() {
      parts.push((n, k, p, s.span));
    }
  }
  let leaked: &'static str = Box::leak(t.to_string().into_boxed_str());
  let len = parts.len();
  let doc = Doc { text: leaked, parsed, parts };
  let mut ids: Vec<usize> = (0..len).collect();
  match how % 3 {
    0 => (),
    1 => ids.reverse(),
    _ => ids.sort_by_key(|k| (k * 7919) % len.max(1)),
  }
  // at most two hundred edits each
  let step = (len / 200).max(1);
  let e: Vec<(usize, usize)> = ids.into_iter().filter(|k| k % step == 0).map(|k| (k, (k + how as usize / 3) % 3)).collect();
  let r = judge_edit(&doc, &e, ctx);
  unsafe { drop(Box::from_raw(leaked as *const str as *mut str)) };
  r
}

fn find_doc(n: usize, parts: u64) -> Result<&'static Doc, String> {
  let d = docs().iter().find(|x| x.text == DOCS[n]).ok_or_else(|| format!("{:?} is rejected", DOCS[n]))?;
  if d.parts.len() as u64 != parts {
    return Err(format!("{:?} has {} parts, expected {}", DOCS[n], d.parts.len(), parts));
  }
  Ok(d)
}

fn edit_text(n: usize, e: &[(usize, usize)]) -> String {
  let parsed = model::parse(DOCS[n]).unwrap();
  let mut parts = vec![];
  for i in &parsed {
    for (p, s) in parts_mut(&mut i.clone()) {
      parts.push((p, s.clone()));
    }
  }
  let l: Vec<String> = e.iter().map(|(k, r)| format!("{:?} {:?} by {:?}", parts[*k].0, parts[*k].1.text, replacements(parts[*k].0)[*r].0)).collect();
  format!("{:?}: {}", DOCS[n], l.join("; "))
}

// ---------------------------------------------------------------- C26

/// (text, offset of the line in it at which it is known to be wrong, if only one line can be meant)
const MALFORMED: &[&str] = &[
  "RUN", "FROM", "1", "=", "RUN1", "FROM a b", "FROM a as", "FROM a as b c", "FROM a é", "FROM --f=g a b", "COPY", "LABEL a=b c", "LABEL a=b c=d e", "ENV",
  "ARG a b", "ARG a=b c", "é", "-x", "x", "\\", "[\"a\"]", "\"a\"", "a\\", "LABEL a=b \\\n c", "FROM a \\\n b", "ARG a \\\n b", "  RUN", "\tFROM a b c", "LABEL a b c",
  "FROM \\\n# c\n\n a \\\n as b \\\n c", "LABEL é=b c", "ARG a=\"é é\" b", "CMD", "$", "a_b c", "RUN-x a", "ENTRYPOINT:", "FROM é b", "ENV a=b c d",
];
const SPECIAL: &[(&str, model::Err)] = &[
  ("FROM a@sha256:00", model::Err::Digest),
  ("FROM a@md5:0 as b", model::Err::Digest),
  ("ARG a=\"\\q\"", model::Err::Unescape),
  ("RUN [\"a\", \"\\u12\"]", model::Err::Unescape),
  ("ENV a=\"\\400\" b=c", model::Err::Unescape),
  ("LABEL a='\\z'", model::Err::Unescape),
  ("COPY [\"a\", \"b\"]", model::Err::Syntax),
];
const FILL: &[&str] = &[
  "FROM a", "RUN a \\\n b", "# c", "", "ENV a=b \\\n # c\n c=d", "LABEL a=\"b\nc\"", "CMD [\"é\", \\\n 'b']", "ARG e=é", "ADD a b \\\n# c\n d", "\tCOPY é b  ",
];

/// Lines as the position reports count them.
fn line_col(t: &str, pos: usize) -> (usize, usize) {
  let line = t[..pos].matches('\n').count() + 1;
  let from = t[..pos].rfind('\n').map_or(0, |n| n + 1);
  (line, t[from..pos].chars().count() + 1)
}

fn judge_syntax(t: &str, bad: (usize, usize), ctx: &mut Ctx) -> Res {
  use pest::error::{InputLocation, LineColLocation};
  ctx.trace();
  let e = match d::Dockerfile::parse(t) {
    Ok(f) => return Err(format!("accepted as {}", clip(&format!("{:?}", norm::all(&f)), 600))),
    Err(e) => e,
  };
  let shown = e.to_string();
  let d::Error::ParseError { source } = e else {
    return Err(format!("reported as {:?}", e));
  };
  let pos = match source.location {
    InputLocation::Pos(p) => p,
    InputLocation::Span((a, _)) => a,
  };
  let (line, col) = match source.line_col {
    LineColLocation::Pos(p) => p,
    LineColLocation::Span(a, _) => a,
  };
  ctx.state(&(t.len(), pos));
  if pos > t.len() || !t.is_char_boundary(pos) {
    return Err(format!("the position {} is not in the text", pos));
  }
  if line_col(t, pos) != (line, col) {
    return Err(format!("position {} is at {:?}, reported as {:?}", pos, line_col(t, pos), (line, col)));
  }
  if !shown.contains(&format!("{}:{}", line, col)) {
    return Err(format!("the message does not name {}:{}: {}", line, col, clip(&shown, 400)));
  }
  if !shown.contains(&format!("{} | ", line)) && !shown.contains(&format!("{} |", line)) {
    return Err(format!("the message does not show line {}: {}", line, clip(&shown, 400)));
  }
  if line < bad.0 || line > bad.1 {
    return Err(format!("reported in line {}, the malformed instruction is in lines {} to {}", line, bad.0, bad.1));
  }
  Ok(())
}

/// A file with one malformed instruction and where it is.
fn broken_file(before: &[&str], bad: &str, after: &[&str], sep: &str) -> (String, (usize, usize)) {
  let mut t = String::new();
  for b in before {
    t.push_str(b);
    t.push_str(sep);
  }
  let first = t.matches('\n').count() + 1;
  t.push_str(bad);
  let last = t.matches('\n').count() + 1;
  for a in after {
    t.push_str(sep);
    t.push_str(a);
  }
  (t, (first, last))
}

pub fn c26(quick: bool) -> Vec<Space> {
  // those whose text alone the model rejects
  let bad: Vec<&'static str> = MALFORMED.iter().copied().filter(|t| model::parse(t) == Err(model::Err::Syntax)).collect();
  let nb = bad.len() as u64;
  let nf = FILL.len() as u64;
  let seps: &'static [&'static str] = &["\n", "\r\n", "\n\n"];
  let depth = q(quick, 3u32, 4);
  let mut v = vec![];
  let total = pow_sum(nf, depth);
  // sequences of filling lines, the malformed one at each place in them
  let b2 = bad.clone();
  let make = move |i: u64| {
    let sep = seps[(i % 3) as usize];
    let b = b2[(i / 3 % nb) as usize];
    let at = (i / 3 / nb % (depth as u64 + 1)) as usize;
    let ids = seq(i / 3 / nb / (depth as u64 + 1), nf);
    if at > ids.len() {
      return None;
    }
    let fill: Vec<&str> = ids.iter().map(|k| FILL[*k]).collect();
    // a backslash at the end would join the next line
    let after = if b.ends_with('\\') { &[][..] } else { &fill[at..] };
    Some(broken_file(&fill[..at], b, after, sep))
  };
  let m2 = make.clone();
  v.push(Space::new(
    format!("files of up to {} other pieces with one malformed instruction of {}", depth, nb),
    total * 3 * nb * (depth as u64 + 1),
    move |i| format!("{:?}", m2(i)),
    move |i, ctx| match make(i) {
      Some((t, range)) => {
        ctx.steps(depth as usize);
        judge_syntax(&t, range, ctx)
      }
      None => Ok(()),
    },
  ));
  // after many lines
  let sz = sizes(q(quick, 120, 400), q(quick, 2048, 20000));
  let nz = sz.len() as u64;
  let b3 = bad.clone();
  let make = move |i: u64| {
    let b = b3[(i % nb) as usize];
    let n = sz[(i / nb / 4) as usize];
    let (fill, after): (&str, &[&str]) = match i / nb % 4 {
      0 => ("RUN a", &[]),
      1 => ("# é\nRUN é \\\n b", &["RUN b"]),
      2 => ("", &["", "# c"]),
      _ => ("ENV a=b \\\r\n c=d", &["CMD x", "FROM a"]),
    };
    let after = if b.ends_with('\\') { &[][..] } else { after };
    broken_file(&vec![fill; n], b, after, if n % 2 == 0 { "\n" } else { "\r\n" })
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      "one malformed instruction after many lines",
      nb * 4 * nz,
      move |i| clip(&format!("{:?}", m2(i)), 400),
      move |i, ctx| {
        let (t, range) = make(i);
        ctx.steps(1);
        judge_syntax(&t, range, ctx)
      },
    )
    .chunk(4),
  );
  // digests and escapes
  let ns = SPECIAL.len() as u64;
  let d2 = q(quick, 2, 3);
  let make = move |i: u64| {
    let (b, e) = SPECIAL[(i % ns) as usize];
    let at = (i / ns % (d2 as u64 + 1)) as usize;
    let ids = seq(i / ns / (d2 as u64 + 1), nf);
    if at > ids.len() {
      return None;
    }
    let fill: Vec<&str> = ids.iter().map(|k| FILL[*k]).collect();
    Some((broken_file(&fill[..at], b, &fill[at..], "\n").0, e))
  };
  let m2 = make.clone();
  v.push(Space::new(
    "digests and escapes among other pieces",
    pow_sum(nf, d2) * ns * (d2 as u64 + 1),
    move |i| format!("{:?}", m2(i)),
    move |i, ctx| {
      let Some((t, want)) = make(i) else { return Ok(()) };
      ctx.trace();
      ctx.steps(1);
      let want = if t.contains("COPY [") { model::parse(&t).err().unwrap_or(want) } else { want };
      match d::Dockerfile::parse(&t) {
        Err(e) => {
          let shown = e.to_string();
          ctx.state(&shown);
          if norm::err(&e) != want || shown.is_empty() {
            return Err(format!("reported as {:?}, expected {:?}", e, want));
          }
          Ok(())
        }
        Ok(f) => Err(format!("accepted as {:?}", norm::all(&f))),
      }
    },
  ));
  // up to six of one piece and of another before it
  let counts = q(quick, 6u64, 12) + 1;
  let bad2 = bad.clone();
  let firsts: &'static [&'static str] = &["FROM a", "FROM b AS c", "ARG e", "ARG e=\"f\"", "RUN a", "# c", "", "ENV a=b \\\n # c\n c=d", "LABEL a=\"b\\\nc\"", "CMD [\"é\"]", "ENTRYPOINT a", "COPY a b", "ADD a b"];
  let nk = firsts.len() as u64;
  let make = move |i: u64| {
    let (b, i) = (i % (ns + nb), i / (ns + nb));
    let (a, i) = (firsts[(i % nk) as usize], i / nk);
    let (c, i) = (firsts[(i % nk) as usize], i / nk);
    let (n, m) = (i % counts, i / counts);
    let fill: Vec<&str> = (0..n).map(|_| a).chain((0..m).map(|_| c)).collect();
    match SPECIAL.get(b as usize) {
      Some((b, e)) => (broken_file(&fill, b, &["RUN z"], "\n"), Some(*e)),
      None => {
        let b = bad2[(b - ns) as usize];
        (broken_file(&fill, b, if b.ends_with('\\') { &[] } else { &["RUN z"] }, "\n"), None)
      }
    }
  };
  let m2 = make.clone();
  v.push(Space::new(
    format!("an error after up to {} of one piece and of another", counts - 1),
    (ns + nb) * nk * nk * counts * counts,
    move |i| format!("{:?}", m2(i).0),
    move |i, ctx| {
      let ((t, range), want) = make(i);
      ctx.steps(2);
      let Some(want) = want else { return judge_syntax(&t, range, ctx) };
      ctx.trace();
      let want = if t.contains("COPY [") { model::parse(&t).err().unwrap_or(want) } else { want };
      match d::Dockerfile::parse(&t) {
        Err(e) if norm::err(&e) == want => {
          ctx.state(&(t.len(), e.to_string()));
          Ok(())
        }
        Err(e) => Err(format!("reported as {:?}, expected {:?}", e, want)),
        Ok(f) => Err(format!("accepted as {}", clip(&format!("{:?}", norm::all(&f)), 600))),
      }
    },
  ));
  // the same after many lines
  let far = sizes(q(quick, 300, 1000), q(quick, 2048, 20000));
  let nr = far.len() as u64;
  let make = move |i: u64| {
    let (b, e) = SPECIAL[(i % ns) as usize];
    let fill = ["RUN a", "# é", "", "FROM a AS b", "ARG a=\"b\"", "LABEL a=\"b\\\nc\""][(i / ns % 6) as usize];
    let n = far[(i / ns / 6) as usize];
    (broken_file(&vec![fill; n], b, &vec![fill; n % 7], if n % 2 == 0 { "\n" } else { "\r\n" }).0, e)
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      "digests and escapes after many lines",
      ns * 6 * nr,
      move |i| clip(&format!("{:?}", m2(i)), 400),
      move |i, ctx| {
        let (t, want) = make(i);
        ctx.trace();
        ctx.steps(1);
        let want = if t.contains("COPY [") { model::parse(&t).err().unwrap_or(want) } else { want };
        match d::Dockerfile::parse(&t) {
          Err(e) if norm::err(&e) == want => {
            ctx.state(&(t.len(), e.to_string()));
            Ok(())
          }
          Err(e) => Err(format!("reported as {:?}, expected {:?}", e, want)),
          Ok(f) => Err(format!("accepted as {}", clip(&format!("{:?}", norm::all(&f)), 600))),
        }
      },
    )
    .chunk(4),
  );
  // every number of lines
  let top = q(quick, 4200u64, 10_000);
  v.push(
    Space::new(
      format!("an error after any number of lines up to {}", top),
      top * 3,
      move |i| format!("form {} after {} lines", i % 3, i / 3),
      move |i, ctx| {
        let n = (i / 3) as usize;
        ctx.steps(1);
        match i % 3 {
          0 => judge_syntax(&format!("{}RUN\n", "\n".repeat(n)), (n + 1, n + 1), ctx),
          1 => judge_syntax(&format!("{}FROM a b\nRUN c", "# é\n".repeat(n)), (n + 1, n + 1), ctx),
          _ => {
            ctx.trace();
            match d::Dockerfile::parse(&format!("{}FROM a@sha256:0", "\n".repeat(n))) {
              Err(e) if norm::err(&e) == model::Err::Digest => Ok(()),
              r => Err(format!("the digest is reported as {}", clip(&format!("{:?}", r.map(|f| norm::all(&f))), 400))),
            }
          }
        }
      },
    )
    .chunk(4),
  );
  // comments as they stand in real files, around the malformed instruction
  let nc = REAL_COMMENTS.len() as u64;
  let make = move |i: u64| {
    let b = bad[(i % nb) as usize];
    let c = REAL_COMMENTS[(i / nb % nc) as usize];
    let before: &[&str] = match i / nb / nc % 4 {
      0 => &[c],
      1 => &["FROM a", c, "RUN b"],
      2 => &[c, "", c, "RUN b \\\n# c\n d"],
      _ => &[],
    };
    let after = if b.ends_with('\\') { vec![] } else { vec![c, "CMD a"] };
    broken_file(before, b, &after, if i / nb / nc / 4 == 0 { "\n" } else { "\r\n" })
  };
  let m2 = make.clone();
  v.push(Space::new(
    "malformed instructions among real comments",
    nb * nc * 8,
    move |i| format!("{:?}", make(i)),
    move |i, ctx| {
      let (t, range) = m2(i);
      ctx.steps(1);
      judge_syntax(&t, range, ctx)
    },
  ));
  // any rejected text: the kind of error, and a consistent position
  let consistent = |t: &str, ctx: &mut Ctx| -> Res {
    let m = model::parse(t);
    let lines = t.matches('\n').count() + 1;
    match m {
      Err(model::Err::Syntax) => judge_syntax(t, (1, lines), ctx),
      _ => {
        let p = norm::parse(t);
        ctx.trace();
        ctx.state(&p);
        compare(t, &p, &m, aspect::ACCEPT | aspect::ERRKIND)
      }
    }
  };
  v.push(general(q(quick, 3, 4)).space(consistent));
  let malformed = ["# c\nFROM a\n RUN\n", "FROM a\nFROM b c d\nRUN e", "LABEL a=b c\nRUN x", "ARG a=\"\\q\"", "FROM a@sha256:0 AS b", "ENV a=b \\\n c\nRUN d", "COPY a\n1\n"];
  for t in vocabulary(&["FROM", "ARG", "ENV", "LABEL", "exec", "comments", "lines", "wide"]).into_iter().chain(placed_words(&[&all_seeds()[..], &malformed].concat())) {
    v.push(t.space(consistent));
  }
  v.push(edits1("single edits of seed files", &all_seeds(), &all_chars()).space(consistent));
  v.push(unicode("scalar values in context", &[("", "\nRUN"), ("FROM a ", " b"), ("LABEL a=b ", ""), ("# ", "\n1"), ("RUN ", "\n=")], q(quick, 0x20000, 0x110000)).space(consistent));
  // lines of up to six tokens between two good ones
  let toks: &[&str] = &["FROM", "a", " ", "AS", "=", "LABEL ", "RUN", "1", "\"", "é", "ARG ", "ENV "];
  v.push(
    tokens("a line of tokens among good ones", &["FROM x\nRUN a \\\n b\n"], toks, q(quick, 4, 5), &["", "\n# c\nRUN z\n"]).space(|t, ctx| {
      if model::parse(t) != Err(model::Err::Syntax) || t.matches('"').count() > 0 {
        return Ok(());
      }
      judge_syntax(t, (4, 4), ctx)
    }),
  );
  v
}
