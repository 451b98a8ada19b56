//! Build stages: C16, C17.

use super::basic::q;
use crate::corpus::*;
use crate::engine::*;
use crate::lexicon::{lexicon, placed_words};
use crate::model::{self, Body, Ins};
use crate::norm;
use dockerfile_parser as d;

#[derive(Clone, PartialEq, Debug, Hash)]
enum Parent {
  Scratch,
  Stage(usize),
  Image(model::Img),
}

#[derive(Clone, PartialEq, Debug, Hash)]
struct Stage {
  index: usize,
  name: Option<String>,
  /// numbers of its instructions in the file
  instructions: Vec<usize>,
  parent: Parent,
  root: Parent,
}

/// Reference stages of a list of instructions.
fn reference(list: &[Ins]) -> Vec<Stage> {
  let mut out: Vec<Stage> = vec![];
  for (n, i) in list.iter().enumerate() {
    match &i.body {
      Body::From { image, parsed, alias, .. } => {
        let mut parent = Parent::Image(parsed.clone());
        if image.text.eq_ignore_ascii_case("scratch") {
          parent = Parent::Scratch;
        } else {
          for s in &out {
            if s.name.as_ref().map_or(false, |n| n.eq_ignore_ascii_case(&image.text)) {
              parent = Parent::Stage(s.index);
              break;
            }
          }
        }
        let mut root = parent.clone();
        while let Parent::Stage(k) = root {
          root = out[k].parent.clone();
        }
        out.push(Stage {
          index: out.len(),
          name: alias.as_ref().map(|a| a.text.to_ascii_lowercase()),
          instructions: vec![n],
          parent,
          root,
        });
      }
      _ => {
        if let Some(s) = out.last_mut() {
          s.instructions.push(n);
        }
      }
    }
  }
  out
}

fn parent(p: &d::StageParent) -> Parent {
  match p {
    d::StageParent::Scratch => Parent::Scratch,
    d::StageParent::Stage(n) => Parent::Stage(*n),
    d::StageParent::Image(i) => Parent::Image(norm::img(i)),
  }
}

/// What the library reports for one stage; instructions by identity.
fn observed(f: &d::Dockerfile, s: &d::Stage) -> Result<Stage, String> {
  let mut ids: Vec<usize> = vec![];
  for i in &s.instructions {
    let expected = ids.last().map_or(0, |n| n + 1);
    let next = f.instructions.get(expected).filter(|x| std::ptr::eq(*x, *i)).map(|_| expected);
    match next.or_else(|| f.instructions.iter().position(|x| std::ptr::eq(x, *i))) {
      Some(n) => ids.push(n),
      None => return Err(format!("stage {} holds an instruction that is not of the file", s.index)),
    }
  }
  Ok(Stage {
    index: s.index,
    name: s.name.clone(),
    instructions: ids,
    parent: parent(&s.parent),
    root: parent(&s.root),
  })
}

fn parse(t: &str) -> Result<(d::Dockerfile, Vec<Ins>), String> {
  let f = d::Dockerfile::parse(t).map_err(|e| format!("the file is rejected: {}", e))?;
  let l = norm::all(&f);
  Ok((f, l))
}

fn c16_judge(t: &str, ctx: &mut Ctx) -> Res {
  let (f, list) = parse(t)?;
  let m = reference(&list);
  ctx.trace();
  let stages = f.stages();
  if stages.stages.len() != m.len() {
    return Err(format!("{} stages, expected {}", stages.stages.len(), m.len()));
  }
  let mut seen = vec![];
  for s in &stages.stages {
    seen.push(observed(&f, s)?);
  }
  ctx.state(&seen);
  for (a, e) in seen.iter().zip(&m) {
    if a.index != e.index || a.instructions != e.instructions || a.name != e.name {
      return Err(format!("stage {:?}, expected {:?}", a, e));
    }
  }
  let same = |what: &str, s: Option<&d::Stage>, n: usize| -> Res {
    match s {
      Some(s) if observed(&f, s)? == seen[n] => Ok(()),
      o => Err(format!("{} gives {:?} for stage {}", what, o.map(|s| s.index), n)),
    }
  };
  for n in 0..m.len() {
    same("indexing", Some(&stages[n]), n)?;
    same("get", stages.get(&n.to_string()), n)?;
    if m.len() > 70 && n > 20 && n + 20 < m.len() {
      continue;
    }
    same("iter", stages.iter().nth(n), n)?;
    same("iter_stages", f.iter_stages().nth(n).as_ref(), n)?;
    same("Stages::new", d::Stages::new(&f).into_iter().nth(n).as_ref(), n)?;
  }
  if stages.iter().count() != m.len() || f.iter_stages().count() != m.len() || f.stages().into_iter().count() != m.len() {
    return Err("the iterators disagree on the number of stages".into());
  }
  if m.len() <= 70 {
    // ordering and equality follow the index
    for (i, a) in stages.iter().enumerate() {
      for (j, b) in stages.iter().enumerate() {
        if (a == b) != (i == j) || a.cmp(b) != i.cmp(&j) || a.partial_cmp(b) != Some(i.cmp(&j)) {
          return Err(format!("stages {} and {} are ordered wrongly", i, j));
        }
      }
    }
  }
  // positions of arguments
  let mut names: Vec<String> = vec!["p".into(), "P".into(), "q".into(), "nope".into(), "".into(), "pp".into()];
  names.extend(list.iter().take(40).filter_map(|i| match &i.body {
    Body::Arg { name, .. } => Some(name.text.clone()),
    _ => None,
  }));
  for (n, s) in stages.iter().enumerate().take(60) {
    for name in &names {
      let want = m[n].instructions.iter().position(|k| match &list[*k].body {
        Body::Arg { name: x, .. } => x.text == *name,
        _ => false,
      });
      let got = s.arg_index(name);
      if got != want {
        return Err(format!("arg_index({:?}) of stage {} is {:?}, expected {:?}", name, n, got, want));
      }
    }
  }
  Ok(())
}

/// files whose words are replaced by others
const STAGED: &[&str] = &[
  "ARG g\nFROM a AS b\nRUN c\nARG p\nFROM b AS d\nARG q=1\nCOPY --from=b e f\nARG r\nFROM d\nARG s\n",
  "FROM scratch AS x\nFROM X\nFROM x AS y\nUSER z\n",
];

fn c17_words(t: &str, ctx: &mut Ctx) -> Res {
  if crate::model::parse(t).is_err() {
    return Ok(());
  }
  let mut keys: Vec<&str> = lexicon().new.iter().map(|s| s.as_str()).collect();
  keys.extend(["b", "d", "scratch", "0"]);
  c17_judge(t, &keys, ctx)
}

fn c16_known(t: &str, ctx: &mut Ctx) -> Res {
  if crate::model::parse(t).is_err() {
    return Ok(());
  }
  c16_judge(t, ctx)
}

fn c17_judge(t: &str, lookups: &[&str], ctx: &mut Ctx) -> Res {
  let (f, list) = parse(t)?;
  let m = reference(&list);
  ctx.trace();
  let stages = f.stages();
  if stages.stages.len() != m.len() {
    return Err(format!("{} stages, expected {}", stages.stages.len(), m.len()));
  }
  for (n, s) in stages.stages.iter().enumerate() {
    let (p, r) = (parent(&s.parent), parent(&s.root));
    ctx.state(&(n, &p, &r));
    if p != m[n].parent {
      return Err(format!("stage {} has parent {:?}, expected {:?}", n, p, m[n].parent));
    }
    if r != m[n].root {
      return Err(format!("stage {} has root {:?}, expected {:?}", n, r, m[n].root));
    }
    let shown = |p: &Parent| match p {
      Parent::Scratch => "scratch".to_string(),
      Parent::Stage(n) => n.to_string(),
      Parent::Image(_) => list[m[n].instructions[0]].clone().image_text(),
    };
    if s.parent.to_string() != shown(&m[n].parent) {
      return Err(format!("the parent of stage {} prints as {}", n, s.parent));
    }
  }
  let mut keys: Vec<String> = lookups.iter().map(|s| s.to_string()).collect();
  keys.extend(m.iter().take(30).filter_map(|s| s.name.clone()));
  keys.extend(m.iter().take(30).filter_map(|s| s.name.as_ref().map(|n| n.to_ascii_uppercase())));
  for n in [0, 1, 2, 3, 9, 10, 11, 99, 100, m.len(), m.len().max(1) - 1, m.len() + 1] {
    keys.push(n.to_string());
  }
  for k in &keys {
    let by_name = m.iter().position(|s| s.name.as_ref().map_or(false, |n| n.eq_ignore_ascii_case(k)));
    let got = stages.get_by_name(k).map(|s| s.index);
    if got != by_name {
      return Err(format!("get_by_name({:?}) gives {:?}, expected {:?}", k, got, by_name));
    }
    let want = match k.parse::<usize>() {
      Ok(n) => Some(n).filter(|n| *n < m.len()),
      Err(_) => by_name,
    };
    let got = stages.get(k).map(|s| s.index);
    if got != want {
      return Err(format!("get({:?}) gives {:?}, expected {:?}", k, got, want));
    }
  }
  Ok(())
}

impl Ins {
  fn image_text(self) -> String {
    match self.body {
      Body::From { image, .. } => image.text,
      _ => String::new(),
    }
  }
}

const LINES16: &[&str] = &[
  "FROM a", "FROM b AS x", "ARG p", "ARG q=1", "RUN r", "FROM x AS Y", "ENV e=f", "ARG P", "COPY s t", "LABEL p=q", "CMD c",
  "ARG pp=p", "WORKDIR w", "ENTRYPOINT e",
];

const LINES17: &[&str] = &[
  "FROM a", "FROM a AS x", "FROM x", "FROM x AS y", "FROM X AS Z", "FROM y AS x", "FROM scratch", "FROM scratch AS scratch",
  "FROM Scratch AS a", "FROM y", "FROM r.io/x:1 AS 1", "FROM 1", "FROM 0 AS 0", "FROM x:1 AS xX", "FROM z AS x-1", "FROM x-1",
  "RUN q", "FROM $x AS b", "FROM a AS X", "FROM xx AS scratch-1", "FROM scratch-1",
];

const LOOKUPS: &[&str] = &[
  "x", "X", "y", "Y", "z", "a", "scratch", "SCRATCH", "0", "1", "2", "00", "01", "x-1", "X-1", "-1", "", " ", "1 ", "nope",
  "18446744073709551615", "18446744073709551616", "xx", "xX", "b", "é", "x:1", "r.io/x:1", "4294967296", "0x0", "1.0", "alias",
];

/// names, numbers and texts close to them
const KEYS: &[&str] = &[
  "k", "K", "\u{212a}", "s", "S", "\u{17f}", "i", "I", "\u{131}", "\u{130}", "\u{e9}", "\u{c9}", "\u{df}", "ss", "-1", "-0", "-", "--", "_", "+0", "+1", "1", "01", "1 ", " 1", "\n1", "1_0", "1-0", "0x1", "1e0",
  "1.0", "0b1", "\u{661}", "\u{ff11}", "127", "128", "255", "256", "257", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808",
  "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "00000000000000000000001", "340282366920938463463374607431768211456", "-9223372036854775808", "1usize", "true", "inf",
  "NaN", "scratch", "Scratch", "scratch:1", "scratch:latest", "scratch@x", "library/scratch", "docker.io/library/scratch", "scratch-1", "none", "null", "stage-1", "a.b", "a/b", "$k", "${k}", "\"k\"", "k:latest", "", " ", "k\0", "k\n", "kk",
];

fn files(lines: &'static [&'static str], depth: u32, sep: &'static str) -> Texts {
  let base = lines.len() as u64;
  Texts::new(
    &format!("files of up to {} lines out of {}", depth, base),
    pow_sum(base, depth),
    move |i| {
      let s = seq(i, base);
      let mut t = String::new();
      for k in &s {
        t.push_str(lines[*k]);
        t.push_str(sep);
      }
      (t, s.len())
    },
  )
}

const STAGE_FAMILIES: &[Family] = &[
  ("chain", |n| {
    let mut t = String::from("FROM base AS s0\n");
    for k in 1..=n {
      t.push_str(&format!("FROM s{} AS s{}\nRUN a\n", k - 1, k));
    }
    t
  }),
  ("chain from scratch, mixed case", |n| {
    let mut t = String::from("FROM Scratch AS S0\n");
    for k in 1..=n {
      t.push_str(&format!("FROM {}{} AS {}{}\n", if k % 2 == 0 { "s" } else { "S" }, k - 1, if k % 3 == 0 { "s" } else { "S" }, k));
    }
    t
  }),
  ("independent stages", |n| (0..n).map(|k| format!("FROM i{} AS n{}\nRUN x\n", k, k)).collect()),
  ("stages without names", |n| (0..n).map(|k| format!("FROM i{}\n", k)).collect()),
  ("one name again and again", |n| "FROM x AS x\n".repeat(n)),
  ("star", |n| format!("FROM b AS x\n{}", "FROM x\nARG p\n".repeat(n))),
  ("long stage", |n| format!("ARG g\nFROM b\n{}ARG p\nFROM c\nARG p", "RUN a\n".repeat(n))),
  ("many instructions before", |n| format!("{}FROM b\nARG p\n", "ARG p\n".repeat(n))),
  ("backward references", |n| {
    let mut t = String::new();
    for k in 0..n {
      t.push_str(&format!("FROM s{} AS s{}\n", k / 2, n - k));
    }
    t
  }),
  ("long name", |n| format!("FROM a AS {}\nFROM {}\n", "x".repeat(n + 1), "X".repeat(n + 1))),
];

/// those that take time in proportion to their size
const LINEAR: &[Family] = &[
  ("long stage", |n| format!("ARG g\nFROM b\n{}ARG p\nFROM c\nARG p", "RUN a\n".repeat(n))),
  ("long stage of arguments", |n| format!("FROM b\n{}ARG q\nARG p\n", "ARG p=1\n".repeat(n))),
  ("many instructions before", |n| format!("{}FROM b\nARG p\n", "ARG p\n".repeat(n))),
  ("long last stage", |n| format!("FROM a AS b\nRUN c\nFROM b AS d\n{}ARG p", "ENV a=b\nLABEL c=d\n".repeat(n / 2))),
  ("long name", |n| format!("FROM a AS {}\nFROM {}\n", "x".repeat(n + 1), "X".repeat(n + 1))),
];

/// names of the same length that differ at one end, and one that extends the other
const NAMES: &[Family] = &[
  ("names that differ at the end", |n| { let x = "x".repeat(n); format!("FROM a AS {x}1\nFROM b AS {x}2\nFROM {x}2\nFROM {x}1\nFROM {x}\nFROM {x}3\n") }),
  ("names that differ at the start", |n| { let x = "x".repeat(n); format!("FROM a AS y{x}\nFROM b AS z{x}\nFROM z{x}\nFROM y{x}\nFROM w{x}\n") }),
  ("names that differ in the middle", |n| { let x = "x".repeat(n / 2); format!("FROM a AS s{x}0{x}\nFROM b AS s{x}1{x}\nFROM S{x}1{x}\nFROM s{x}2{x}") }),
  ("a name that extends another", |n| { let x = "ab-".repeat(n); format!("FROM i AS x{x}\nFROM i AS x{x}c\nFROM x{x}C\nFROM x{x}\nFROM x{x}cd\n") }),
  ("numbers", |n| format!("FROM a AS x\nFROM x AS n{0}\nFROM n{0} AS b{0}-{0}\nFROM b{0}-{0}\nFROM {0}\n", n)),
];

pub fn c16(quick: bool) -> Vec<Space> {
  let mut v = vec![
    files(LINES16, q(quick, 5, 6), "\n").space(c16_judge),
    files(LINES17, q(quick, 3, 4), "\nARG p\n").space(c16_judge),
    product("real stages", &[&["FROM "], REAL_IMAGES, REAL_ALIASES, &["\nARG x\nFROM ", "\nRUN b\nFROM "], REAL_IMAGES, REAL_TAGS, REAL_ALIASES, &["\nCOPY --from=0 a b"]]).space(c16_known),
    product("real instructions in stages", &[&["FROM a\n", ""], REAL_KEYWORDS, REAL_MISC, &["\nARG "], REAL_NAMES, &["\nFROM b", "\nONBUILD FROM b\nRUN x"]]).space(c16_known),
    families("families", STAGE_FAMILIES, sizes_to(q(quick, 130, 300), q(quick, 512, 2048), 2100)).space(c16_judge).chunk(1),
    families("long families", LINEAR, [sizes(3, q(quick, 16384, 65536)), HUGE.to_vec()].concat()).space(c16_known).chunk(1),
  ];
  for t in placed_words(STAGED) {
    v.push(t.space(c16_known));
  }
  v.push(look_alike_texts("arguments", sizes_to(70, q(quick, 1024, 8192), 5000), &[
    |a, b, c| format!("FROM x\nARG {}\nARG {}\nFROM y\nARG {}\n", a, b, c),
    |a, b, _| format!("FROM x AS {}\nARG {}\nFROM {} AS {}\nARG {}=1\nARG {}", a, a, b, b, b, a),
  ]).space(c16_known));
  // any instruction, within a stage of several
  for t in [from_tokens(3), arg_tokens(3), label_tokens(3), command_tokens(3), copy_tokens(3), env_tokens(3), misc_tokens(3)] {
    v.push(within(t).space(c16_known));
  }
  v.push(within(edits1("single edits of seed files", &all_seeds(), if quick { &['\n', '"', ' ', 'a', '\\', '#', '='] } else { EDITS })).space(c16_known));
  for t in vocabulary(if quick { &["misc", "LABEL", "lines", "comments"] } else { ALL_REAL }) {
    v.push(within(t).space(c16_known));
  }
  v.push(families("families", FAMILIES, sizes_to(40, q(quick, 512, 2048), 2100)).space(c16_known).chunk(1));
  v
}

const EDITS: &[char] = &[' ', '\t', '\n', '\r', '\\', '#', '"', '\'', '=', '[', ']', ',', '-', ':', '@', '/', '$', 'a', '0', 'é'];

/// The texts of another set within the first stage, a later one, before all
/// of them or after an unnamed one.
fn within(inner: Texts) -> Texts {
  let get = inner.get;
  const PLACES: &[(&str, &str)] = &[("FROM x\nARG p\nFROM y AS z\n", "\nARG p\nFROM Z\nARG q"), ("", "\nFROM x\nARG p\n"), ("ARG p\nFROM x AS y\n", "\nFROM y")];
  let n = PLACES.len() as u64;
  Texts::new(&format!("{}, within stages", inner.name), inner.size * n, move |i| {
    let (t, k) = get(i / n);
    let (a, b) = PLACES[(i % n) as usize];
    (format!("{}{}{}", a, t, b), k + 2)
  })
}

pub fn c17(quick: bool) -> Vec<Space> {
  let judge = |t: &str, ctx: &mut Ctx| c17_judge(t, LOOKUPS, ctx);
  // one alias and one image, in every letter case, spelled from few letters
  let toks: &'static [&'static str] = &["a", "A", "b", "B", "_", "-", "0", "1"];
  let base = toks.len() as u64;
  let d = q(quick, 2, 3);
  let n = pow_sum(base, d);
  let make = move |i: u64| {
    let w = |i: u64| seq(i, base).iter().map(|k| toks[*k]).collect::<String>();
    let (a, b) = (w(i % n), w(i / n));
    format!("FROM i AS k{}\nFROM k{} AS {}x\nFROM {}x\n", a, b, b, a)
  };
  let names = Space::new(
    format!("pairs of names (characters={}, length<={})", base, d),
    n * n,
    move |i| format!("{:?}", make(i)),
    move |i, ctx| {
      ctx.steps(2);
      c17_judge(&make(i), &["k", "kA", "Ka0", "kb_"], ctx)
    },
  );
  // names and texts to look up, each against each
  let looked: &'static [&'static str] = KEYS;
  let keys = Space::new(
    format!("names and lookups (keys={})", looked.len()),
    (looked.len() * looked.len()) as u64,
    move |i| format!("alias {:?}, image {:?}", looked[i as usize % looked.len()], looked[i as usize / looked.len()]),
    move |i, ctx| {
      let (a, b) = (looked[i as usize % looked.len()], looked[i as usize / looked.len()]);
      ctx.steps(2);
      let t = format!("FROM x AS q\nFROM y AS {}\nFROM {} AS r\nFROM {} AS {}\n", a, b, a, b);
      if model::parse(&t).is_err() {
        return Ok(());
      }
      c17_judge(&t, looked, ctx)
    },
  );
  let affix: &'static [&'static str] = &["", "-", "_", ".", "0", "+", " ", "a", "x", "#", "n", "e", "--", "\t", ",", "'", "[", "]", "(", ")", "@", ":", "/", "th", "st", "u"];
  let nums: &'static [&'static str] = &["0", "1", "2", "3", "10", "01"];
  let (nx, nn) = (affix.len() as u64, nums.len() as u64);
  let make = move |i: u64| format!("{}{}{}", affix[(i % nx) as usize], nums[(i / nx / nx) as usize], affix[(i / nx % nx) as usize]);
  let numbers = Space::new(
    format!("numbers within names and lookups ({})", nx * nx * nn),
    nx * nx * nn,
    move |i| make(i),
    move |i, ctx| {
      let k = make(i);
      ctx.steps(2);
      for t in [format!("FROM a\nFROM b\nFROM c AS {}\nFROM {}\n", k, k), format!("FROM a AS {}\nFROM b\nFROM {}\n", k, k), "FROM a\nFROM b\nFROM c\n".to_string()] {
        if model::parse(&t).is_ok() {
          c17_judge(&t, &[&k], ctx)?;
        }
      }
      Ok(())
    },
  );
  let mut v = vec![
    keys,
    numbers,
    files(LINES17, q(quick, 4, 5), "\n").space(judge),
    names,
    product("real stages", &[&["FROM "], REAL_IMAGES, REAL_ALIASES, &["\nRUN b\nFROM "], REAL_IMAGES, REAL_TAGS, REAL_ALIASES]).space(move |t, ctx| {
      if model::parse(t).is_err() {
        return Ok(());
      }
      c17_judge(t, &["builder", "base", "Base", "final", "0", "scratch", "latest", "from", "as", "ubuntu", "build-env", "docker", "localhost"], ctx)
    }),
    families("families", STAGE_FAMILIES, sizes_to(q(quick, 300, 300), q(quick, 512, 2048), 5000)).space(judge).chunk(1),
    families("pairs of long names", NAMES, [sizes(300, 8192), HUGE.to_vec()].concat()).space(judge).chunk(1),
  ];
  for t in placed_words(STAGED) {
    v.push(t.space(c17_words));
  }
  v.push(look_alike_texts("names", sizes_to(70, q(quick, 1024, 8192), 5000), &[
    |a, b, c| format!("FROM i AS {}\nFROM i AS {}\nFROM {}\nFROM {}\nFROM {}\n", a, b, b, a, c),
    |a, b, c| format!("FROM {}\nFROM {} AS {}\nFROM {} AS {}\nFROM {}\n", a, b, b, a, c, c.to_uppercase()),
  ]).space(judge));
  v
}
