//! Image references and variables: C13, C14, C15.

use super::basic::q;
use crate::corpus::*;
use crate::engine::*;
use crate::lexicon::{lexicon, placed_words};
use crate::model;
use crate::norm;
use dockerfile_parser as d;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// ---------------------------------------------------------------- C13

pub fn c13_judge(t: &str, ctx: &mut Ctx) -> Res {
  let r = d::ImageRef::parse(t);
  ctx.trace();
  let a = norm::img(&r);
  ctx.state(&a);
  let printed = r.to_string();
  if printed != t {
    return Err(format!("prints as {:?}", printed));
  }
  let m = model::split_image(t);
  if a != m {
    return Err(format!("split as {:?}, expected {:?}", a, m));
  }
  let again = d::ImageRef::parse(&printed);
  if again != r || r.clone() != r {
    return Err("the printed reference splits differently".into());
  }
  Ok(())
}

const IMAGE_CONTEXTS: &[(&str, &str)] = &[
  ("", ""), ("", "/a"), ("a", "/b"), ("a.", "/b:c"), ("a/b", "c"), ("a:", "b"), ("a@", "b"), ("a", ":b"), ("localhost", "/a"), ("", "localhost/a"),
  ("a/b:", "@c"), ("a@b", ":c"), ("a", "@"),
];

const IMAGE_FAMILIES: &[Family] = &[
  ("path parts", |n| format!("a.b{}:c", "/d".repeat(n))),
  ("colons", |n| format!("a/b{}", ":c".repeat(n))),
  ("ats", |n| format!("a:b{}", "@c".repeat(n))),
  ("name", |n| "a".repeat(n)),
  ("registry", |n| format!("{}.b/c:d", "a".repeat(n))),
  ("tag", |n| format!("a:{}", "b".repeat(n))),
  ("digest", |n| format!("a@sha256:{}", "0".repeat(n))),
  ("multi-byte name", |n| format!("{}:é/a@b", "é".repeat(n))),
  ("slashes", |n| format!("{}a:b", "/".repeat(n))),
];

pub fn c13(quick: bool) -> Vec<Space> {
  let mut v = vec![
    tokens("image strings", &[""], &["a", "/", ":", "@", ".", "localhost", "$v", "é", "-", "0", ""].split_at(10).0, q(quick, 6, 7), &[""]).space(c13_judge),
    tokens("image strings in a registry", &["r.io/", "localhost/", "h:1/", "u/"], &["a", "/", ":", "@", ".", "_", "${v}", "A"], q(quick, 5, 6), &[""]).space(c13_judge),
    tokens("words that resemble localhost", &["", "a"], &["localhost", "LOCALHOST", "localhos", "Localhost", "/", ":", ".", "@", "t", "l"], q(quick, 4, 5), &["", "/i:t"]).space(c13_judge),
    unicode("scalar values in context", IMAGE_CONTEXTS, q(quick, 0x20000, 0x110000)).space(c13_judge),
    edits1("single edits", &["localhost/a:b", "r.io:80/a/b:c", "a@sha256:0", "a/b:1@sha256:0f"], &all_chars()).space(c13_judge),
    edits2("double edits", &["localhost/a:b", "r.io:80/a/b:c", "a@sha256:0", "a/b:1@sha256:0f"], &role_chars()).space(c13_judge),
    product("real images", &[REAL_IMAGES, REAL_TAGS]).space(c13_judge),
    product("real images in registries", &[&["a.b/", "a:1/", "localhost/", "docker.io/", "library/", "$R/", "A/", "a/", "/"], REAL_IMAGES, REAL_TAGS]).space(c13_judge),
    families("families", IMAGE_FAMILIES, sizes(q(quick, 300, 2000), q(quick, 4096, 65536))).space(c13_judge).chunk(4),
  ];
  for t in placed_words(&["localhost/a:b", "r.io:80/a/b:c", "a@sha256:0", "a/b:1@sha256:0f", "a", "a.b:1/c/d:e@f:g"]) {
    v.push(t.space(c13_judge));
  }
  v
}

// ---------------------------------------------------------------- C14

/// Reference substitution: Some((text, used)) or None.
pub fn reference_substitute(
  s: &str,
  vars: &BTreeMap<String, String>,
  limit: u32,
  used: &mut BTreeSet<String>,
) -> Option<String> {
  let c: Vec<char> = s.chars().collect();
  let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
  let mut out = String::new();
  let mut i = 0;
  while i < c.len() {
    let mut name = String::new();
    let mut j = i + 1;
    if c[i] == '$' {
      if c.get(j) == Some(&'{') {
        j += 1;
        while j < c.len() && word(c[j]) {
          name.push(c[j]);
          j += 1;
        }
        if c.get(j) == Some(&'}') {
          j += 1;
        } else {
          name.clear();
        }
      } else {
        while j < c.len() && word(c[j]) {
          name.push(c[j]);
          j += 1;
        }
      }
    }
    if name.is_empty() {
      out.push(c[i]);
      i += 1;
      continue;
    }
    if limit == 0 {
      return None;
    }
    let value = vars.get(&name)?.clone();
    out.push_str(&reference_substitute(&value, vars, limit - 1, used)?);
    used.insert(name);
    i = j;
  }
  Some(out)
}

fn run_substitute(
  s: &str,
  vars: &BTreeMap<String, String>,
  before: &[&str],
  limit: u8,
) -> (Option<String>, BTreeSet<String>) {
  let map: HashMap<&str, &str> = vars.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
  let keep = map.clone();
  let mut used: HashSet<String> = before.iter().map(|s| s.to_string()).collect();
  let r = d::substitute(s, &map, &mut used, limit);
  assert!(map == keep, "the variables changed");
  (r, used.into_iter().collect())
}

pub fn judge_substitute(s: &str, vars: &BTreeMap<String, String>, before: &[&str], limit: u8, ctx: &mut Ctx) -> Res {
  let (r, used) = run_substitute(s, vars, before, limit);
  ctx.trace();
  ctx.state(&(&r, &used));
  let mut mused: BTreeSet<String> = before.iter().map(|s| s.to_string()).collect();
  let m = reference_substitute(s, vars, limit as u32, &mut mused);
  if r != m {
    return Err(format!("substituting {:?} with {:?} up to depth {} gives {:?}, expected {:?}", s, vars, limit, r, m));
  }
  if r.is_some() && used != mused {
    return Err(format!("substituting {:?} with {:?} reports {:?} as used, expected {:?}", s, vars, used, mused));
  }
  Ok(())
}

const REFS: &[&str] = &["$a", "${b}", "x", "$", "{", "}", "$c", "${a}", "é", "_", "b", "-", "\n"];
const VALUES: &[&str] = &["", "x", "$a", "$b", "${c}", "é$b.", "$c$c", "$$a", "$d", "${b", "0$b$a"];
const LIMITS: &[u8] = &[0, 1, 2, 3, 4, 16, 255];

fn var_map(mut i: u64, values: &[&str], names: &[&str]) -> BTreeMap<String, String> {
  let mut m = BTreeMap::new();
  for n in names {
    let k = (i % (values.len() as u64 + 1)) as usize;
    i /= values.len() as u64 + 1;
    if k > 0 {
      m.insert(n.to_string(), values[k - 1].to_string());
    }
  }
  m
}

pub fn c14(quick: bool) -> Vec<Space> {
  let depth = q(quick, 2, 3);
  let seqs = pow_sum(REFS.len() as u64, depth);
  let maps = (VALUES.len() as u64 + 1).pow(3);
  let make = move |i: u64| {
    let vars = var_map(i % maps, VALUES, &["a", "b", "c"]);
    let i = i / maps;
    let limit = LIMITS[(i % LIMITS.len() as u64) as usize];
    let s: String = seq(i / LIMITS.len() as u64, REFS.len() as u64).iter().map(|k| REFS[*k]).collect();
    (s, vars, limit)
  };
  // cyclic values double at every level: keep such pairs within small limits
  let explosive = |s: &str, vars: &BTreeMap<String, String>, limit: u8| {
    limit > 8 && expands(s, vars, limit as u32)
  };
  let a = Space::new(
    format!("strings (tokens={}, depth<={}) x definitions of three variables x limits", REFS.len(), depth),
    seqs * maps * LIMITS.len() as u64,
    move |i| format!("{:?}", make(i)),
    move |i, ctx| {
      let (s, vars, limit) = make(i);
      ctx.steps(s.len());
      let limit = if explosive(&s, &vars, limit) { 8 } else { limit };
      judge_substitute(&s, &vars, &[], limit, ctx)
    },
  );
  // longer strings, fewer definitions
  const FEW: &[&[(&str, &str)]] = &[
    &[],
    &[("a", "x")],
    &[("a", "x"), ("b", "yy"), ("c", "")],
    &[("a", "$b"), ("b", "$c"), ("c", "z")],
    &[("a", "$a")],
    &[("a", "$"), ("b", "{"), ("c", "}")],
    &[("a", "b"), ("b", "c"), ("ab", "1"), ("a_", "2"), ("ax", "3"), ("abb", "4")],
    &[("a", "é"), ("b", "$a$a"), ("_", "u"), ("0", "n"), ("c", "$")],
    &[("a", "$b"), ("b", "$a"), ("c", "x")],
    &[("a", "${"), ("b", "a}"), ("c", "$a")],
  ];
  let d2 = q(quick, 4, 5);
  let n2 = pow_sum(REFS.len() as u64, d2);
  let k2 = (FEW.len() * 3) as u64;
  let make2 = move |i: u64| {
    let vars: BTreeMap<String, String> =
      FEW[(i % k2 / 3) as usize].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let limit = [16u8, 2, 1][(i % 3) as usize];
    let s: String = seq(i / k2, REFS.len() as u64).iter().map(|k| REFS[*k]).collect();
    (s, vars, limit)
  };
  let b = Space::new(
    format!("strings (tokens={}, depth<={}) x {} sets of definitions x limits", REFS.len(), d2, FEW.len()),
    n2 * k2,
    move |i| format!("{:?}", make2(i)),
    move |i, ctx| {
      let (s, vars, limit) = make2(i);
      ctx.steps(s.len());
      judge_substitute(&s, &vars, &["z", "a"], limit, ctx)
    },
  );
  // chains of every length against every limit, entered plainly or braced, twice or once
  let top = 256u64;
  let c = Space::new(
    "chains of 0..256 definitions x limits 0..256",
    top * 257,
    move |i| format!("chain of {} definitions, limit {}", i % 257, i / 257),
    move |i, ctx| {
      let (len, limit) = ((i % 257) as usize, (i / 257) as u8);
      let mut vars = BTreeMap::new();
      for k in 0..len {
        vars.insert(
          format!("v{}", k),
          if k + 1 == len { "end".to_string() } else { format!("<{}${{v{}}}", k % 10, k + 1) },
        );
      }
      ctx.steps(len);
      judge_substitute(if len == 0 { "plain" } else { "a $v0/é" }, &vars, &[], limit, ctx)
    },
  );
  // names and values from real files
  let fresh = || lexicon().new.iter().map(|s| s.as_str());
  let names: Vec<&'static str> = fresh().chain(REAL_NAMES.iter().copied()).collect();
  let values: Vec<&'static str> = fresh().chain(REAL_VALUES.iter().copied()).collect();
  let (names, values): (&'static [&str], &'static [&str]) = (Box::leak(names.into_boxed_slice()), Box::leak(values.into_boxed_slice()));
  let (nn, nv) = (names.len() as u64, values.len() as u64);
  let make4 = move |i: u64| {
    let (n1, i) = (names[(i % nn) as usize], i / nn);
    let (n2, i) = (names[(i % nn) as usize], i / nn);
    let (v, i) = (values[(i % nv) as usize], i / nv);
    let (limit, i) = ([1u8, 16][(i % 2) as usize], i / 2);
    let s = match i {
      0 => format!("${}", n1),
      1 => format!("a${{{}}}b", n1),
      2 => format!("${}/${}", n1, n2),
      3 => format!("\\${}", n1),
      _ => format!("${{{}:-x}}${}", n2, n1),
    };
    let mut vars = BTreeMap::new();
    vars.insert(n1.to_string(), v.to_string());
    if n2 < n1 {
      vars.insert("a".to_string(), n2.to_string());
    }
    (s, vars, limit)
  };
  let real = Space::new(
    "real names and values",
    nn * nn * nv * 2 * 5,
    move |i| format!("{:?}", make4(i)),
    move |i, ctx| {
      let (s, vars, limit) = make4(i);
      ctx.steps(2);
      judge_substitute(&s, &vars, &["x"], limit, ctx)
    },
  );
  // many references, long values, repeated and failing late
  let many = sizes_to(q(quick, 200, 1200), q(quick, 8192, 16384), 20_000);
  let shown = many.clone();
  let e = Space::new(
    "strings with many references",
    5 * many.len() as u64,
    move |i| format!("form {} with {} references", i % 5, shown[(i / 5) as usize]),
    move |i, ctx| {
      let n = many[(i / 5) as usize];
      let mut vars = BTreeMap::new();
      for (k, v) in [("a", "1"), ("b", "$a$a"), ("c", ""), ("long", "0123456789")] {
        vars.insert(k.to_string(), v.to_string());
      }
      let s = match i % 5 {
        0 => "$a".repeat(n),
        1 => "${b}é".repeat(n),
        2 => "x$c-".repeat(n),
        3 => format!("{}$nope", "${long}".repeat(n)),
        _ => format!("{}$", "${long} ${a".repeat(n)),
      };
      ctx.steps(n);
      judge_substitute(&s, &vars, &["q"], 3, ctx)
    },
  )
  .chunk(4);
  // every character after a name, in a name and in a value
  let f = Space::new(
    "every scalar value next to and inside references",
    6 * q(quick, 0x20000u64, 0x110000),
    move |i| format!("form {} with scalar {:#x}", i % 6, i / 6),
    move |i, ctx| {
      let ch = char::from_u32((i / 6) as u32).unwrap_or('\u{fffd}');
      let mut vars = BTreeMap::new();
      for (k, v) in [("a", "1"), ("ab", "2"), ("b", "3")] {
        vars.insert(k.to_string(), v.to_string());
      }
      vars.insert("v".into(), format!("{}$a{}", ch, ch));
      let s = match i % 6 {
        0 => format!("$a{}b", ch),
        1 => format!("${{a{}b}}", ch),
        2 => format!("{}$a{}", ch, ch),
        3 => format!("${}a", ch),
        4 => format!("{}$v{}", ch, ch),
        _ => format!("${{a}}{}$b", ch),
      };
      ctx.steps(3);
      judge_substitute(&s, &vars, &[], 2, ctx)
    },
  );
  // long values and names, many variables, near the limit
  let long = sizes_to(q(quick, 70, 300), q(quick, 8192, 65536), 20_000);
  let shown = long.clone();
  let g = Space::new(
    format!("long chains of long values, long names, many variables (sizes={})", long.len()),
    long.len() as u64 * 6 * 6 * 4,
    move |i| format!("form {}, limit {}, chain of {}, size {}", i % 6, i / 6 % 6, i / 36 % 4 + 1, shown[(i / 144) as usize]),
    move |i, ctx| {
      let (form, limit, depth, n) = (i % 6, (i / 6 % 6) as u8, (i / 36 % 4 + 1) as usize, long[(i / 144) as usize]);
      let fill = "x".repeat(n);
      let mut vars = BTreeMap::new();
      let name = |k: usize| match form {
        3 => format!("v{}{}", fill, k),
        4 => format!("v{}{}", k, fill),
        _ => format!("v{}", k),
      };
      for k in 0..depth {
        let next = format!("${{{}}}", name(k + 1));
        let value = match form {
          _ if k + 1 == depth => if form == 0 { fill.clone() } else { "end".to_string() },
          1 => format!("{}{}", fill, next),
          2 => format!("{}{}", next, fill),
          _ => format!("<${}>", name(k + 1)),
        };
        vars.insert(name(k), value);
      }
      if form == 5 {
        for k in 0..n.min(4096) {
          vars.insert(format!("w{}", k), format!("$w{}", k + 1));
        }
      }
      ctx.steps(depth);
      judge_substitute(&format!("a${{{}}}${}/é", name(0), name(depth - 1)), &vars, &["q"], limit, ctx)
    },
  )
  .chunk(16);
  // names close to one another
  let (size, pair) = look_alike_pairs(sizes_to(70, q(quick, 1024, 8192), 5000));
  let make5 = move |i: u64| {
    let (a, b, c) = pair(i / 4);
    let vars: BTreeMap<String, String> = match i % 4 {
      0 => vec![(a.clone(), "1".to_string()), (b.clone(), "2".to_string())],
      1 => vec![(a.clone(), format!("${}", b)), (b.clone(), format!("{}", c))],
      2 => vec![(a.clone(), format!("<${{{}}}>", b)), (b.clone(), format!("${}", c)), (c.clone(), "3".to_string())],
      _ => vec![(b.clone(), String::new())],
    }
    .into_iter()
    .collect();
    (format!("${}-${{{}}}", a, b), format!("${{{}}}", c), vars)
  };
  let m5 = make5.clone();
  let h = Space::new(
    "names close to one another",
    size * 4,
    move |i| clip(&format!("{:?}", m5(i)), 800),
    move |i, ctx| {
      let (s, r, vars) = make5(i);
      ctx.steps(3);
      for t in [&s, &r] {
        judge_substitute(t, &vars, &["q"], 4, ctx)?;
      }
      Ok(())
    },
  );
  // values of any short text, used alone and next to others
  let word = words(q(quick, 3, 4));
  let (get, nw) = (word.get.clone(), word.size);
  const BLANKS: &[(&str, &str)] = &[("", ""), (" ", ""), ("", " "), ("\t", ""), ("", "\n"), ("\u{a0}", "\u{2003}"), ("\0", ""), ("", "\u{feff}")];
  let make6 = move |i: u64| {
    let (x, y) = BLANKS[(i / 6 % 8) as usize];
    let v = format!("{}{}{}", x, get(i / 48).0, y);
    let s = match i % 6 {
      0 => "$v",
      1 => "${v}",
      2 => "a$v",
      3 => "$v/$v b",
      4 => "$w",
      _ => "<${w}-$v>",
    };
    let vars: BTreeMap<String, String> =
      [("v", v), ("w", if i % 2 == 0 { "$v".to_string() } else { "x${v}".to_string() }), ("a", "1".into())].iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    (s, vars)
  };
  let m6 = make6.clone();
  let w = Space::new(
    "values of any short text",
    nw * 48,
    move |i| format!("{:?}", m6(i)),
    move |i, ctx| {
      let (s, vars) = make6(i);
      ctx.steps(2);
      judge_substitute(s, &vars, &["q"], 3, ctx)
    },
  );
  vec![a, b, c, real, e, f, g, h, w]
}

/// does some value reached from s refer to two or more variables in a cycle?
fn expands(s: &str, vars: &BTreeMap<String, String>, limit: u32) -> bool {
  fn cost(s: &str, vars: &BTreeMap<String, String>, limit: u32, budget: &mut u32) {
    if *budget == 0 || limit == 0 {
      return;
    }
    *budget -= 1;
    for n in ["a", "b", "c"] {
      let times = s.matches(&format!("${}", n)).count() + s.matches(&format!("${{{}}}", n)).count();
      if let Some(v) = vars.get(n) {
        for _ in 0..times {
          cost(v, vars, limit - 1, budget);
        }
      }
    }
  }
  let mut budget = 300;
  cost(s, vars, limit, &mut budget);
  budget == 0
}

// ---------------------------------------------------------------- C15

const ARG_LINES: &[&str] = &[
  "ARG x=1", "ARG x", "ARG x=$y", "ARG y=a.b/c", "ARG y=\"q$x\"", "ARG y=\"\"", "ARG X=2", "ARG y='$y'", "arg y=k@h",
];
const FROM_LINES: &[&str] = &[
  "FROM $x", "FROM ${x}:$y", "FROM $y/i:t AS x", "FROM a", "FROM $X.$x", "FROM a:${y}x", "RUN x=$y", "FROM ${x",
];

/// Values of the global arguments, from the text alone.
fn globals(text: &str) -> BTreeMap<String, String> {
  let mut m = BTreeMap::new();
  if let Ok(list) = model::parse(text) {
    for i in list {
      match i.body {
        model::Body::From { .. } => break,
        model::Body::Arg { name, value: Some(v) } => {
          m.insert(name.text, v.text);
        }
        _ => (),
      }
    }
  }
  m
}

/// `source` is the text the reference was parsed from.
fn judge_resolve(f: &d::Dockerfile, source: &str, r: &d::ImageRef, vars: &BTreeMap<String, String>, ctx: &mut Ctx) -> Res {
  let before = f.clone();
  let a = r.resolve_vars(f);
  let b = r.resolve_vars_with_context(f);
  ctx.trace();
  let mut used = BTreeSet::new();
  let m = reference_substitute(source, vars, 16, &mut used).map(|s| model::split_image(&s));
  let an = a.as_ref().map(norm::img);
  ctx.state(&(&an, &used));
  if an != m {
    return Err(format!("{:?} resolves to {:?}, expected {:?}", source, an, m));
  }
  match (&b, &m) {
    (None, None) => (),
    (Some((i, u)), Some(m)) => {
      let u: BTreeSet<String> = u.iter().cloned().collect();
      if norm::img(i) != *m || u != used {
        return Err(format!("{} resolves to {:?} using {:?}, expected {:?} using {:?}", r, i, u, m, used));
      }
    }
    _ => return Err(format!("{} resolves to {:?} with context, {:?} without", r, b, a)),
  }
  if before != *f {
    return Err("resolving changed the file".into());
  }
  Ok(())
}

fn c15_file(text: &str, ctx: &mut Ctx) -> Res {
  let f = match d::Dockerfile::parse(text) {
    Ok(f) => f,
    Err(e) => return Err(format!("the file is rejected: {}", e)),
  };
  let vars = globals(text);
  let mut any = false;
  for i in &f.instructions {
    if let d::Instruction::From(x) = i {
      any = true;
      judge_resolve(&f, &x.image.content, &x.image_parsed, &vars, ctx)?;
    }
  }
  for s in ["$x", "${y}", "plain", "$x$y", "$X/$x:$y"] {
    judge_resolve(&f, s, &d::ImageRef::parse(s), &vars, ctx)?;
  }
  if any {
    ctx.state(&text.len());
  }
  Ok(())
}

pub fn c15(quick: bool) -> Vec<Space> {
  let lines: Vec<&'static str> = ARG_LINES.iter().chain(FROM_LINES).copied().collect();
  let base = lines.len() as u64;
  let depth = q(quick, 4, 5);
  let l2 = lines.clone();
  let text = move |i: u64| seq(i, base).iter().map(|k| format!("{}\n", l2[*k])).collect::<String>();
  let t2 = text.clone();
  let a = Space::new(
    format!("files of up to {} lines out of {}", depth, base),
    pow_sum(base, depth),
    move |i| format!("{:?}", text(i)),
    move |i, ctx| {
      ctx.steps(seq(i, base).len());
      c15_file(&t2(i), ctx)
    },
  );
  // chains of definitions in both orders, around the depth limit
  let b = Space::new(
    "chains of global arguments",
    2 * 3 * 70,
    |i| format!("{:?}", chain_file(i)),
    |i, ctx| {
      ctx.steps((i / 6) as usize);
      c15_file(&chain_file(i), ctx)
    },
  )
  .chunk(4);
  // many arguments, repeated names
  let count = [sizes(q(quick, 200, 1500), q(quick, 8192, 65536)), if quick { vec![65_537] } else { HUGE.to_vec() }].concat();
  let shown = count.clone();
  let c = Space::new(
    format!("many global arguments, up to {}", count.last().unwrap()),
    4 * count.len() as u64,
    move |i| format!("form {} with {}", i % 4, shown[(i / 4) as usize]),
    move |i, ctx| {
      let n = count[(i / 4) as usize];
      ctx.steps(n);
      c15_file(&many_args(n as u64 * 4 + i % 4), ctx)
    },
  )
  .chunk(1);
  // images with variables in every position
  let toks: &'static [&'static str] =
    &["$x", "${y}", "a", "/", ":", "@", ".", "$u", "${u}", "$n", "-", "$e", "$c"];
  let file = "ARG x=r.io:5000/p\nARG y=v1\nRUN q\nARG n\nARG e=\"\"\nARG c=$d\nARG d=$c\nFROM $x\nARG u=no\nARG x=no\n";
  let d3 = q(quick, 4, 5);
  let img = tokens("image strings resolved in one file", &[""], toks, d3, &[""]);
  let dd = img.space(move |t, ctx| {
    thread_local! {
      static F: (d::Dockerfile, BTreeMap<String, String>) = {
        let file = "ARG x=r.io:5000/p\nARG y=v1\nRUN q\nARG n\nARG e=\"\"\nARG c=$d\nARG d=$c\nFROM $x\nARG u=no\nARG x=no\n";
        (d::Dockerfile::parse(file).expect("file"), globals(file))
      };
    }
    F.with(|(f, vars)| judge_resolve(f, t, &d::ImageRef::parse(t), vars, ctx))
  });
  assert!(globals(file).len() == 5);
  // names and values from real files, defined or not
  let real = product("real names and values", &[&["", "ARG a=b\n"], &["ARG "], REAL_NAMES, &["=", "x="], REAL_VALUES, &["\nFROM i:$a", "\nARG $PATH\nRUN a\nFROM $PATH\nFROM ${VERSION}/a"]]).space(|t, ctx| {
    if model::parse(t).is_err() {
      return Ok(());
    }
    c15_file(t, ctx)
  });
  let own = product("real names used", &[&["", "ARG a=b\n"], &["ARG "], REAL_NAMES, &["", "=v", "=$a", "=\"\""], &["\nFROM i:$", "\nFROM $a/${a}:$"], REAL_NAMES]).space(c15_file);
  let images = product("real images resolved", &[&["ARG REGISTRY=r.io\nARG BASE=b:1\nARG BASE_IMAGE=c\nARG TAG=2\nARG HASH=0\n", "ARG REGISTRY=\nARG BASE=\"\"\n", ""], &["FROM "], REAL_IMAGES, REAL_TAGS, REAL_ALIASES])
    .space(|t, ctx| if model::parse(t).is_err() { Ok(()) } else { c15_file(t, ctx) });
  // pairs of names close to one another
  let near = near_names();
  let nn = near.len() as u64;
  let pair = {
    let near = near.clone();
    move |i: u64| {
      let (a, b) = (&near[(i % nn) as usize], &near[(i / nn % nn) as usize]);
      match i / nn / nn {
        0 => format!("ARG {}=1\nFROM x:${}\nFROM ${{{}}}\n", a, b, b),
        1 => format!("ARG {}\nARG {}=v\nFROM x:${}\n", a, b, a),
        2 => format!("ARG {}=1\nARG {}=${}\nFROM ${{{}}}-$${}\n", a, b, a, b, a),
        3 => format!("ARG {}=1\nARG {}=\"2\"\nFROM ${}/${}\n", a, b, a, b),
        _ => format!("ARG {}=1\nFROM a\nARG {}=2\nFROM ${}\n", a, b, b),
      }
    }
  };
  let p2 = pair.clone();
  let pairs = Space::new(
    format!("pairs of names close to one another (names={})", nn),
    nn * nn * 5,
    move |i| format!("{:?}", p2(i)),
    move |i, ctx| {
      ctx.steps(3);
      c15_file(&pair(i), ctx)
    },
  );
  let mut v = vec![a, b, c, dd, real, own, images, pairs];
  let word = words(q(quick, 4, 5)).get;
  let size = words(q(quick, 4, 5)).size;
  v.push(
    Texts::new("values of any short text", size * 3, move |i| {
      let w = word(i / 3).0;
      let t = match i % 3 {
        0 => format!("ARG v={}\nFROM $v\nFROM a:$v\nFROM ${{v}}/b", w),
        1 => format!("ARG v=\"{}\"\nARG w=x$v\nFROM ${{v}}\nFROM $w-$v\n", w),
        _ => format!("ARG v='{} '\nARG w=\" ${{v}}\"\nFROM $v@$w\nFROM $w\n", w),
      };
      (t, 3)
    })
    .space(|t, ctx| if model::parse(t).is_err() { Ok(()) } else { c15_file(t, ctx) }),
  );
  v.push(look_alike_texts("arguments", sizes_to(70, q(quick, 1024, 8192), 5000), &[
    |a, b, c| format!("ARG {}=1\nARG {}=2\nFROM x:${}\nFROM ${{{}}}/${}\nFROM ${}\n", a, b, b, b, a, c),
    |a, b, c| format!("ARG {}=1\nARG {}=${}\nARG {}\nFROM ${{{}}}\nFROM ${}\n", a, b, a, c, b, c),
  ]).space(c15_file));
  for t in placed_words(&["ARG a=b\nARG c=$a\nFROM $c:${a}\nFROM d AS e\n", "ARG a\nARG a=\"x\"\nFROM a/$a\nARG a=z\nFROM $a"]) {
    v.push(t.space(|t, ctx| if model::parse(t).is_err() { Ok(()) } else { c15_file(t, ctx) }));
  }
  v
}

/// names of up to three characters, in both letter cases, and longer ones
/// that differ at one place
fn near_names() -> Vec<String> {
  let mut v: Vec<String> = vec![];
  for len in 1..=2u32 {
    for k in 0..6usize.pow(len) {
      let w: String = (0..len).map(|p| ['a', 'A', 'b', '_', '1', 'Z'][k / 6usize.pow(p) % 6]).collect();
      v.push(w);
    }
  }
  for w in ["abc", "Abc", "ABC", "aBc", "a_c", "A_C", "abc1", "abcd", "ab", "xabc", "a1c", "ABC_1", "abc_1", "abcdefghijklmnop", "abcdefghijklmnoq", "abcdefghijklmnoP", "ABCDEFGHIJKLMNOP", "bbcdefghijklmnop"] {
    v.push(w.into());
  }
  v.retain(|w| w.starts_with(|c: char| c.is_ascii_alphabetic()));
  v.sort();
  v.dedup();
  v
}

fn chain_file(i: u64) -> String {
  let n = (i / 6) as usize;
  let mut lines: Vec<String> = (0..n)
    .map(|k| {
      if k == 0 {
        "ARG v0=r.io/a:1\n".to_string()
      } else {
        match i % 3 {
          0 => format!("ARG v{}=$v{}\n", k, k - 1),
          1 => format!("ARG v{}=\"${{v{}}}\"\n", k, k - 1),
          _ => format!("ARG v{}=${{v{}}}x\n", k, k - 1),
        }
      }
    })
    .collect();
  if i % 6 >= 3 {
    lines.reverse();
  }
  format!("{}FROM ${{v{}}}\nFROM b-$v{}\nFROM $v0\n", lines.concat(), n.max(1) - 1, n / 2)
}

fn many_args(i: u64) -> String {
  let n = (i / 4) as usize;
  let mut t = String::new();
  for k in 0..n {
    match i % 4 {
      0 => t.push_str(&format!("ARG a{}={}\n", k, k)),
      1 => t.push_str(&format!("ARG x={}\n", k)),
      2 => t.push_str(&format!("ARG {}={}\nRUN r\n", if k % 2 == 0 { "x" } else { "y" }, k)),
      _ => t.push_str(&format!("ARG y{}\nARG x=\"{}\"\n", k, k)),
    }
  }
  t.push_str(&format!("FROM $x\nFROM i:$a{}\nFROM $a0-$y\nFROM $a{}\nARG x=late\nFROM $x:$y\n", n.max(1) - 1, n / 2));
  t
}
