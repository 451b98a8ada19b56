//! Typed access (C22): every accessor of every value.

use super::basic::{everywhere, q};
use crate::corpus::*;
use crate::engine::*;
use crate::norm;
use dockerfile_parser as d;
use dockerfile_parser::*;
use std::convert::TryFrom;

fn kind_number(i: &Instruction) -> usize {
  match i {
    Instruction::From(_) => 0,
    Instruction::Arg(_) => 1,
    Instruction::Label(_) => 2,
    Instruction::Run(_) => 3,
    Instruction::Entrypoint(_) => 4,
    Instruction::Cmd(_) => 5,
    Instruction::Copy(_) => 6,
    Instruction::Env(_) => 7,
    Instruction::Misc(_) => 8,
  }
}

/// Checks one kind of accessors of an instruction.
macro_rules! access {
  ($i:expr, $me:expr, $n:expr, $variant:ident, $as:ident, $into:ident, $ty:ty, $span:expr) => {{
    let i: &Instruction = $i;
    let holds = $me == $n;
    let inner: Option<$ty> = match i {
      Instruction::$variant(x) => Some(x.clone()),
      _ => None,
    };
    if i.$as() != inner.as_ref() || i.$as().is_some() != holds {
      return Err(format!("{} gives {:?} of {:?}", stringify!($as), i.$as(), i));
    }
    if let (Some(a), Instruction::$variant(x)) = (i.$as(), i) {
      if !std::ptr::eq(a, x) {
        return Err(format!("{} does not give the held value", stringify!($as)));
      }
    }
    if i.clone().$into() != inner {
      return Err(format!("{} gives {:?} of {:?}", stringify!($into), i.clone().$into(), i));
    }
    if let Some(x) = inner {
      if x.span != i.span() {
        return Err(format!("span() of {:?} is {:?}", i, i.span()));
      }
      let wrapped: Instruction = x.clone().into();
      if wrapped != *i || wrapped.$into() != Some(x) {
        return Err(format!("wrapping what {} gives of {:?} gives another value", stringify!($into), i));
      }
    }
  }};
}

macro_rules! convert {
  ($i:expr, $me:expr, $n:expr, $as:ident, $ty:ty) => {{
    let i: &Instruction = $i;
    match <&$ty>::try_from(i) {
      Ok(x) => {
        if $me != $n || i.$as() != Some(x) {
          return Err(format!("the conversion to {} gives {:?} of {:?}", stringify!($ty), x, i));
        }
      }
      Err(e) => refusal($me == $n, e, i, stringify!($ty))?,
    }
  }};
}

fn refusal(holds: bool, e: d::Error, i: &Instruction, ty: &str) -> Res {
  if holds {
    return Err(format!("the conversion to {} refuses {:?}: {}", ty, i, e));
  }
  match &e {
    d::Error::ConversionError { to, .. } if to == ty && !e.to_string().is_empty() => Ok(()),
    _ => Err(format!("the conversion to {} of {:?} fails with {:?}", ty, i, e)),
  }
}

macro_rules! forms {
  ($x:expr, $expr:expr) => {{
    let x = $x;
    let e: &ShellOrExecExpr = $expr;
    let (s, a) = match e {
      ShellOrExecExpr::Shell(s) => (Some(s), None),
      ShellOrExecExpr::Exec(a) => (None, Some(a)),
    };
    if x.as_shell() != s || x.as_exec() != a || e.as_shell() != s || e.as_exec() != a {
      return Err(format!("the borrowed forms of {:?} are {:?} and {:?}", x, x.as_shell(), x.as_exec()));
    }
    if x.clone().into_shell().as_ref() != s || x.clone().into_exec().as_ref() != a {
      return Err(format!("the owned forms of {:?} are {:?} and {:?}", x, x.clone().into_shell(), x.clone().into_exec()));
    }
    if e.clone().into_shell().as_ref() != s || e.clone().into_exec().as_ref() != a {
      return Err(format!("the owned forms of {:?} are {:?} and {:?}", e, e.clone().into_shell(), e.clone().into_exec()));
    }
    if let Some(s) = s {
      breakable(s)?;
    }
    if let Some(a) = a {
      let want: Vec<&str> = a.elements.iter().map(|e| e.content.as_str()).collect();
      if a.as_str_vec() != want {
        return Err(format!("as_str_vec of {:?} is {:?}", a, a.as_str_vec()));
      }
      a.elements.iter().map(spanned).collect::<Res>()?;
    }
  }};
}

fn spanned(s: &SpannedString) -> Res {
  if s.as_ref() != s.content || s.to_string() != s.content {
    return Err(format!("{:?} prints as {:?} and is {:?} as text", s, s.to_string(), s.as_ref()));
  }
  Ok(())
}

fn breakable(b: &BreakableString) -> Res {
  let mut want = String::new();
  for c in &b.components {
    if let BreakableStringComponent::String(s) = c {
      want.push_str(&s.content);
      spanned(s)?;
    }
  }
  if b.to_string() != want || format!("{}", b) != want {
    return Err(format!("{:?} prints as {:?}", b, b.to_string()));
  }
  let seen: Vec<&BreakableStringComponent> = b.iter_components().collect();
  if seen.len() != b.components.len() || seen.iter().zip(&b.components).any(|(a, b)| !std::ptr::eq(*a, b)) {
    return Err(format!("iterating {:?} gives {:?}", b, seen));
  }
  // rebuilt from its pieces
  let mut r = BreakableString::new(b.span);
  for c in &b.components {
    r = match c {
      BreakableStringComponent::String(s) => r.add_string(s.span, s.content.as_str()),
      BreakableStringComponent::Comment(s) => r.add_comment((s.span.start, s.span.end), s.content.clone()),
    };
  }
  if r != *b {
    return Err(format!("{:?} rebuilt from its pieces is {:?}", b, r));
  }
  Ok(())
}

fn every_accessor(i: &Instruction, ctx: &mut Ctx) -> Res {
  let me = kind_number(i);
  let copy = i.clone();
  if copy != *i {
    return Err(format!("a copy of {:?} differs", i));
  }
  access!(i, me, 0, From, as_from, into_from, FromInstruction, 0);
  access!(i, me, 1, Arg, as_arg, into_arg, ArgInstruction, 0);
  access!(i, me, 2, Label, as_label, into_label, LabelInstruction, 0);
  access!(i, me, 3, Run, as_run, into_run, RunInstruction, 0);
  access!(i, me, 4, Entrypoint, as_entrypoint, into_entrypoint, EntrypointInstruction, 0);
  access!(i, me, 5, Cmd, as_cmd, into_cmd, CmdInstruction, 0);
  access!(i, me, 6, Copy, as_copy, into_copy, CopyInstruction, 0);
  access!(i, me, 7, Env, as_env, into_env, EnvInstruction, 0);
  access!(i, me, 8, Misc, as_misc, into_misc, MiscInstruction, 0);
  convert!(i, me, 0, as_from, FromInstruction);
  convert!(i, me, 1, as_arg, ArgInstruction);
  convert!(i, me, 2, as_label, LabelInstruction);
  convert!(i, me, 3, as_run, RunInstruction);
  convert!(i, me, 5, as_cmd, CmdInstruction);
  convert!(i, me, 6, as_copy, CopyInstruction);
  convert!(i, me, 7, as_env, EnvInstruction);
  convert!(i, me, 8, as_misc, MiscInstruction);
  match EntrypointInstruction::try_from(i.clone()) {
    Ok(x) => {
      if me != 4 || i.as_entrypoint() != Some(&x) {
        return Err(format!("the conversion to EntrypointInstruction gives {:?} of {:?}", x, i));
      }
    }
    Err(e) => refusal(me == 4, e, i, "EntrypointInstruction")?,
  }
  match i {
    Instruction::Run(x) => forms!(x, &x.expr),
    Instruction::Cmd(x) => forms!(x, &x.expr),
    Instruction::Entrypoint(x) => forms!(x, &x.expr),
    Instruction::Env(x) => {
      for v in &x.vars {
        breakable(&v.value)?;
        spanned(&v.key)?;
        if EnvVar::new(v.span, v.key.clone(), v.value.clone()) != *v {
          return Err(format!("{:?} made from its parts differs", v));
        }
      }
    }
    Instruction::Label(x) => {
      for l in &x.labels {
        spanned(&l.name)?;
        spanned(&l.value)?;
        if Label::new(l.span, l.name.clone(), l.value.clone()) != *l {
          return Err(format!("{:?} made from its parts differs", l));
        }
      }
    }
    Instruction::Misc(x) => {
      breakable(&x.arguments)?;
      spanned(&x.instruction)?;
    }
    Instruction::From(x) => {
      spanned(&x.image)?;
      if let Some(a) = &x.alias {
        spanned(a)?;
      }
    }
    Instruction::Copy(x) => {
      x.sources.iter().chain([&x.destination]).map(spanned).collect::<Res>()?;
    }
    Instruction::Arg(x) => {
      spanned(&x.name)?;
      if let Some(v) = &x.value {
        spanned(v)?;
      }
    }
  }
  ctx.steps(40);
  Ok(())
}

/// the same instruction with a span that none of its parts has
fn moved(i: &Instruction) -> Instruction {
  let mut i = i.clone();
  let s = Span::new(usize::MAX - 7, usize::MAX - 3);
  match &mut i {
    Instruction::From(x) => x.span = s,
    Instruction::Arg(x) => x.span = s,
    Instruction::Label(x) => x.span = s,
    Instruction::Run(x) => x.span = s,
    Instruction::Entrypoint(x) => x.span = s,
    Instruction::Cmd(x) => x.span = s,
    Instruction::Copy(x) => x.span = s,
    Instruction::Env(x) => x.span = s,
    Instruction::Misc(x) => x.span = s,
  }
  i
}

fn parsed(t: &str, ctx: &mut Ctx) -> Res {
  let f = match d::Dockerfile::parse(t) {
    Ok(f) => f,
    Err(_) => return Ok(()),
  };
  ctx.trace();
  ctx.state(&norm::all(&f));
  // large files: the first and last instructions
  let n = f.instructions.len();
  for (k, i) in f.instructions.iter().enumerate() {
    if k < 8 || k + 8 >= n {
      every_accessor(i, ctx)?;
      every_accessor(&moved(i), ctx)?;
    }
  }
  Ok(())
}

const STRS: &[&str] = &["", "a", "é b", "\n", "# x", "{}", "\"", "long long long text \u{1f600}"];
const SPANS: &[(usize, usize)] = &[(0, 0), (0, 1), (3, 7), (10, 2), (usize::MAX, 0)];

fn ss(k: u64) -> SpannedString {
  let s = SPANS[(k as usize / STRS.len()) % SPANS.len()];
  SpannedString { span: Span::new(s.0, s.1), content: STRS[k as usize % STRS.len()].into() }
}

/// pieces for breakable strings: (how it is added, text)
fn add(b: BreakableString, op: usize, at: usize) -> (BreakableString, BreakableStringComponent) {
  let text = STRS[op % STRS.len()];
  let span = SPANS[(op + at) % SPANS.len()];
  let string = SpannedString { span: Span::new(span.0, span.1), content: text.into() };
  let comment = SpannedComment { span: Span::new(span.0, span.1), content: text.into() };
  match op / STRS.len() {
    0 => (b.add_string(span, text), BreakableStringComponent::String(string)),
    1 => (b.add_comment(Span::new(span.0, span.1), text.to_string()), BreakableStringComponent::Comment(comment)),
    2 => (b.add((span, text)), BreakableStringComponent::String(string)),
    3 => (b.add(string.clone()), BreakableStringComponent::String(string)),
    4 => (b.add(comment.clone()), BreakableStringComponent::Comment(comment)),
    _ => (b.add(BreakableStringComponent::Comment(comment.clone())), BreakableStringComponent::Comment(comment)),
  }
}

fn built(i: u64, ops: u64) -> (BreakableString, BreakableString) {
  let ids = seq(i / SPANS.len() as u64, ops);
  let span = SPANS[(i % SPANS.len() as u64) as usize];
  let mut b = BreakableString::new(span);
  let mut want = vec![];
  for (at, op) in ids.iter().enumerate() {
    let (n, c) = add(b, *op, at);
    b = n;
    want.push(c);
  }
  (b, BreakableString { span: Span::new(span.0, span.1), components: want })
}

/// Values made by hand: (kind, choice)
fn handmade(kind: u64, k: u64) -> Instruction {
  let span = Span::new((k % 5) as usize, (k % 7) as usize * 3);
  let n = (k % 4) as usize;
  let flag = |j: usize| (ss(k + j as u64), ss(k / 3 + j as u64));
  let br = || {
    let mut b = BreakableString::new(span);
    for j in 0..n {
      b = add(b, (k as usize * 5 + j * 11) % 48, j).0;
    }
    b
  };
  let expr = || {
    if k % 3 == 0 {
      ShellOrExecExpr::Exec(StringArray { span, elements: (0..n).map(|j| ss(k * 3 + j as u64)).collect() })
    } else {
      ShellOrExecExpr::Shell(br())
    }
  };
  match kind {
    0 => FromInstruction {
      span,
      flags: (0..n).map(flag).map(|(name, value)| FromFlag { span, name, value }).collect(),
      image: ss(k),
      image_parsed: ImageRef::parse(STRS[k as usize % STRS.len()]),
      index: k as usize,
      alias: if k % 2 == 0 { Some(ss(k + 1)) } else { None },
    }
    .into(),
    1 => ArgInstruction { span, name: ss(k), value: if k % 2 == 0 { Some(ss(k / 2)) } else { None } }.into(),
    2 => LabelInstruction { span, labels: (0..n).map(flag).map(|(a, b)| Label::new(span, a, b)).collect() }.into(),
    3 => RunInstruction { span, expr: expr() }.into(),
    4 => EntrypointInstruction { span, expr: expr() }.into(),
    5 => CmdInstruction { span, expr: expr() }.into(),
    6 => CopyInstruction {
      span,
      flags: (0..n).map(flag).map(|(name, value)| CopyFlag { span, name, value }).collect(),
      sources: (0..(k / 4 % 4)).map(|j| ss(k + j)).collect(),
      destination: ss(k * 7),
    }
    .into(),
    7 => EnvInstruction { span, vars: (0..n).map(|j| EnvVar::new(span, ss(k + j as u64), br())).collect() }.into(),
    _ => MiscInstruction { span, instruction: ss(k), arguments: br() }.into(),
  }
}

pub fn c22(quick: bool) -> Vec<Space> {
  let mut v = everywhere(quick, parsed);
  let per = q(quick, 4000, 40000);
  v.push(Space::new(
    "values made by hand",
    9 * per,
    move |i| format!("{:?}", handmade(i % 9, i / 9)),
    |i, ctx| {
      let x = handmade(i % 9, i / 9);
      ctx.trace();
      ctx.state(&norm::ins(&x));
      if kind_number(&x) as u64 != i % 9 {
        return Err(format!("wrapped as {:?}", x));
      }
      every_accessor(&x, ctx)
    },
  ));
  let ops = 6 * STRS.len() as u64;
  let depth = q(quick, 3, 4);
  v.push(Space::new(
    format!("strings assembled from up to {} pieces", depth),
    pow_sum(ops, depth) * SPANS.len() as u64,
    move |i| format!("{:?}", built(i, ops).1),
    move |i, ctx| {
      let (got, want) = built(i, ops);
      ctx.trace();
      ctx.steps(want.components.len());
      ctx.state(&norm::br(&got));
      if got != want {
        return Err(format!("assembled {:?}", got));
      }
      breakable(&got)?;
      // as the value of a variable, and through the conversion of a single piece
      let var = EnvVar::new(Span::new(1, 2), ss(i), got.clone());
      if var.value != want || var.key != ss(i) || var.span != Span::new(1, 2) {
        return Err(format!("as a variable {:?}", var));
      }
      Ok(())
    },
  ));
  v.push(Space::new(
    "single pieces",
    (STRS.len() * SPANS.len()) as u64,
    |i| format!("{:?}", ss(i)),
    |i, ctx| {
      let s = ss(i);
      ctx.trace();
      ctx.steps(4);
      ctx.state(&(i, &s.content));
      spanned(&s)?;
      let pair = ((s.span.start, s.span.end), s.content.as_str());
      let b: BreakableString = pair.into();
      let want = BreakableString { span: s.span, components: vec![BreakableStringComponent::String(s.clone())] };
      if b != want {
        return Err(format!("converted to {:?}", b));
      }
      breakable(&b)?;
      let c: BreakableStringComponent = pair.into();
      if c != BreakableStringComponent::String(s.clone()) || BreakableStringComponent::from(s.clone()) != c {
        return Err(format!("converted to {:?}", c));
      }
      let k = SpannedComment { span: s.span, content: s.content.clone() };
      if BreakableStringComponent::from(k.clone()) != BreakableStringComponent::Comment(k) {
        return Err("a comment is converted to something else".into());
      }
      if EnvVar::new(s.span, s.clone(), pair).value != want {
        return Err("a variable made from a text has another value".into());
      }
      let t: Span = (s.span.start, s.span.end).into();
      if t != s.span || Span::new(s.span.start, s.span.end) != t || (t.start, t.end) != (s.span.start, s.span.end) {
        return Err(format!("the span is converted to {:?}", t));
      }
      Ok(())
    },
  ));
  // the order of spans is that of their numbers
  let nums = [0usize, 1, 2, 3, 10, usize::MAX];
  let k = nums.len() as u64;
  v.push(Space::new(
    "the order of spans",
    k.pow(4),
    move |i| format!("{}", i),
    move |i, ctx| {
      let n = |j: u64| nums[(i / k.pow(j as u32) % k) as usize];
      let (a, b) = ((n(0), n(1)), (n(2), n(3)));
      ctx.trace();
      ctx.steps(1);
      ctx.state(&(a, b));
      let (x, y) = (Span::new(a.0, a.1), Span::new(b.0, b.1));
      if x.cmp(&y) != a.cmp(&b) || (x == y) != (a == b) || x.partial_cmp(&y) != a.partial_cmp(&b) {
        return Err(format!("{:?} and {:?} compare as {:?}", x, y, x.cmp(&y)));
      }
      Ok(())
    },
  ));
  v
}
