//! Independence of calls (C23): all histories of calls up to a depth, in one
//! or two threads, each in a process of its own, and all schedules of two
//! calls with one or two preemptions.

use super::basic::{against_model, q};
use crate::corpus::*;
use crate::engine::*;
use crate::fresh::*;
use crate::norm;
use dockerfile_parser as d;
use dockerfile_parser::*;
use std::collections::{HashMap, HashSet};
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::io::Read;
use std::sync::mpsc;
use std::sync::OnceLock;

fn shown(r: &Result<Dockerfile, d::Error>) -> String {
  match r {
    Ok(f) => format!("{:?} {:?} {:?}", f.content, f.global_args, norm::all(f)),
    Err(e) => format!("{:?} {}", e, e),
  }
}

fn parse_op(t: &str) -> String {
  let keep = t.to_string();
  let a = call(|| Dockerfile::parse(t));
  let s = shown(&a);
  if keep != t {
    return "the text was altered".into();
  }
  s
}

const STAGED_A: &str = "ARG v=1\nFROM a AS x\nARG v\nRUN b\nFROM x AS y\nFROM y\nARG w=2\nARG v";
const STAGED_B: &str = "ARG v=2\nFROM x AS y\nRUN c\nARG v\nFROM y AS x\nFROM scratch\nFROM 0\n";

fn stages_op(t: &str) -> String {
  let f = match call(|| Dockerfile::parse(t)) {
    Ok(f) => f,
    Err(e) => return e.to_string(),
  };
  let copy = f.clone();
  let mut o = String::new();
  call(|| {
    let s = f.stages();
    for st in s.iter() {
      let _ = write!(o, "{} {:?} {} {} {} {:?};", st.index, st.name, st.parent, st.root, st.instructions.len(), st.arg_index("v"));
    }
    for n in ["x", "Y", "0", "2", "9", "none"] {
      let _ = write!(o, "{:?} {:?},", s.get(n).map(|s| s.index), s.get_by_name(n).map(|s| s.index));
    }
  });
  if copy != f {
    return "the file was altered".into();
  }
  o
}

fn resolve_op(t: &str, images: &[&str]) -> String {
  let f = match call(|| Dockerfile::parse(t)) {
    Ok(f) => f,
    Err(e) => return e.to_string(),
  };
  let copy = f.clone();
  let mut o = String::new();
  for i in images {
    let r = call(|| ImageRef::parse(i));
    let (a, b) = (call(|| r.resolve_vars(&f)), call(|| r.resolve_vars_with_context(&f)));
    let used = b.as_ref().map(|b| {
      let mut v: Vec<&String> = b.1.iter().collect();
      v.sort();
      v
    });
    let _ = write!(o, "{} {:?} {:?} {:?};", call(|| r.to_string()), a, b.as_ref().map(|b| &b.0), used);
  }
  for n in ["v", "w", "V"] {
    let _ = write!(o, "{:?};", call(|| f.get_global_arg(n)));
  }
  if copy != f {
    return "the file was altered".into();
  }
  o
}

fn substitute_op(s: &str, vars: &[(&str, &str)], used: &[&str], limit: u8) -> String {
  let m: HashMap<&str, &str> = vars.iter().copied().collect();
  let mut u: HashSet<String> = used.iter().map(|s| s.to_string()).collect();
  let r = call(|| substitute(s, &m, &mut u, limit));
  let mut v: Vec<&String> = u.iter().collect();
  v.sort();
  let same = m.len() == vars.len() && vars.iter().all(|(k, x)| m.get(k) == Some(x));
  // on failure the set of used variables is not specified
  if r.is_some() {
    format!("{:?} {:?} {}", r, v, same)
  } else {
    format!("{:?} {}", r, same)
  }
}

fn splice_op(t: &str, edits: &[(usize, usize, &str)]) -> String {
  let f = match call(|| Dockerfile::parse(t)) {
    Ok(f) => f,
    Err(e) => return e.to_string(),
  };
  let copy = f.clone();
  let mut s = call(|| f.splicer());
  for (a, b, r) in edits {
    let span = Span::new(*a, *b);
    call(|| s.splice(&span, r));
  }
  if copy != f {
    return "the file was altered".into();
  }
  s.content.clone()
}

fn lines_op(t: &str) -> String {
  let f = match call(|| Dockerfile::parse(t)) {
    Ok(f) => f,
    Err(e) => return e.to_string(),
  };
  let mut o = String::new();
  for at in [0, 1, 5, 9, t.len()] {
    let _ = write!(o, "{:?};", call(|| Span::new(at, t.len()).relative_span(&f)));
  }
  o
}

struct Torn(&'static [u8], usize);
impl Read for Torn {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    if self.1 == 0 {
      return Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "torn"));
    }
    self.1 -= 1;
    let n = b.len().min(self.0.len()).min(4);
    b[..n].copy_from_slice(&self.0[..n]);
    self.0 = &self.0[n..];
    Ok(n)
  }
}

fn typed_op() -> String {
  let f = match call(|| Dockerfile::parse("RUN [\"a\"]\nCMD b \\\n# c\n d\nENV e=f")) {
    Ok(f) => f,
    Err(e) => return e.to_string(),
  };
  let mut o = String::new();
  for i in &f.instructions {
    let e = call(|| <&RunInstruction>::try_from(i).map(|r| r.as_exec().map(|e| e.as_str_vec().len())));
    let _ = write!(o, "{:?} {:?};", e.map_err(|e| e.to_string()), i.as_cmd().and_then(|c| c.as_shell()).map(|s| s.to_string()));
  }
  o
}

pub type Op = (&'static str, fn() -> String);

pub const OPS: &[Op] = &[
  ("parse two instructions", || parse_op("FROM a AS b\nRUN c\n")),
  ("parse two others of the same length", || parse_op("FROM b AS a\nCMD d\n")),
  ("parse stages", || parse_op("ARG x=1\nFROM $x\nFROM b\nRUN e\nFROM c AS d")),
  ("parse a syntax error", || parse_op("FROM a AS b\nRUN\n")),
  ("parse a bad escape", || parse_op("FROM a\nARG x=\"\\q\"\n")),
  ("parse a bad digest", || parse_op("FROM a\nFROM b@sha256:0\n")),
  ("parse a joined label", || parse_op("LABEL a=\"b\\\nc\" d=e \"f\\\r\ng\"=h")),
  ("parse another joined label", || parse_op("LABEL a=\"B\\\nc\" D=e \"f\\\r\ng\"=i")),
  ("parse continued lines", || parse_op("RUN a \\\n# c\n b \\\n d\nENV a=\"x\\ty\" b='z'\nENTRYPOINT [\"a\", 'b']")),
  ("read a file", || shown(&call(|| Dockerfile::from_reader(Torn("FROM é AS b\nRUN c".as_bytes(), 99))))),
  ("read a failing file", || shown(&call(|| Dockerfile::from_reader(Torn(b"FROM a AS b\nRUN c", 2))))),
  ("read bytes that are not UTF-8", || shown(&call(|| Dockerfile::from_reader(&b"RUN \xc3\x28"[..])))),
  ("stages", || stages_op(STAGED_A)),
  ("other stages", || stages_op(STAGED_B)),
  ("resolve", || resolve_op("ARG v=1\nARG w=a/b:$v\nFROM $w", &["$w", "${v}", "$u", "r.io/$v"])),
  ("resolve with other values", || resolve_op("ARG v=2\nARG w=c/d:$v\nFROM $w", &["$w", "${v}", "$u", "r.io/$v"])),
  ("resolve a cycle", || resolve_op("ARG v=$w\nARG w=$v\nFROM $w", &["$w", "$v", "x"])),
  ("substitute", || substitute_op("$x-${y}$$z", &[("x", "$y"), ("y", "1"), ("z", "2")], &["k"], 4)),
  ("substitute other values", || substitute_op("$x-${y}$$z", &[("x", "$z"), ("y", "3"), ("z", "é")], &[], 4)),
  ("substitute too deep", || substitute_op("$x-${y}", &[("x", "$y"), ("y", "1")], &["k"], 0)),
  ("splice", || splice_op("FROM a AS b\nRUN c\n", &[(5, 6, "long"), (10, 11, ""), (16, 17, "é"), (5, 6, "x")])),
  ("splice others", || splice_op("FROM b AS a\nCMD d\n", &[(16, 17, "yy"), (5, 6, ""), (10, 11, "zzz")])),
  ("line positions", || lines_op("RUN a\n\nRUN b\nRUN c")),
  ("other line positions", || lines_op("RUN\ta \n#\nRUN b RUN")),
  ("typed access", typed_op),
];

fn image_op(images: &[&str]) -> String {
  let mut o = String::new();
  for i in images {
    let r = call(|| ImageRef::parse(i));
    let _ = write!(o, "{:?} {};", r, call(|| r.to_string()));
  }
  o
}

fn args_op(t: &str, names: &[&str]) -> String {
  let f = match call(|| Dockerfile::parse(t)) {
    Ok(f) => f,
    Err(e) => return e.to_string(),
  };
  let s = call(|| f.stages());
  let mut o = String::new();
  for n in names {
    let _ = write!(o, "{:?}", call(|| f.get_global_arg(n)).map(|a| a.span));
    for st in s.iter() {
      let _ = write!(o, " {:?}", call(|| st.arg_index(n)));
    }
    o.push(';');
  }
  o
}

fn lookup_op(t: &str, f: impl Fn(&d::Stages) -> Option<usize>) -> String {
  match call(|| Dockerfile::parse(t)) {
    Ok(file) => format!("{:?}", call(|| f(&file.stages()))),
    Err(e) => e.to_string(),
  }
}

fn resolve_one(t: &str, image: &str) -> String {
  let f = match call(|| Dockerfile::parse(t)) {
    Ok(f) => f,
    Err(e) => return e.to_string(),
  };
  let r = ImageRef::parse(image);
  let got = call(|| r.resolve_vars_with_context(&f));
  got.map_or("nothing".into(), |(i, u)| {
    let mut u: Vec<String> = u.into_iter().collect();
    u.sort();
    format!("{:?} {:?}", i, u)
  })
}

fn read_op(t: &'static [u8], good: usize) -> String {
  shown(&call(|| Dockerfile::from_reader(Torn(t, good))))
}

/// Families of calls whose arguments agree in whatever something kept from
/// an earlier call might be looked up by: length, beginning, end, sum of the
/// bytes, letters but for their case, blanks, shape of the file, or all of
/// the arguments but one.
pub const SIBLINGS: &[&[Op]] = &[
  // the same length, beginning, end and bytes
  &[
    ("sibling texts 1", || parse_op("# a long first comment line\nFROM base AS first\nRUN one two three four\nCMD last\n")),
    ("sibling texts 2", || parse_op("# a long first comment line\nFROM base AS first\nRUN two one three four\nCMD last\n")),
    ("sibling texts 3", || parse_op("# a long first comment line\nFROM base AS frist\nRUN one two three four\nCMD last\n")),
    ("sibling texts 4", || parse_op("# a long first comment line\nFROM BASE AS FIRST\nRUN ONE two three four\nCMD last\n")),
    ("sibling texts 5", || parse_op("# a long first comment line\nFROM base AS first\nRUN one two three four\nCMD last\n\n")),
    ("sibling texts 6", || parse_op("# a long first comment line\nFROM base AS first\nRUN one two\nRUN hree four\nCMD last\n")),
    ("sibling texts 7", || parse_op("# a long first comment line\nFROM base AS first\nRUN one two\tthree four\nCMD last\n")),
    ("sibling texts 8", || parse_op("# a long first comment line\r\nFROM base AS first\r\nRUN one two three four\r\nCMD last\r\n")),
  ],
  // the same instructions in another order, or of other kinds
  &[
    ("kinds 1", || parse_op("FROM a\nENV a=b\nLABEL a=b\nARG a=b\nCOPY a b\nMISC a=b")),
    ("kinds 2", || parse_op("FROM a\nLABEL a=b\nENV a=b\nARG a=b\nCOPY a b\nMISC a=b")),
    ("kinds 3", || parse_op("FROM a\nENV a b\nLABEL a b\nARG a=b\nCOPY b a\nMISC a b")),
    ("kinds 4", || parse_op("FROM a\nENV a=b\nLABEL a=c\nARG a=d\nCOPY a e\nMISC a=f")),
    ("kinds 5", || parse_op("FROM a\nENV a=\"b\"\nLABEL a=\"b\"\nARG a=\"b\"\nCOPY a b\nMISC a=\"b\"")),
    ("kinds 6", || parse_op("FROM a\nENV a='b'\nLABEL 'a'=b\nARG a='b'\nCOPY 'a' b\nMISC a='b'")),
    ("kinds 7", || parse_op("FROM a\nENV a=\"\\x62\"\nLABEL a=\"\\x62\"\nARG a=\"\\x62\"\nCOPY a b")),
  ],
  // exec and shell forms of the same text
  &[
    ("forms 1", || parse_op("RUN [\"a\", \"b\"]\nCMD [\"a\", \"b\"]\nENTRYPOINT [\"a\", \"b\"]")),
    ("forms 2", || parse_op("RUN [\"a\", \"b\" ]\nCMD \"a\", \"b\"\nENTRYPOINT [\"a\", \"b]")),
    ("forms 3", || parse_op("RUN [\"b\", \"a\"]\nCMD [\"a\", 'b']\nENTRYPOINT [\"a\",\\\n\"b\"]")),
    ("forms 4", || parse_op("RUN a \\\n# c\nb\nCMD a \\\nb\nENTRYPOINT a b")),
    ("forms 5", || parse_op("RUN a \\\n# d\nb\nCMD a \\\n#b\n\nENTRYPOINT a\\ b")),
    ("forms 6", || parse_op("RUN [\"a\", \"\\q\"]")),
  ],
  // files of the same shape
  &[
    ("shapes 1", || stages_op("ARG v\nFROM a AS x\nARG v\nFROM x AS y\nRUN v\nFROM y")),
    ("shapes 2", || stages_op("ARG v\nFROM a AS y\nARG w\nFROM y AS x\nRUN v\nFROM y")),
    ("shapes 3", || stages_op("ARG v\nFROM a AS X\nARG v\nFROM x AS Y\nRUN v\nFROM z")),
    ("shapes 4", || stages_op("ARG v\nFROM x AS a\nRUN v\nFROM y AS x\nARG v\nFROM a")),
    ("shapes 5", || stages_op("ARG v\nFROM a AS x\nFROM b AS x\nFROM x AS y\nARG v\nFROM scratch")),
    ("shapes 6", || stages_op("ARG v\nFROM a AS x\nCMD v\nFROM x AS y\nRUN v\nFROM y")),
    ("shapes 7", || stages_op("ARG v\nRUN x\nARG v\nCMD y\nRUN v\nCMD z")),
  ],
  // the same image in other files, other images in the same file
  &[
    ("resolving 1", || resolve_op("ARG v=1\nARG w=2\nFROM a:$v", &["a:$v", "b:$w", "a:$v$w"])),
    ("resolving 2", || resolve_op("ARG v=2\nARG w=1\nFROM a:$v", &["a:$v", "b:$w", "a:$v$w"])),
    ("resolving 3", || resolve_op("ARG v=1\nARG v=2\nFROM a:$v", &["a:$v", "b:$w", "a:$v$w"])),
    ("resolving 4", || resolve_op("ARG v=1\nARG w=2\nFROM a:$v", &["A:$v", "b:$V", "a:$w$v"])),
    ("resolving 5", || resolve_op("ARG v\nARG w=2\nFROM a:$v\nARG v=1", &["a:$v", "b:$w", "a:$v$w"])),
    ("resolving 6", || resolve_op("ARG v=$w\nARG w=x/y:z@q\nFROM a:$v", &["$v", "$w", "a/$v"])),
    ("resolving 7", || resolve_op("FROM a:$v\nARG v=1\nARG w=2", &["a:$v", "b:$w", "a:$v$w"])),
    ("resolving 8", || resolve_op("ARG v=$w\nARG w=$v\nFROM a:$v", &["a:$v", "b:$w", "a:$v$w"])),
  ],
  // substitutions that agree in all arguments but one
  &[
    ("substitutions 1", || substitute_op("$a/$b", &[("a", "1"), ("b", "$a")], &[], 3)),
    ("substitutions 2", || substitute_op("$a/$b", &[("a", "2"), ("b", "$a")], &[], 3)),
    ("substitutions 3", || substitute_op("$a/$b", &[("a", "1"), ("b", "$a")], &["a"], 3)),
    ("substitutions 4", || substitute_op("$a/$b", &[("a", "1"), ("b", "$a")], &[], 0)),
    ("substitutions 5", || substitute_op("$b/$a", &[("a", "1"), ("b", "$a")], &[], 3)),
    ("substitutions 6", || substitute_op("$a/$b", &[("a", "1")], &[], 3)),
    ("substitutions 7", || substitute_op("$a/$b", &[("a", "$b"), ("b", "1")], &["x"], 3)),
    ("substitutions 8", || substitute_op("$a/$B", &[("a", "1"), ("B", "$a"), ("b", "3")], &[], 3)),
    ("substitutions 9", || substitute_op("$a/$b", &[("a", "1"), ("b", "$b")], &[], 3)),
  ],
  // splices of the same text, and the same splices of other texts
  &[
    ("splices 1", || splice_op("FROM a AS b\nRUN c d\n", &[(5, 6, "long"), (10, 11, ""), (16, 17, "é")])),
    ("splices 2", || splice_op("FROM a AS b\nRUN c d\n", &[(10, 11, ""), (5, 6, "long"), (16, 17, "é")])),
    ("splices 3", || splice_op("FROM a AS b\nRUN c d\n", &[(5, 6, "l"), (10, 11, "xyz"), (16, 17, "e")])),
    ("splices 4", || splice_op("FROM a AS c\nRUN d b\n", &[(5, 6, "long"), (10, 11, ""), (16, 17, "é")])),
    ("splices 5", || splice_op("FROM a AS b\nRUN c d\n", &[])),
    ("splices 6", || splice_op("FROM a AS b\nRUN c d\n", &[(16, 19, "zz"), (16, 17, "y")])),
  ],
  // texts of the same length with their line breaks elsewhere
  &[
    ("positions 1", || lines_op("RUN a\n\nRUN b\nRUN c")),
    ("positions 2", || lines_op("RUN a\nRUN b\n\nRUN c")),
    ("positions 3", || lines_op("\nRUN a\nRUN b\nRUN c")),
    ("positions 4", || lines_op("RUN a\nRUN b\nRUN c\n")),
    ("positions 5", || lines_op("RUN a\r\n\nRUN b RUN c")),
    ("positions 6", || lines_op("RUN a b RUN b RUN c")),
  ],
  // image references
  &[
    ("references 1", || image_op(&["a.b/c:d", "localhost/a", "x@sha256:y"])),
    ("references 2", || image_op(&["a/b.c:d", "localhosu/a", "x:sha256@y"])),
    ("references 3", || image_op(&["A.B/C:D", "LOCALHOST/a", "x@sha256:z"])),
    ("references 4", || image_op(&["a.b/d:c", "localhost/b", "y@sha256:x"])),
    ("references 5", || image_op(&["a:b/c.d", "localhost:a", "x/sha256:y"])),
  ],
  // names of arguments
  &[
    ("names 1", || args_op("ARG a=1\nARG b=2\nFROM x\nARG a\nARG b", &["a", "b", "A", ""])),
    ("names 2", || args_op("ARG b=1\nARG a=2\nFROM x\nARG b\nARG a", &["a", "b", "A", ""])),
    ("names 3", || args_op("ARG A=1\nARG a=2\nFROM x\nARG a\nARG A", &["a", "b", "A", ""])),
    ("names 4", || args_op("FROM x\nARG a=1\nARG b=2\nARG a\nARG b", &["a", "b", "A", ""])),
    ("names 5", || args_op("ARG a=1\nARG b=2\nFROM x\nARG a\nARG b", &["b", "", "a", "c"])),
  ],
  // single lookups
  &[
    ("lookups 1", || lookup_op("FROM a AS x\nFROM b AS y\n", |s| s.get_by_name("x").map(|s| s.index))),
    ("lookups 2", || lookup_op("FROM a AS y\nFROM b AS x\n", |s| s.get_by_name("x").map(|s| s.index))),
    ("lookups 3", || lookup_op("FROM a AS y\nFROM b AS z\n", |s| s.get_by_name("x").map(|s| s.index))),
    ("lookups 4", || lookup_op("FROM a AS x\nFROM b AS y\n", |s| s.get("y").map(|s| s.index))),
    ("lookups 5", || lookup_op("FROM a AS x\nFROM b AS y\n", |s| s.get("1").map(|s| s.index))),
    ("lookups 6", || lookup_op("FROM a AS x\nARG x\n", |s| s.stages[0].arg_index("x"))),
    ("lookups 7", || lookup_op("FROM a AS x\nARG y\nARG x", |s| s.stages[0].arg_index("x"))),
    ("lookups 8", || lookup_op("FROM a AS x\nFROM b\n", |s| s.get("1").map(|s| s.instructions.len()))),
    ("lookups 9", || lookup_op("FROM a AS x\nFROM x\n", |s| if let d::StageParent::Stage(n) = s.stages[1].parent { Some(n) } else { None })),
    ("lookups 10", || lookup_op("FROM x AS y\nFROM x\n", |s| if let d::StageParent::Stage(n) = s.stages[1].parent { Some(n) } else { None })),
  ],
  // single resolutions, some of which fail midway
  &[
    ("single resolutions 1", || resolve_one("ARG a=1\nARG b=$n\nFROM x", "x:$a")),
    ("single resolutions 2", || resolve_one("ARG a=1\nARG b=$n\nFROM x", "x:$b")),
    ("single resolutions 3", || resolve_one("ARG a=1\nARG b=$n\nFROM x", "x:$a$n")),
    ("single resolutions 4", || resolve_one("ARG a=1\nARG b=$n\nFROM x", "x:a")),
    ("single resolutions 5", || resolve_one("ARG a=1\nARG b=$a\nFROM x", "$b/x:$a")),
    ("single resolutions 6", || resolve_one("ARG a=2\nARG b=$a\nFROM x", "$b/x:$a")),
    ("single resolutions 7", || resolve_one("ARG a=2\nARG b=$a$b\nFROM x", "$b/x:$a")),
    ("single resolutions 8", || resolve_one("FROM x\nARG a=1", "x:$a")),
    ("single resolutions 9", || resolve_one("ARG b=1\nARG a=$n\nFROM x", "x:$b")),
  ],
  // single substitutions, some of which fail midway
  &[
    ("single substitutions 1", || substitute_op("$a", &[("a", "1")], &[], 1)),
    ("single substitutions 2", || substitute_op("$a", &[("a", "$b"), ("b", "2")], &[], 2)),
    ("single substitutions 3", || substitute_op("$a", &[("a", "$b"), ("b", "2")], &[], 1)),
    ("single substitutions 4", || substitute_op("$a$c", &[("a", "1"), ("b", "2")], &[], 1)),
    ("single substitutions 5", || substitute_op("$b", &[("a", "1"), ("b", "$b")], &[], 20)),
    ("single substitutions 6", || substitute_op("a", &[("a", "1")], &[], 0)),
    ("single substitutions 7", || substitute_op("${a}", &[("a", "2")], &[], 1)),
    ("single substitutions 8", || substitute_op("$a", &[], &[], 1)),
    ("single substitutions 9", || substitute_op("$A", &[("a", "1"), ("A", "é")], &["a"], 1)),
  ],
  // failures after part of the work, and successes
  &[
    ("partial failures 1", || parse_op("RUN [\"a\"]")),
    ("partial failures 2", || parse_op("RUN [\"b\", \"\\q\"]")),
    ("partial failures 3", || parse_op("LABEL a=b \"c\"=\"\\q\"")),
    ("partial failures 4", || parse_op("LABEL \"a\"=\"b\\\nc\" d=\"e\\\nf\\q\"")),
    ("partial failures 5", || parse_op("ENV a=b c=\"\\q\"")),
    ("partial failures 6", || parse_op("ENV c=d")),
    ("partial failures 7", || parse_op("LABEL e=f")),
    ("partial failures 8", || parse_op("ARG a=1\nFROM b@sha256:00")),
    ("partial failures 9", || parse_op("FROM --a=b c AS d\nFROM e")),
    ("partial failures 10", || parse_op("COPY --f=\"g\" \"a\" \"\\q\" b")),
    ("partial failures 11", || parse_op("COPY a b")),
    ("partial failures 12", || parse_op("RUN a \\\n# c\n b\nCMD [\"\\q\"]")),
  ],
  // reading
  &[
    ("reads 1", || read_op(b"FROM a\n", 99)),
    ("reads 2", || read_op(b"RUN b\nCMD c\n", 99)),
    ("reads 3", || read_op(b"RUN b\nCMD c\n", 1)),
    ("reads 4", || read_op(b"RUN \xc3\xa9", 1)),
    ("reads 5", || read_op(b"RUN \xc3\xa9", 99)),
    ("reads 6", || read_op(b"RUN \xc3", 99)),
    ("reads 7", || read_op(b"", 99)),
    ("reads 8", || read_op(b"RUN\n", 99)),
  ],
  // failures alike
  &[
    ("failures 1", || parse_op("FROM a\nRUN\n")),
    ("failures 2", || parse_op("FROM a\nCMD\n")),
    ("failures 3", || parse_op("RUN a\nRUN\n")),
    ("failures 4", || parse_op("FROM a\nR 1\n")),
    ("failures 5", || parse_op("\nFROM a\nRUN")),
    ("failures 6", || parse_op("FROM a@sha256:\n")),
    ("failures 7", || parse_op("ARG a=\"\\q\"\n")),
    ("failures 8", || parse_op("ARG a=\"\\z\"\n")),
    ("failures 9", || parse_op("ARG a=\"\\n\"\n")),
  ],
];

/// The calls of a family: 0 is the general one.
fn ops(family: usize) -> &'static [Op] {
  if family == 0 {
    OPS
  } else {
    SIBLINGS[family - 1]
  }
}

/// What each call of a family gives in a process of its own.
fn expected_of(family: usize) -> Result<Vec<String>, String> {
  static B: OnceLock<Vec<OnceLock<Vec<Result<String, String>>>>> = OnceLock::new();
  let all = B.get_or_init(|| (0..=SIBLINGS.len()).map(|_| OnceLock::new()).collect());
  let mine = all[family].get_or_init(|| ops(family).iter().map(|o| in_fresh(40, || (o.1)())).collect());
  mine.iter().zip(ops(family)).map(|(r, o)| r.clone().map_err(|e| format!("{}: {}", o.0, e))).collect()
}

fn expected() -> Result<Vec<String>, String> {
  expected_of(0)
}

fn differs(got: &str, n: usize, want: &str) -> String {
  differs_of(0, got, n, want)
}

fn differs_of(family: usize, got: &str, n: usize, want: &str) -> String {
  format!("{:?} gives {}\n  in a fresh process {}", ops(family)[n].0, clip(got, 700), clip(want, 700))
}

/// Runs calls in a fresh process, each in one of two threads.
fn judge_history(family: usize, ids: &[usize], threads: u64, ctx: &mut Ctx) -> Res {
  for f in 0..=SIBLINGS.len() {
    expected_of(f)?;
  }
  let mut request = [0u64; 8];
  request[0] = family as u64;
  request[1] = threads;
  request[2] = ids.len() as u64;
  for (k, n) in ids.iter().enumerate() {
    request[3] |= (*n as u64) << (8 * k);
  }
  let r = in_nursery(run_history, &request)?;
  ctx.steps(ids.len());
  ctx.trace();
  ctx.state(&(family, ids, threads));
  if r.is_empty() {
    Ok(())
  } else {
    Err(r)
  }
}

fn run_history(request: &Request) -> String {
  let (family, threads) = (request[0] as usize, request[1]);
  let ids: Vec<usize> = (0..request[2]).map(|k| (request[3] >> (8 * k) & 255) as usize).collect();
  // worked out before this process began
  let want = match expected_of(family) {
    Ok(w) => w,
    Err(e) => return e,
  };
  let mut out = String::new();
  if threads == 0 {
    for (k, n) in ids.iter().enumerate() {
      let got = (ops(family)[*n].1)();
      if got != want[*n] {
        let _ = write!(out, "call {}: {}", k + 1, differs_of(family, &got, *n, &want[*n]));
        break;
      }
    }
    return out;
  }
  // thread 0 is this one; the other gets its calls one at a time
  let (tx, rx) = mpsc::channel::<usize>();
  let (btx, brx) = mpsc::channel::<String>();
  std::thread::spawn(move || {
    for n in rx {
      let _ = btx.send((ops(family)[n].1)());
    }
  });
  for (k, n) in ids.iter().enumerate() {
    let got = if threads >> k & 1 == 0 {
      (ops(family)[*n].1)()
    } else {
      let _ = tx.send(*n);
      match brx.recv() {
        Ok(g) => g,
        Err(_) => "the thread ended with a panic".into(),
      }
    };
    if got != want[*n] {
      let _ = write!(out, "call {}: {}", k + 1, differs_of(family, &got, *n, &want[*n]));
      break;
    }
  }
  out
}

/// All schedules of two calls: a is preempted at each of its points, b runs
/// (to its end, or is preempted at each of its points), then a goes on.
fn judge_schedules(family: usize, a: usize, b: usize, two: bool, ctx: &mut Ctx) -> Res {
  let want = expected_of(family)?;
  let r = in_fresh(if two { 600 } else { 120 }, || {
    let never = u64::MAX;
    let mut count = 0u64;
    let mut err = None;
    // the number of points settles once whatever is made once has been made
    let (_, _, mut na, mut nb) = interleave(ops(family)[a].1, ops(family)[b].1, never, never);
    for _ in 0..2 {
      let r = interleave(ops(family)[a].1, ops(family)[b].1, never, never);
      na = r.2;
      nb = r.3;
    }
    'all: for k in 1..=na {
      for m in if two { 1..=nb } else { 0..=0 } {
        let (ra, rb, _, _) = interleave(ops(family)[a].1, ops(family)[b].1, k, if two { m } else { never });
        count += 1;
        for (got, n) in [(ra, a), (rb, b)] {
          if got != want[n] {
            err = Some(format!("preempted at point {} of {} and {} of {}: {}", k, na, m, nb, differs_of(family, &got, n, &want[n])));
            break 'all;
          }
        }
      }
    }
    format!("{}\n{}", count, err.unwrap_or_default())
  })?;
  let (count, err) = r.split_once('\n').ok_or_else(|| r.clone())?;
  let count: usize = count.parse().map_err(|_| r.clone())?;
  ctx.steps(count);
  ctx.traces += count as u64;
  for k in 0..count as u64 {
    ctx.state(&(family, a, b, two, k));
  }
  if err.is_empty() {
    Ok(())
  } else {
    Err(err.to_string())
  }
}

/// One schedule of two calls that are the first ones of their process.
fn judge_cold(a: usize, b: usize, k: u64, ctx: &mut Ctx) -> Res {
  let want = expected()?;
  let r = in_fresh(60, || {
    let (ra, rb, na, _) = interleave(OPS[a].1, OPS[b].1, k, u64::MAX);
    let mut o = format!("{}\n", na);
    for (got, n) in [(ra, a), (rb, b)] {
      if got != want[n] {
        o.push_str(&differs(&got, n, &want[n]));
      }
    }
    o
  })?;
  let (_, err) = r.split_once('\n').ok_or_else(|| r.clone())?;
  ctx.steps(1);
  ctx.trace();
  ctx.state(&(a, b, k));
  if err.is_empty() {
    Ok(())
  } else {
    Err(format!("as the first calls, the first preempted at point {}: {}", k, err))
  }
}

/// A reader that calls the library at one of its reads.
struct Calling {
  left: &'static [u8],
  at: usize,
  op: usize,
  got: Option<String>,
}
impl Read for Calling {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    if self.at == 0 {
      self.got = Some((OPS[self.op].1)());
    }
    self.at = self.at.wrapping_sub(1);
    let n = b.len().min(self.left.len()).min(7);
    b[..n].copy_from_slice(&self.left[..n]);
    self.left = &self.left[n..];
    Ok(n)
  }
}

/// A writer that calls the library whenever something is written to it.
struct Writing {
  op: usize,
  got: Vec<String>,
  text: String,
}
impl std::fmt::Write for Writing {
  fn write_str(&mut self, s: &str) -> std::fmt::Result {
    self.got.push((OPS[self.op].1)());
    self.text.push_str(s);
    Ok(())
  }
}

const OUTER: &[&str] = &["ARG v=1\nFROM a AS b\nRUN c\n", "FROM a\nLABEL a=\"b\\\nc\"\nFROM é", "FROM a\nRUN\n"];

fn judge_nested(i: u64, ctx: &mut Ctx) -> Res {
  let n = OPS.len() as u64;
  let op = (i % n) as usize;
  let want = expected()?;
  let form = i / n;
  ctx.steps(2);
  ctx.trace();
  ctx.state(&i);
  let r = in_fresh(40, || {
    let mut inner = vec![];
    let mut o = String::new();
    if form < 18 {
      let t = OUTER[(form % 3) as usize];
      let mut c = Calling { left: t.as_bytes(), at: (form / 3) as usize, op, got: None };
      let got = shown(&Dockerfile::from_reader(&mut c));
      let plain = shown(&Dockerfile::parse(t));
      if got != plain {
        let _ = write!(o, "reading {:?} with {:?} called while reading gives {}\n  alone {}", t, OPS[op].0, got, plain);
      }
      inner.extend(c.got);
    } else {
      let mut w = Writing { op, got: vec![], text: String::new() };
      let f = match Dockerfile::parse(STAGED_A) {
        Ok(f) => f,
        Err(e) => return e.to_string(),
      };
      let s = f.stages();
      let image = ImageRef::parse("r.io/a/b:c@d");
      let b = BreakableString::new((0, 1)).add_string((0, 1), "x").add_comment((0, 1), "# c").add_string((0, 1), "y");
      let err = Dockerfile::parse("FROM a\nRUN\n").unwrap_err();
      let (r, plain) = match form - 18 {
        0 => (write!(w, "{}", image), image.to_string()),
        1 => (write!(w, "{}", b), b.to_string()),
        2 => (write!(w, "{} {}", s.stages[1].parent, s.stages[1].root), format!("{} {}", s.stages[1].parent, s.stages[1].root)),
        _ => (write!(w, "{}", err), err.to_string()),
      };
      if r.is_err() || w.text != plain {
        let _ = write!(o, "printing with {:?} called in between gives {:?}, alone {:?}", OPS[op].0, w.text, plain);
      }
      inner = w.got;
    }
    for g in inner {
      if g != want[op] {
        o.push_str(&differs(&g, op, &want[op]));
      }
    }
    o
  })?;
  if r.is_empty() {
    Ok(())
  } else {
    Err(r)
  }
}

const MASK: u32 = norm::aspect::ACCEPT | norm::aspect::COUNT | norm::aspect::KIND | norm::aspect::VALUES | norm::aspect::ERRKIND;

const SLOT_LENGTHS: &[usize] = &[1, 2, 3, 4, 6, 7, 8, 9, 12, 13, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 200, 255, 256, 300, 1030];
const SLOT_CHARS: &[&str] = &["z", "B", "\"", "\\", " ", "@", "é", "\\n", "\\\"", "#", "$", "=", "\n", "'", "", "xx", "<>", "<...>"];

/// Two texts that differ at one place of one word.
fn alike(i: u64) -> (String, String) {
  let (s, l, c) = (SLOTS.len() as u64, SLOT_LENGTHS.len() as u64, SLOT_CHARS.len() as u64);
  let slot = SLOTS[(i % s) as usize];
  let i = i / s;
  let by = SLOT_CHARS[(i % c) as usize];
  let i = i / c;
  let mut len = SLOT_LENGTHS[(i % l) as usize];
  if slot.contains("sha256:") {
    len = 64;
  }
  let at = match i / l {
    0 => 0,
    1 => 1,
    2 => len / 2,
    3 => len.saturating_sub(2),
    _ => len - 1,
  }
  .min(len - 1);
  // the first letters of names, varied so that parts of the word differ
  let word: Vec<char> = (0..len).map(|k| (b'a' + ((k * 5 + k / 7) % 6) as u8) as char).collect();
  let mut other: String = word[..at].iter().collect();
  // two characters that change places, or another one instead
  let with = match by {
    "<>" => Some((at + 1) % len),
    "<...>" => Some((at + len / 3) % len),
    _ => None,
  };
  match with {
    Some(with) => {
      let mut w = word.clone();
      w.swap(at, with);
      other = w.into_iter().collect();
    }
    None => {
      other.push_str(by);
      other.extend(&word[at + 1..]);
    }
  }
  let word: String = word.into_iter().collect();
  let put = |w: &str| match slot.rfind('@') {
    Some(_) if slot == "ENV a=\"x@\" b=\"x@\"" => slot.replacen('@', &word, 1).replacen('@', w, 1),
    Some(k) => format!("{}{}{}", &slot[..k], w, &slot[k + 1..]),
    None => unreachable!(),
  };
  (put(&word), put(&other))
}

/// Texts that differ at one place of one word, one after the other, back again,
/// and in one file.
fn judge_alike(i: u64, ctx: &mut Ctx) -> Res {
  let (a, b) = alike(i);
  let judge = against_model(MASK);
  for t in [&a, &b, &a] {
    ctx.steps(1);
    judge(t, ctx)?;
  }
  for t in [format!("{}\n{}\n", a, b), format!("{}\n{}\n{}", b, a, b)] {
    ctx.steps(2);
    judge(&t, ctx)?;
  }
  Ok(())
}

/// Words that mean different things in different places.
const WORDS: &[&str] = &["host", "a", "scratch", "localhost", "r.io", "5000", "FROM", "AS", "x_1", "from", "latest", "Run"];
const IMAGE_FORMS: &[&str] = &[
  "~", "~:5000", "~:t", "~/x", "~:5000/x", "~:5000/x:t", "x/~", "x/~:t", "~@d", "~/x:t@d", "~.x/y", "x.~/y", "~/~", "~/~/~:~", "r.io/~/x", "r.io:1/~", "x:~", "x@~", "$~", "${~}/x", "~.io:5000/x", "~/x/y", "x-~/y", "~-x/y", "localhost/~",
];

/// One word in two places of two texts, one text after the other, and back.
fn shared(i: u64) -> (String, String, bool) {
  let (f, s, w) = (IMAGE_FORMS.len() as u64, SLOTS.len() as u64, WORDS.len() as u64);
  let word = WORDS[(i % w) as usize];
  let i = i / w;
  if i < f * f {
    let image = |t: &str| t.replace('~', word);
    return (image(IMAGE_FORMS[(i % f) as usize]), image(IMAGE_FORMS[(i / f) as usize]), true);
  }
  let i = i - f * f;
  let slot = |t: &str| match t.rfind('@') {
    Some(k) => format!("{}{}{}", &t[..k], word, &t[k + 1..]),
    None => t.to_string(),
  };
  (slot(SLOTS[(i % s) as usize]), slot(SLOTS[(i / s) as usize]), false)
}

fn judge_shared(i: u64, ctx: &mut Ctx) -> Res {
  let (a, b, images) = shared(i);
  let judge = against_model(MASK);
  for t in [&a, &b, &a] {
    ctx.steps(1);
    if images {
      ctx.trace();
      let got = norm::img(&ImageRef::parse(t));
      let want = crate::model::split_image(t);
      ctx.state(&got);
      if got != want {
        return Err(format!("{:?} is {:?}, expected {:?}", t, got, want));
      }
      judge(&format!("FROM {}", t), ctx)?;
    } else {
      judge(t, ctx)?;
    }
  }
  if !images {
    judge(&format!("{}\n{}\n{}\n", a, b, a), ctx)?;
  }
  Ok(())
}

fn named(ids: &[usize]) -> Vec<&'static str> {
  ids.iter().map(|n| OPS[*n].0).collect()
}

pub fn c23(quick: bool) -> Vec<Space> {
  let n = OPS.len() as u64;
  let mut v = vec![];
  // all histories, in one thread and with every division over two threads
  let depth = q(quick, 3u32, 4);
  let masks = 1u64 << (depth - 1);
  let make = move |i: u64| {
    let mut ids = vec![];
    let mut r = i / masks;
    for _ in 0..depth {
      ids.push((r % n) as usize);
      r /= n;
    }
    (ids, (i % masks) << 1)
  };
  v.push(
    Space::new(
      format!("histories of {} calls out of {}, over two threads", depth, n),
      n.pow(depth) * masks,
      move |i| {
        let (ids, t) = make(i);
        format!("{:?}, in the other thread: {:#b}", named(&ids), t)
      },
      move |i, ctx| {
        let (ids, t) = make(i);
        judge_history(0, &ids, t, ctx)
      },
    )
    .chunk(16),
  );
  // histories within each family of calls that are easily taken for each other
  for (k, f) in SIBLINGS.iter().enumerate() {
    let m = f.len() as u64;
    let depth = q(quick, 3u32, 4);
    let masks = 1u64 << (depth - 1);
    let name = f[0].0.trim_end_matches(" 1");
    let make = move |i: u64| {
      let mut ids = vec![];
      let mut r = i / masks;
      for _ in 0..depth {
        ids.push((r % m) as usize);
        r /= m;
      }
      (ids, (i % masks) << 1)
    };
    v.push(
      Space::new(
        format!("histories of {} calls out of the {} like {}, over two threads", depth, m, name),
        m.pow(depth) * masks,
        move |i| format!("{}, calls {:?}, in the other thread: {:#b}", name, make(i).0, make(i).1),
        move |i, ctx| {
          let (ids, t) = make(i);
          judge_history(k + 1, &ids, t, ctx)
        },
      )
      .chunk(16),
    );
    v.push(
      Space::new(
        format!("two calls like {} in two threads, one preemption at every point", name),
        m * m,
        move |i| format!("{}, calls {} and {}", name, i / m, i % m),
        move |i, ctx| judge_schedules(k + 1, (i / m) as usize, (i % m) as usize, false, ctx),
      )
      .chunk(1),
    );
  }
  // each call tens of thousands of times, then every call
  let many = q(quick, 66_000u64, 140_000);
  v.push(
    Space::new(
      format!("a call {} times, then all calls", many),
      n,
      move |i| OPS[i as usize].0.into(),
      move |i, ctx| {
        let want = expected()?;
        let a = i as usize;
        let r = in_fresh(200, || {
          for k in 0..many {
            let got = (OPS[a].1)();
            if got != want[a] {
              return format!("at its call {}: {}", k + 1, differs(&got, a, &want[a]));
            }
          }
          for b in 0..OPS.len() {
            let got = (OPS[b].1)();
            if got != want[b] {
              return format!("after {} calls of {:?}: {}", many, OPS[a].0, differs(&got, b, &want[b]));
            }
          }
          String::new()
        })?;
        ctx.steps(many as usize);
        ctx.trace();
        ctx.state(&i);
        if r.is_empty() {
          Ok(())
        } else {
          Err(r)
        }
      },
    )
    .chunk(1),
  );
  // one process that is given all short texts: whatever it keeps of one must
  // not be taken for another
  let printable: Vec<String> = (32u8..127).map(|b| (b as char).to_string()).collect();
  let chars: Vec<&str> = printable.iter().map(|s| s.as_str()).collect();
  let all3 = |name: &str, p: &[&str], s: &[&str], d: u32| tokens(name, p, &chars, d, s);
  v.push(all3("all short strings substituted in one process", &[""], &[""], 3).space(|t, ctx| {
    super::images::judge_substitute(t, &[("a".to_string(), "1".to_string()), ("0".into(), "$a".into())].into_iter().collect(), &[], 3, ctx)
  }));
  v.push(all3("all short image references in one process", &[""], &[""], 3).space(super::images::c13_judge));
  v.push(all3("all short texts of RUN in one process", &["RUN "], &[""], q(quick, 2, 3)).space(against_model(MASK)));
  v.push(all3("all short texts in one process", &["", "FROM ", "ARG a=", "ENV a=", "LABEL a=\"", "CMD [\"", "COPY a "], &["", "\"", "\"]"], 2).space(against_model(MASK)));
  v.push(Space::new(
    format!("one word in two places, one text after the other (words={}, places={}+{})", WORDS.len(), IMAGE_FORMS.len(), SLOTS.len()),
    WORDS.len() as u64 * ((IMAGE_FORMS.len() * IMAGE_FORMS.len()) as u64 + (SLOTS.len() * SLOTS.len()) as u64),
    |i| format!("{:?}", shared(i)),
    judge_shared,
  ));
  v.push(Space::new(
    format!("texts that differ at one place of one word, in turn (words={}, lengths={})", SLOTS.len(), SLOT_LENGTHS.len()),
    (SLOTS.len() * SLOT_LENGTHS.len() * SLOT_CHARS.len() * 5) as u64,
    |i| clip(&format!("{:?}", alike(i)), 800),
    judge_alike,
  ));
  // a call many times, then each call
  let mut at = vec![1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257];
  at.extend(q(quick, vec![511, 512, 513, 1000, 1023, 1024, 1025], vec![511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 16384, 20000]));
  v.push(
    Space::new(
      format!("a call up to {} times, then another", at.last().unwrap()),
      n * n,
      move |i| format!("{:?}", named(&[(i / n) as usize, (i % n) as usize])),
      move |i, ctx| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        let want = expected()?;
        let r = in_fresh(40, || {
          let mut done = 0;
          for k in &at {
            while done < *k {
              let got = (OPS[a].1)();
              done += 1;
              if got != want[a] {
                return format!("at its call {}: {}", done, differs(&got, a, &want[a]));
              }
            }
            let got = (OPS[b].1)();
            if got != want[b] {
              return format!("after {} calls of {:?}: {}", done, OPS[a].0, differs(&got, b, &want[b]));
            }
          }
          String::new()
        })?;
        ctx.steps(*at.last().unwrap());
        ctx.trace();
        ctx.state(&i);
        if r.is_empty() {
          Ok(())
        } else {
          Err(r)
        }
      },
    )
    .chunk(1),
  );
  // calls made while another one reads or prints
  v.push(Space::new(
    "calls made by the reader or the writer given to another call",
    n * (18 + 4),
    move |i| format!("form {} with {:?}", i / n, OPS[(i % n) as usize].0),
    judge_nested,
  ));
  // all schedules with one preemption
  v.push(
    Space::new(
      "two calls in two threads, one preemption at every point",
      n * n,
      move |i| format!("{:?}", named(&[(i / n) as usize, (i % n) as usize])),
      move |i, ctx| judge_schedules(0, (i / n) as usize, (i % n) as usize, false, ctx),
    )
    .chunk(1),
  );
  // two preemptions
  let some: Vec<usize> = if quick { vec![0, 2, 3, 6, 10, 17, 18] } else { (0..OPS.len()).collect() };
  let k = some.len() as u64;
  let s2 = some.clone();
  v.push(
    Space::new(
      format!("two calls of {} in two threads, two preemptions at every pair of points", k),
      k * k,
      move |i| format!("{:?}", named(&[s2[(i / k) as usize], s2[(i % k) as usize]])),
      move |i, ctx| judge_schedules(0, some[(i / k) as usize], some[(i % k) as usize], true, ctx),
    )
    .chunk(1),
  );
  // the first calls of a process
  let pairs: &'static [(usize, usize)] = &[(17, 18), (6, 7), (17, 6), (0, 2), (14, 17), (2, 2)];
  let points = q(quick, 400u64, 6000);
  v.push(
    Space::new(
      format!("the first two calls of a process, one preemption at each of the first {} points", points),
      pairs.len() as u64 * points,
      move |i| {
        let (a, b) = pairs[(i % pairs.len() as u64) as usize];
        format!("{:?} at point {}", named(&[a, b]), i / pairs.len() as u64 + 1)
      },
      move |i, ctx| {
        let (a, b) = pairs[(i % pairs.len() as u64) as usize];
        judge_cold(a, b, i / pairs.len() as u64 + 1, ctx)
      },
    )
    .chunk(4),
  );
  v
}
