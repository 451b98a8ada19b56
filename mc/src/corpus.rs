//! Finite sets of texts shared by several properties.

use crate::engine::{clip, Ctx, Res, Space};
use std::sync::Arc;

/// A numbered set of texts; `get` also says how many steps built the text.
#[derive(Clone)]
pub struct Texts {
  pub name: String,
  pub size: u64,
  pub get: Arc<dyn Fn(u64) -> (String, usize) + Send + Sync>,
}

impl Texts {
  pub fn new(name: &str, size: u64, get: impl Fn(u64) -> (String, usize) + Send + Sync + 'static) -> Texts {
    Texts { name: name.into(), size, get: Arc::new(get) }
  }

  pub fn space(self, judge: impl Fn(&str, &mut Ctx) -> Res + Send + Sync + 'static) -> Space {
    let show = self.get.clone();
    let get = self.get;
    Space::new(
      self.name,
      self.size,
      move |i| clip(&format!("{:?}", show(i).0), 4000),
      move |i, ctx| {
        let (t, steps) = get(i);
        ctx.steps(steps);
        judge(&t, ctx)
      },
    )
  }
}

pub fn pow_sum(base: u64, max: u32) -> u64 {
  (0..=max).map(|l| base.pow(l)).sum()
}

/// Decodes the i-th sequence over 0..base, shortest first.
pub fn seq(mut i: u64, base: u64) -> Vec<usize> {
  let mut len = 0;
  while i >= base.pow(len) {
    i -= base.pow(len);
    len += 1;
  }
  let mut out = vec![0; len as usize];
  for k in (0..len as usize).rev() {
    out[k] = (i % base) as usize;
    i /= base;
  }
  out
}

/// All texts prefix ++ (tokens)* ++ suffix with at most `max` tokens.
pub fn tokens(name: &str, prefixes: &[&str], alphabet: &[&str], max: u32, suffixes: &[&str]) -> Texts {
  let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
  let (p, a, s) = (own(prefixes), own(alphabet), own(suffixes));
  let outer = (p.len() * s.len()) as u64;
  let size = pow_sum(a.len() as u64, max) * outer;
  Texts::new(&format!("{} (tokens={}, depth<={})", name, a.len(), max), size, move |i| {
    let o = (i % outer) as usize;
    let ids = seq(i / outer, a.len() as u64);
    let mut t = p[o / s.len()].clone();
    for k in &ids {
      t.push_str(&a[*k]);
    }
    t.push_str(&s[o % s.len()]);
    (t, ids.len() + 1)
  })
}

/// Splits an index over consecutive blocks of the given sizes.
pub struct Blocks {
  ends: Vec<u64>,
}

impl Blocks {
  pub fn new(sizes: impl Iterator<Item = u64>) -> Blocks {
    let mut ends = vec![];
    let mut t = 0;
    for s in sizes {
      t += s;
      ends.push(t);
    }
    Blocks { ends }
  }
  pub fn total(&self) -> u64 {
    self.ends.last().copied().unwrap_or(0)
  }
  pub fn find(&self, i: u64) -> (usize, u64) {
    let b = self.ends.partition_point(|e| *e <= i);
    (b, i - if b == 0 { 0 } else { self.ends[b - 1] })
  }
}

pub fn list(name: &str, v: Vec<String>) -> Texts {
  let n = v.len() as u64;
  Texts::new(name, n, move |i| (v[i as usize].clone(), 1))
}

/// every single-character deletion, replacement and insertion
pub fn edits1(name: &str, seeds: &[&str], chars: &[char]) -> Texts {
  let seeds: Vec<Vec<char>> = seeds.iter().map(|s| s.chars().collect()).collect();
  let chars = chars.to_vec();
  let k = chars.len() as u64;
  // per position: delete, k replacements, k insertions; plus k insertions at the end; plus the seed
  let blocks = Blocks::new(seeds.iter().map(|s| s.len() as u64 * (2 * k + 1) + k + 1));
  let total = blocks.total();
  Texts::new(&format!("{} (seeds={}, characters={})", name, seeds.len(), k), total, move |i| {
    let (b, r) = blocks.find(i);
    let mut t = seeds[b].clone();
    edit(&mut t, r, &chars);
    (t.into_iter().collect(), 2)
  })
}

fn edit(t: &mut Vec<char>, r: u64, chars: &[char]) {
  if r == 0 {
    return;
  }
  let k = chars.len() as u64;
  let r = r - 1;
  let pos = (r / (2 * k + 1)) as usize;
  let op = r % (2 * k + 1);
  if pos == t.len() {
    t.push(chars[op as usize]);
  } else if op == 2 * k {
    t.remove(pos);
  } else if op < k {
    t.insert(pos, chars[op as usize]);
  } else {
    t[pos] = chars[(op - k) as usize];
  }
}

/// every pair of single-character edits
pub fn edits2(name: &str, seeds: &[&str], chars: &[char]) -> Texts {
  let seeds: Vec<Vec<char>> = seeds.iter().map(|s| s.chars().collect()).collect();
  let chars = chars.to_vec();
  let k = chars.len() as u64;
  let one = move |len: usize| len as u64 * (2 * k + 1) + k + 1;
  // the second edit ranges over the text after an insertion (the longest case)
  let blocks = Blocks::new(seeds.iter().map(|s| one(s.len()) * one(s.len() + 1)));
  let total = blocks.total();
  Texts::new(&format!("{} (seeds={}, characters={})", name, seeds.len(), k), total, move |i| {
    let (b, r) = blocks.find(i);
    let mut t = seeds[b].clone();
    let inner = one(t.len() + 1);
    edit(&mut t, r / inner, &chars);
    let second = (r % inner).min(one(t.len()) - 1);
    edit(&mut t, second, &chars);
    (t.into_iter().collect(), 3)
  })
}

/// every Unicode scalar value below `limit` in each context
pub fn unicode(name: &str, contexts: &[(&str, &str)], limit: u32) -> Texts {
  let c: Vec<(String, String)> = contexts.iter().map(|c| (c.0.into(), c.1.into())).collect();
  let n = c.len() as u64;
  Texts::new(&format!("{} (contexts={}, scalars<{:#x})", name, n, limit), n * limit as u64, move |i| {
    let u = (i / n) as u32;
    let (a, b) = &c[(i % n) as usize];
    let ch = char::from_u32(u).unwrap_or('\u{fffd}');
    (format!("{}{}{}", a, ch, b), 1)
  })
}

/// characters that single edits use: all of ASCII and selected others
pub fn all_chars() -> Vec<char> {
  let mut v: Vec<char> = (0u8..128).map(|b| b as char).collect();
  v.extend("\u{80}\u{85}\u{a0}é\u{3c0}\u{2003}\u{2028}\u{2029}\u{3000}\u{feff}\u{fffd}漢\u{1f600}\u{10ffff}".chars());
  v
}

/// characters with a role in the syntax
pub fn role_chars() -> Vec<char> {
  " \t\n\r\\#\"'=[],-:/@$a0é".chars().collect()
}

pub const IMAGE_SEEDS: &[&str] = &[
  "FROM alpine",
  "FROM --platform=linux/amd64 a.b:5000/c/d:1.2 AS build",
  "from $x/${y}:v1 as b-1_c",
  "FROM \\\n# c\n\n  a \\\n as \\\n b",
  "FROM --a=\"q\" --b='r' a/b",
];

pub const ARG_SEEDS: &[&str] = &[
  "ARG a", "arg Abc_1=x$y", "ARG a=\"b c\\n\"", "ARG a='b \"'", "ARG \\\n# c\n a=b", "ARG a=", "ARG a=`b`",
];

pub const LABEL_SEEDS: &[&str] = &[
  "LABEL a=b", "LABEL a b", "label a=b c=\"d e\" \"f g\"='h'", "LABEL \"a b\" \"c\\\n d\"",
  "LABEL a=b \\\n # c\n\n c.d-e=f", "LABEL 'x'=y \\\n  z=\"1\\t2\"", "LABEL a \"b c\"",
];

pub const COMMAND_SEEDS: &[&str] = &[
  "RUN echo a", "run a \\\n  # c\n  # d\n b \\\n c", "RUN [\"a\", 'b', \"c d\"]", "RUN [ ]",
  "CMD [\"a\", \\\n # c\n \"b\"]", "cmd a # b", "ENTRYPOINT [\"a\\\"b\",\"[,]\"]", "entrypoint /a -b",
  "RUN [\"a\"] && b", "CMD \\\n# c\n a", "ENTRYPOINT \\\n\t[\"x\",]", "RUN [ -f a ] || b", "RUN x",
];

pub const COPY_SEEDS: &[&str] = &[
  "COPY a b", "copy --from=x --chown=a:b c d e", "COPY a \\\n # c\n\n b \\\n  c", "COPY \"a\" 'b c'", "COPY a --b=c d",
];

pub const ENV_SEEDS: &[&str] = &[
  "ENV a b", "ENV a=b", "env a=b c=\"d e\" f='g'", "ENV a b \\\n # c\n  c=d", "ENV a \"b c\"", "ENV a \"b\" c",
  "ENV a=b \\\n# c\n\n  c_1=$d \\\n  e=f", "ENV a b=c", "ENV a=\"b\\\"c\" d=e",
];

pub const MISC_SEEDS: &[&str] = &["WORKDIR /a", "ADD a b \\\n# c\n c", "User  x ", "HEALTHCHECK --x=y \\\n CMD a", "VOLUME x"];

pub const FILE_SEEDS: &[&str] = &[
  "", "\n", "# c", " \t", "# c\n\nFROM a\n\n # d\n RUN b\n", "ARG v=1\r\nFROM a:$v\r\n\tRUN b \\\r\n c\r\n",
  "FROM a AS b\nCOPY x y\nFROM b\nENV c=d\n", "RUN a \\\n\nRUN b", "RUN a \\\n# b", "\u{feff}FROM a",
  "FROM a\nFROM a b c\n", "LABEL a=b\nLABEL \"c\nd\"=e\n", "ENV a=\"b\nc\"\n",
];

/// files in which several instructions belong together
pub const LONGER: &[&str] = &[
  "ARG v=1\n# c\nFROM a:$v AS b\nARG w\nRUN x y \\\n# d\n z\nENV e=f g=\"h i\"\nLABEL j=k l='m'\nCOPY --from=b o p\nCMD [\"q\", \"r\"]\nFROM b AS s\nENTRYPOINT t\nUSER u\n",
  "FROM a\nRUN b\nRUN c\nFROM scratch AS d\nCOPY --from=0 e f\nFROM d\n",
];

pub fn all_seeds() -> Vec<&'static str> {
  [IMAGE_SEEDS, ARG_SEEDS, LABEL_SEEDS, COMMAND_SEEDS, COPY_SEEDS, ENV_SEEDS, MISC_SEEDS, FILE_SEEDS].concat()
}

pub const HEX64: &str = "0123456789abcdefABCDEF0123456789abcdef0123456789abcdef0123456789";

/// tokens that mix all instructions
pub const GENERAL: &[&str] = &[
  "\n", " ", "\\\n", "#", "RUN", "FROM", "a", "=", "\"", "[", "]", ",", "'", "\\", "\r\n", "ENV ", "LABEL ",
  "COPY ", "ARG ", "CMD ", "ENTRYPOINT ", "é", "--f=v", "\t", "as ", "$", "X", "\r",
];

pub fn general(max: u32) -> Texts {
  tokens("texts over tokens of all instructions", &[""], GENERAL, max, &[""])
}

/// texts of one family per instruction form, over a small alphabet each
pub fn per_instruction(quick: bool) -> Vec<Texts> {
  let d = if quick { 0 } else { 1 };
  vec![
    from_tokens(4 + d),
    arg_tokens(5 + d),
    label_tokens(5 + d),
    command_tokens(5 + d),
    copy_tokens(5 + d),
    env_tokens(5 + d),
    misc_tokens(5 + d),
  ]
}

pub const AFTER: &[&str] = &["", "\nRUN z\n"];

pub fn from_tokens(max: u32) -> Texts {
  tokens(
    "FROM texts",
    &["FROM", "FROM "],
    &["a", " ", "\\\n", "AS", "as ", "x", "--f=", "=", "-", "#", "\n", ":", "/", "@", "$", "é", "\"", "A", "."],
    max,
    AFTER,
  )
}
pub fn arg_tokens(max: u32) -> Texts {
  tokens(
    "ARG texts",
    &["ARG ", "FROM z\nARG"],
    &["a", "=", " ", "\"", "'", "\\\n", "\\", "#", "\n", "0", "_", "é", "-"],
    max,
    AFTER,
  )
}
pub fn label_tokens(max: u32) -> Texts {
  tokens(
    "LABEL texts",
    &["LABEL", "LABEL a"],
    &["a", "=", " ", "\"", "'", "\\\n", "\\", "#", "\n", "b=c", "\"d e\"", "é"],
    max,
    AFTER,
  )
}
pub fn command_tokens(max: u32) -> Texts {
  tokens(
    "RUN/CMD/ENTRYPOINT texts",
    &["RUN ", "CMD ", "ENTRYPOINT "],
    &["a", "[", "]", ",", "\"b\"", " ", "\\\n", "#", "\n", "\\", "'", "\"", "é"],
    max,
    &[""],
  )
}
pub fn copy_tokens(max: u32) -> Texts {
  tokens(
    "COPY texts",
    &["COPY", "COPY a"],
    &["a", " ", "\\\n", "--f=", "b", "=", "-", "#", "\n", "\"", "é", "\\"],
    max,
    AFTER,
  )
}
pub fn env_tokens(max: u32) -> Texts {
  tokens(
    "ENV texts",
    &["ENV", "ENV a"],
    &["a", "=", " ", "\"", "'", "\\\n", "\\", "#", "\n", "b=c", "\"d e\"", "é"],
    max,
    AFTER,
  )
}
pub fn misc_tokens(max: u32) -> Texts {
  tokens(
    "other keywords",
    &["ADD", "x"],
    &["a", " ", "\\\n", "#", "\n", "\\", "\"", "é", "\t", "\r\n", "="],
    max,
    AFTER,
  )
}

pub type Family = (&'static str, fn(usize) -> String);

fn rep(s: &str, n: usize) -> String {
  s.repeat(n)
}

/// texts of growing size, one repeated element each
pub const FAMILIES: &[Family] = &[
  ("continued lines", |n| format!("RUN a{}", rep(" \\\n b", n))),
  ("continued lines with comments", |n| format!("RUN a{}", rep(" \\\n # c\n b", n))),
  ("comments after one continuation", |n| format!("CMD a \\\n{} b\nRUN c", rep("# c\n", n))),
  ("continued lines of ENTRYPOINT", |n| format!("ENTRYPOINT a{}", rep("\\\nb", n))),
  ("continued lines of ENV", |n| format!("ENV a b{}", rep("\\\r\nb", n))),
  ("continued lines of other instructions", |n| format!("VOLUME a{}", rep("\\ \nb", n))),
  ("blank lines after a continuation", |n| format!("COPY a \\\n{}b", rep("\n", n))),
  ("comment lines after a continuation", |n| format!("ARG \\\n{}b", rep(" # c\n", n))),
  ("continuations between words", |n| format!("COPY a{}b", rep(" \\\n", n))),
  ("instructions", |n| rep("RUN a\n", n)),
  ("stages", |n| rep("FROM a AS b\n", n)),
  ("global arguments", |n| format!("{}FROM a", rep("ARG a=b\n", n))),
  ("blank lines", |n| format!("{}RUN a", rep("\n", n))),
  ("CRLF blank lines", |n| format!("{}RUN a", rep("\r\n", n))),
  ("comment lines", |n| format!("{}RUN a", rep("# c\n", n))),
  ("indentation", |n| format!("{}RUN a", rep(" ", n))),
  ("trailing blanks", |n| format!("ARG a{}\nRUN a", rep("\t", n))),
  ("sources", |n| format!("COPY a{} b", rep(" c", n))),
  ("COPY flags", |n| format!("COPY{} a b", rep(" --f=v", n))),
  ("FROM flags", |n| format!("FROM{} a", rep(" --f=v", n))),
  ("labels", |n| format!("LABEL a=b{}", rep(" c=d", n))),
  ("quoted labels", |n| format!("LABEL \"a\"=b{}", rep(" \"c\"=\"d\"", n))),
  ("labels on continued lines", |n| format!("LABEL a=b{}", rep(" \\\n  c=d", n))),
  ("variables", |n| format!("ENV a=b{}", rep(" c=d", n))),
  ("quoted variables", |n| format!("ENV a=b{}", rep(" c=\"d\"", n))),
  ("exec elements", |n| format!("RUN [\"a\"{}]", rep(", \"b\"", n))),
  ("exec elements of CMD", |n| format!("CMD [\"a\"{}]", rep(",'b'", n))),
  ("exec elements on continued lines", |n| format!("ENTRYPOINT [\"a\"{}]", rep(", \\\n \"b\"", n))),
  ("blanks between words", |n| format!("COPY a{}b", rep(" ", n + 1))),
  ("shell text", |n| format!("RUN {}", rep("x", n + 1))),
  ("multi-byte shell text", |n| format!("RUN {}\nCMD é", rep("é", n + 1))),
  ("word", |n| format!("COPY {} b", rep("x", n + 1))),
  ("flag value", |n| format!("COPY --f={} a b", rep("x", n + 1))),
  ("flag name", |n| format!("COPY --{}=x a b", rep("f", n + 1))),
  ("quoted value", |n| format!("ARG a=\"{}\"", rep("x y", n))),
  ("escapes in a quoted value", |n| format!("ENV a=\"{}\"", rep("\\n", n))),
  ("escaped quotes in an element", |n| format!("CMD [\"{}\"]", rep("\\\"", n))),
  ("line breaks in a label", |n| format!("LABEL a=\"b{}\"", rep("\\\nc", n))),
  ("label name", |n| format!("LABEL {}=b", rep("x", n + 1))),
  ("variable name", |n| format!("ENV {}=b", rep("x", n + 1))),
  ("argument name", |n| format!("ARG {}=b", rep("x", n + 1))),
  ("image name", |n| format!("FROM {}:1 AS a", rep("x", n + 1))),
  ("alias", |n| format!("FROM a AS {}", rep("x", n + 1))),
  ("keyword", |n| format!("X{} b", rep("y", n))),
  ("comment text", |n| format!("# {}\nRUN a", rep("x", n))),
  ("backslashes", |n| format!("RUN a{}", rep("\\", n))),
  ("backslashes before a line break", |n| format!("RUN a{}\nb", rep("\\", n))),
  ("hashes", |n| format!("RUN a{}", rep("#", n))),
  ("blanks in a continuation", |n| format!("RUN a \\{}\n b", rep(" ", n))),
  ("open brackets", |n| format!("RUN {}", rep("[", n + 1))),
  ("open list", |n| format!("RUN [\"a\"{}", rep(",\"b\"", n))),
  ("unterminated string", |n| format!("ARG a=\"{}", rep("x", n))),
  ("unterminated escapes", |n| format!("LABEL a=\"{}", rep("\\\"", n))),
  ("quotes", |n| format!("LABEL {}", rep("\"", n + 1))),
  ("equals signs", |n| format!("ENV a{}", rep("=", n + 1))),
  ("slashes in an image", |n| format!("FROM a{}", rep("/b", n))),
  ("dollars in an image", |n| format!("FROM {}", rep("$a", n + 1))),
  ("colons in an image", |n| format!("FROM a{}", rep(":b", n))),
];

/// sizes tried for the families: all up to `dense`, and around powers of two
pub fn sizes(dense: usize, top: usize) -> Vec<usize> {
  sizes_to(dense, top, top.max(20_000))
}

/// the same, with numbers of the source up to a limit (for what takes
/// quadratic time)
pub fn sizes_to(dense: usize, top: usize, limit: usize) -> Vec<usize> {
  let mut v: Vec<usize> = (0..=dense).collect();
  let mut p = 1;
  while p <= top {
    for k in [p - 1, p, p + 1] {
      if k > dense {
        v.push(k);
      }
    }
    p *= 2;
  }
  let mut p = 10;
  while p <= top {
    for k in [p - 1, p, p + 1] {
      if k > dense {
        v.push(k);
      }
    }
    p *= 10;
  }
  v.extend(crate::lexicon::extra_sizes(limit));
  v.sort();
  v.dedup();
  v
}

/// sizes around the largest 16-bit number
pub const HUGE: &[usize] = &[32_767, 32_768, 32_769, 65_535, 65_536, 65_537];

pub fn families(name: &str, which: &'static [Family], sizes: Vec<usize>) -> Texts {
  let n = which.len() as u64;
  Texts::new(
    &format!("{} (families={}, sizes={} up to {})", name, n, sizes.len(), sizes.last().unwrap()),
    n * sizes.len() as u64,
    move |i| {
      let k = sizes[(i / n) as usize];
      ((which[(i % n) as usize].1)(k), k)
    },
  )
}

/// What may stand around an instruction: few and many others of each kind,
/// long lines, long texts.
fn places() -> Vec<(String, String)> {
  let mixed = "FROM x AS y\nARG v=1\nRUN w \\\n# c\n z\nCMD [\"é\"]\nLABEL k=\"l\"\nCOPY i j\nENV m n\nADD o p\nENTRYPOINT q\n";
  let s = |a: &str, b: &str| (a.to_string(), b.to_string());
  vec![
    s("\r\n\tFROM x AS y\r\nRUN w \\\r\n z\r\n", "\r\nCOPY i j\r\n"),
    s(mixed, "\nCOPY i j"),
    s(&mixed.repeat(2), "\n# c\nARG x"),
    s(&mixed.repeat(8), "\n"),
    s(&"RUN a\n".repeat(300), &"\nRUN a".repeat(300)),
    s(&"ARG x=1\n".repeat(70), ""),
    s(&"FROM a AS b\n".repeat(20), &"\nFROM b".repeat(20)),
    s(&format!("# {}\n", "é".repeat(700)), ""),
    s(&"\n".repeat(260), "\n\n"),
  ]
}

/// the texts of another set, each in every place of a file
pub fn placed(inner: Texts) -> Texts {
  let p = places();
  let n = p.len() as u64;
  let get = inner.get;
  Texts::new(&format!("{}, each in {} places of a file", inner.name, n), inner.size * n, move |i| {
    let (t, k) = get(i / n);
    let (a, b) = &p[(i % n) as usize];
    (format!("{}{}{}", a, t, b), k + 2)
  })
}

/// the texts of another set, far from the start of a file
pub fn far(inner: Texts) -> Texts {
  let before: Vec<String> = vec!["# é c\n".repeat(300), format!("FROM a AS b\n{}", "RUN c \\\n d\n".repeat(400)), "ARG a=\"b\"\n\n".repeat(6000)];
  let n = before.len() as u64;
  let get = inner.get;
  Texts::new(&format!("{}, far from the start of a file", inner.name), inner.size * n, move |i| {
    let (t, k) = get(i / n);
    (format!("{}{}", before[(i % n) as usize], t), k + 2)
  })
}

/// the texts of another set with line ends as on Windows
pub fn crlf(inner: Texts) -> Texts {
  let get = inner.get;
  Texts::new(&format!("{}, with CRLF", inner.name), inner.size, move |i| {
    let (t, k) = get(i);
    (t.replace("\r\n", "\n").replace('\n', "\r\n"), k)
  })
}

/// All concatenations of one choice per slot.
pub fn product(name: &str, slots: &[&[&str]]) -> Texts {
  let own: Vec<Vec<String>> = slots.iter().map(|s| s.iter().map(|x| x.to_string()).collect()).collect();
  let size = own.iter().map(|s| s.len() as u64).product();
  let n = own.len();
  Texts::new(&format!("{} (slots={})", name, n), size, move |mut i| {
    let mut picks = vec![0; n];
    for k in (0..n).rev() {
      let m = own[k].len() as u64;
      picks[k] = (i % m) as usize;
      i /= m;
    }
    (picks.iter().zip(&own).map(|(p, s)| s[*p].as_str()).collect(), n)
  })
}

// Words that occur in real files. A library of this kind may well treat some
// of them specially by mistake (or on purpose, where it must not).

pub const REAL_IMAGES: &[&str] = &[
  "alpine", "ubuntu", "scratch", "SCRATCH", "debian", "busybox", "node", "library/ubuntu", "docker.io/ubuntu", "docker.io/library/ubuntu",
  "index.docker.io/library/ubuntu", "registry-1.docker.io/a/b", "registry.hub.docker.com/library/a", "quay.io/a/b", "gcr.io/distroless/static",
  "ghcr.io/a/b", "mcr.microsoft.com/windows/nanoserver", "localhost/a", "localhost:5000/a/b", "127.0.0.1:5000/a", "registry:5000/a", "a_b/c__d", "a/b/c/d",
  "${REGISTRY}/a", "$BASE_IMAGE", "${BASE}", "docker", "build", "base", "0", "hub/a", "localhost", "docker.io", "test.local/a.b/c",
];
pub const REAL_TAGS: &[&str] = &[
  "", ":latest", ":LATEST", ":1.2.3-alpine", ":18.04", ":$TAG", ":${TAG}", ":0", ":", ":v1_2", "@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789ABCDEF",
  ":3@sha256:0000000000000000000000000000000000000000000000000000000000000000", "@sha256:e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b85", "@sha512:00", "@latest",
  "@sha256:$HASH", "@$DIGEST",
];
pub const REAL_ALIASES: &[&str] = &["", " AS builder", " as base", " As final", " AS 0", " AS scratch", " aS build-env", " AS ubuntu", " AS latest", " AS AS", " AS FROM"];
pub const REAL_NAMES: &[&str] = &[
  "PATH", "HOME", "http_proxy", "HTTP_PROXY", "https_proxy", "NO_PROXY", "FTP_PROXY", "TARGETPLATFORM", "BUILDPLATFORM", "TARGETARCH", "TARGETOS", "DEBIAN_FRONTEND", "VERSION",
  "version", "TAG", "BUILDKIT_INLINE_CACHE", "SOURCE_DATE_EPOCH", "LANG", "LC_ALL", "TZ", "USER", "SHELL", "JAVA_HOME", "a", "A_B", "x1",
];
pub const REAL_LABELS: &[&str] = &[
  "maintainer", "MAINTAINER", "version", "description", "org.opencontainers.image.source", "org.opencontainers.image.created", "com.example.vendor", "org.label-schema.name",
  "\"com.example vendor\"", "'a.b'", "name", "license", "io.k8s.display-name", "vendor", "url", "a/b", "\"\"", "é",
];
pub const REAL_VALUES: &[&str] = &[
  "1", "0", "true", "false", "on", "off", "none", "null", "\"\"", "''", "\"a b\"", "$PATH:/usr/bin", "${PATH}:/a", "${a:-b}", "${a:+b}", "/usr/local/bin", "https://a.b/c?d=e&f=g", "a@b.c",
  "\"A <a@b.c>\"", "linux/amd64", "1.2.3", "1,2", "a=b", "'$a'", "\"$a\"", "a;b", "\"a\\\"b\"", "`a`", "%h", "~/a", "..", "*", "é", "\"\\n\"", "-1", "--a", "\"#a\"", "a#b", "C:\\a", "\\$a", "$$", "\"a'b\"",
];
pub const REAL_FLAGS: &[&str] = &[
  "", " --from=builder", " --from=0", " --from=nginx:latest", " --chown=root:root", " --chown=1000", " --chmod=755", " --link=true", " --parents=true", " --exclude=*.a", " --From=a", " --from=$a", " --checksum=x",
];
pub const REAL_PATHS: &[&str] = &[
  ".", "..", "./", "/", "/a/", "a/b", "*.txt", "a?", "[ab]", "/usr//bin", "$HOME", "${a}/b", "package.json", "package*.json", "Dockerfile", ".dockerignore", "https://a.b/c.tar.gz", "<<EOF", "a\\b", "a:b", "-", "--", "c.tar.gz",
  "~", "\"a b\"", "'a'", "git@a.b:c.git", "./a/../b", "a//", "@a", "a,b", "C:\\a\\",
];
pub const REAL_SHELL: &[&str] = &[
  "apt-get update && apt-get install -y a", "echo \"a b\" > /c", "set -eux; a", "cd a; b | c", "[ -f a ] && b", "[[ a == b ]]", "if [ -z \"$a\" ]; then b; fi", "cat <<EOF", "<<EOF cat", "a `b` $(c)", "exec \"$@\"", "--mount=type=cache,target=/a b",
  "--network=none a", "--security=insecure a", "$a", "${a}", "a=b c", "\"a\" b", "'a'", "sh -c \"a; b\"", "/bin/a", "./a", "@a", "{a}", "{ a; }", "(a)", "!a", "a # b", "a#b", "#b", "# b", "a & b", "a || true", "a\tb", "a  b ", "\\a", "a \\ b", "a\\", "é", "a \\\\", "powershell -Command a", "NOP",
  "nop", ":", "true", "FROM a", "RUN a", "a -- b", "a,b", "EOF", "NONE", "none", "null", "a$", "a\"", "it's",
];
pub const REAL_ELEMENTS: &[&str] = &[
  "\"/bin/sh\"", "\"-c\"", "\"a && b\"", "\"a; b | c\"", "\"--a=b\"", "\"$HOME\"", "\"\"", "\"a,b\"", "\"[\"", "\"]\"", "'a'", "\"a\\\"b\"", "\"\\n\"", "\"#\"", "\"a b\"", "\"exec\"", "\"sh\"", "\"é\"", "\"cmd\"", "\"/S\"", "\"/C\"", "\"powershell\"", "\"bash\"", "\"-lc\"", "\"\\\\\"", "\"\\u0041\"", "\"nginx\"", "\"daemon off;\"", "\" a \"",
];
pub const REAL_KEYWORDS: &[&str] = &["ADD", "EXPOSE", "VOLUME", "USER", "WORKDIR", "ONBUILD", "STOPSIGNAL", "HEALTHCHECK", "SHELL", "MAINTAINER", "IMPORT", "INCLUDE", "EXTENDS", "BUILD", "SAVE", "ARGS", "LABELS", "ENVIRONMENT", "INSERT", "CROSS", "DO", "IF", "END", "EOF"];
pub const REAL_MISC: &[&str] = &[
  " 80", " 80/tcp 443/udp", " [\"/a\", \"b\"]", " /a", " a:b", " 1000:1000", " RUN a", " COPY a b", " FROM a", " ARG a=b", " SIGTERM", " NONE", " --interval=5m --timeout=3s CMD a || exit 1", " [\"/bin/sh\", \"-c\"]", " A <a@b.c>", " \"a b\"", " . /a", " --checksum=sha256:0 a b", " a \\\n b", " a \\\n# b\n c", " a=b", " $a", "  a  ", " #a", " a # b", "\ta", " \\\n a", " none", " <<EOF", " é",
];
pub const REAL_COMMENTS: &[&str] = &[
  "# escape=`", "# escape=\\", "#escape=`", "# Escape = `", "# syntax=docker/dockerfile:1", "#syntax=a", "# check=skip=all", "# check=error=true", "#EOF", "# EOF", "#END", "# end", "#!/usr/bin/env docker", "#!shell", "# hadolint ignore=DL3008", "# hadolint global ignore=a", "# nolint", "# TODO: a",
  "# RUN a", "#RUN a", "# a \\", "##", "#", "# \\", "#\\", "# -*- mode: dockerfile -*-", "# vim: ft=dockerfile", "# noqa", "#if a", "#endif", "#include \"a\"", "#region", "# FROM a", "# é", "#\t", "# pragma", "# <<EOF", "# ---", "# ignore", "# disable", "#:a", "#@a", "#%a", "# region", "# --- a ---",
];

fn real(kind: &str) -> Vec<Texts> {
  match kind {
    "FROM" => vec![
      product("real FROM instructions", &[&["FROM ", "from "], &["", "--platform=linux/amd64 ", "--platform=$BUILDPLATFORM ", "--Platform=x "], REAL_IMAGES, REAL_TAGS, REAL_ALIASES]),
    ],
    "ARG" => vec![product("real ARG instructions", &[&["ARG ", "arg "], REAL_NAMES, &["=", ""], REAL_VALUES]), product("real ARGs without value", &[&["ARG ", "arg\t"], REAL_NAMES])],
    "ENV" => vec![
      product("real ENV pairs", &[&["ENV "], REAL_NAMES, &["="], REAL_VALUES, &["", " a=b", " \\\n  A_B=\"c d\""]]),
      product("pairs of real ENV pairs", &[&["ENV "], REAL_NAMES, &["=x "], REAL_NAMES, &["=y", "=y z=1"]]),
      product("pairs of real ENV values", &[&["ENV a="], REAL_VALUES, &[" b="], REAL_VALUES]),
      product("real ENV singles", &[&["ENV "], REAL_NAMES, &[" "], REAL_VALUES]),
      product("real ENV texts", &[&["ENV a "], REAL_SHELL, &["", " \\\n b"]]),
    ],
    "LABEL" => vec![
      product("real LABEL pairs", &[&["LABEL "], REAL_LABELS, &["=", " "], REAL_VALUES, &["", " a=b", " \\\n  c=\"d e\""]]),
      product("pairs of real LABEL pairs", &[&["LABEL "], REAL_LABELS, &["=x "], REAL_LABELS, &["=y", "=y z=1"]]),
      product("pairs of real LABEL values", &[&["LABEL a="], REAL_VALUES, &[" b="], REAL_VALUES]),
    ],
    "COPY" => vec![product("real COPY instructions", &[&["COPY"], REAL_FLAGS, REAL_FLAGS, &[" "], REAL_PATHS, &[" "], REAL_PATHS]), product("real paths of COPY", &[&["COPY "], REAL_PATHS, &[" "], REAL_PATHS, &[" "], REAL_PATHS])],
    "shell" => vec![
      product("real shell texts", &[&["RUN ", "CMD ", "ENTRYPOINT ", "run "], REAL_SHELL, &[" ", " && ", "; \\\n  ", " \\\n# c\n "], REAL_SHELL]),
      product("real shell texts with comments", &[&["RUN ", "CMD ", "ENTRYPOINT "], REAL_SHELL, &[" \\\n", "\\\n  "], REAL_COMMENTS, &["\n a", "\n# d\n a \\\n b"]]),
    ],
    "exec" => vec![
      product("real lists", &[&["RUN [", "CMD [", "ENTRYPOINT ["], REAL_ELEMENTS, &["]", ", ", ","], REAL_ELEMENTS, &["]", " ]", ", \"z\"]"]]),
      product("real lists of one", &[&["RUN [", "CMD [", "ENTRYPOINT [ "], REAL_ELEMENTS, &["]", "] ", ",]", "] # a", "] a"]]),
      product("real lists of three", &[&["RUN ["], REAL_ELEMENTS, &[", "], REAL_ELEMENTS, &[", \\\n "], REAL_ELEMENTS, &["]"]]),
    ],
    "misc" => vec![product("real other instructions", &[REAL_KEYWORDS, REAL_MISC, &["", "\nRUN a"]]), product("real other instructions in lower case", &[&["add", "Add", "expose", "Healthcheck", "healthcheck", "onbuild", "Onbuild", "maintainer", "Maintainer", "shell", "Shell", "user", "workdir", "Workdir", "volume", "stopsignal"], REAL_MISC])],
    "lists" => lists(),
    "lines" => vec![files_of("files of real instructions", REAL_LINES, 3)],
    "wide" => vec![wide(160, &[255, 256, 341, 342, 512, 1024, 4096])],
    _ => vec![
      product("real comments", &[&["", "\n", " ", "FROM x\n"], REAL_COMMENTS, &["\n", "\r\n", "\n\n"], &["FROM a", "RUN a `\nRUN b", "RUN a ` \nb c", "RUN a \\\n b", "ARG a=b\n# c\nFROM $a", "ENV a=\"\\n\"", "CMD [\"`\"]", "LABEL a=\"b`\nc\"", ""], &["", "\n"], REAL_COMMENTS]),
      product("real comments between instructions", &[&["FROM a\n", "RUN b \\\n", "ENV a=b \\\n", "CMD [\"a\", \\\n"], REAL_COMMENTS, &["\n"], REAL_COMMENTS, &["\nRUN c", "\n\"c\"]", "\n a=c\nUSER d"]]),
    ],
  }
}

/// texts made of words from real files
pub fn vocabulary(kinds: &[&str]) -> Vec<Texts> {
  kinds.iter().flat_map(|k| real(k)).collect()
}

pub const ALL_REAL: &[&str] = &["FROM", "ARG", "ENV", "LABEL", "COPY", "shell", "exec", "misc", "comments", "lines", "wide", "lists"];

/// (start, elements, between elements, end, greatest number of elements)
type List = (&'static str, &'static [&'static str], &'static [&'static str], &'static [&'static str], u32);

/// Lists of elements that equal, contain or extend one another.
const LISTS: &[List] = &[
  ("COPY ", &[".", "./a", "a", "a/", "/", "*", "../a", "./", "A", "a.b"], &[" "], &["", " /d/"], 5),
  ("COPY ", &["--a=b", "--a=c", "--c=b", "--A=b", "--a=", "--ab=c", "--b"], &[" ", " \\\n"], &[" e f", " e \\\n f g"], 4),
  ("FROM ", &["--a=b", "--a=c", "--c=b", "--A=b", "--platform=linux", "--ab=c"], &[" ", " \\\n"], &[" e", " e AS f\nFROM g\nFROM f AS h"], 4),
  ("ENV ", &["a=bcd", "a=b", "c=bcd", "A=bcd", "a=\"bcd\"", "a=\"b cd\"", "ab=$a", "b=a", "a=\"\"", "e='bcd'"], &[" ", " \\\n    "], &["", " z=y"], 4),
  ("LABEL ", &["a=bcd", "a=b", "c=bcd", "A=bcd", "\"a\"=bcd", "a=\"b cd\"", "a.b=c", "b=a", "a=\"\"", "'a'='bcd'"], &[" ", " \\\n    "], &["", " z=y"], 4),
  ("RUN [", &["\"\"", "\"a\"", "\"a b\"", "\"-c\"", "'a'", "\"A\"", "\"aa\"", "\"sh\""], &[", ", ",", ", \\\n"], &["]", ", \"z\" ]"], 5),
  ("CMD [ ", &["\"\"", "\"a\"", "\" \"", "\"-c\"", "\"a\\n\""], &[", ", ","], &["]"], 6),
  ("ENTRYPOINT [", &["\"\"", "\"a\"", "\"/\"", "\"$a\"", "\"é\""], &[", ", " , "], &[" ]"], 6),
  ("RUN ", &["a", "a ", " a", "# a", "  # b", "\\\\ ", "&& b", "\t"], &["\\\n"], &["", "\nRUN z"], 5),
  ("", &["FROM a", "FROM b AS a", "FROM a AS b", "ARG a", "ARG a=b", "ARG b=a", "ARG A=b", "RUN a", "ENV a=b", "LABEL a=b"], &["\n"], &["\n"], 4),
];

fn lists() -> Vec<Texts> {
  LISTS
    .iter()
    .map(|(start, elements, between, end, depth)| {
      let base = elements.len() as u64;
      let (nb, ne) = (between.len() as u64, end.len() as u64);
      Texts::new(&format!("lists after {:?} (elements={}, depth<={})", start, base, depth), pow_sum(base, *depth) * nb * ne, move |i| {
        let s = seq(i / nb / ne, base);
        let l: Vec<&str> = s.iter().map(|k| elements[*k]).collect();
        (format!("{}{}{}", start, l.join(between[(i / ne % nb) as usize]), end[(i % ne) as usize]), s.len() + 1)
      })
    })
    .collect()
}

/// instructions that real files repeat and combine
pub const REAL_LINES: &[&str] = &[
  "FROM alpine AS build", "FROM build", "FROM build AS final", "FROM alpine AS build-env", "FROM scratch", "FROM --platform=linux/amd64 $VERSION AS final", "ARG VERSION=1", "ARG VERSION",
  "ENV PATH=/a", "ENV PATH /b", "LABEL version=1", "LABEL version=2 maintainer=\"a b\"", "CMD [\"a\", \"b\"]", "CMD a b", "ENTRYPOINT [\"a\"]", "ENTRYPOINT b", "RUN apt-get update && \\\n    a b",
  "RUN true", "COPY --from=build /a /b", "COPY a b /c/", "WORKDIR /a", "USER root", "# comment", "EXPOSE 80", "HEALTHCHECK NONE", "MAINTAINER a", "",
];

/// all files of up to `depth` lines
pub fn files_of(name: &str, lines: &'static [&'static str], depth: u32) -> Texts {
  let base = lines.len() as u64;
  Texts::new(&format!("{} (lines={}, depth<={})", name, base, depth), pow_sum(base, depth), move |i| {
    let s = seq(i, base);
    (s.iter().map(|k| format!("{}\n", lines[*k])).collect(), s.len())
  })
}

/// (before, after) a run of characters
const WIDE_CONTEXTS: &[(&str, &str)] = &[
  ("ARG a=\"", "\""), ("ENV a='", "' b=c"), ("ENV a \"", "\""), ("LABEL a=\"", "\" b=c"), ("LABEL '", "' \"d\""), ("RUN [\"", "\", 'b']"), ("CMD ['a', '", "']"), ("RUN a ", " b\nCMD c"), ("RUN a \\\n# ", "\n b"),
  ("# ", "\nRUN a"), ("COPY a ", " b"), ("ADD ", " \\\n b"), ("ARG a=", ""), ("LABEL ", "=b"), ("FROM a ", ""), ("ARG a=\"", ""), ("ENV a=b ", "\nRUN c"), ("", " a"),
];
const WIDE_CHARS: &[&str] = &["\u{e9}", "\u{20ac}", "\u{1f600}", "a"];
const WIDE_ENDS: &[&str] = &["", "\\z", "\\u12", "\\n", "\\"];

/// Runs of characters of each width, started at each offset, with valid and
/// invalid text after them: every byte position falls within a character.
pub fn wide(dense: usize, more: &[usize]) -> Texts {
  let mut sz: Vec<usize> = (0..=dense).collect();
  sz.extend(more);
  sz.extend(crate::lexicon::extra_sizes(20_000));
  let (c, w, e) = (WIDE_CONTEXTS.len() as u64, WIDE_CHARS.len() as u64, WIDE_ENDS.len() as u64);
  let size = sz.len() as u64 * c * w * e * 4;
  Texts::new(&format!("runs of wide characters (contexts={}, lengths={})", c, sz.len()), size, move |i| {
    let (a, b) = WIDE_CONTEXTS[(i % c) as usize];
    let i = i / c;
    let ch = WIDE_CHARS[(i % w) as usize];
    let i = i / w;
    let end = WIDE_ENDS[(i % e) as usize];
    let i = i / e;
    (format!("{}{}{}{}{}", a, "x".repeat((i % 4) as usize), ch.repeat(sz[(i / 4) as usize]), end, b), 4)
  })
}

/// A name of `n` characters and others that are close to it: different at one
/// place, with two characters in exchanged places, shorter and longer.
pub fn look_alikes(n: usize) -> Vec<String> {
  let n = n.max(1);
  let word: Vec<u8> = (0..n).map(|k| b"abcdef_1gh"[if k == 0 { 0 } else { (k * 7 + k / 5) % 10 }]).collect();
  let mut v = vec![word.clone()];
  for at in [0, 1, n / 2, n.saturating_sub(2), n - 1] {
    let mut w = word.clone();
    if at < n {
      w[at] = b'x';
    }
    v.push(w);
  }
  for (a, b) in [(n / 2, n / 2 + 1), (n / 3 + 1, n - 1), (n.saturating_sub(2), n - 1)] {
    let mut w = word.clone();
    if a < n && b < n && a > 0 {
      w.swap(a, b);
    }
    v.push(w);
  }
  v.push(word[..n - 1].to_vec());
  v.push([&word[..], b"i"].concat());
  v.retain(|w| !w.is_empty());
  v.sort();
  v.dedup();
  v.into_iter().map(|w| String::from_utf8(w).unwrap()).collect()
}

/// All ordered pairs of names close to one another, of every size, with a third one.
pub fn look_alike_pairs(sizes: Vec<usize>) -> (u64, Arc<dyn Fn(u64) -> (String, String, String) + Send + Sync>) {
  const N: u64 = 11;
  (sizes.len() as u64 * N * N, Arc::new(move |i| {
    let v = look_alikes(sizes[(i / N / N) as usize]);
    let at = |k: u64| v[k as usize % v.len()].clone();
    (at(i % N), at(i / N % N), at(i / 3))
  }))
}

/// The same in texts.
pub fn look_alike_texts(name: &str, sizes: Vec<usize>, forms: &'static [fn(&str, &str, &str) -> String]) -> Texts {
  let (n, pair) = look_alike_pairs(sizes);
  let k = forms.len() as u64;
  Texts::new(&format!("{} close to one another", name), n * k, move |i| {
    let (a, b, c) = pair(i / k);
    (forms[(i % k) as usize](&a, &b, &c), 3)
  })
}

/// One word of each instruction, at the mark.
pub const SLOTS: &[&str] = &[
  "FROM @", "FROM a:@", "FROM a/@:b", "FROM @/b", "FROM a AS @", "FROM --p=@ a", "FROM --@=p a", "FROM a@sha256:@", "FROM a.b/c:d@sha256:@ AS e", "ARG @", "ARG @=a", "ARG a=@", "ARG a=\"@\"",
  "ARG a='@'", "ENV @=a", "ENV @ a", "ENV a=@", "ENV a=\"@\" b=c", "ENV a='@'", "ENV a @", "ENV a \"@\"", "ENV a=\"x@\" b=\"x@\"", "LABEL @=a", "LABEL @ a", "LABEL \"@\"=a", "LABEL '@' b", "LABEL a=@", "LABEL a=\"@\" b=c",
  "LABEL a @", "LABEL a=\"b\\\n@\"", "COPY @ a", "COPY a @", "COPY a @ b", "COPY --f=@ a b", "COPY --@=f a b", "RUN @", "RUN a @", "RUN a \\\n # @\n b", "RUN a \\\n @", "RUN [\"@\"]", "RUN [\"a\", '@', \"b\"]",
  "CMD @", "CMD [\"@\", \"a\"]", "CMD ['@']", "ENTRYPOINT @ a", "ENTRYPOINT [\"@\"]", "@ a", "ADD @", "ADD a @", "ADD a \\\n# @\n b", "# @\nRUN a", "RUN a\n# @",
];

/// what words are made of: each character with a role, and ones that have many parts
const WORD_TOKENS: &[&str] = &[
  "a", "A", "1", "-", "--", ".", ":", "/", "=", "$", "${", "}", " ", "\"", "'", "\\", "#", ",", "[", "@", "é", "_", "a.b.c.", "0123456789",
];

/// Any word of up to `max` tokens in each place of the instructions that begin
/// with one of the given texts.
pub fn slot_words(heads: &[&str], max: u32) -> Texts {
  let slots: Vec<(String, String)> = SLOTS
    .iter()
    .filter(|s| heads.iter().any(|h| s.starts_with(h)))
    .map(|s| {
      let k = s.rfind('@').unwrap();
      (s[..k].to_string(), s[k + 1..].to_string())
    })
    .collect();
  let (n, base) = (slots.len() as u64, WORD_TOKENS.len() as u64);
  Texts::new(&format!("any word in {} places (tokens={}, depth<={})", n, base, max), n * pow_sum(base, max), move |i| {
    let (a, b) = &slots[(i % n) as usize];
    let ids = seq(i / n, base);
    let w: String = ids.iter().map(|k| WORD_TOKENS[*k]).collect();
    (format!("{}{}{}", a, w, b), ids.len() + 1)
  })
}

/// Any word by itself.
pub fn words(max: u32) -> Texts {
  tokens("any word", &[""], WORD_TOKENS, max, &[""])
}
