//! Reference model of the Dockerfile dialect: a hand-written scanner that, for
//! any text, says which instructions (with values and byte spans) it consists
//! of, or why it is rejected. It shares no code with the library.

pub type Sp = (usize, usize);

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct S {
  pub span: Sp,
  pub text: String,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Br {
  pub span: Sp,
  /// (is_comment, text)
  pub parts: Vec<(bool, S)>,
}

impl Br {
  pub fn display(&self) -> String {
    self.parts.iter().filter(|p| !p.0).map(|p| p.1.text.as_str()).collect()
  }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Img {
  pub registry: Option<String>,
  pub image: String,
  pub tag: Option<String>,
  pub hash: Option<String>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Flag {
  pub span: Sp,
  pub name: S,
  pub value: S,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
  From,
  Arg,
  Label,
  Run,
  Entrypoint,
  Cmd,
  Copy,
  Env,
  Misc,
}

pub const KINDS: [Kind; 9] = [
  Kind::From, Kind::Arg, Kind::Label, Kind::Run, Kind::Entrypoint, Kind::Cmd,
  Kind::Copy, Kind::Env, Kind::Misc,
];

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Body {
  From { flags: Vec<Flag>, image: S, parsed: Img, index: usize, alias: Option<S> },
  Arg { name: S, value: Option<S> },
  /// (span of the pair, name, value)
  Label(Vec<(Sp, S, S)>),
  Shell(Br),
  Exec { span: Sp, items: Vec<S> },
  Copy { flags: Vec<Flag>, sources: Vec<S>, dest: S },
  Env(Vec<(Sp, S, Br)>),
  Misc { name: S, args: Br },
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Ins {
  pub kind: Kind,
  pub span: Sp,
  pub body: Body,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Err {
  /// not a text of the dialect
  Syntax,
  /// a quoted string that does not decode
  Unescape,
  /// an invalid image digest
  Digest,
  /// anything else; never the model's verdict
  Other,
}

pub type Parsed = Result<Vec<Ins>, Err>;

/// The reference split of an image reference.
pub fn split_image(s: &str) -> Img {
  let mut registry = None;
  let mut rest = s;
  if let Some(slash) = s.find('/') {
    let host = &s[..slash];
    if host == "localhost" || host.chars().any(|c| c == '.' || c == ':') {
      registry = Some(host.to_string());
      rest = &s[slash + 1..];
    }
  }
  let mut image = String::new();
  let mut tag = None;
  let mut hash = None;
  let cs: Vec<char> = rest.chars().collect();
  if let Some(at) = cs.iter().position(|c| *c == '@') {
    image.extend(&cs[..at]);
    hash = Some(cs[at + 1..].iter().collect());
  } else if let Some(colon) = cs.iter().position(|c| *c == ':') {
    image.extend(&cs[..colon]);
    tag = Some(cs[colon + 1..].iter().collect());
  } else {
    image.extend(&cs);
  }
  Img { registry, image, tag, hash }
}

pub fn digest_ok(hash: &str) -> bool {
  match hash.strip_prefix("sha256:") {
    Some(hex) => hex.len() == 64 && hex.bytes().all(|b| b.is_ascii_hexdigit()),
    None => false,
  }
}

/// Decodes the inside of a quoted string; `quote` may not occur unescaped.
pub fn decode_inner(inner: &str, quote: char) -> Result<String, Err> {
  let cs: Vec<char> = inner.chars().collect();
  let mut out = String::new();
  let mut i = 0;
  // numeric escapes take a fixed number of characters, whatever they are, and
  // are then read with Rust's integer parser
  fn number(cs: &[char], from: usize, len: usize, radix: u32) -> Option<u32> {
    if from + len > cs.len() {
      return None;
    }
    let digits: String = cs[from..from + len].iter().collect();
    u32::from_str_radix(&digits, radix).ok()
  }
  while i < cs.len() {
    let c = cs[i];
    if c == quote {
      return Err(Err::Unescape);
    }
    if c != '\\' {
      out.push(c);
      i += 1;
      continue;
    }
    let e = match cs.get(i + 1) {
      Some(e) => *e,
      None => return Err(Err::Unescape),
    };
    let (decoded, used) = match e {
      '\\' | '"' | '\'' | '`' => (Some(e), 2),
      'a' => (Some('\u{7}'), 2),
      'b' => (Some('\u{8}'), 2),
      'f' => (Some('\u{c}'), 2),
      'n' => (Some('\n'), 2),
      'r' => (Some('\r'), 2),
      't' => (Some('\t'), 2),
      'v' => (Some('\u{b}'), 2),
      '0'..='9' => (number(&cs, i + 1, 3, 8).filter(|n| *n < 256).and_then(char::from_u32), 4),
      'x' => (number(&cs, i + 2, 2, 16).and_then(char::from_u32), 4),
      'u' => (number(&cs, i + 2, 4, 16).and_then(char::from_u32), 6),
      'U' => (number(&cs, i + 2, 8, 16).and_then(char::from_u32), 10),
      _ => (None, 2),
    };
    match decoded {
      Some(d) => out.push(d),
      None => return Err(Err::Unescape),
    }
    i += used;
  }
  Ok(out)
}

/// Decodes a text that starts with a quote character.
pub fn decode_quoted(s: &str) -> Result<String, Err> {
  let first = s.chars().next().unwrap();
  if s.chars().count() < 2 || !s.ends_with(first) {
    return Err(Err::Unescape);
  }
  decode_inner(&s[1..s.len() - 1], first)
}

/// Joins lines ended by a backslash.
pub fn join_lines(s: &str) -> String {
  let b: Vec<char> = s.chars().collect();
  let mut out = String::new();
  let mut i = 0;
  while i < b.len() {
    if b[i] == '\\' && i + 1 < b.len() && (b[i + 1] == '\n' || b[i + 1] == '\r') {
      i += if b[i + 1] == '\r' && b.get(i + 2) == Some(&'\n') { 3 } else { 2 };
    } else {
      out.push(b[i]);
      i += 1;
    }
  }
  out
}

struct T<'a> {
  t: &'a str,
  b: &'a [u8],
}

impl<'a> T<'a> {
  fn at(&self, i: usize) -> u8 {
    self.b.get(i).copied().unwrap_or(0)
  }

  fn end(&self, i: usize) -> bool {
    i >= self.b.len()
  }

  fn ch(&self, i: usize) -> usize {
    // length of the character at i
    self.t[i..].chars().next().map(|c| c.len_utf8()).unwrap_or(1)
  }

  fn s(&self, a: usize, e: usize) -> S {
    S { span: (a, e), text: self.t[a..e].to_string() }
  }

  fn nl(&self, i: usize) -> Option<usize> {
    match self.b.get(i) {
      Some(b'\n') => Some(i + 1),
      Some(b'\r') => Some(if self.b.get(i + 1) == Some(&b'\n') { i + 2 } else { i + 1 }),
      _ => None,
    }
  }

  fn blank(&self, i: usize) -> bool {
    matches!(self.b.get(i), Some(b' ') | Some(b'\t'))
  }

  fn skip_blanks(&self, mut i: usize) -> usize {
    while self.blank(i) {
      i += 1;
    }
    i
  }

  fn eol(&self, mut i: usize) -> usize {
    while !self.end(i) && self.nl(i).is_none() {
      i += 1;
    }
    i
  }

  /// backslash, blanks, line break
  fn cont(&self, i: usize) -> Option<usize> {
    if self.b.get(i) == Some(&b'\\') {
      self.nl(self.skip_blanks(i + 1))
    } else {
      None
    }
  }

  /// a comment line: span of the comment proper, and where the next line starts
  fn comment_line(&self, i: usize) -> Option<(Sp, usize)> {
    let j = self.skip_blanks(i);
    if self.b.get(j) != Some(&b'#') {
      return None;
    }
    let e = self.eol(j);
    Some(((j, e), self.nl(e).unwrap_or(e)))
  }

  /// as much argument separator as there is
  fn sep0(&self, mut i: usize) -> usize {
    loop {
      if self.blank(i) {
        i += 1;
      } else if let Some(n) = self.cont(i) {
        i = n;
        loop {
          if let Some((_, n)) = self.comment_line(i) {
            i = n;
          } else if let Some(n) = self.nl(self.skip_blanks(i)) {
            i = n;
          } else {
            break;
          }
        }
      } else {
        return i;
      }
    }
  }

  fn sep(&self, i: usize) -> Option<usize> {
    Some(self.sep0(i)).filter(|j| *j > i)
  }

  /// a word: everything up to a blank, a continuation or the end of the line
  fn word(&self, i: usize) -> Option<usize> {
    let mut j = i;
    while !self.end(j) && self.nl(j).is_none() && !self.blank(j) && self.cont(j).is_none() {
      j += self.ch(j);
    }
    Some(j).filter(|j| *j > i)
  }

  fn run_of(&self, i: usize, ok: impl Fn(u8) -> bool) -> Option<usize> {
    let mut j = i;
    while !self.end(j) && ok(self.b[j]) {
      j += 1;
    }
    Some(j).filter(|j| *j > i)
  }

  /// a complete quoted string
  fn string(&self, i: usize) -> Option<usize> {
    let q = self.at(i);
    if q != b'"' && q != b'\'' {
      return None;
    }
    let mut j = i + 1;
    loop {
      if self.end(j) {
        return None;
      }
      let c = self.b[j];
      if c == q {
        return Some(j + 1);
      }
      if c == 0 || c == 0x1f {
        return None;
      }
      j += 1;
      if c == b'\\' && matches!(self.b.get(j), Some(b'"') | Some(b'\'') | Some(b'\\')) {
        j += 1;
      }
    }
  }

  fn name_before_equals(&self, i: usize) -> Option<usize> {
    let mut j = i;
    while !self.end(j) && self.nl(j).is_none() && self.cont(j).is_none() && !self.blank(j) && self.b[j] != b'=' {
      j += self.ch(j);
    }
    Some(j).filter(|j| *j > i)
  }

  /// one line's worth of free text
  fn content(&self, i: usize) -> Option<usize> {
    let mut j = i;
    while !self.end(j) && self.nl(j).is_none() && self.cont(j).is_none() {
      j += self.ch(j);
    }
    Some(j).filter(|j| *j > i)
  }

  fn breakable(&self, i: usize) -> Option<(Br, usize)> {
    let mut cur = self.content(i)?;
    let mut parts = vec![(false, self.s(i, cur))];
    'lines: while let Some(next) = self.cont(cur) {
      let mut k = next;
      while let Some((sp, n)) = self.comment_line(k) {
        parts.push((true, self.s(sp.0, sp.1)));
        k = n;
        cur = n;
      }
      if let Some(e) = self.content(k) {
        parts.push((false, self.s(k, e)));
        cur = e;
        continue 'lines;
      }
      break;
    }
    Some((Br { span: (i, cur), parts }, cur))
  }

  fn keyword(&self, i: usize, kw: &str) -> Option<usize> {
    let e = i + kw.len();
    if e <= self.b.len() && self.b[i..e].eq_ignore_ascii_case(kw.as_bytes()) {
      Some(e)
    } else {
      None
    }
  }

  /// nothing but blanks up to the end of the line
  fn step_end(&self, i: usize) -> bool {
    let j = self.skip_blanks(i);
    self.end(j) || self.nl(j).is_some()
  }

  fn flags(&self, i: &mut usize) -> Vec<(Sp, S, S)> {
    let mut out = vec![];
    while let Some(a) = self.sep(*i) {
      let parsed = (|| {
        if self.at(a) != b'-' || self.at(a + 1) != b'-' {
          return None;
        }
        let ne = self.run_of(a + 2, |b| b.is_ascii_alphabetic())?;
        if self.at(ne) != b'=' {
          return None;
        }
        let ve = self.word(ne + 1)?;
        Some((a, ne, ve))
      })();
      match parsed {
        Some((a, ne, ve)) => {
          out.push(((a, ve), self.s(a + 2, ne), self.s(ne + 1, ve)));
          *i = ve;
        }
        None => break,
      }
    }
    out
  }
}

/// decodes a value that may or may not be quoted
fn value(s: S) -> Result<S, Err> {
  if s.text.starts_with(['"', '\'', '`']) {
    Ok(S { span: s.span, text: decode_quoted(&s.text)? })
  } else {
    Ok(s)
  }
}

fn label_quoted(s: S) -> Result<S, Err> {
  Ok(S { span: s.span, text: decode_quoted(&join_lines(&s.text))? })
}

/// an instruction as delimited by the syntax, still to be decoded
enum Raw {
  From(Vec<(Sp, S, S)>, S, Option<S>),
  Arg(S, Option<S>),
  /// (span, name, name is quoted, value, value is quoted)
  Label(Vec<(Sp, S, bool, S, bool)>),
  Shell(Br),
  Exec(Sp, Vec<S>),
  Copy(Vec<(Sp, S, S)>, Vec<S>),
  /// name, quoted value
  EnvQuoted(S, S),
  EnvText(S, Br),
  /// (span, name, value, value is quoted)
  EnvPairs(Vec<(Sp, S, S, bool)>),
  Misc(S, Br),
}

impl<'a> T<'a> {
  fn from(&self, mut i: usize) -> Option<(Raw, usize)> {
    let flags = self.flags(&mut i);
    let a = self.sep(i)?;
    let e = self.run_of(a, |b| b.is_ascii_alphanumeric() || b"_-.:/${}@".contains(&b))?;
    let image = self.s(a, e);
    let alias = (|| {
      let k = self.keyword(self.sep(e)?, "as")?;
      let a = self.sep(k)?;
      let e = self.run_of(a, |b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-')?;
      Some((self.s(a, e), e))
    })();
    Some(match alias {
      Some((al, e)) => (Raw::From(flags, image, Some(al)), e),
      None => (Raw::From(flags, image, None), e),
    })
  }

  fn arg(&self, i: usize) -> Option<(Raw, usize)> {
    let a = self.sep(i)?;
    if !self.at(a).is_ascii_alphabetic() {
      return None;
    }
    let e = self.run_of(a, |b| b.is_ascii_alphanumeric() || b == b'_')?;
    let name = self.s(a, e);
    if self.at(e) == b'=' {
      if let Some(ve) = self.string(e + 1).or_else(|| self.word(e + 1)) {
        return Some((Raw::Arg(name, Some(self.s(e + 1, ve))), ve));
      }
    }
    Some((Raw::Arg(name, None), e))
  }

  fn label_side(&self, i: usize, word: impl Fn(usize) -> Option<usize>) -> Option<(S, bool, usize)> {
    if let Some(e) = self.string(i) {
      return Some((self.s(i, e), true, e));
    }
    let e = word(i)?;
    Some((self.s(i, e), false, e))
  }

  fn label(&self, i: usize) -> Option<(Raw, usize)> {
    let single = (|| {
      let a = self.sep(i)?;
      let (n, nq, e) = self.label_side(a, |i| self.name_before_equals(i))?;
      let b = self.sep(e)?;
      let (v, vq, e) = self.label_side(b, |i| self.word(i))?;
      Some((vec![((i, e), n, nq, v, vq)], e))
    })();
    if let Some((l, e)) = single {
      return Some((Raw::Label(l), e));
    }
    let mut cur = i;
    let mut out = vec![];
    while let Some(a) = self.sep(cur) {
      cur = a;
      let pair = (|| {
        let (n, nq, e) = self.label_side(a, |i| self.name_before_equals(i))?;
        if self.at(e) != b'=' || self.end(e) {
          return None;
        }
        let (v, vq, e) = self.label_side(e + 1, |i| self.word(i))?;
        Some((((a, e), n, nq, v, vq), e))
      })();
      if let Some((p, e)) = pair {
        out.push(p);
        cur = e;
      }
    }
    if cur > i {
      Some((Raw::Label(out), cur))
    } else {
      None
    }
  }

  fn array(&self, i: usize) -> Option<(Sp, Vec<S>, usize)> {
    if self.at(i) != b'[' {
      return None;
    }
    let full = (|| {
      let mut items = vec![];
      let a = self.sep0(i + 1);
      let mut e = self.string(a)?;
      items.push(self.s(a, e));
      loop {
        let c = self.sep0(e);
        if self.at(c) != b',' {
          break;
        }
        let a = self.sep0(c + 1);
        match self.string(a) {
          Some(n) => {
            items.push(self.s(a, n));
            e = n;
          }
          None => break,
        }
      }
      if self.at(e) == b',' {
        e += 1;
      }
      let e = self.sep0(e);
      if self.at(e) != b']' {
        return None;
      }
      Some((items, e + 1))
    })();
    if let Some((items, e)) = full {
      return Some(((i, e), items, e));
    }
    let e = self.sep0(i + 1);
    if self.at(e) == b']' {
      return Some(((i, e + 1), vec![], e + 1));
    }
    None
  }

  fn command(&self, i: usize) -> Option<(Raw, usize)> {
    let a = self.sep(i)?;
    if let Some((sp, items, e)) = self.array(a) {
      if self.step_end(e) {
        return Some((Raw::Exec(sp, items), e));
      }
    }
    let (br, e) = self.breakable(a)?;
    Some((Raw::Shell(br), e))
  }

  fn copy(&self, mut i: usize) -> Option<(Raw, usize)> {
    let flags = self.flags(&mut i);
    let mut paths = vec![];
    while let Some(a) = self.sep(i) {
      match self.word(a) {
        Some(e) => {
          paths.push(self.s(a, e));
          i = e;
        }
        None => break,
      }
    }
    if paths.len() < 2 {
      return None;
    }
    Some((Raw::Copy(flags, paths), i))
  }

  fn env(&self, i: usize) -> Option<(Raw, usize)> {
    let ident = |i| self.run_of(i, |b| b.is_ascii_alphanumeric() || b == b'_');
    let single = (|| {
      let a = self.sep(i)?;
      let ne = ident(a)?;
      let b = self.sep(ne)?;
      if let Some(e) = self.string(b) {
        if self.step_end(e) {
          return Some((Raw::EnvQuoted(self.s(a, ne), self.s(b, e)), e));
        }
      }
      let (br, e) = self.breakable(b)?;
      Some((Raw::EnvText(self.s(a, ne), br), e))
    })();
    if single.is_some() {
      return single;
    }
    let mut cur = i;
    let mut out = vec![];
    while let Some(a) = self.sep(cur) {
      cur = a;
      let pair = (|| {
        let ne = ident(a)?;
        if self.at(ne) != b'=' {
          return None;
        }
        if let Some(e) = self.string(ne + 1) {
          return Some((((a, e), self.s(a, ne), self.s(ne + 1, e), true), e));
        }
        let e = self.word(ne + 1)?;
        Some((((a, e), self.s(a, ne), self.s(ne + 1, e), false), e))
      })();
      if let Some((p, e)) = pair {
        out.push(p);
        cur = e;
      }
    }
    if cur > i {
      Some((Raw::EnvPairs(out), cur))
    } else {
      None
    }
  }

  fn misc(&self, i: usize) -> Option<(Raw, usize)> {
    let e = self.run_of(i, |b| b.is_ascii_alphabetic())?;
    let (br, end) = self.breakable(e)?;
    Some((Raw::Misc(self.s(i, e), br), end))
  }

  fn step(&self, i: usize) -> Option<(Kind, Raw, usize)> {
    for kind in [Kind::From, Kind::Run, Kind::Arg, Kind::Label, Kind::Copy, Kind::Entrypoint, Kind::Cmd, Kind::Env] {
      let e = match self.keyword(i, keyword_of(kind)) {
        Some(e) => e,
        None => continue,
      };
      let r = match kind {
        Kind::From => self.from(e),
        Kind::Arg => self.arg(e),
        Kind::Label => self.label(e),
        Kind::Copy => self.copy(e),
        Kind::Env => self.env(e),
        _ => self.command(e),
      };
      if let Some((raw, e)) = r {
        return Some((kind, raw, e));
      }
    }
    self.misc(i).map(|(r, e)| (Kind::Misc, r, e))
  }
}

pub fn keyword_of(k: Kind) -> &'static str {
  match k {
    Kind::From => "from",
    Kind::Arg => "arg",
    Kind::Label => "label",
    Kind::Run => "run",
    Kind::Entrypoint => "entrypoint",
    Kind::Cmd => "cmd",
    Kind::Copy => "copy",
    Kind::Env => "env",
    Kind::Misc => "misc",
  }
}

fn flags(f: Vec<(Sp, S, S)>) -> Result<Vec<Flag>, Err> {
  f.into_iter().map(|(span, name, v)| Ok(Flag { span, name, value: value(v)? })).collect()
}

fn whole(span: Sp, text: String) -> Br {
  Br { span, parts: vec![(false, S { span, text })] }
}

fn finish(kind: Kind, span: Sp, raw: Raw, froms: &mut usize) -> Result<Ins, Err> {
  let body = match raw {
    Raw::From(f, image, alias) => {
      let flags = flags(f)?;
      let parsed = split_image(&image.text);
      if let Some(h) = &parsed.hash {
        if !digest_ok(h) {
          return Err(Err::Digest);
        }
      }
      let index = *froms;
      *froms += 1;
      Body::From { flags, image, parsed, index, alias }
    }
    Raw::Arg(name, v) => Body::Arg { name, value: v.map(value).transpose()? },
    Raw::Label(l) => Body::Label(
      l.into_iter()
        .map(|(sp, n, nq, v, vq)| {
          Ok((
            sp,
            if nq { label_quoted(n)? } else { value(n)? },
            if vq { label_quoted(v)? } else { value(v)? },
          ))
        })
        .collect::<Result<_, Err>>()?,
    ),
    Raw::Shell(br) => Body::Shell(br),
    Raw::Exec(span, items) => {
      Body::Exec { span, items: items.into_iter().map(value).collect::<Result<_, Err>>()? }
    }
    Raw::Copy(f, p) => {
      let flags = flags(f)?;
      let mut p: Vec<S> = p.into_iter().map(value).collect::<Result<_, Err>>()?;
      let dest = p.pop().unwrap();
      Body::Copy { flags, sources: p, dest }
    }
    Raw::EnvQuoted(n, v) => {
      let text = decode_quoted(&v.text)?;
      Body::Env(vec![((n.span.0, v.span.1), n, whole(v.span, text))])
    }
    Raw::EnvText(n, br) => Body::Env(vec![((n.span.0, br.span.1), n, br)]),
    Raw::EnvPairs(p) => Body::Env(
      p.into_iter()
        .map(|(sp, n, v, q)| {
          let text = if q { decode_quoted(&v.text)? } else { v.text };
          Ok((sp, n, whole(v.span, text)))
        })
        .collect::<Result<_, Err>>()?,
    ),
    Raw::Misc(name, args) => Body::Misc { name, args },
  };
  Ok(Ins { kind, span, body })
}

/// Parses a whole file.
pub fn parse(text: &str) -> Parsed {
  let t = T { t: text, b: text.as_bytes() };
  let mut raws = vec![];
  let mut i = 0;
  loop {
    i = t.skip_blanks(i);
    if let Some((kind, raw, e)) = t.step(i) {
      raws.push((kind, (i, e), raw));
      i = e;
    } else if t.at(i) == b'#' {
      i = t.eol(i);
    }
    i = t.skip_blanks(i);
    if t.end(i) {
      break;
    }
    match t.nl(i) {
      Some(n) => i = n,
      None => return Err(Err::Syntax),
    }
  }
  let mut froms = 0;
  raws.into_iter().map(|(k, sp, r)| finish(k, sp, r, &mut froms)).collect()
}

impl Ins {
  /// All spans, outermost first, as (path, span, parent index).
  pub fn shift(&self, by: usize, froms: usize) -> Ins {
    let mut c = self.clone();
    c.each_span(&mut |s| {
      s.0 += by;
      s.1 += by;
    });
    if let Body::From { index, .. } = &mut c.body {
      *index += froms;
    }
    c
  }

  pub fn without_spans(&self) -> Ins {
    let mut c = self.clone();
    c.each_span(&mut |s| *s = (0, 0));
    c
  }

  pub fn each_span(&mut self, f: &mut dyn FnMut(&mut Sp)) {
    fn br(b: &mut Br, f: &mut dyn FnMut(&mut Sp)) {
      f(&mut b.span);
      for p in &mut b.parts {
        f(&mut p.1.span);
      }
    }
    fn fl(v: &mut Vec<Flag>, f: &mut dyn FnMut(&mut Sp)) {
      for x in v {
        f(&mut x.span);
        f(&mut x.name.span);
        f(&mut x.value.span);
      }
    }
    f(&mut self.span);
    match &mut self.body {
      Body::From { flags, image, alias, .. } => {
        fl(flags, f);
        f(&mut image.span);
        if let Some(a) = alias {
          f(&mut a.span);
        }
      }
      Body::Arg { name, value } => {
        f(&mut name.span);
        if let Some(v) = value {
          f(&mut v.span);
        }
      }
      Body::Label(l) => {
        for (sp, n, v) in l {
          f(sp);
          f(&mut n.span);
          f(&mut v.span);
        }
      }
      Body::Shell(b) => br(b, f),
      Body::Exec { span, items } => {
        f(span);
        for s in items {
          f(&mut s.span);
        }
      }
      Body::Copy { flags, sources, dest } => {
        fl(flags, f);
        for s in sources {
          f(&mut s.span);
        }
        f(&mut dest.span);
      }
      Body::Env(v) => {
        for (sp, n, b) in v {
          f(sp);
          f(&mut n.span);
          br(b, f);
        }
      }
      Body::Misc { name, args } => {
        f(&mut name.span);
        br(args, f);
      }
    }
  }
}
