//! Words and numbers that the library's own source mentions.
//!
//! A behaviour that depends on a particular word or on passing a particular
//! size has that word or number somewhere in the code. The source is read only
//! for this: what is explored, never what is expected.

use crate::corpus::{Blocks, Texts};
use std::collections::BTreeSet;
use std::sync::OnceLock;

/// Literals of the source as this was written, one per line.
const KNOWN: &str = include_str!("known_literals.txt");

pub struct Lexicon {
  /// words not among the known ones, and their variants
  pub new: Vec<String>,
  /// all words
  pub all: Vec<String>,
  /// numbers not among the known ones
  pub numbers: Vec<usize>,
}

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
  let Ok(list) = std::fs::read_dir(dir) else { return };
  let mut list: Vec<_> = list.flatten().map(|e| e.path()).collect();
  list.sort();
  for p in list {
    if p.is_dir() {
      files(&p, out);
    } else if p.extension().map_or(false, |e| e == "rs" || e == "pest") {
      out.push(p);
    }
  }
}

fn unescape(s: &str) -> String {
  let c: Vec<char> = s.chars().collect();
  let mut o = String::new();
  let mut i = 0;
  while i < c.len() {
    if c[i] != '\\' || i + 1 == c.len() {
      o.push(c[i]);
      i += 1;
      continue;
    }
    i += 2;
    match c[i - 1] {
      'n' => o.push('\n'),
      't' => o.push('\t'),
      'r' => o.push('\r'),
      '0' => o.push('\0'),
      'x' if i + 2 <= c.len() => {
        let h: String = c[i..i + 2].iter().collect();
        o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
        i += 2;
      }
      'u' if c.get(i) == Some(&'{') => {
        let end = c[i..].iter().position(|x| *x == '}').map_or(c.len(), |n| i + n);
        let h: String = c[i + 1..end].iter().collect();
        o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
        i = (end + 1).min(c.len());
      }
      '\n' => {
        while i < c.len() && c[i].is_whitespace() {
          i += 1;
        }
      }
      x => o.push(x),
    }
  }
  o
}

/// String, character and number literals of a source text (Rust or pest).
fn literals(text: &str, words: &mut BTreeSet<String>, numbers: &mut BTreeSet<usize>) {
  let c: Vec<char> = text.chars().collect();
  let mut i = 0;
  // a number and the operator after it
  let mut pending: Option<(usize, &str)> = None;
  let find = |from: usize, what: char| {
    let mut k = from;
    while k < c.len() && c[k] != what {
      k += if c[k] == '\\' { 2 } else { 1 };
    }
    k.min(c.len())
  };
  while i < c.len() {
    let next = c.get(i + 1).copied().unwrap_or(' ');
    match c[i] {
      '/' if next == '/' => {
        while i < c.len() && c[i] != '\n' {
          i += 1;
        }
      }
      '/' if next == '*' => {
        while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
          i += 1;
        }
        i += 2;
      }
      'r' if next == '"' || next == '#' => {
        let mut k = i + 1;
        while c.get(k) == Some(&'#') {
          k += 1;
        }
        let hashes = k - i - 1;
        if c.get(k) != Some(&'"') {
          i += 1;
          continue;
        }
        let from = k + 1;
        let mut end = from;
        while end < c.len() && !(c[end] == '"' && c[end + 1..].iter().take(hashes).filter(|x| **x == '#').count() == hashes) {
          end += 1;
        }
        words.insert(c[from..end.min(c.len())].iter().collect());
        i = end + 1 + hashes;
      }
      '"' => {
        let end = find(i + 1, '"');
        let s: String = c[i + 1..end].iter().collect();
        words.insert(unescape(&s));
        i = end + 1;
      }
      '\'' => {
        // a character, unless it is a lifetime
        let end = if next == '\\' { find(i + 1, '\'') } else { i + 2 };
        if c.get(end) == Some(&'\'') {
          let s: String = c[i + 1..end].iter().collect();
          words.insert(unescape(&s));
          i = end + 1;
        } else {
          i += 1;
        }
      }
      x if x.is_ascii_digit() => {
        let from = i;
        while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
          i += 1;
        }
        let mut s: String = c[from..i].iter().filter(|x| **x != '_').collect();
        for ty in ["usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "i128"] {
          if !s.starts_with("0x") || ty.len() > 2 {
            if let Some(t) = s.strip_suffix(ty) {
              s = t.to_string();
            }
          }
        }
        let n = match s.get(..2) {
          Some("0x") => usize::from_str_radix(&s[2..], 16),
          Some("0b") => usize::from_str_radix(&s[2..], 2),
          Some("0o") => usize::from_str_radix(&s[2..], 8),
          _ => s.parse(),
        };
        if let Ok(n) = n {
          numbers.insert(n);
          // 1 << 9, 4 * 1024
          let product = match pending.take() {
            Some((m, "<<")) if n < 40 => (m as u64).checked_shl(n as u32).map(|x| x as usize),
            Some((m, "*")) => m.checked_mul(n),
            _ => None,
          };
          numbers.extend(product);
          let rest: String = c[i..].iter().take(4).collect();
          for op in ["<<", "*"] {
            if rest.trim_start().starts_with(op) {
              pending = Some((product.unwrap_or(n), op));
            }
          }
          if let Some(x) = char::from_u32(n as u32).filter(|_| n < 0x110000) {
            // a byte or a code point, perhaps
            if s.starts_with("0x") {
              words.insert(x.to_string());
            }
          }
        }
      }
      x if x.is_alphanumeric() || x == '_' => {
        pending = None;
        while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
          // r"..." and b'..' are handled above when they start a token
          i += 1;
        }
        if c.get(i) == Some(&'"') && i > 0 && c[i - 1] == 'r' {
          i -= 1; // br"..."
        }
      }
      _ => i += 1,
    }
  }
}

fn scan() -> (BTreeSet<String>, BTreeSet<usize>) {
  let (mut w, mut n) = Default::default();
  let mut list = vec![];
  files(std::path::Path::new("/repo/src"), &mut list);
  for f in list {
    if let Ok(t) = std::fs::read_to_string(&f) {
      // not the unit tests, which stand at the end of their files
      let mut t = t.replace("\r\n", "\n");
      if let Some(n) = t.find("#[cfg(test)]\nmod ") {
        let end = t[n..].find("\n}\n").map_or(t.len(), |e| n + e);
        t.replace_range(n..end, "");
      }
      literals(&t, &mut w, &mut n);
    }
  }
  w.remove("");
  (w, n)
}

/// The words a literal may stand for: itself, its parts, and other letter cases.
fn variants(s: &str) -> Vec<String> {
  let mut v = vec![s.to_string(), s.trim().to_string()];
  if s.len() > 1 {
    v.push(s.to_lowercase());
    v.push(s.to_uppercase());
    let mut first = true;
    v.push(s.chars().map(|c| if std::mem::take(&mut first) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect());
  }
  let parts: Vec<&str> = s.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '-' && c != '.' && c != '/').filter(|p| !p.is_empty()).collect();
  if parts.len() > 1 && parts.len() < 8 {
    v.extend(parts.iter().map(|p| p.to_string()));
  }
  v.retain(|w| !w.is_empty() && w.len() <= 120);
  v
}

pub fn lexicon() -> &'static Lexicon {
  static L: OnceLock<Lexicon> = OnceLock::new();
  L.get_or_init(|| {
    let (words, numbers) = scan();
    let known: BTreeSet<&str> = KNOWN.lines().collect();
    let mut new: BTreeSet<String> = Default::default();
    let mut all: BTreeSet<String> = Default::default();
    for w in &words {
      if w.len() <= 30 {
        all.extend(variants(w));
      }
      if !known.contains(format!("{:?}", w).as_str()) {
        new.extend(variants(w));
      }
    }
    let numbers: Vec<usize> = numbers.into_iter().filter(|n| *n > 2 && !known.contains(n.to_string().as_str())).collect();
    all.extend(new.iter().cloned());
    // a great many new words would be another library
    Lexicon { new: new.into_iter().take(60).collect(), all: all.into_iter().take(500).collect(), numbers: numbers.into_iter().take(16).collect() }
  })
}

/// The literals of the current source in the form of the known ones.
pub fn dump() -> String {
  let (w, n) = scan();
  let mut v: Vec<String> = w.iter().map(|w| format!("{:?}", w)).collect();
  v.extend(n.iter().map(|n| n.to_string()));
  v.join("\n") + "\n"
}

/// Sizes around the numbers the source has come to mention, up to a limit.
pub fn extra_sizes(top: usize) -> Vec<usize> {
  let mut v = vec![];
  let numbers = &lexicon().numbers;
  if numbers.len() > 4 {
    // hardly all of them limits
    v.extend(numbers.iter().flat_map(|n| [*n, n.saturating_add(1)]).filter(|k| *k <= top));
    return v;
  }
  for n in numbers {
    for k in [n - 2, n - 1, *n, n.saturating_add(1), n.saturating_add(2), n.saturating_mul(2), n.saturating_mul(2).saturating_add(1)] {
      if k <= top {
        v.push(k);
      }
    }
  }
  v
}

/// (start, end) of the words of a text
fn words_of(t: &str) -> Vec<(usize, usize)> {
  let mut v: Vec<(usize, usize)> = vec![];
  let sep = |c: char| c.is_whitespace() || "\"'=,[]:/@#\\$".contains(c);
  let mut from = None;
  for (i, c) in t.char_indices() {
    match (sep(c), from) {
      (true, Some(f)) => {
        v.push((f, i));
        from = None;
      }
      (false, None) => from = Some(i),
      _ => (),
    }
  }
  if let Some(f) = from {
    v.push((f, t.len()));
  }
  v
}

/// Every word of the source inserted at every place of the seeds, and put instead
/// of each of their words; and new words in the place of every two of them.
pub fn placed_words(seeds: &[&str]) -> Vec<Texts> {
  let seeds: Vec<String> = seeds.iter().map(|s| s.to_string()).collect();
  let all = &lexicon().all;
  let na = all.len() as u64;
  // places: (seed, from, to)
  let mut places: Vec<(usize, usize, usize)> = vec![];
  for (n, s) in seeds.iter().enumerate() {
    places.extend(s.char_indices().map(|(i, _)| (n, i, i)));
    places.push((n, s.len(), s.len()));
    places.extend(words_of(s).into_iter().map(|(a, b)| (n, a, b)));
  }
  let np = places.len() as u64;
  let own = seeds.clone();
  let mut v = vec![Texts::new(&format!("words of the source in seeds (words={}, seeds={})", na, seeds.len()), np * na, move |i| {
    let (n, a, b) = places[(i / na) as usize];
    let mut t = own[n].clone();
    t.replace_range(a..b, &all[(i % na) as usize]);
    (t, 2)
  })];
  let new: &'static [String] = &lexicon().new;
  if !new.is_empty() {
    let nn = new.len() as u64;
    let ends: Vec<(usize, usize)> = seeds.iter().enumerate().flat_map(|(n, s)| s.char_indices().map(|(i, _)| (n, i)).chain([(n, s.len())]).collect::<Vec<_>>()).collect();
    let own = seeds.clone();
    v.push(Texts::new(&format!("new words of the source between others (words={})", nn), ends.len() as u64 * nn * 6, move |i| {
      let w = &new[(i % nn) as usize];
      let (n, at) = ends[(i / nn / 6) as usize];
      let w = match i / nn % 6 {
        0 => format!(" {} ", w),
        1 => format!(" {}", w),
        2 => format!("{} ", w),
        3 => format!("\n{}\n", w),
        4 => format!("\"{}\"", w),
        _ => w.repeat(2),
      };
      let mut t = own[n].clone();
      t.insert_str(at, &w);
      (t, 2)
    }));
    let new = &new[..new.len().min(24)];
    let nn = new.len() as u64;
    let places: Vec<Vec<(usize, usize)>> = seeds.iter().map(|s| {
      let mut p = words_of(s);
      p.push((s.len(), s.len()));
      p.insert(0, (0, 0));
      p
    }).collect();
    let blocks = Blocks::new(places.iter().map(|p| (p.len() * (p.len() - 1) / 2) as u64 * nn * nn));
    let total = blocks.total();
    let own = seeds;
    v.push(Texts::new(&format!("new words of the source in pairs (words={}, seeds={})", nn, own.len()), total, move |i| {
      let (n, r) = blocks.find(i);
      let (w1, w2, mut pair) = ((r % nn) as usize, (r / nn % nn) as usize, (r / nn / nn) as usize);
      let mut b = 1;
      while pair >= b {
        pair -= b;
        b += 1;
      }
      let mut t = own[n].clone();
      let (p, q) = (places[n][pair], places[n][b]);
      t.replace_range(q.0..q.1, &new[w2]);
      t.replace_range(p.0..p.1, &new[w1]);
      (t, 3)
    }));
  }
  v
}
