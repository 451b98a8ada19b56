//! Splicing (C18) and line positions (C20).

use super::basic::q;
use crate::corpus::*;
use crate::engine::*;
use dockerfile_parser as d;

// ---------------------------------------------------------------- C18

/// The original text as cells; a replaced span turns its cells into one.
#[derive(Clone)]
enum Cell {
  Char(usize, char),
  /// a replaced span, with its text; keeps its place
  Put((usize, usize), String),
}

#[derive(Clone)]
pub struct Reference {
  cells: Vec<Cell>,
}

impl Reference {
  pub fn new(t: &str) -> Reference {
    Reference { cells: t.char_indices().map(|(i, c)| Cell::Char(i, c)).collect() }
  }

  /// None if the splice is outside the stated discipline. `seen` is the
  /// content after it: of several texts inserted at one position all are kept,
  /// each either before or after the ones already there.
  pub fn splice(&mut self, span: (usize, usize), by: &str, seen: &str) -> Option<()> {
    // the same span again: replace its text
    for n in 0..self.cells.len() {
      if let Cell::Put(s, t) = self.cells[n].clone() {
        if s == span {
          self.cells[n] = Cell::Put(s, by.to_string());
          if s.0 == s.1 {
            self.cells[n] = Cell::Put(s, format!("{}{}", by, t));
            if self.text() != seen {
              self.cells[n] = Cell::Put(s, format!("{}{}", t, by));
            }
          }
          return Some(());
        }
      }
    }
    let inside = |c: &Cell| match c {
      Cell::Char(i, _) => *i >= span.0 && *i < span.1,
      Cell::Put(s, _) => s.0 >= span.0 && s.1 <= span.1 && (s.0 < s.1 || (s.0 > span.0 && s.0 < span.1)),
    };
    // a span that cuts or lies in one replaced before is outside the discipline,
    // and so is an insertion at the edge of ... nothing: edges are fine
    for c in &self.cells {
      if let Cell::Put(s, _) = c {
        let disjoint = s.1 <= span.0 || span.1 <= s.0;
        if !disjoint && !(span.0 <= s.0 && s.1 <= span.1) {
          return None;
        }
      }
    }
    let at = self.cells.iter().position(|c| inside(c));
    let put = Cell::Put(span, by.to_string());
    match at {
      Some(p) => {
        self.cells.retain(|c| !inside(c));
        self.cells.insert(p, put);
      }
      None => {
        // nothing to replace: an insertion, before the first later cell
        let p = self
          .cells
          .iter()
          .position(|c| match c {
            Cell::Char(i, _) => *i >= span.1,
            Cell::Put(s, _) => s.0 >= span.1,
          })
          .unwrap_or(self.cells.len());
        self.cells.insert(p, put);
      }
    }
    Some(())
  }

  pub fn text(&self) -> String {
    let mut o = String::new();
    for c in &self.cells {
      match c {
        Cell::Char(_, c) => o.push(*c),
        Cell::Put(_, t) => o.push_str(t),
      }
    }
    o
  }
}

fn file(t: &str) -> d::Dockerfile {
  d::Dockerfile { content: t.to_string(), global_args: vec![], instructions: vec![] }
}

fn run_history(t: &str, history: &[((usize, usize), &str)], ctx: &mut Ctx) -> Res {
  let f = file(t);
  let mut s = f.splicer();
  let mut r = Reference::new(t);
  if s.content != t {
    return Err(format!("a new splicer holds {:?}", s.content));
  }
  for (n, (span, by)) in history.iter().enumerate() {
    // outside the discipline: judged up to here
    if r.clone().splice(*span, by, "").is_none() {
      return Ok(());
    }
    let sp = d::Span::new(span.0, span.1);
    s.splice(&sp, by);
    r.splice(*span, by, &s.content);
    ctx.steps(1);
    ctx.trace();
    let want = r.text();
    ctx.state(&(t.len(), n, &s.content));
    if s.content != want {
      return Err(format!("after call {} the content is {:?}, expected {:?}", n + 1, s.content, want));
    }
    if sp != d::Span::new(span.0, span.1) {
      return Err("the span changed".into());
    }
  }
  if f.content != t {
    return Err("the file changed".into());
  }
  // a fresh splicer starts again
  if f.splicer().content != t {
    return Err("a second splicer does not start from the original".into());
  }
  Ok(())
}

/// all spans between character boundaries of t
fn spans(t: &str) -> Vec<(usize, usize)> {
  let b: Vec<usize> = t.char_indices().map(|c| c.0).chain([t.len()]).collect();
  let mut v = vec![];
  for len in 0..b.len() {
    for i in 0..b.len() - len {
      v.push((b[i], b[i + len]));
    }
  }
  v
}

fn histories(t: &'static str, by: &'static [&'static str], depth: u32) -> Space {
  let sp = spans(t);
  let base = (sp.len() * by.len()) as u64;
  let make = move |i: u64| {
    seq(i, base).iter().map(|k| (sp[*k / by.len()], by[*k % by.len()])).collect::<Vec<_>>()
  };
  let m2 = make.clone();
  Space::new(
    format!("splices of {:?} with {:?}, up to {} calls", t, by, depth),
    pow_sum(base, depth),
    move |i| format!("{:?} of {:?}", m2(i), t),
    move |i, ctx| run_history(t, &make(i), ctx),
  )
}

pub fn c18(quick: bool) -> Vec<Space> {
  let mut v = vec![
    histories("abc", &["", "X", "YZ"], 3),
    histories("ab", &["", "x", "é", "1234"], q(quick, 3, 4)),
    histories("aéb", &["", "漢", "pq"], 3),
    histories("abcd", &["", "XYZ"], q(quick, 3, 4)),
    histories("abcdef", &["--", ""], 3),
    histories("", &["", "a", "é"], 4),
    histories("abc", &["Q"], q(quick, 4, 5)),
    histories("abc", &["", "WW"], q(quick, 4, 5)),
  ];
  if !quick {
    v.push(histories("abcde", &["", "X", "YZ"], 3));
    v.push(histories("abcdefgh", &["--", ""], 3));
  }
  // every replacement of up to three tokens, at every span of several texts
  const TEXTS: &[&str] = &["", "a\nb", "a\r\nb", "FROM a AS b\nRUN c", "A=\"a b\"", "['a']", "\\\n", "# é\r\n", "\"\" ''", "\u{feff}a", "a ", "\tb\n", "$x ${y}", "é=漢"];
  const TOKENS: &[&str] = &["\n", "\r\n", "\r", "\"", "'", "\\", " ", "a", "é", "=", "#", "$", "\0", "\t", "`", "\u{feff}", "[", "]", ",", "{", "FROM"];
  let places: &'static [(&'static str, (usize, usize))] =
    Box::leak(TEXTS.iter().flat_map(|t| spans(t).into_iter().map(move |s| (*t, s))).collect::<Vec<_>>().into_boxed_slice());
  let (np, nt) = (places.len() as u64, TOKENS.len() as u64);
  let make = move |i: u64| {
    let (t, s) = places[(i % np) as usize];
    (t, s, seq(i / np, nt).iter().map(|k| TOKENS[*k]).collect::<String>())
  };
  v.push(Space::new(
    format!("any replacement (tokens={}, depth<={}) of any span of {} texts", nt, q(quick, 3, 4), TEXTS.len()),
    np * pow_sum(nt, q(quick, 3, 4)),
    move |i| format!("{:?}", make(i)),
    move |i, ctx| {
      let (t, s, by) = make(i);
      run_history(t, &[(s, &by)], ctx)
    },
  ));
  // n fixed-size fields replaced in rotated, reversed and interleaved order
  let orders = 6u64;
  let texts = 5u64;
  let n = q(quick, 120u64, 400);
  let make = move |i: u64| {
    let k = (i / (orders * texts)) as usize + 1;
    let t: String = (0..k).map(|j| format!("<{:03}>é", j)).collect();
    let field = |j: usize| (j * 7 + 1, j * 7 + 4);
    let mut ord: Vec<usize> = (0..k).collect();
    match i % orders {
      0 => (),
      1 => ord.reverse(),
      2 => ord.rotate_left(k / 2),
      3 => ord.sort_by_key(|j| (j % 2, *j)),
      4 => ord.sort_by_key(|j| (j % 3, k - j)),
      _ => ord = ord.iter().flat_map(|j| [*j, k - 1 - *j]).collect(),
    }
    let by = |j: usize| match i / orders % texts {
      0 => String::new(),
      1 => "longer text".to_string(),
      2 => "same"[..3].to_string(),
      3 => "é".repeat(j % 5),
      _ => "x".repeat(j % 7 * 40),
    };
    let h: Vec<((usize, usize), String)> = ord.iter().map(|j| (field(*j), by(*j))).collect();
    (t, h)
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      "many fields in various orders",
      n * orders * texts,
      move |i| clip(&format!("{:?}", m2(i)), 600),
      move |i, ctx| {
        let (t, h) = make(i);
        let h: Vec<((usize, usize), &str)> = h.iter().map(|(s, b)| (*s, b.as_str())).collect();
        run_history(&t, &h, ctx)
      },
    )
    .chunk(2),
  );
  // one span again and again, and growing texts
  v.push(
    Space::new(
      "one span replaced again and again, around it others",
      q(quick, 300u64, 2000) * 2,
      |i| format!("{} calls, form {}", i / 2, i % 2),
      |i, ctx| {
        let t = "ab[cd]ef";
        let long: Vec<String> = (0..i / 2).map(|k| "z".repeat((k * 7 % 13) as usize)).collect();
        let h: Vec<((usize, usize), &str)> = long
          .iter()
          .enumerate()
          .map(|(k, s)| {
            let span = match (i % 2, k % 3) {
              (0, _) => (3, 5),
              (_, 0) => (0, 2),
              (_, 1) => (6, 8),
              _ => (3, 5),
            };
            (span, s.as_str())
          })
          .collect();
        run_history(t, &h, ctx)
      },
    )
    .chunk(4),
  );
  // sizes of text, position and replacement around powers of two
  let s: Vec<usize> = [0usize, 1, 2, 7, 8, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536, 65537].to_vec();
  let k = s.len() as u64;
  v.push(
    Space::new(
      "sizes of text before, span and replacement",
      k * k * k,
      |i| format!("case {}", i),
      move |i, ctx| {
        let (a, b, c) = (s[(i % k) as usize], s[(i / k % k) as usize], s[(i / k / k) as usize]);
        let t = format!("{}{}|tail", "a".repeat(a), "b".repeat(b));
        let by = "c".repeat(c);
        run_history(&t, &[((a, a + b), &by), ((a + b + 1, a + b + 3), &by), ((0, a), "x")], ctx)
      },
    )
    .chunk(8),
  );
  v
}

// ---------------------------------------------------------------- C20

fn judge_line(f: &d::Dockerfile, s: usize, e: usize, ctx: &mut Ctx) -> Res {
  let (line, r) = d::Span::new(s, e).relative_span(f);
  ctx.trace();
  let b = f.content.as_bytes();
  let want_line = b[..s].iter().filter(|c| **c == b'\n').count();
  let begin = b[..s].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
  ctx.state(&(line, r.start, r.end));
  if (line, r.start, r.end) != (want_line, s - begin, s - begin + (e - s)) {
    return Err(format!(
      "({}, {}) of {} is line {} {:?}, expected line {} ({}, {})",
      s, e, clip(&format!("{:?}", f.content), 300), line, r, want_line, s - begin, e - begin
    ));
  }
  Ok(())
}

fn all_positions(t: &str, ctx: &mut Ctx) -> Res {
  let f = file(t);
  for s in 0..=t.len() {
    for e in s..=t.len() {
      ctx.steps(1);
      judge_line(&f, s, e, ctx)?;
    }
  }
  Ok(())
}

fn parsed_positions(t: &str, ctx: &mut Ctx) -> Res {
  if let Ok(f) = d::Dockerfile::parse(t) {
    let mut all = vec![];
    for i in &f.instructions {
      all.extend(super::basic::spans_of(&crate::norm::ins(i)).into_iter().map(|s| s.1));
    }
    if all.len() > 200 {
      let tail = all.split_off(all.len() - 100);
      all.truncate(100);
      all.extend(tail);
    }
    for (s, e) in all {
      ctx.steps(1);
      judge_line(&f, s, e, ctx)?;
    }
  }
  Ok(())
}

const LINE_FAMILIES: &[Family] = &[
  ("blank lines", |n| "\n".repeat(n)),
  ("CRLF", |n| "\r\n".repeat(n)),
  ("one line", |n| "x".repeat(n)),
  ("multi-byte line", |n| format!("\né{}\n", "é".repeat(n))),
  ("lines", |n| "ab\n".repeat(n)),
];

pub fn c20(quick: bool) -> Vec<Space> {
  let sz = sizes(q(quick, 270, 1100), q(quick, 4096, 65536));
  let k = LINE_FAMILIES.len() as u64;
  let total = sz.len() as u64 * k;
  vec![
    tokens("texts, every span", &[""], &["\n", "a", "\r\n", "é", "\r", "\u{2028}"], q(quick, 6, 7), &[""]).space(all_positions),
    tokens("longer texts, every span", &[""], &["\n", "ab", "\r\n"], q(quick, 8, 10), &[""]).space(all_positions),
    tokens("texts with other controls, every span", &["", "a\n"], &["\n", "\t", "\u{b}", "\u{c}", "\u{85}", "\u{2029}", "\0", "x", "\u{1f600}", "\\"], q(quick, 4, 5), &[""])
      .space(all_positions),
    edits1("spans of parsed seed files", &all_seeds(), &all_chars()).space(parsed_positions),
    edits1("every span of single edits", &[LONGER[1], "RUN a \\\n # c\n\n b\r\nCMD é"], &role_chars()).space(all_positions),
    families("spans of parsed families", FAMILIES, sizes(q(quick, 40, 200), q(quick, 512, 2048))).space(parsed_positions).chunk(2),
    Space::new(
      "large texts",
      total,
      move |i| format!("{} x {}", LINE_FAMILIES[(i % k) as usize].0, i / k),
      move |i, ctx| {
        let n = sz[(i / k) as usize];
        let f = file(&(LINE_FAMILIES[(i % k) as usize].1)(n));
        let len = f.content.len();
        let mut at = vec![0, 1, 2, len / 2, len / 2 + 1, len.saturating_sub(2), len.saturating_sub(1), len];
        at.extend((0..len).step_by((len / 17).max(1)));
        at.retain(|p| *p <= len);
        for s in &at {
          for e in &at {
            if s <= e {
              ctx.steps(1);
              judge_line(&f, *s, *e, ctx)?;
            }
          }
        }
        Ok(())
      },
    )
    .chunk(1),
    // megabytes, at and around every power of two
    Space::new(
      "positions in files of megabytes",
      k * q(quick, 3, 5),
      move |i| format!("{} of {} MiB", LINE_FAMILIES[(i % k) as usize].0, 1 << (2 * (i / k))),
      move |i, ctx| {
        let (name, make) = LINE_FAMILIES[(i % k) as usize];
        let unit = make(100).len() / 100;
        let bytes = (1usize << (2 * (i / k))) << 20;
        let f = d::Dockerfile { content: make(bytes / unit + 10), ..file("") };
        let _ = name;
        let len = f.content.len();
        let mut at = vec![len / 3, len / 2 + 1, len - 1, len];
        for p in 8..=26 {
          at.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1]);
        }
        for p in [100_000, 1_000_000, 2_000_000, 3_000_000, 5_000_000, 10_000_000] {
          at.extend([p - 1, p, p + 1]);
        }
        at.extend(crate::lexicon::extra_sizes(len));
        for s in at {
          if s <= len {
            ctx.steps(1);
            judge_line(&f, s, (s + 3).min(len), ctx)?;
          }
        }
        Ok(())
      },
    )
    .chunk(1),
    Space::new(
      "positions beyond 2^16 and 2^20",
      k * 8,
      move |i| format!("{} x {}", LINE_FAMILIES[(i % k) as usize].0, HUGE[(i / k) as usize]),
      move |i, ctx| {
        let n = HUGE[(i / k) as usize];
        let f = file(&(LINE_FAMILIES[(i % k) as usize].1)(n));
        let len = f.content.len();
        for s in [0, 255, 256, 257, 65535, 65536, 65537, len / 2, len.saturating_sub(1), len] {
          for w in [0, 1, 70000] {
            if s + w <= len {
              ctx.steps(1);
              judge_line(&f, s, s + w, ctx)?;
            }
          }
        }
        Ok(())
      },
    )
    .chunk(1),
  ]
}

const HUGE: [usize; 8] = [32767, 32769, 65535, 65536, 65537, 70001, 131073, 1 << 20];
