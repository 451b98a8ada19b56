//! Reading from streams (C21): every way a source may hand out its bytes.

use super::basic::q;
use crate::corpus::*;
use crate::engine::*;
use crate::lexicon::placed_words;
use dockerfile_parser as d;
use std::io::{self, ErrorKind, Read};

/// What the source does at each call of `read`.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
  /// hands out this many bytes (as far as there are any and they fit)
  Give(usize),
  Interrupt,
  Fail(ErrorKind),
}

/// A source that follows a script; after it, it hands out everything left.
struct Script<'a> {
  data: &'a [u8],
  steps: &'a [Step],
  at: usize,
  /// bytes already given of the current step
  given: usize,
  failed: bool,
}

impl<'a> Script<'a> {
  fn new(data: &'a [u8], steps: &'a [Step]) -> Script<'a> {
    Script { data, steps, at: 0, given: 0, failed: false }
  }
}

impl Read for Script<'_> {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    if self.failed {
      return Ok(0);
    }
    // giving nothing would be the end
    while self.data.is_empty() && matches!(self.steps.get(self.at), Some(Step::Give(_))) {
      self.at += 1;
    }
    let step = self.steps.get(self.at).copied();
    let n = match step {
      Some(Step::Interrupt) => {
        self.at += 1;
        return Err(io::Error::new(ErrorKind::Interrupted, "again"));
      }
      Some(Step::Fail(k)) => {
        self.failed = true;
        return Err(io::Error::new(k, "the cause"));
      }
      Some(Step::Give(n)) => {
        let left = n - self.given;
        let n = left.min(self.data.len()).min(buf.len());
        // what did not fit is given at the next call
        self.given += n;
        if n == left {
          self.given = 0;
          self.at += 1;
        }
        n
      }
      None => self.data.len().min(buf.len()),
    };
    buf[..n].copy_from_slice(&self.data[..n]);
    self.data = &self.data[n..];
    Ok(n)
  }
}

fn same(a: &Result<d::Dockerfile, d::Error>, b: &Result<d::Dockerfile, d::Error>) -> bool {
  match (a, b) {
    (Ok(a), Ok(b)) => a == b,
    (Err(a), Err(b)) => {
      std::mem::discriminant(a) == std::mem::discriminant(b) && a.to_string() == b.to_string()
    }
    _ => false,
  }
}

fn show(r: &Result<d::Dockerfile, d::Error>) -> String {
  match r {
    Ok(f) => clip(&format!("Ok({:?})", f), 500),
    Err(e) => clip(&format!("Err({:?})", e), 500),
  }
}

/// Reading must give the whole text, or the error the script ends with.
fn judge_script(data: &[u8], steps: &[Step], ctx: &mut Ctx) -> Res {
  let got = d::Dockerfile::from_reader(Script::new(data, steps));
  ctx.trace();
  ctx.steps(steps.len());
  let fails = steps.iter().find_map(|s| if let Step::Fail(k) = s { Some(*k) } else { None });
  if let Some(kind) = fails {
    return match &got {
      Err(d::Error::ReadError { source }) if source.kind() == kind && source.to_string().contains("the cause") => {
        ctx.state(&(data.len(), steps.len(), format!("{:?}", kind)));
        if !got.as_ref().unwrap_err().to_string().contains("the cause") {
          return Err(format!("the message {:?} does not name the cause", got.unwrap_err().to_string()));
        }
        Ok(())
      }
      _ => Err(format!("the source fails with {:?}, the result is {}", kind, show(&got))),
    };
  }
  judge_whole(data, got, ctx)
}

fn judge_whole(data: &[u8], got: Result<d::Dockerfile, d::Error>, ctx: &mut Ctx) -> Res {
  match std::str::from_utf8(data) {
    Ok(t) => {
      let want = d::Dockerfile::parse(t);
      ctx.state(&(t.len(), t.as_bytes().iter().fold(0u64, |h, b| h.wrapping_mul(31).wrapping_add(*b as u64)), want.is_ok()));
      if !same(&got, &want) {
        return Err(format!("reading gives {}, parsing {}", show(&got), show(&want)));
      }
      if let Ok(f) = &got {
        if f.content != t {
          return Err(format!("the kept text differs: {}", clip(&format!("{:?}", f.content), 400)));
        }
      }
      if data.len() < 4096 && !same(&t.parse::<d::Dockerfile>(), &want) {
        return Err(format!("the textual conversion gives {}, parsing {}", show(&t.parse()), show(&want)));
      }
      Ok(())
    }
    Err(_) => match got {
      Err(d::Error::ReadError { ref source }) if source.kind() == ErrorKind::InvalidData => {
        ctx.state(&(data.len(), "invalid"));
        Ok(())
      }
      _ => Err(format!("the bytes are not UTF-8, the result is {}", show(&got))),
    },
  }
}

const TEXTS: &[&str] = &[
  "", "RUN é", "FROM a\n", "ARG a=é", "\u{feff}X y", "CMD 漢\r\n", "RUN \u{1f600}", "# é\n\n", "RUN", "=é", "\r\n\r\nX é", "ARG a='\\q'", "ENV é b",
];

const KINDS: &[ErrorKind] = &[
  ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists,
  ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::UnexpectedEof,
  ErrorKind::Unsupported, ErrorKind::OutOfMemory, ErrorKind::Other, ErrorKind::ConnectionRefused, ErrorKind::ConnectionAborted, ErrorKind::NotConnected,
  ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable, ErrorKind::NetworkDown, ErrorKind::NotADirectory,
  ErrorKind::IsADirectory, ErrorKind::DirectoryNotEmpty, ErrorKind::ReadOnlyFilesystem, ErrorKind::StaleNetworkFileHandle, ErrorKind::StorageFull, ErrorKind::NotSeekable,
  ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy, ErrorKind::ExecutableFileBusy, ErrorKind::Deadlock, ErrorKind::CrossesDevices, ErrorKind::TooManyLinks,
  ErrorKind::InvalidFilename, ErrorKind::ArgumentListTooLong,
];

/// The i-th composition of n (chunks), as a bit set of cuts.
fn chunks(n: usize, cuts: u64) -> Vec<usize> {
  let mut v = vec![];
  let mut last = 0;
  for k in 1..n {
    if cuts >> (k - 1) & 1 == 1 {
      v.push(k - last);
      last = k;
    }
  }
  if n > last {
    v.push(n - last);
  }
  v
}

/// Which chunkings and interruptions of a text of n bytes: every byte boundary
/// is one of: not cut, cut, cut with an interruption; and one at both ends.
fn schedule(n: usize, mut i: u64) -> Vec<Step> {
  let mut v = vec![];
  let mut take = |b: u64| {
    let r = i % b;
    i /= b;
    r
  };
  for _ in 0..take(3) {
    v.push(Step::Interrupt);
  }
  let end = take(3);
  let mut len = 1;
  for _ in 1..n {
    match take(3) {
      0 => len += 1,
      k => {
        v.push(Step::Give(len));
        if k == 2 {
          v.push(Step::Interrupt);
        }
        len = 1;
      }
    }
  }
  if n > 0 {
    v.push(Step::Give(len));
  }
  for _ in 0..end {
    v.push(Step::Interrupt);
  }
  v
}

const BYTES: &[u8] = &[
  0x41, 0x0a, 0x00, 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xc3, 0xa9, 0xe0, 0xe2, 0x82, 0xac, 0xed, 0xa0, 0xef, 0xbb, 0xf0, 0x9f, 0x98, 0xf4, 0x90, 0xf5, 0xff, 0xfe,
];

fn big_text(size: usize, form: u64) -> String {
  let mut t = match form {
    0 => String::from("RUN "),
    1 => String::from("ENV a=\""),
    2 => String::from("FROM a\n# "),
    _ => String::new(),
  };
  let unit = ["é", "x", "漢a", "\u{1f600}"][(form % 4) as usize];
  if form == 3 {
    while t.len() + 12 < size {
      t.push_str("RUN é \u{1f600}\n");
    }
  } else {
    while t.len() + unit.len() < size {
      t.push_str(unit);
    }
    if form == 1 {
      t.push('"');
    }
  }
  while t.len() < size {
    t.push('z');
  }
  t
}

pub fn c21(quick: bool) -> Vec<Space> {
  let mut v = vec![];
  // all schedules of short texts
  let longest = q(quick, 9, 12);
  let texts: Vec<&'static [u8]> = TEXTS.iter().map(|t| t.as_bytes()).filter(|t| t.len() <= longest).collect();
  let blocks = Blocks::new(texts.iter().map(|t| 9 * 3u64.pow(t.len().saturating_sub(1) as u32)));
  let total = blocks.total();
  let make = move |i: u64| {
    let (b, r) = blocks.find(i);
    (texts[b], schedule(texts[b].len(), r))
  };
  let make = std::sync::Arc::new(make);
  let m2 = make.clone();
  v.push(Space::new(
    format!("every chunking of texts of up to {} bytes, interrupted or not at every read", longest),
    total,
    move |i| {
      let (t, s) = m2(i);
      format!("{:?} {:?}", String::from_utf8_lossy(t), s)
    },
    move |i, ctx| {
      let (t, s) = make(i);
      judge_script(t, &s, ctx)
    },
  ));
  // a failure after every chunking of every prefix
  let short: Vec<&'static [u8]> = TEXTS.iter().map(|t| t.as_bytes()).filter(|t| t.len() <= q(quick, 8, 11)).collect();
  let nk = KINDS.len() as u64;
  // for each prefix length p: 2^(p-1) chunkings, interruption before the failure or not
  let mut list = vec![];
  for t in &short {
    for p in 0..=t.len() {
      list.push((*t, p));
    }
  }
  let blocks = Blocks::new(list.iter().map(|(_, p)| nk * 2 * (1u64 << p.saturating_sub(1))));
  let total = blocks.total();
  let make = std::sync::Arc::new(move |i: u64| {
    let (b, r) = blocks.find(i);
    let (t, p) = list[b];
    let mut s: Vec<Step> = chunks(p, r / nk / 2).into_iter().map(Step::Give).collect();
    if r / nk % 2 == 1 {
      s.push(Step::Interrupt);
    }
    s.push(Step::Fail(KINDS[(r % nk) as usize]));
    (t, s)
  });
  let m2 = make.clone();
  v.push(Space::new(
    "a failure after every chunking of every prefix",
    total,
    move |i| {
      let (t, s) = m2(i);
      format!("{:?} {:?}", String::from_utf8_lossy(t), s)
    },
    move |i, ctx| {
      let (t, s) = make(i);
      judge_script(t, &s, ctx)
    },
  ));
  // bytes that are or are not UTF-8
  let base = BYTES.len() as u64;
  let depth = q(quick, 3, 4);
  let around: &'static [(&'static [u8], &'static [u8])] = &[(b"RUN a", b""), (b"# ", b"\nRUN b"), (b"", b"X y"), (b"FROM a\nX \xc3\xa9", b"\xc3\xa9")];
  let make = move |i: u64| {
    let (a, b) = around[(i % 4) as usize];
    let one = i / 4 % 2 == 1;
    let mut t = a.to_vec();
    t.extend(seq(i / 8, base).iter().map(|k| BYTES[*k]));
    t.extend(b);
    (t, one)
  };
  v.push(Space::new(
    format!("byte strings (bytes={}, length<={})", base, depth),
    pow_sum(base, depth) * 8,
    move |i| format!("{:x?}", make(i)),
    move |i, ctx| {
      let (t, one) = make(i);
      let s = if one { vec![Step::Give(1); t.len()] } else { vec![] };
      judge_script(&t, &s, ctx)
    },
  ));
  // other sources
  let sources = 8u64;
  let nt = TEXTS.len() as u64 + all_seeds().len() as u64;
  let text = |k: u64| -> &'static str {
    let k = k as usize;
    if k < TEXTS.len() { TEXTS[k] } else { all_seeds()[k - TEXTS.len()] }
  };
  v.push(Space::new(
    "other kinds of sources",
    nt * sources,
    move |i| format!("source {} of {:?}", i % sources, text(i / sources)),
    move |i, ctx| {
      let t = text(i / sources);
      let b = t.as_bytes();
      ctx.trace();
      ctx.steps(1);
      let half = b.len() / 2;
      let got = match i % sources {
        0 => d::Dockerfile::from_reader(b),
        1 => d::Dockerfile::from_reader(io::Cursor::new(b.to_vec())),
        2 => d::Dockerfile::from_reader(io::BufReader::with_capacity(1, b)),
        3 => d::Dockerfile::from_reader(io::BufReader::with_capacity(3, Script::new(b, &[Step::Interrupt, Step::Give(2), Step::Interrupt]))),
        4 => d::Dockerfile::from_reader(b[..half].chain(&b[half..])),
        5 => d::Dockerfile::from_reader([b, b"\nnot read"].concat().take(b.len() as u64)),
        6 => {
          let mut s = Script::new(b, &[]);
          let r = d::Dockerfile::from_reader(&mut s);
          if !s.data.is_empty() {
            return Err(format!("{} bytes were not read", s.data.len()));
          }
          r
        }
        _ => d::Dockerfile::from_reader(Box::new(b) as Box<dyn Read>),
      };
      judge_whole(b, got, ctx)
    },
  ));
  // large texts
  let mut around: Vec<usize> = vec![];
  for p in q(quick, vec![1024usize, 4096, 8192, 16384, 32768, 65536], vec![512, 1024, 2048, 4096, 8192, 16384, 24576, 32768, 65536, 131072, 1 << 20]) {
    around.extend((p - q(quick, 3, 9)..=p + q(quick, 3, 9)).collect::<Vec<_>>());
  }
  let steps: Vec<usize> = vec![usize::MAX, 1, 2, 7, 31, 1000, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65537];
  let (na, ns) = (around.len() as u64, steps.len() as u64);
  let forms = 4u64;
  let ends = 4u64;
  let make = move |i: u64| {
    let size = around[(i / forms / ends / ns) as usize];
    (size, steps[(i / forms / ends % ns) as usize], i % forms, i / forms % ends)
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      "large texts in chunks of various sizes",
      na * ns * forms * ends,
      move |i| {
        let (size, step, form, end) = m2(i);
        format!("form {} of {} bytes in chunks of {}, ending {}", form, size, step, ["as is", "interrupted", "in the middle of a character", "with a failure"][end as usize])
      },
      move |i, ctx| {
        let (size, step, form, end) = make(i);
        let mut t = big_text(size, form).into_bytes();
        let count = if step == usize::MAX { 1 } else { size / step + 1 };
        let mut s = vec![];
        for k in 0..count {
          if end == 1 && (k % 3 == 0 || k + 1 == count) {
            s.push(Step::Interrupt);
          }
          s.push(Step::Give(step));
        }
        match end {
          2 => {
            t.pop();
            t.push(0xe2);
          }
          3 => {
            s.truncate(count / 2 + 1);
            s.push(Step::Fail(ErrorKind::TimedOut));
          }
          _ => (),
        }
        judge_script(&t, &s, ctx)
      },
    )
    .chunk(8),
  );
  // what texts of every size begin and end with
  const EDGES: &[&str] = &["", "\0", "\t", "\n", "\r", "\r\n", "\u{b}", "\u{c}", "\u{1a}", "\u{1b}", " ", "\\", "#", "\u{7f}", "\u{85}", "\u{a0}", "\u{feff}", "\u{fffd}", "\u{2028}", "é", "\u{1f600}", "\0\0", "\n\n", "\\\n", "EOF"];
  let mut lengths: Vec<usize> = (0..q(quick, 40, 130)).collect();
  for p in [64usize, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384] {
    lengths.extend([p - 1, p, p + 1]);
  }
  lengths.extend(crate::lexicon::extra_sizes(20_000));
  let (ne, nl) = (EDGES.len() as u64, lengths.len() as u64);
  let make = move |i: u64| {
    let (a, b) = (EDGES[(i % ne) as usize], EDGES[(i / ne % ne) as usize]);
    let n = lengths[(i / ne / ne % nl) as usize];
    let start = ["RUN ", "# ", "FROM a\n"][(i / ne / ne / nl) as usize];
    let fill = n.saturating_sub(a.len() + b.len() + start.len());
    format!("{}{}{}{}", a, start, "x".repeat(fill), b)
  };
  let m2 = make.clone();
  v.push(
    Space::new(
      format!("what texts of {} sizes begin and end with (edges={})", nl, ne),
      ne * ne * nl * 3,
      move |i| clip(&format!("{:?}", make(i)), 400),
      move |i, ctx| judge_script(m2(i).as_bytes(), &[], ctx),
    )
    .chunk(64),
  );
  // texts of megabytes
  let mut huge = vec![];
  for p in q(quick, 17..=22u32, 17..=24u32) {
    huge.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1]);
  }
  huge.extend([1_000_000, 1_000_001, 2_500_000, 5_000_000, 10_000_001, 17_000_001]);
  let nh = huge.len() as u64;
  let make = move |i: u64| (huge[(i / 9) as usize], i % 3, i / 3 % 3);
  let m2 = make.clone();
  v.push(
    Space::new(
      "texts of megabytes",
      nh * 9,
      move |i| {
        let (size, form, end) = m2(i);
        format!("form {} of {} bytes, ending {}", form, size, ["as is", "not in UTF-8", "with a failure"][end as usize])
      },
      move |i, ctx| {
        let (size, form, end) = make(i);
        let mut t = big_text(size, [0, 2, 3][form as usize]).into_bytes();
        if form == 2 && size > 5_000_000 {
          return Ok(()); // too many instructions to hold
        }
        let mut s = vec![];
        match end {
          1 => *t.last_mut().unwrap() = 0xe2,
          2 => s.extend([Step::Give(size / 2), Step::Give(size - size / 2), Step::Fail(ErrorKind::Other)]),
          _ => (),
        }
        judge_script(&t, &s, ctx)
      },
    )
    .chunk(1),
  );
  // every text of the general space read byte by byte and at once
  let both = |t: &str, ctx: &mut Ctx| -> Res {
    let b = t.as_bytes();
    judge_script(b, &vec![Step::Give(1); b.len()], ctx)?;
    judge_script(b, &[], ctx)
  };
  v.push(general(q(quick, 3, 4)).space(both));
  for t in vocabulary(&["comments", "misc", "FROM", "wide", "lists"]).into_iter().chain(placed_words(FILE_SEEDS)) {
    v.push(t.space(both));
  }
  v.push(edits1("single edits of seed files", FILE_SEEDS, &all_chars()).space(both));
  v.push(unicode("every scalar value", &[("", ""), ("RUN a", "b"), ("RUN a\n# ", "")], q(quick, 0x20000, 0x110000)).space(both));
  v.push(families("families", FAMILIES, sizes(q(quick, 20, 100), q(quick, 2048, 8192))).space(both).chunk(1));
  v
}
