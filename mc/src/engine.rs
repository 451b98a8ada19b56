//! Exhaustive exploration of index-decoded finite spaces.
//!
//! A `Space` is a finite set of behaviours numbered 0..size, simplest first;
//! `eval(i)` executes behaviour i on the real library and judges it. Spaces are
//! walked completely by all threads; the smallest failing index is reported.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

pub struct Space {
  pub name: String,
  pub size: u64,
  pub show: Box<dyn Fn(u64) -> String + Sync + Send>,
  pub eval: Box<dyn Fn(u64, &mut Ctx) -> Res + Sync + Send>,
  /// cases handed out at a time
  pub chunk: u64,
}

impl Space {
  pub fn new(
    name: impl Into<String>,
    size: u64,
    show: impl Fn(u64) -> String + Sync + Send + 'static,
    eval: impl Fn(u64, &mut Ctx) -> Res + Sync + Send + 'static,
  ) -> Space {
    Space { name: name.into(), size, show: Box::new(show), eval: Box::new(eval), chunk: 64 }
  }

  pub fn chunk(mut self, n: u64) -> Space {
    self.chunk = n;
    self
  }
}

/// A fixed-size table of seen state hashes. Collisions only make the reported
/// number of distinct states smaller.
pub struct Seen {
  bits: Vec<AtomicU64>,
  pub count: AtomicU64,
}

impl Seen {
  pub fn new() -> Seen {
    let mut bits = Vec::new();
    bits.resize_with(1 << 22, || AtomicU64::new(0));
    Seen { bits, count: AtomicU64::new(0) }
  }

  pub fn add(&self, h: u64) {
    let slot = (h >> 6) as usize & (self.bits.len() - 1);
    let bit = 1u64 << (h & 63);
    if self.bits[slot].load(Relaxed) & bit == 0 && self.bits[slot].fetch_or(bit, Relaxed) & bit == 0 {
      self.count.fetch_add(1, Relaxed);
    }
  }
}

pub struct Ctx<'a> {
  seen: &'a Seen,
  pub transitions: u64,
  pub traces: u64,
  pub quick: bool,
}

impl Ctx<'_> {
  /// records an observed state
  pub fn state(&mut self, h: &impl Hash) {
    let mut d = DefaultHasher::new();
    h.hash(&mut d);
    self.seen.add(d.finish());
  }
  /// records steps of explored behaviours (tokens appended, calls made)
  pub fn steps(&mut self, n: usize) {
    self.transitions += n as u64;
  }
  /// records an execution of the library that was compared with the oracle
  pub fn trace(&mut self) {
    self.traces += 1;
  }
}

/// What each thread is working on, visible to the supervising process.
#[repr(C)]
pub struct Slot {
  pub space: AtomicU64,
  pub index: AtomicU64,
  pub since_ms: AtomicU64,
}

pub const THREADS: usize = 8;

pub struct Shared {
  ptr: *mut Slot,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

impl Shared {
  pub fn open(path: &str, create: bool) -> Shared {
    use std::os::unix::io::AsRawFd;
    let len = THREADS * std::mem::size_of::<Slot>();
    let f = std::fs::OpenOptions::new()
      .read(true)
      .write(true)
      .create(create)
      .truncate(create)
      .open(path)
      .expect("slot file");
    if create {
      f.set_len(len as u64).unwrap();
    }
    let ptr = unsafe {
      libc::mmap(
        std::ptr::null_mut(),
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED,
        f.as_raw_fd(),
        0,
      )
    };
    assert!(ptr != libc::MAP_FAILED);
    Shared { ptr: ptr as *mut Slot }
  }

  pub fn slot(&self, i: usize) -> &Slot {
    unsafe { &*self.ptr.add(i) }
  }
}

pub fn now_ms() -> u64 {
  let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
  ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000 + 1
}

pub struct Outcome {
  /// (space, index, message)
  pub failure: Option<(usize, u64, String)>,
  pub cases: u64,
  pub states: u64,
  pub transitions: u64,
  pub traces: u64,
  pub done: Vec<(String, u64, u64)>,
  pub exhaustive: bool,
  pub wall: f64,
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
  if let Some(s) = p.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = p.downcast_ref::<String>() {
    s.clone()
  } else {
    "?".into()
  }
}

pub fn eval_one(space: &Space, i: u64, ctx: &mut Ctx) -> Res {
  match catch_unwind(AssertUnwindSafe(|| (space.eval)(i, ctx))) {
    Ok(r) => r,
    Err(p) => Err(format!("the library panicked: {}", panic_text(p))),
  }
}

pub fn run(spaces: &[Space], shared: Option<&Shared>, quick: bool, cap: Duration) -> Outcome {
  let start = Instant::now();
  let seen = Seen::new();
  let mut done = vec![];
  let mut failure = None;
  let mut exhaustive = true;
  let transitions = AtomicU64::new(0);
  let traces = AtomicU64::new(0);
  let cases = AtomicU64::new(0);
  for (si, space) in spaces.iter().enumerate() {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let walked = AtomicU64::new(0);
    let longest = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let best: Mutex<Option<(u64, String)>> = Mutex::new(None);
    std::thread::scope(|scope| {
      for w in 0..THREADS {
        let (next, stop, best, seen, capped) = (&next, &stop, &best, &seen, &capped);
        let (transitions, traces, walked, longest) = (&transitions, &traces, &walked, &longest);
        std::thread::Builder::new()
          .stack_size(8 << 20)
          .spawn_scoped(scope, move || {
            let mut ctx = Ctx { seen, transitions: 0, traces: 0, quick };
            let mut n = 0u64;
            'outer: while !stop.load(Relaxed) {
              let a = next.fetch_add(space.chunk, Relaxed);
              if a >= space.size {
                break;
              }
              if start.elapsed() > cap {
                capped.store(true, Relaxed);
                break;
              }
              for i in a..(a + space.chunk).min(space.size) {
                if let Some(s) = shared {
                  let s = s.slot(w);
                  s.space.store(si as u64 + 1, Relaxed);
                  s.index.store(i, Relaxed);
                  s.since_ms.store(now_ms(), Release);
                }
                n += 1;
                let began = now_ms();
                let result = eval_one(space, i, &mut ctx);
                longest.fetch_max(now_ms() - began, Relaxed);
                if let Err(m) = result {
                  let mut b = best.lock().unwrap();
                  if b.as_ref().map_or(true, |b| i < b.0) {
                    *b = Some((i, m));
                  }
                  stop.store(true, Relaxed);
                  break 'outer;
                }
              }
            }
            if let Some(s) = shared {
              s.slot(w).since_ms.store(0, Release);
            }
            transitions.fetch_add(ctx.transitions, Relaxed);
            traces.fetch_add(ctx.traces, Relaxed);
            walked.fetch_add(n, Relaxed);
          })
          .unwrap();
      }
    });
    let walked = walked.into_inner();
    cases.fetch_add(walked, Relaxed);
    if std::env::var("MC_VERBOSE").is_ok() {
      eprintln!("  {:<40} {:>10} of {:>10} {:.2}s, longest {} ms", space.name, walked, space.size, t0.elapsed().as_secs_f64(), longest.into_inner());
    }
    done.push((space.name.clone(), walked, space.size));
    if capped.into_inner() {
      exhaustive = false;
    }
    if let Some((i, m)) = best.into_inner().unwrap() {
      failure = Some((si, i, m));
      exhaustive = false;
      break;
    }
  }
  Outcome {
    failure,
    cases: cases.into_inner(),
    states: seen.count.load(Relaxed),
    transitions: transitions.into_inner(),
    traces: traces.into_inner(),
    done,
    exhaustive,
    wall: start.elapsed().as_secs_f64(),
  }
}

pub fn single(space: &Space, i: u64, quick: bool) -> Res {
  let seen = Seen::new();
  let mut ctx = Ctx { seen: &seen, transitions: 0, traces: 0, quick };
  eval_one(space, i, &mut ctx)
}

/// JSON string literal
pub fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

pub fn clip(s: &str, n: usize) -> String {
  if s.chars().count() <= n {
    s.to_string()
  } else {
    format!("{}... ({} characters)", s.chars().take(n).collect::<String>(), s.chars().count())
  }
}
