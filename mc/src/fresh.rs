//! Running calls of the library in fresh processes, and two calls in two
//! threads under a controlled schedule.
//!
//! The points at which a call may be preempted are its calls of the allocator:
//! the library is safe, single-threaded code without synchronisation of its
//! own, so there is nothing else it would tell a scheduler about.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, Ordering::*};

pub struct Points;

unsafe impl GlobalAlloc for Points {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    point();
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    point();
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    point();
    System.realloc(p, l, n)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    point();
    System.alloc_zeroed(l)
  }
}

thread_local! {
  /// which controlled thread this is; negative if none or if not in a call
  static ME: Cell<i32> = const { Cell::new(-1) };
  static ROLE: Cell<i32> = const { Cell::new(-1) };
}

static TURN: AtomicU32 = AtomicU32::new(0);
static DONE: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
static COUNT: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static PLAN: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
static TID: [AtomicI32; 2] = [AtomicI32::new(0), AtomicI32::new(0)];
/// how often a thread found the other one blocked and went on
pub static STOLEN: AtomicU64 = AtomicU64::new(0);

#[inline]
fn point() {
  let me = ME.with(|m| m.get());
  if me >= 0 {
    slow_point(me as usize);
  }
}

#[cold]
fn slow_point(me: usize) {
  ME.with(|m| m.set(-1));
  let c = COUNT[me].load(Relaxed) + 1;
  COUNT[me].store(c, Relaxed);
  wait_turn(me);
  if c == PLAN[me].load(Relaxed) && !DONE[1 - me].load(Acquire) {
    TURN.store(1 - me as u32, Release);
    wait_turn(me);
  }
  ME.with(|m| m.set(me as i32));
}

/// Waits for its turn; takes it if the other thread has ended or is blocked.
fn wait_turn(me: usize) {
  let mut spins = 0u32;
  let mut asleep = 0;
  while TURN.load(Acquire) != me as u32 {
    if DONE[1 - me].load(Acquire) {
      TURN.store(me as u32, Release);
      return;
    }
    spins += 1;
    if spins % 8 == 0 {
      unsafe { libc::sched_yield() };
    }
    if spins > 2000 && spins % 200 == 0 {
      if sleeping(TID[1 - me].load(Acquire)) {
        asleep += 1;
        if asleep >= 4 {
          STOLEN.fetch_add(1, Relaxed);
          TURN.store(me as u32, Release);
          return;
        }
      } else {
        asleep = 0;
      }
    }
  }
}

/// Whether a thread sleeps in the kernel (the waiting above never does).
fn sleeping(tid: i32) -> bool {
  if tid == 0 {
    return false;
  }
  let mut path = [0u8; 64];
  let mut n = 0;
  for part in [b"/proc/self/task/".as_slice(), digits(tid, &mut [0u8; 12]), b"/stat\0"] {
    path[n..n + part.len()].copy_from_slice(part);
    n += part.len();
  }
  let mut buf = [0u8; 256];
  let got = unsafe {
    let fd = libc::open(path.as_ptr() as *const libc::c_char, libc::O_RDONLY);
    if fd < 0 {
      return false;
    }
    let r = libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len());
    libc::close(fd);
    r
  };
  let b = &buf[..got.max(0) as usize];
  match b.iter().rposition(|c| *c == b')') {
    Some(p) => b.get(p + 2) == Some(&b'S'),
    None => false,
  }
}

fn digits(mut n: i32, buf: &mut [u8; 12]) -> &[u8] {
  let mut k = buf.len();
  loop {
    k -= 1;
    buf[k] = b'0' + (n % 10) as u8;
    n /= 10;
    if n == 0 {
      return &buf[k..];
    }
  }
}

/// Runs a call of the library; its allocator calls are scheduling points.
pub fn call<T>(f: impl FnOnce() -> T) -> T {
  let role = ROLE.with(|r| r.get());
  ME.with(|m| m.set(role));
  let r = f();
  ME.with(|m| m.set(-1));
  r
}

/// Runs a and b in two threads: a up to its pa-th point, then b up to its
/// pb-th, then a to its end, then b to its end. Returns what they return and
/// how many points they passed.
pub fn interleave(a: fn() -> String, b: fn() -> String, pa: u64, pb: u64) -> (String, String, u64, u64) {
  TURN.store(0, Release);
  for k in 0..2 {
    DONE[k].store(false, Release);
    COUNT[k].store(0, Release);
    TID[k].store(0, Release);
  }
  PLAN[0].store(pa, Release);
  PLAN[1].store(pb, Release);
  let body = |me: usize, f: fn() -> String| {
    move || {
      TID[me].store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, Release);
      ROLE.with(|r| r.set(me as i32));
      wait_turn(me);
      let r = std::panic::catch_unwind(f);
      ME.with(|m| m.set(-1));
      ROLE.with(|r| r.set(-1));
      DONE[me].store(true, Release);
      TURN.store(1 - me as u32, Release);
      r.unwrap_or_else(|p| format!("panicked: {}", crate::engine::panic_text(p)))
    }
  };
  let ta = std::thread::spawn(body(0, a));
  // both exist before the first one starts, or its end would be missed
  let tb = std::thread::spawn(body(1, b));
  let rb = tb.join().unwrap_or_default();
  let ra = ta.join().unwrap_or_default();
  (ra, rb, COUNT[0].load(Acquire), COUNT[1].load(Acquire))
}

/// Runs f in a forked process and returns what it returns.
pub fn in_fresh(seconds: u32, f: impl FnOnce() -> String) -> Result<String, String> {
  let mut fds = [0i32; 2];
  unsafe {
    if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
      return Err("harness: no pipe".into());
    }
    let pid = libc::fork();
    if pid < 0 {
      return Err("harness: no process".into());
    }
    if pid == 0 {
      libc::close(fds[0]);
      libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
      libc::alarm(seconds);
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .unwrap_or_else(|p| format!("panicked: {}", crate::engine::panic_text(p)));
      let mut b = r.as_bytes();
      while !b.is_empty() {
        let n = libc::write(fds[1], b.as_ptr() as *const libc::c_void, b.len());
        if n <= 0 {
          break;
        }
        b = &b[n as usize..];
      }
      libc::_exit(0);
    }
    libc::close(fds[1]);
    let mut out = vec![];
    let mut buf = [0u8; 8192];
    loop {
      let n = libc::read(fds[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
      if n > 0 {
        out.extend_from_slice(&buf[..n as usize]);
      } else if n == 0 || *libc::__errno_location() != libc::EINTR {
        break;
      }
    }
    libc::close(fds[0]);
    let mut status = 0;
    while libc::waitpid(pid, &mut status, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
    if libc::WIFSIGNALED(status) {
      let s = libc::WTERMSIG(status);
      return Err(if s == libc::SIGALRM { format!("the calls did not return within {} s", seconds) } else { format!("the library ended the process (signal {})", s) });
    }
    String::from_utf8(out).map_err(|e| e.to_string())
  }
}

/// A small process that forks a fresh one for each request: forking the
/// checker itself is slow, as it has many threads and much memory.
struct Nursery {
  pid: i32,
  to: i32,
  from: i32,
}

impl Drop for Nursery {
  fn drop(&mut self) {
    unsafe {
      libc::close(self.to);
      libc::close(self.from);
      libc::waitpid(self.pid, std::ptr::null_mut(), 0);
    }
  }
}

fn read_all(fd: i32, buf: &mut [u8]) -> bool {
  let mut at = 0;
  while at < buf.len() {
    let n = unsafe { libc::read(fd, buf[at..].as_mut_ptr() as *mut libc::c_void, buf.len() - at) };
    if n > 0 {
      at += n as usize;
    } else if n == 0 || std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
      return false;
    }
  }
  true
}

fn write_all(fd: i32, b: &[u8]) -> bool {
  let mut at = 0;
  while at < b.len() {
    let n = unsafe { libc::write(fd, b[at..].as_ptr() as *const libc::c_void, b.len() - at) };
    if n > 0 {
      at += n as usize;
    } else if std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
      return false;
    }
  }
  true
}

thread_local! {
  static NURSERY: std::cell::RefCell<Option<Nursery>> = const { std::cell::RefCell::new(None) };
}

pub type Request = [u64; 8];

impl Nursery {
  fn start(handler: fn(&Request) -> String) -> Result<Nursery, String> {
    let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
    unsafe {
      if libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) != 0 || libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
        return Err("harness: no pipe".into());
      }
      let pid = libc::fork();
      if pid < 0 {
        return Err("harness: no process".into());
      }
      if pid == 0 {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // the pipes of other threads' nurseries too, or they would never see their end
        for fd in 3..1024 {
          if fd != a[0] && fd != b[1] {
            libc::close(fd);
          }
        }
        let mut raw = [0u8; 64];
        while read_all(a[0], &mut raw) {
          let mut r: Request = [0; 8];
          for k in 0..8 {
            r[k] = u64::from_le_bytes(raw[k * 8..k * 8 + 8].try_into().unwrap());
          }
          let (ok, text) = match in_fresh(40, || handler(&r)) {
            Ok(t) => (1u8, t),
            Err(t) => (0, t),
          };
          let mut head = vec![ok];
          head.extend_from_slice(&(text.len() as u32).to_le_bytes());
          head.extend_from_slice(text.as_bytes());
          if !write_all(b[1], &head) {
            break;
          }
        }
        libc::_exit(0);
      }
      libc::close(a[0]);
      libc::close(b[1]);
      Ok(Nursery { pid, to: a[1], from: b[0] })
    }
  }

  fn ask(&self, r: &Request) -> Option<Result<String, String>> {
    let mut raw = vec![];
    for x in r {
      raw.extend_from_slice(&x.to_le_bytes());
    }
    if !write_all(self.to, &raw) {
      return None;
    }
    let mut head = [0u8; 5];
    if !read_all(self.from, &mut head) {
      return None;
    }
    let mut text = vec![0u8; u32::from_le_bytes(head[1..].try_into().unwrap()) as usize];
    if !read_all(self.from, &mut text) {
      return None;
    }
    let text = String::from_utf8_lossy(&text).into_owned();
    Some(if head[0] == 1 { Ok(text) } else { Err(text) })
  }
}

/// Runs the handler on the request in a fresh process.
pub fn in_nursery(handler: fn(&Request) -> String, r: &Request) -> Result<String, String> {
  NURSERY.with(|n| {
    let mut n = n.borrow_mut();
    if n.is_none() {
      *n = Some(Nursery::start(handler)?);
    }
    match n.as_ref().unwrap().ask(r) {
      Some(x) => x,
      None => {
        *n = None;
        in_fresh(40, || handler(r))
      }
    }
  })
}
