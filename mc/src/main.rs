//! Bounded exhaustive exploration of the behaviours of dockerfile-parser.
//!
//!   mc check ID quick|thorough [OUTDIR]   supervise a check and write evidence
//!   mc worker ID TIER SLOTS OUT           (internal) explore the spaces
//!   mc one ID TIER SPACE INDEX            run one behaviour
//!   mc replay FILE                        run the behaviour of a violation again

mod corpus;
mod engine;
mod fresh;
mod lexicon;
mod model;
mod norm;
mod props;

use engine::*;

#[global_allocator]
static ALLOCATOR: fresh::Points = fresh::Points;

use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn limit_memory(gib: u64) {
  let lim = libc::rlimit { rlim_cur: gib << 30, rlim_max: gib << 30 };
  unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
  let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
  unsafe { libc::setrlimit(libc::RLIMIT_CORE, &none) };
}

fn cap(quick: bool) -> Duration {
  Duration::from_secs(if quick { 420 } else { 780 })
}

fn worker(id: &str, quick: bool, slots: &str, out: &str) -> i32 {
  limit_memory(24);
  let shared = Shared::open(slots, false);
  let spaces = props::spaces(id, quick);
  let o = run(&spaces, Some(&shared), quick, cap(quick));
  let mut samples = vec![];
  for (n, s) in spaces.iter().enumerate() {
    if n < o.done.len() && s.size > 0 && samples.len() < 12 {
      let i = s.size * 5 / 7;
      samples.push(format!("{{\"space\": {}, \"index\": {}, \"case\": {}}}", js(&s.name), i, js(&clip(&(s.show)(i), 300))));
    }
  }
  let walked: Vec<String> = o
    .done
    .iter()
    .map(|(n, w, s)| format!("{{\"space\": {}, \"walked\": {}, \"of\": {}}}", js(n), w, s))
    .collect();
  let mut body = format!(
    "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"behaviours\": {}, \"exhaustive\": {},\n    \"spaces\": [\n      {}],\n    \"samples\": [\n      {}]",
    o.states, o.transitions, o.traces, o.cases, o.exhaustive, walked.join(",\n      "), samples.join(",\n      ")
  );
  if !o.exhaustive && o.failure.is_none() {
    body.push_str(",\n    \"capped\": \"the time cap was reached; 'spaces' says how much of each space was walked, in order\"");
  }
  let failure = match &o.failure {
    Some((s, i, m)) => format!("{}\n{}\n{}", s, i, m),
    None => String::new(),
  };
  std::fs::write(format!("{}.body", out), body).unwrap();
  std::fs::write(format!("{}.fail", out), failure).unwrap();
  println!(
    "{}: {} behaviours, {} steps, {} executions compared, {} distinct states, {:.1} s{}",
    id, o.cases, o.transitions, o.traces, o.states, o.wall, if o.exhaustive { "" } else { ", not exhaustive" }
  );
  0
}

fn one(id: &str, quick: bool, space: usize, index: u64) -> i32 {
  limit_memory(8);
  let spaces = props::spaces(id, quick);
  match single(&spaces[space], index, quick) {
    Ok(()) => 0,
    Err(m) => {
      println!("{}", m);
      3
    }
  }
}

/// Runs one behaviour in a process of its own; Some(what) if it dies or hangs.
fn confirm(id: &str, tier: &str, space: u64, index: u64) -> Result<Option<String>, String> {
  let exe = std::env::current_exe().unwrap();
  let mut c = Command::new(exe)
    .args(["one", id, tier, &space.to_string(), &index.to_string()])
    .stdout(Stdio::piped())
    .stderr(Stdio::null())
    .spawn()
    .map_err(|e| e.to_string())?;
  let t = Instant::now();
  loop {
    if let Some(s) = c.try_wait().map_err(|e| e.to_string())? {
      use std::os::unix::process::ExitStatusExt;
      return Ok(match (s.code(), s.signal()) {
        (Some(0), _) => None,
        (Some(3), _) => {
          let mut m = String::new();
          use std::io::Read;
          let _ = c.stdout.take().unwrap().read_to_string(&mut m);
          Some(m.trim().to_string())
        }
        (Some(n), _) => return Err(format!("exit code {}", n)),
        (None, Some(sig)) => Some(format!("the library ended the process (signal {})", sig)),
        _ => return Err("unknown exit".into()),
      });
    }
    if t.elapsed() > Duration::from_secs(150) {
      let _ = c.kill();
      let _ = c.wait();
      return Ok(Some("the call did not return within 150 s".into()));
    }
    std::thread::sleep(Duration::from_millis(20));
  }
}

fn check(id: &str, tier: &str, root: &str) -> i32 {
  let quick = tier == "quick";
  let start = Instant::now();
  let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
  let dir = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  let slots = dir.join("slots").to_string_lossy().to_string();
  let out = dir.join("out").to_string_lossy().to_string();
  let shared = Shared::open(&slots, true);
  let exe = std::env::current_exe().unwrap();
  let mut child = Command::new(&exe)
    .args(["worker", id, tier, &slots, &out])
    .spawn()
    .expect("worker");
  // how the worker ended, or the threads that have been busy with one case for too long
  let mut hung: Vec<usize> = vec![];
  let status = loop {
    if let Some(s) = child.try_wait().unwrap() {
      break Some(s);
    }
    let now = now_ms();
    for w in 0..THREADS {
      let since = shared.slot(w).since_ms.load(std::sync::atomic::Ordering::Acquire);
      if since != 0 && now > since + 120_000 {
        hung.push(w);
      }
    }
    if !hung.is_empty() {
      let _ = child.kill();
      let _ = child.wait();
      break None;
    }
    std::thread::sleep(Duration::from_millis(25));
  };
  let mut failure: Option<(usize, u64, String)> = None;
  let mut body = String::new();
  let mut error = None;
  if status.map_or(false, |s| s.success()) {
    body = std::fs::read_to_string(format!("{}.body", out)).unwrap_or_default();
    let f = std::fs::read_to_string(format!("{}.fail", out)).unwrap_or_default();
    if body.is_empty() {
      error = Some("the worker left no result".to_string());
    }
    if !f.is_empty() {
      let mut l = f.splitn(3, '\n');
      failure = Some((
        l.next().unwrap().parse().unwrap(),
        l.next().unwrap().parse().unwrap(),
        l.next().unwrap_or("").to_string(),
      ));
    }
  } else {
    // died or hung: find the behaviour that does it
    let mut cands: Vec<(u64, u64)> = (0..THREADS)
      .filter(|w| hung.is_empty() || hung.contains(w))
      .map(|w| shared.slot(w))
      .filter(|s| s.since_ms.load(std::sync::atomic::Ordering::Acquire) != 0)
      .map(|s| {
        (s.space.load(std::sync::atomic::Ordering::Relaxed) - 1, s.index.load(std::sync::atomic::Ordering::Relaxed))
      })
      .collect();
    cands.sort();
    println!("{}: the worker {}; trying {:?}", id, if hung.is_empty() { "died" } else { "hung" }, cands);
    for (s, i) in &cands {
      match confirm(id, tier, *s, *i) {
        Ok(None) => (),
        Ok(Some(m)) => {
          failure = Some((*s as usize, *i, m));
          break;
        }
        Err(e) => error = Some(e),
      }
    }
    if failure.is_none() && error.is_none() {
      error = Some(format!("the worker ended with {:?} and no single behaviour reproduces it", status));
    }
    body = format!(
      "\"states\": {}, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"exhaustive\": false, \"samples\": []",
      cands.len()
    );
  }
  for f in ["slots", "out.body", "out.fail"] {
    let _ = std::fs::remove_file(dir.join(f));
  }
  let _ = std::fs::remove_dir(&dir);

  let known = known_findings(root, id);
  let mut violations = 0;
  let mut code = 0;
  if let Some((s, i, m)) = &failure {
    let spaces = props::spaces(id, quick);
    let case = (spaces[*s].show)(*i);
    println!("{}: {} at {} of {:?}", id, case, i, spaces[*s].name);
    println!("  {}", m);
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, id);
    let text = format!(
      "property={}\ntier={}\nspace={}\nindex={}\nspace_name={}\ncase={}\nmessage={}\nreplay with: {}/check --replay {}\n",
      id, tier, s, i, spaces[*s].name, case, m.replace('\n', " "), root, path
    );
    let _ = std::fs::write(&path, text);
    println!("VIOLATION property={} replay={}", id, path);
    violations = 1;
    code = 1;
  } else {
    for k in known {
      println!("KNOWN-FINDING: property={} {}", id, k);
    }
  }
  if let Some(e) = error {
    if code == 0 {
      println!("error: {}", e);
      code = 2;
    }
  }
  let ev = format!(
    "{{\n  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n  \"coverage\": {{\n    {}\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
    js(id), js(tier), seed, body, assumptions(), start.elapsed().as_secs_f64(), violations
  );
  let _ = std::fs::create_dir_all(format!("{}/evidence", root));
  std::fs::write(format!("{}/evidence/{}.json", root, id), ev).unwrap();
  code
}

fn assumptions() -> String {
  let a = [
    "states: distinct observed results (a hash table whose collisions can only lower the count); transitions: tokens appended, edits made and calls issued along all explored behaviours; traces: executions of the library whose result was compared with the oracle",
    "texts outside the listed alphabets, depths and sizes are not explored",
  ];
  format!("[{}]", a.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

/// Entries of KNOWN_FINDINGS.txt for this property.
fn known_findings(root: &str, id: &str) -> Vec<String> {
  let p = format!("KNOWN-FINDING: property={} ", id);
  std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root))
    .unwrap_or_default()
    .lines()
    .filter_map(|l| l.strip_prefix(&p).map(|s| s.to_string()))
    .collect()
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
  if std::env::var("MC_DEBUG").is_err() {
    std::panic::set_hook(Box::new(|_| ()));
  }
  let code = match arg(1) {
    "check" => {
      let root = if arg(4).is_empty() { "/verif" } else { arg(4) };
      check(arg(2), arg(3), root)
    }
    "worker" => worker(arg(2), arg(3) == "quick", arg(4), arg(5)),
    "literals" => {
      print!("{}", lexicon::dump());
      0
    }
    "one" => one(arg(2), arg(3) == "quick", arg(4).parse().unwrap(), arg(5).parse().unwrap()),
    "named" => {
      let n = props::spaces(arg(2), arg(3) == "quick").iter().position(|s| s.name.starts_with(arg(4)) && s.name.ends_with("not optimized"));
      one(arg(2), arg(3) == "quick", n.expect("space"), arg(5).parse().unwrap())
    }
    "replay" => {
      let t = std::fs::read_to_string(arg(2)).expect("replay file");
      let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).expect("replay field").to_string();
      let (id, tier) = (get("property="), get("tier="));
      match confirm(&id, &tier, get("space=").parse().unwrap(), get("index=").parse().unwrap()) {
        Ok(Some(m)) => {
          println!("{}\n{}", get("case="), m);
          1
        }
        Ok(None) => {
          println!("{}\nnot reproduced", get("case="));
          0
        }
        Err(e) => {
          println!("error: {}", e);
          2
        }
      }
    }
    "ids" => {
      println!("{}", props::IDS.join(" "));
      0
    }
    _ => {
      println!("usage: mc check ID quick|thorough [ROOT]");
      2
    }
  };
  std::process::exit(code);
}
