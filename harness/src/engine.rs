//! Workload engine: runs families of cases in a child process with a CPU and
//! memory budget, observes what happened, and writes the evidence file.
use crate::rng::Rg;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

/// CPU seconds one case may use before it counts as not returning. Cases
/// normally need milliseconds.
const CASE_CPU_LIMIT_S: f64 = 25.0;
const MEM_LIMIT: u64 = 4 << 30;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

pub struct Family {
  pub name: &'static str,
  pub quick: u64,
  pub thorough: u64,
  pub f: fn(&mut Ctx) -> Res,
}

pub struct Property {
  pub id: &'static str,
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  pub families: Vec<Family>,
  /// Counters that must be non-zero for the run to count as having observed anything.
  pub require: &'static [&'static str],
}

#[derive(Default)]
pub struct Stats {
  pub evals: u64,
  pub cases: u64,
  pub distinct: HashSet<u64>,
  pub counters: BTreeMap<String, u64>,
  pub samples: Vec<String>,
  pub maxima: BTreeMap<String, f64>,
}

const DISTINCT_CAP: usize = 400_000;

pub struct Ctx<'a> {
  pub rng: Rg,
  pub tier: Tier,
  pub case: u64,
  pub stats: &'a mut Stats,
  pub want_sample: bool,
  pub trace: bool,
}

impl Ctx<'_> {
  /// One oracle comparison was made.
  pub fn eval(&mut self) {
    self.stats.evals += 1;
  }
  pub fn evals(&mut self, n: u64) {
    self.stats.evals += n;
  }
  /// The case was non-trivial; `h` identifies it.
  pub fn nontrivial<H: std::hash::Hash>(&mut self, h: H) {
    if self.stats.distinct.len() < DISTINCT_CAP {
      use std::hash::Hasher;
      let mut s = std::collections::hash_map::DefaultHasher::new();
      h.hash(&mut s);
      self.stats.distinct.insert(s.finish());
    }
  }
  pub fn count(&mut self, name: &str) {
    self.countn(name, 1)
  }
  pub fn countn(&mut self, name: &str, n: u64) {
    if let Some(c) = self.stats.counters.get_mut(name) {
      *c += n;
    } else {
      self.stats.counters.insert(name.to_string(), n);
    }
  }
  pub fn max(&mut self, name: &str, v: f64) {
    let e = self.stats.maxima.entry(name.to_string()).or_insert(v);
    if v > *e {
      *e = v
    }
  }
  pub fn sample(&mut self, f: impl FnOnce() -> String) {
    if self.want_sample && self.stats.samples.len() < 12 {
      let mut s = f();
      if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
          n -= 1
        }
        s.truncate(n);
        s.push_str("...");
      }
      self.stats.samples.push(s);
      self.want_sample = false;
    }
  }
}

#[macro_export]
macro_rules! ck {
  ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------------------

thread_local! {
  static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".to_string()
    };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", loc, msg)));
  }));
}

/// Runs `f`; a panic becomes an error that carries its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
    LAST_PANIC
      .with(|p| p.borrow_mut().take())
      .unwrap_or_else(|| "panicked".into())
  })
}

fn case_seed(seed: u64, prop: &str, fam: &str, i: u64) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
  for b in prop.bytes().chain(fam.bytes()) {
    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
  }
  h ^= i.wrapping_mul(0xD1B54A32D192ED03);
  h ^ (h >> 29)
}

struct Slot {
  // family index + 1 (0 = idle), case number
  fam: AtomicU64,
  case: AtomicU64,
  start_cpu_us: AtomicU64,
  gen: AtomicU64,
  clock: Mutex<Option<libc::clockid_t>>,
}

fn cpu_us(clk: libc::clockid_t) -> u64 {
  let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  unsafe { libc::clock_gettime(clk, &mut ts) };
  ts.tv_sec as u64 * 1_000_000 + ts.tv_nsec as u64 / 1000
}
fn own_clock() -> libc::clockid_t {
  let mut c: libc::clockid_t = 0;
  unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
  c
}

#[derive(Clone, Debug)]
struct Viol {
  fam: String,
  case: u64,
  msg: String,
}

fn run_one(p: &Property, fi: usize, case: u64, seed: u64, tier: Tier, stats: &mut Stats, want_sample: bool, trace: bool) -> Result<(), String> {
  let fam = &p.families[fi];
  let mut ctx = Ctx {
    rng: Rg::new(case_seed(seed, p.id, fam.name, case)),
    tier,
    case,
    stats,
    want_sample,
    trace,
  };
  ctx.stats.cases += 1;
  match catch_unwind(AssertUnwindSafe(|| (fam.f)(&mut ctx))) {
    Ok(r) => r,
    Err(_) => Err(
      LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panicked".into()),
    ),
  }
}

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

// ---------------------------------------------------------------------------
// Known findings: lines "known: property=<id> key=<text>  <description>" in
// /verif/known_findings.txt. A violation whose message starts with "[key]" is
// the listed one.
fn known_keys(verif: &str, id: &str) -> Vec<(String, String)> {
  let mut out = vec![];
  if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
    for l in s.lines() {
      let l = l.trim();
      if let Some(r) = l.strip_prefix("known: property=") {
        let mut it = r.splitn(3, ' ');
        let pid = it.next().unwrap_or("");
        let key = it.next().unwrap_or("");
        let desc = it.next().unwrap_or("").trim();
        if pid == id {
          if let Some(k) = key.strip_prefix("key=") {
            out.push((k.to_string(), desc.to_string()))
          }
        }
      }
    }
  }
  out
}

pub fn run_main(p: Property) -> ! {
  let args: Vec<String> = std::env::args().collect();
  let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
  let verif = std::env::var("RGMON_VERIF").unwrap_or_else(|_| "/verif".into());
  if let Some(c) = get("--child") {
    child(&p, &c, get);
  }
  // --- parent -------------------------------------------------------------
  let tier = match get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
    Some("thorough") => "thorough",
    _ => "quick",
  };
  let seed: u64 = get("--seed")
    .or_else(|| std::env::var("VERIF_SEED").ok())
    .and_then(|s| s.parse().ok())
    .unwrap_or(1);
  if let Some(f) = get("--replay") {
    let s = std::fs::read_to_string(&f).expect("replay file");
    let field = |k: &str| -> String {
      s.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k))).unwrap_or("").to_string()
    };
    let (r, out) = run_child_one(&p, &field("family"), field("case").parse().unwrap_or(0), field("seed").parse().unwrap_or(1), &field("tier"));
    print!("{}", out);
    println!("replay: {}", r.clone().err().unwrap_or_else(|| "held".into()));
    std::process::exit(if r.is_err() { 1 } else { 0 });
  }
  let t0 = Instant::now();
  let dir = std::env::temp_dir().join(format!("rgmon.{}.{}", p.id, std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  let status = dir.join("status");
  let exe = std::env::current_exe().unwrap();
  let only = get("--family");
  let scale = get("--scale").unwrap_or_else(|| "1".into());
  let budget = get("--budget").unwrap_or_else(|| if tier == "quick" { "300".into() } else { "780".into() });
  let mut cmd = std::process::Command::new(exe);
  cmd.args(["--child", "run", "--tier", tier, "--seed", &seed.to_string(), "--status", status.to_str().unwrap(), "--scale", &scale, "--budget", &budget]);
  if let Some(o) = &only {
    cmd.args(["--family", o]);
  }
  let out = cmd.stderr(std::process::Stdio::inherit()).output().expect("cannot start child");
  let text = String::from_utf8_lossy(&out.stdout).to_string();
  let mut viols: Vec<Viol> = vec![];
  let mut cov = String::new();
  let mut evals = 0u64;
  for l in text.lines() {
    if let Some(r) = l.strip_prefix("VIOL\t") {
      let mut it = r.splitn(3, '\t');
      let fam = it.next().unwrap_or("").to_string();
      let case = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
      let msg = it.next().unwrap_or("").replace("\\n", "\n");
      viols.push(Viol { fam, case, msg });
    } else if let Some(r) = l.strip_prefix("COV\t") {
      cov = r.to_string();
    } else if let Some(r) = l.strip_prefix("EVALS\t") {
      evals = r.parse().unwrap_or(0);
    } else {
      println!("{}", l);
    }
  }
  let mut broken = String::new();
  if !out.status.success() && viols.is_empty() {
    // Died without a report (abort, stack overflow, out of memory): find which
    // of the cases in flight does it.
    let mut s = String::new();
    let _ = std::fs::File::open(&status).and_then(|mut f| f.read_to_string(&mut s));
    for l in s.split('\n') {
      let l = l.trim_end_matches(['\0', ' ']);
      let mut it = l.split('\t');
      let (fam, case) = (it.next().unwrap_or(""), it.next().and_then(|c| c.parse::<u64>().ok()));
      if let (true, Some(case)) = (!fam.is_empty(), case) {
        if let (Err(m), _) = run_child_one(&p, fam, case, seed, tier) {
          viols.push(Viol { fam: fam.into(), case, msg: m });
          break;
        }
      }
    }
    if viols.is_empty() {
      broken = format!("the monitored process ended with {:?} and no case in flight reproduces it", out.status);
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
  // Known findings
  let keys = known_keys(&verif, p.id);
  let mut real = vec![];
  let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
  for v in viols {
    match keys.iter().find(|(k, _)| v.msg.starts_with(&format!("[{}]", k))) {
      Some((k, _)) => *seen_known.entry(k.clone()).or_insert(0) += 1,
      None => real.push(v),
    }
  }
  for (k, d) in &keys {
    println!("KNOWN-FINDING: property={} [{}] {} (observed {} times in this run)", p.id, k, d, seen_known.get(k).copied().unwrap_or(0));
  }
  if cov.is_empty() {
    cov = format!("\"evaluations\":{},\"distinct_nontrivial\":0,\"rule\":{},\"samples\":[\"run ended early\"]", evals.max(1), esc(p.rule));
  }
  let assumptions = p.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(",");
  let ev = format!(
    "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
    p.id, tier, seed, cov, assumptions, t0.elapsed().as_secs_f64(), real.len()
  );
  let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
  if only.is_none() {
    std::fs::write(format!("{}/evidence/{}.json", verif, p.id), ev).expect("cannot write evidence");
  }
  if !real.is_empty() {
    let rd = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&rd);
    let mut printed = HashSet::new();
    for v in real.iter() {
      if printed.len() >= 5 || !printed.insert(v.fam.clone()) {
        continue;
      }
      let path = format!("{}/{}-{}-{}-{}.txt", rd, p.id, v.fam, seed, v.case);
      let body = format!(
        "property: {}\nfamily: {}\ncase: {}\nseed: {}\ntier: {}\nrerun: /verif/check.sh {} --replay {}\n\n{}\n",
        p.id, v.fam, v.case, seed, tier, p.id, path, v.msg
      );
      let _ = std::fs::write(&path, body);
      println!("VIOLATION property={} replay={}", p.id, path);
      let mut m = v.msg.clone();
      if m.len() > 1500 {
        let mut n = 1500;
        while !m.is_char_boundary(n) {
          n -= 1
        }
        m.truncate(n);
      }
      println!("  family {} case {}: {}", v.fam, v.case, m);
    }
    std::process::exit(1);
  }
  if broken.is_empty() && text.lines().any(|l| l.starts_with("VACUOUS")) {
    broken = "a required observation was never made".into();
  }
  if !broken.is_empty() {
    eprintln!("CHECK-ERROR property={}: {}", p.id, broken);
    std::process::exit(2);
  }
  println!("held: property={} tier={} seed={} evaluations={} wall={:.1}s", p.id, tier, seed, evals, t0.elapsed().as_secs_f64());
  std::process::exit(0);
}

fn run_child_one(p: &Property, fam: &str, case: u64, seed: u64, tier: &str) -> (Result<(), String>, String) {
  let _ = p;
  let exe = std::env::current_exe().unwrap();
  let out = std::process::Command::new(exe)
    .args(["--child", "one", "--family", fam, "--case", &case.to_string(), "--seed", &seed.to_string(), "--tier", tier])
    .stderr(std::process::Stdio::inherit())
    .output()
    .expect("cannot start child");
  let text = String::from_utf8_lossy(&out.stdout).to_string();
  for l in text.lines() {
    if let Some(r) = l.strip_prefix("VIOL\t") {
      let m = r.splitn(3, '\t').nth(2).unwrap_or("").replace("\\n", "\n");
      return (Err(m), String::new());
    }
  }
  if !out.status.success() {
    return (Err(format!("the call ended the process: {:?}", out.status)), text);
  }
  (Ok(()), text)
}

fn set_limits() {
  let l = libc::rlimit { rlim_cur: MEM_LIMIT, rlim_max: MEM_LIMIT };
  let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
  unsafe {
    libc::setrlimit(libc::RLIMIT_AS, &l);
    libc::setrlimit(libc::RLIMIT_CORE, &c);
  }
}

fn report_viol(fam: &str, case: u64, msg: &str) {
  let o = std::io::stdout();
  let mut o = o.lock();
  let _ = writeln!(o, "VIOL\t{}\t{}\t{}", fam, case, msg.replace('\n', "\\n"));
  let _ = o.flush();
}

fn child(p: &Property, mode: &str, get: impl Fn(&str) -> Option<String>) -> ! {
  if std::env::var("RGMON_NOLIMIT").is_err() {
    set_limits();
  }
  install_panic_hook();
  let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
  let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
  let scale: f64 = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
  let p: &'static Property = unsafe { &*(p as *const Property) };
  if mode == "one" {
    let fam = get("--family").unwrap();
    let case: u64 = get("--case").unwrap().parse().unwrap();
    let fi = p.families.iter().position(|f| f.name == fam).expect("no such family");
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let f2 = fam.clone();
    let clk = Arc::new(Mutex::new(None));
    let clk2 = clk.clone();
    std::thread::spawn(move || loop {
      std::thread::sleep(Duration::from_millis(200));
      if d2.load(Ordering::SeqCst) {
        return;
      }
      if let Some(c) = *clk2.lock().unwrap() {
        if cpu_us(c) as f64 / 1e6 > CASE_CPU_LIMIT_S {
          report_viol(&f2, case, &format!("the call did not return within {} s of CPU time", CASE_CPU_LIMIT_S));
          std::process::exit(3);
        }
      }
    });
    let h = std::thread::Builder::new()
      .stack_size(64 << 20)
      .spawn(move || {
        *clk.lock().unwrap() = Some(own_clock());
        let mut stats = Stats::default();
        let r = run_one(p, fi, case, seed, tier, &mut stats, true, true);
        for s in &stats.samples {
          println!("sample: {}", s);
        }
        r
      })
      .unwrap();
    let r = h.join().unwrap();
    done.store(true, Ordering::SeqCst);
    match r {
      Ok(()) => std::process::exit(0),
      Err(m) => {
        report_viol(&fam, case, &m);
        std::process::exit(3);
      }
    }
  }
  // --- run ------------------------------------------------------------------
  let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(300.0);
  let only = get("--family");
  let t0 = Instant::now();
  let nthreads = std::env::var("RGMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
  const CHUNK: u64 = 4;
  // work list: round robin over families in chunks
  let mut work: Vec<(usize, u64, u64)> = vec![];
  for (fi, f) in p.families.iter().enumerate() {
    if let Some(o) = &only {
      if f.name != o {
        continue;
      }
    }
    let n = if tier == Tier::Quick { f.quick } else { f.thorough };
    let n = ((n as f64 * scale).ceil() as u64).max(1);
    let chunk = (n / 400).max(CHUNK);
    let mut a = 0;
    while a < n {
      let b = (a + chunk).min(n);
      work.push((fi, a, b));
      a = b;
    }
  }
  // Interleave so that every family is covered even when the time budget ends the run.
  work.sort_by_key(|&(fi, a, _)| {
    let f = &p.families[fi];
    let n = if tier == Tier::Quick { f.quick } else { f.thorough }.max(1);
    // Families named late_* come after all others.
    let late = if f.name.starts_with("late_") { 1_000_000 } else { 0 };
    (late + (a as f64 / (n as f64 * scale) * 1000.0) as u64, fi)
  });
  let total = work.len();
  let work = Arc::new(work);
  let nexti = Arc::new(AtomicU64::new(0));
  let stop = Arc::new(AtomicBool::new(false));
  let truncated = Arc::new(AtomicBool::new(false));
  let viols: Arc<Mutex<Vec<Viol>>> = Arc::new(Mutex::new(vec![]));
  let slots: Arc<Vec<Slot>> = Arc::new(
    (0..nthreads)
      .map(|_| Slot {
        fam: AtomicU64::new(0),
        case: AtomicU64::new(0),
        start_cpu_us: AtomicU64::new(0),
        gen: AtomicU64::new(0),
        clock: Mutex::new(None),
      })
      .collect(),
  );
  let status_file = get("--status").map(|s| std::fs::File::create(s).unwrap());
  let status_file = Arc::new(status_file);
  let keys = Arc::new(known_keys(&std::env::var("RGMON_VERIF").unwrap_or_else(|_| "/verif".into()), p.id));
  let finished = Arc::new(AtomicBool::new(false));
  {
    // watchdog
    let slots = slots.clone();
    let finished = finished.clone();
    let viols = viols.clone();
    std::thread::spawn(move || loop {
      std::thread::sleep(Duration::from_millis(250));
      if finished.load(Ordering::SeqCst) {
        return;
      }
      for s in slots.iter() {
        let g = s.gen.load(Ordering::SeqCst);
        let fam = s.fam.load(Ordering::SeqCst);
        if fam == 0 {
          continue;
        }
        let start = s.start_cpu_us.load(Ordering::SeqCst);
        let case = s.case.load(Ordering::SeqCst);
        let clk = *s.clock.lock().unwrap();
        if let Some(c) = clk {
          let used = cpu_us(c).saturating_sub(start) as f64 / 1e6;
          if used > CASE_CPU_LIMIT_S && s.gen.load(Ordering::SeqCst) == g {
            for v in viols.lock().unwrap().iter() {
              report_viol(&v.fam, v.case, &v.msg);
            }
            report_viol(
              p.families[fam as usize - 1].name,
              case,
              &format!("the call did not return within {} s of CPU time", CASE_CPU_LIMIT_S),
            );
            std::process::exit(3);
          }
        }
      }
    });
  }
  let mut handles = vec![];
  for t in 0..nthreads {
    let (work, nexti, stop, viols, slots, status_file, truncated, keys) = (
      work.clone(), nexti.clone(), stop.clone(), viols.clone(), slots.clone(), status_file.clone(), truncated.clone(), keys.clone(),
    );
    handles.push(
      std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
          use std::os::unix::fs::FileExt;
          let slot = &slots[t];
          let clk = own_clock();
          *slot.clock.lock().unwrap() = Some(clk);
          let mut stats = Stats::default();
          let mut done_per_family = vec![0u64; p.families.len()];
          loop {
            if stop.load(Ordering::SeqCst) {
              break;
            }
            if t0.elapsed().as_secs_f64() > budget {
              truncated.store(true, Ordering::SeqCst);
              break;
            }
            let i = nexti.fetch_add(1, Ordering::SeqCst) as usize;
            if i >= total {
              break;
            }
            let (fi, a, b) = work[i];
            for case in a..b {
              slot.gen.fetch_add(1, Ordering::SeqCst);
              slot.case.store(case, Ordering::SeqCst);
              slot.start_cpu_us.store(cpu_us(clk), Ordering::SeqCst);
              slot.fam.store(fi as u64 + 1, Ordering::SeqCst);
              if let Some(f) = status_file.as_ref() {
                let line = format!("{}\t{}\t", p.families[fi].name, case);
                let _ = f.write_at(format!("{:<79}\n", line).as_bytes(), t as u64 * 80);
              }
              let want = case < 2;
              let r = run_one(p, fi, case, seed, tier, &mut stats, want, false);
              slot.fam.store(0, Ordering::SeqCst);
              done_per_family[fi] += 1;
              if let Err(msg) = r {
                let known = keys.iter().any(|(k, _)| msg.starts_with(&format!("[{}]", k)));
                let mut v = viols.lock().unwrap();
                v.push(Viol { fam: p.families[fi].name.to_string(), case, msg });
                if !known && v.len() > 20 {
                  stop.store(true, Ordering::SeqCst);
                }
              }
              if t0.elapsed().as_secs_f64() > budget {
                truncated.store(true, Ordering::SeqCst);
                break;
              }
            }
          }
          (stats, done_per_family)
        })
        .unwrap(),
    );
  }
  let mut stats = Stats::default();
  let mut done = vec![0u64; p.families.len()];
  for h in handles {
    let (s, d) = h.join().unwrap();
    stats.evals += s.evals;
    stats.cases += s.cases;
    stats.distinct.extend(s.distinct);
    for (k, v) in s.counters {
      *stats.counters.entry(k).or_insert(0) += v;
    }
    for (k, v) in s.maxima {
      let e = stats.maxima.entry(k).or_insert(v);
      if v > *e {
        *e = v
      }
    }
    for x in s.samples {
      if stats.samples.len() < 24 {
        stats.samples.push(x)
      }
    }
    for (i, x) in d.iter().enumerate() {
      done[i] += x;
    }
  }
  finished.store(true, Ordering::SeqCst);
  let mut v = viols.lock().unwrap().clone();
  v.sort_by_key(|v| (v.case, v.fam.clone()));
  for x in &v {
    report_viol(&x.fam, x.case, &x.msg);
  }
  let fams = p
    .families
    .iter()
    .enumerate()
    .map(|(i, f)| format!("{}:{}", esc(f.name), done[i]))
    .collect::<Vec<_>>()
    .join(",");
  let counters = stats.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
  let maxima = stats.maxima.iter().map(|(k, v)| format!("{}:{:.4}", esc(k), v)).collect::<Vec<_>>().join(",");
  let samples = stats.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
  println!("EVALS\t{}", stats.evals);
  println!(
    "COV\t\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"cases\":{},\"families\":{{{}}},\"observed\":{{{}}},\"maxima\":{{{}}},\"time_budget_hit\":{}",
    stats.evals, stats.distinct.len(), esc(p.rule), samples, stats.cases, fams, counters, maxima, truncated.load(Ordering::SeqCst)
  );
  if only.is_none() && v.is_empty() {
    for r in p.require {
      if stats.counters.get(*r).copied().unwrap_or(0) == 0 {
        println!("VACUOUS: counter {} of property {} is zero", r, p.id);
      }
    }
    if stats.evals == 0 || stats.distinct.is_empty() {
      println!("VACUOUS: nothing observed for property {}", p.id);
    }
  }
  let _ = std::io::stdout().flush();
  std::process::exit(if v.is_empty() { 0 } else { 3 });
}
