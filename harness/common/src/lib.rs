//! Shared machinery: runs generated cases against an oracle, shrinks failures to a replay file,
//! and writes the evidence file.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use proptest;
pub use serde;
pub use serde_json;

/// Why a case broke its property. `sig` identifies the defect for the known-findings file.
#[derive(Clone, Debug)]
pub struct Fail {
  pub sig: Option<String>,
  pub msg: String,
}
impl Fail {
  pub fn new(msg: impl Into<String>) -> Self {
    Self { sig: None, msg: msg.into() }
  }
  pub fn sig(sig: &str, msg: impl Into<String>) -> Self {
    Self { sig: Some(sig.to_string()), msg: msg.into() }
  }
}
impl From<String> for Fail {
  fn from(s: String) -> Self {
    Self::new(s)
  }
}
impl From<&str> for Fail {
  fn from(s: &str) -> Self {
    Self::new(s)
  }
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
  ($c:expr, $($t:tt)+) => { if !($c) { return Err($crate::Fail::new(format!($($t)+))); } };
}
#[macro_export]
macro_rules! ensure_eq {
  ($a:expr, $b:expr, $($t:tt)+) => {{
    let (a, b) = (&$a, &$b);
    if a != b {
      return Err($crate::Fail::new(format!("{}: got {:?}, expected {:?}", format!($($t)+), a, b)));
    }
  }};
}

/// What one case reports about itself.
#[derive(Default)]
#[derive(Clone)]
pub struct Obs {
  nontrivial: bool,
  labels: Vec<&'static str>,
}
impl Obs {
  pub fn nontrivial(&mut self, b: bool) {
    self.nontrivial |= b;
  }
  pub fn label(&mut self, l: &'static str) {
    self.labels.push(l);
  }
  pub fn label_if(&mut self, b: bool, l: &'static str) {
    if b {
      self.labels.push(l);
    }
  }
}

thread_local! {
  static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);

// ---------------------------------------------------------------------------------------------
// Process death inside the code under test (an abort, a bad memory access, an allocation of an
// absurd size) cannot be caught and shrunk; the case that was running is reported as it is.

const SLOTS: usize = 64;
static RUNNING: [Mutex<Option<(String, &'static str, String)>>; SLOTS] =
  [const { Mutex::new(None) }; SLOTS];
thread_local! {
  static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

fn enter_case(id: &str, part: &'static str, json: String) {
  let slot = SLOT.with(std::cell::Cell::get);
  if slot < SLOTS {
    if let Ok(mut s) = RUNNING[slot].lock() {
      *s = Some((id.to_string(), part, json));
    }
  }
}

fn leave_case() {
  let slot = SLOT.with(std::cell::Cell::get);
  if slot < SLOTS {
    if let Ok(mut s) = RUNNING[slot].lock() {
      *s = None;
    }
  }
}

fn die(what: &str) -> ! {
  let slot = SLOT.with(std::cell::Cell::get);
  let order: Vec<usize> = if slot < SLOTS { vec![slot] } else { (0 .. SLOTS).collect() };
  for i in order {
    if let Ok(mut s) = RUNNING[i].try_lock() {
      if let Some((id, part, json)) = s.take() {
        let doc = format!(
          "{{\"property\":\"{id}\",\"part\":\"{part}\",\"failure\":\"{what}\",\"input\":{json}}}"
        );
        let dir = verif_root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-{part}-crash.json"));
        let _ = std::fs::write(&path, doc);
        println!("{what} while running a case of {part}");
        println!("VIOLATION property={id} replay={}", path.display());
        unsafe { libc::_exit(1) };
      }
    }
  }
  eprintln!("{what} outside any case");
  unsafe { libc::_exit(5) };
}

extern "C" fn on_signal(sig: libc::c_int) {
  unsafe {
    libc::signal(libc::SIGALRM, libc::SIG_DFL);
    libc::alarm(5);
  }
  die(match sig {
    libc::SIGSEGV => "the process died: invalid memory access (SIGSEGV)",
    libc::SIGBUS => "the process died: invalid memory access (SIGBUS)",
    libc::SIGILL => "the process died: illegal instruction (SIGILL)",
    _ => "the process died: abort (SIGABRT)",
  });
}

fn install_signals() {
  for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT] {
    unsafe {
      let mut a: libc::sigaction = std::mem::zeroed();
      a.sa_sigaction = on_signal as extern "C" fn(libc::c_int) as libc::sighandler_t;
      a.sa_flags = libc::SA_ONSTACK;
      libc::sigaction(s, &a, std::ptr::null_mut());
    }
  }
}

struct Guard;
const ABSURD: usize = 1 << 36;
unsafe impl std::alloc::GlobalAlloc for Guard {
  unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
    if l.size() > ABSURD {
      die("the process died: allocation of more than 64 GB");
    }
    std::alloc::System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
    if l.size() > ABSURD {
      die("the process died: allocation of more than 64 GB");
    }
    std::alloc::System.alloc_zeroed(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
    std::alloc::System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
    if n > ABSURD {
      die("the process died: allocation of more than 64 GB");
    }
    std::alloc::System.realloc(p, l, n)
  }
}
#[global_allocator]
static GUARD: Guard = Guard;

pub fn last_panic() -> Option<String> {
  LAST_PANIC.with(|p| p.borrow_mut().take())
}

fn install_hook() {
  let loud = std::env::var_os("VERIF_LOUD").is_some();
  std::panic::set_hook(Box::new(move |info| {
    let msg = info
      .payload()
      .downcast_ref::<&str>()
      .map(|s| (*s).to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned())
      .unwrap_or_else(|| "panic".to_string());
    let at = info
      .location()
      .map(|l| format!("{}:{}", l.file(), l.line()))
      .unwrap_or_default();
    if loud {
      eprintln!("panic at {at}: {msg}");
    }
    LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {at}: {msg}")));
  }));
}

/// Runs `f`, turning a panic on this thread into a failure.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
  match catch_unwind(AssertUnwindSafe(f)) {
    Ok(r) => r,
    Err(_) => Err(Fail::new(
      last_panic().unwrap_or_else(|| "panicked".to_string()),
    )),
  }
}

pub fn verif_root() -> PathBuf {
  // Set by run.sh; the harness itself is compiled below /verif/harness.
  std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

#[derive(Default)]
struct PartStats {
  evaluations: u64,
  nontrivial: HashSet<u64>,
  labels: BTreeMap<&'static str, u64>,
  samples: Vec<serde_json::Value>,
  known: BTreeMap<String, u64>,
}

pub struct Run {
  pub id: &'static str,
  pub tier: Tier,
  pub seed: u64,
  scale: f64,
  replay: Option<(String, serde_json::Value)>,
  replayed: bool,
  known: Vec<String>,
  parts: Vec<serde_json::Value>,
  evaluations: u64,
  distinct: u64,
  samples: Vec<serde_json::Value>,
  assumptions: Vec<String>,
  known_hits: BTreeMap<String, u64>,
  violation: Option<(String, String)>,
  only: Option<String>,
}

fn hash_of(s: &str) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  s.hash(&mut h);
  h.finish()
}

fn clip(v: &serde_json::Value) -> serde_json::Value {
  let s = v.to_string();
  if s.len() <= 700 {
    v.clone()
  } else {
    let mut end = 700;
    while !s.is_char_boundary(end) {
      end -= 1;
    }
    serde_json::Value::String(format!("{}... ({} bytes)", &s[.. end], s.len()))
  }
}

pub struct PartCfg {
  pub name: &'static str,
  /// How cases are made, and what makes one non-trivial.
  pub rule: &'static str,
  pub quick: u32,
  pub thorough: u32,
  pub shards: u32,
  pub max_shrink: u32,
}

pub fn part(name: &'static str, quick: u32, thorough: u32, rule: &'static str) -> PartCfg {
  PartCfg { name, rule, quick, thorough, shards: 8, max_shrink: 4000 }
}
impl PartCfg {
  #[must_use]
  pub fn shards(mut self, n: u32) -> Self {
    self.shards = n;
    self
  }
  #[must_use]
  pub fn max_shrink(mut self, n: u32) -> Self {
    self.max_shrink = n;
    self
  }
}

impl Run {
  pub fn assume(&mut self, s: &str) {
    self.assumptions.push(s.to_string());
  }

  /// Generates cases from `strat` and runs `case` on each until one breaks the property.
  pub fn run<S, F, G>(&mut self, cfg: PartCfg, strat: G, case: F)
  where
    S: Strategy,
    S::Value: Serialize + DeserializeOwned + Debug,
    G: Fn() -> S + Sync,
    F: Fn(&S::Value, &mut Obs) -> Res + Sync,
  {
    if self.violation.is_some() {
      return;
    }
    if self.only.as_ref().is_some_and(|o| o != cfg.name) {
      return;
    }
    if let Some((name, input)) = &self.replay {
      if name == cfg.name {
        self.replayed = true;
        let v: S::Value = serde_json::from_value(input.clone()).expect("replay input");
        SLOT.with(|s| s.set(0));
        enter_case(self.id, cfg.name, input.to_string());
        if let Err(e) = guarded(|| case(&v, &mut Obs::default())) {
          self.violation = Some((e.msg, std::env::args().nth(3).unwrap_or_default()));
        }
      }
      return;
    }
    let cases = match self.tier {
      Tier::Quick => cfg.quick,
      Tier::Thorough => cfg.thorough,
    };
    let cases = ((f64::from(cases) * self.scale) as u32).max(1);
    let shards = cfg.shards.clamp(1, cases);
    let stats = Mutex::new(PartStats::default());
    let failures: Mutex<BTreeMap<u32, (Fail, serde_json::Value)>> = Mutex::default();
    let stop = AtomicBool::new(false);
    let known = self.known.clone();
    let started = Instant::now();
    std::thread::scope(|scope| {
      for shard in 0 .. shards {
        let (strat, case, stats, failures, cfg, known, stop) =
          (&strat, &case, &stats, &failures, &cfg, &known, &stop);
        let seed = self.seed;
        let id = self.id;
        std::thread::Builder::new()
          .stack_size(64 << 20)
          .spawn_scoped(scope, move || {
            SLOT.with(|s| s.set(shard as usize));
            let mut bytes = [0u8; 32];
            bytes[.. 8].copy_from_slice(&seed.to_le_bytes());
            bytes[8 .. 16].copy_from_slice(&hash_of(&format!("{id}/{}", cfg.name)).to_le_bytes());
            bytes[16 .. 20].copy_from_slice(&shard.to_le_bytes());
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
            let my_cases = cases / shards + u32::from(shard < cases % shards);
            let config = Config {
              cases: my_cases,
              failure_persistence: None,
              max_shrink_iters: cfg.max_shrink,
              max_global_rejects: 1_000_000,
              max_local_rejects: 1_000_000,
              ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(config, rng);
            let failed: RefCell<Option<Fail>> = RefCell::new(None);
            let shrinking: std::cell::Cell<Option<Instant>> = std::cell::Cell::new(None);
            let outcome = runner.run(&strat(), |v| {
              PROGRESS.fetch_add(1, Ordering::Relaxed);
              if failed.borrow().is_none() && stop.load(Ordering::Relaxed) {
                return Ok(());
              }
              // Slow failures are shrunk for a while only.
              if shrinking.get().is_some_and(|t: Instant| t.elapsed() > Duration::from_secs(60)) {
                return Ok(());
              }
              let mut obs = Obs::default();
              let text = serde_json::to_string(&v).expect("serializable case");
              let h = hash_of(&text);
              enter_case(id, cfg.name, text);
              let result = guarded(|| case(&v, &mut obs));
              leave_case();
              if failed.borrow().is_none() {
                let mut s = stats.lock().unwrap();
                s.evaluations += 1;
                if obs.nontrivial && s.nontrivial.insert(h) && s.samples.len() < 3 {
                  let json = serde_json::to_value(&v).expect("serializable case");
                  s.samples.push(clip(&json));
                }
                for l in obs.labels {
                  *s.labels.entry(l).or_default() += 1;
                }
              }
              match result {
                Ok(()) => Ok(()),
                Err(f) => {
                  if let Some(sig) = f.sig.as_ref().filter(|s| known.contains(s)) {
                    *stats.lock().unwrap().known.entry(sig.clone()).or_default() += 1;
                    return Ok(());
                  }
                  let msg = f.msg.clone();
                  *failed.borrow_mut() = Some(f);
                  if shrinking.get().is_none() {
                    shrinking.set(Some(Instant::now()));
                  }
                  Err(TestCaseError::fail(msg))
                },
              }
            });
            match outcome {
              Ok(()) => {},
              Err(TestError::Fail(_, value)) => {
                // Report what the shrunk input itself says.
                let again = guarded(|| case(&value, &mut Obs::default()));
                let fail = match again {
                  Err(f) => f,
                  Ok(()) => Fail::new(format!(
                    "failed once but not on re-execution: {}",
                    failed.borrow().as_ref().map_or("", |f| f.msg.as_str())
                  )),
                };
                let json = serde_json::to_value(&value).expect("serializable case");
                failures.lock().unwrap().insert(shard, (fail, json));
                stop.store(true, Ordering::Relaxed);
              },
              Err(TestError::Abort(reason)) => {
                eprintln!("generator aborted in {}/{}: {reason}", id, cfg.name);
                std::process::exit(4);
              },
            }
          })
          .expect("spawn");
      }
    });
    let stats = stats.into_inner().unwrap();
    for (k, n) in &stats.known {
      *self.known_hits.entry(k.clone()).or_default() += n;
    }
    self.evaluations += stats.evaluations;
    self.distinct += stats.nontrivial.len() as u64;
    self.samples.extend(
      stats
        .samples
        .iter()
        .take(2)
        .map(|s| serde_json::json!({"part": cfg.name, "input": s})),
    );
    self.parts.push(serde_json::json!({
      "part": cfg.name, "evaluations": stats.evaluations,
      "distinct_nontrivial": stats.nontrivial.len(), "rule": cfg.rule, "labels": stats.labels,
      "wall_s": started.elapsed().as_secs_f64(),
    }));
    if std::env::var_os("VERIF_LOUD").is_some() {
      eprintln!("{}", self.parts.last().unwrap());
    }
    if let Some((_, (fail, json))) = failures.into_inner().unwrap().into_iter().next() {
      let path = write_replay(self.id, cfg.name, &fail, &json);
      self.violation = Some((fail.msg, path));
    }
  }

  /// A fixed list of inputs (for enumerations); counted like generated cases.
  pub fn enumerate<T, F>(&mut self, cfg: PartCfg, items: Vec<T>, case: F)
  where
    T: Serialize + DeserializeOwned + Debug,
    F: Fn(&T, &mut Obs) -> Res + Sync,
  {
    if self.violation.is_some() || self.only.as_ref().is_some_and(|o| o != cfg.name) {
      return;
    }
    if let Some((name, input)) = &self.replay {
      if name == cfg.name {
        self.replayed = true;
        let v: T = serde_json::from_value(input.clone()).expect("replay input");
        SLOT.with(|s| s.set(0));
        enter_case(self.id, cfg.name, input.to_string());
        if let Err(e) = guarded(|| case(&v, &mut Obs::default())) {
          self.violation = Some((e.msg, std::env::args().nth(3).unwrap_or_default()));
        }
      }
      return;
    }
    let mut s = PartStats::default();
    SLOT.with(|s| s.set(0));
    for v in items {
      PROGRESS.fetch_add(1, Ordering::Relaxed);
      enter_case(self.id, cfg.name, serde_json::to_string(&v).expect("serializable case"));
      let mut obs = Obs::default();
      let r = guarded(|| case(&v, &mut obs));
      let json = serde_json::to_value(&v).expect("serializable case");
      s.evaluations += 1;
      if obs.nontrivial && s.nontrivial.insert(hash_of(&json.to_string())) && s.samples.len() < 2 {
        s.samples.push(clip(&json));
      }
      for l in obs.labels {
        *s.labels.entry(l).or_default() += 1;
      }
      if let Err(f) = r {
        if let Some(sig) = f.sig.as_ref().filter(|s| self.known.contains(s)) {
          *self.known_hits.entry(sig.clone()).or_default() += 1;
        } else {
          let path = write_replay(self.id, cfg.name, &f, &json);
          self.violation = Some((f.msg, path));
          break;
        }
      }
    }
    self.evaluations += s.evaluations;
    self.distinct += s.nontrivial.len() as u64;
    self
      .samples
      .extend(s.samples.iter().map(|s| serde_json::json!({"part": cfg.name, "input": s})));
    self.parts.push(serde_json::json!({
      "part": cfg.name, "evaluations": s.evaluations, "exhaustive": true,
      "distinct_nontrivial": s.nontrivial.len(), "rule": cfg.rule, "labels": s.labels,
    }));
    if std::env::var_os("VERIF_LOUD").is_some() {
      eprintln!("{}", self.parts.last().unwrap());
    }
  }
}

fn write_replay(id: &str, part: &str, fail: &Fail, json: &serde_json::Value) -> String {
  let dir = verif_root().join("replays");
  std::fs::create_dir_all(&dir).expect("replays dir");
  let path = dir.join(format!("{id}-{part}.json"));
  let doc = serde_json::json!({
    "property": id, "part": part, "input": json, "failure": fail.msg, "sig": fail.sig,
  });
  std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
  path.display().to_string()
}

/// `known: property=<id> sig=<signature> <what fails>` lines of the known-findings file.
fn known_findings(id: &str) -> Vec<(String, String)> {
  let Ok(text) = std::fs::read_to_string(verif_root().join("known-findings.txt")) else {
    return vec![];
  };
  text
    .lines()
    .filter_map(|l| {
      let rest = l.strip_prefix("known: property=")?;
      let (pid, rest) = rest.split_once(' ')?;
      if pid != id {
        return None;
      }
      let (sig, what) = rest.strip_prefix("sig=")?.split_once(' ')?;
      Some((sig.to_string(), what.to_string()))
    })
    .collect()
}

pub type Prop = (&'static str, fn(&mut Run));

/// `<bin> run <id>` or `<bin> replay <id> <file>`.
pub fn main_with(props: &[Prop]) {
  let args: Vec<String> = std::env::args().collect();
  if args.len() < 3 {
    eprintln!("usage: {} run|replay ID [FILE]", args[0]);
    std::process::exit(2);
  }
  let Some((id, f)) = props.iter().find(|(id, _)| *id == args[2]) else {
    eprintln!("unknown property {}", args[2]);
    std::process::exit(2);
  };
  install_hook();
  install_signals();
  let tier = match std::env::var("VERIF_TIER").as_deref() {
    Ok("thorough") => Tier::Thorough,
    _ => Tier::Quick,
  };
  let seed: u64 = std::env::var("VERIF_SEED")
    .ok()
    .and_then(|s| s.trim().parse().ok())
    .unwrap_or(1);
  let scale: f64 = std::env::var("VERIF_SCALE")
    .ok()
    .and_then(|s| s.parse().ok())
    .unwrap_or(1.0);
  let replay = (args[1] == "replay").then(|| {
    let doc: serde_json::Value =
      serde_json::from_str(&std::fs::read_to_string(&args[3]).expect("replay file")).expect("json");
    (
      doc["part"].as_str().expect("part").to_string(),
      doc["input"].clone(),
    )
  });
  let known = known_findings(id);
  let mut run = Run {
    id,
    tier,
    seed,
    scale,
    replay: replay.clone(),
    replayed: false,
    known: known.iter().map(|k| k.0.clone()).collect(),
    parts: vec![],
    evaluations: 0,
    distinct: 0,
    samples: vec![],
    assumptions: vec![],
    known_hits: BTreeMap::new(),
    violation: None,
    only: std::env::var("VERIF_PART").ok(),
  };
  // Every wait of the checks themselves is bounded, so a case that does not come back hangs in the code under test.
  std::thread::spawn(|| {
    let mut last = (PROGRESS.load(Ordering::Relaxed), Instant::now());
    loop {
      std::thread::sleep(Duration::from_secs(1));
      let now = PROGRESS.load(Ordering::Relaxed);
      if now != last.0 {
        last = (now, Instant::now());
      } else if last.1.elapsed() > Duration::from_secs(150) {
        die("no end within 150 s");
      }
    }
  });
  let started = Instant::now();
  f(&mut run);
  if replay.is_some() {
    if !run.replayed {
      eprintln!("replay file names an unknown part");
      std::process::exit(2);
    }
    if let Some((msg, _)) = &run.violation {
      println!("{msg}");
      println!("VIOLATION property={id} replay={}", args[3]);
      std::process::exit(1);
    }
    println!("replay passes");
    std::process::exit(0);
  }
  let rules: Vec<String> = run
    .parts
    .iter()
    .map(|p| format!("{}: {}", p["part"].as_str().unwrap(), p["rule"].as_str().unwrap()))
    .collect();
  let evidence = serde_json::json!({
    "property": id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
    "seed": seed, "level": "exploration",
    "coverage": {
      "evaluations": run.evaluations, "distinct_nontrivial": run.distinct,
      "rule": rules.join(" | "), "samples": run.samples, "parts": run.parts,
      "known_findings_hit": run.known_hits,
    },
    "assumptions": run.assumptions,
    "wall_s": started.elapsed().as_secs_f64(),
    "violations": u32::from(run.violation.is_some()),
  });
  let dir = verif_root().join("evidence");
  std::fs::create_dir_all(&dir).expect("evidence dir");
  std::fs::write(
    dir.join(format!("{id}.json")),
    serde_json::to_string_pretty(&evidence).unwrap(),
  )
  .expect("evidence file");
  for (sig, what) in &known {
    if run.known_hits.contains_key(sig) {
      println!("KNOWN-FINDING: property={id} {what}");
    }
  }
  if let Some((msg, path)) = &run.violation {
    println!("{msg}");
    println!("VIOLATION property={id} replay={path}");
    std::process::exit(1);
  }
  println!(
    "{id}: held on {} cases ({} distinct non-trivial) in {:.1} s",
    run.evaluations,
    run.distinct,
    started.elapsed().as_secs_f64()
  );
  std::process::exit(0);
}
