//! C09 shutdown/completion, C10 runtime sizing, C11 rate-limited warnings, C13 platform metadata,
//! C14 panic policy, C15 stat identities.
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Res, Run};

// ---------------------------------------------------------------------------------------------
// C09

#[derive(Serialize, Deserialize, Clone, Debug)]
enum ShOp {
  Make,
  MakeHandle,
  CloneHandle(u8),
  DropHandle(u8),
  MakeFromHandle(u8),
  Clone(u8),
  Drop(u8),
  /// Start waiting for cancellation on a receiver (it is then owned by the wait).
  Wait(u8),
  /// Give up on a wait, dropping its receiver.
  Abandon(u8),
  Shutdown,
  DropTrigger,
}

pub fn c09(run: &mut Run) {
  use bd_shutdown::{ComponentShutdown, ComponentShutdownTrigger, ComponentStatus};
  run.run(
    part(
      "history",
      60_000,
      1_000_000,
      "histories of creating, cloning, waiting on and dropping component receivers and handles around a shutdown; every pending wait is \
       polled only when woken, so a lost wake-up shows; non-trivial = shutdown requested while a component was still held",
    ),
    || {
      prop::collection::vec(
        prop_oneof![
          4 => Just(ShOp::Make),
          1 => Just(ShOp::MakeHandle),
          1 => any::<u8>().prop_map(ShOp::CloneHandle),
          1 => any::<u8>().prop_map(ShOp::DropHandle),
          2 => any::<u8>().prop_map(ShOp::MakeFromHandle),
          2 => any::<u8>().prop_map(ShOp::Clone),
          5 => any::<u8>().prop_map(ShOp::Drop),
          4 => any::<u8>().prop_map(ShOp::Wait),
          2 => any::<u8>().prop_map(ShOp::Abandon),
          2 => Just(ShOp::Shutdown),
          1 => prop::bool::weighted(0.2).prop_map(|b| if b { ShOp::DropTrigger } else { ShOp::Make }),
        ],
        1 .. 30,
      )
    },
    |ops, obs| {
      type Waiter = tokio_test::task::Spawn<std::pin::Pin<Box<dyn std::future::Future<Output = ComponentShutdown>>>>;
      let mut trigger = Some(ComponentShutdownTrigger::default());
      let mut handles: Vec<bd_shutdown::ComponentShutdownTriggerHandle> = vec![];
      let mut held: Vec<ComponentShutdown> = vec![];
      let mut waiting: Vec<Waiter> = vec![];
      let mut shutdown: Option<tokio_test::task::Spawn<std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>>> = None;
      let mut requested = false;
      let mut finished = false;
      for op in ops {
        match op {
          ShOp::Make => {
            if let Some(t) = &trigger {
              held.push(t.make_shutdown());
            }
          },
          ShOp::MakeHandle => {
            if let Some(t) = &trigger {
              handles.push(t.make_handle());
            }
          },
          ShOp::CloneHandle(i) => {
            if !handles.is_empty() {
              handles.push(handles[*i as usize % handles.len()].clone());
            }
          },
          ShOp::DropHandle(i) => {
            if !handles.is_empty() {
              handles.swap_remove(*i as usize % handles.len());
            }
          },
          ShOp::MakeFromHandle(i) => {
            if !handles.is_empty() {
              held.push(handles[*i as usize % handles.len()].make_shutdown());
            }
          },
          ShOp::Clone(i) => {
            if !held.is_empty() {
              held.push(held[*i as usize % held.len()].clone());
            }
          },
          ShOp::Drop(i) => {
            if !held.is_empty() {
              held.swap_remove(*i as usize % held.len());
            }
          },
          ShOp::Wait(i) => {
            if !held.is_empty() {
              let mut s = held.swap_remove(*i as usize % held.len());
              let mut w: Waiter = tokio_test::task::spawn(Box::pin(async move {
                s.cancelled().await;
                s
              }));
              let sources_gone = trigger.is_none() && shutdown.is_none() && handles.is_empty();
              let want = requested || sources_gone;
              match w.poll() {
                std::task::Poll::Ready(s) => {
                  ensure!(want, "a component was told to stop although nobody asked for a shutdown");
                  held.push(s);
                },
                std::task::Poll::Pending => {
                  ensure!(!want, "a component that waits after the shutdown request is not told");
                  waiting.push(w);
                },
              }
            }
          },
          ShOp::Abandon(i) => {
            if !waiting.is_empty() {
              waiting.swap_remove(*i as usize % waiting.len());
            }
          },
          ShOp::Shutdown => {
            if let Some(t) = trigger.take() {
              obs.nontrivial(!held.is_empty() || !waiting.is_empty());
              obs.label_if(!waiting.is_empty(), "shutdown with waiters");
              let mut f: tokio_test::task::Spawn<std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>> =
                tokio_test::task::spawn(Box::pin(t.shutdown()));
              requested = true;
              let none = held.is_empty() && waiting.is_empty();
              match f.poll() {
                std::task::Poll::Ready(()) => {
                  ensure!(none, "shutdown completed while {} components are alive", held.len() + waiting.len());
                  finished = true;
                },
                std::task::Poll::Pending => {
                  ensure!(!none, "shutdown does not complete although no component is alive");
                  shutdown = Some(f);
                },
              }
            }
          },
          ShOp::DropTrigger => trigger = None,
        }
        // Deliver wake-ups.
        let sources_gone = trigger.is_none() && shutdown.is_none() && handles.is_empty();
        let mut rest = vec![];
        for mut w in waiting.drain(..) {
          if w.is_woken() {
            match w.poll() {
              std::task::Poll::Ready(s) => {
                ensure!(requested || sources_gone, "a waiting component was told to stop without a request");
                held.push(s);
              },
              std::task::Poll::Pending => rest.push(w),
            }
          } else {
            rest.push(w);
          }
        }
        ensure!(
          rest.is_empty() || !(requested || sources_gone),
          "{} waiting components were not told about the shutdown",
          rest.len()
        );
        waiting = rest;
        if let Some(f) = &mut shutdown {
          let alive = held.len() + waiting.len();
          if f.is_woken() {
            if f.poll().is_ready() {
              ensure!(alive == 0, "shutdown completed while {alive} components are alive");
              finished = true;
              shutdown = None;
            }
          }
          if shutdown.is_some() {
            ensure!(alive > 0, "shutdown is not complete although the last component is gone");
          }
        }
        for h in &held {
          let want = if requested { ComponentStatus::PendingShutdown } else { ComponentStatus::Running };
          ensure_eq!(h.component_status(), want, "status of a component");
        }
      }
      obs.label_if(finished, "shutdown finished");
      Ok(())
    },
  );

  // Components that stop some time after being told; `late` ones make another component through a handle once they are told, which holds the
  // shutdown up instead of them.
  let blocking = |delays: &[(u64, bool)]| -> Result<(), Fail> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let trigger = ComponentShutdownTrigger::default();
    let handle = trigger.make_handle();
    let done = std::sync::Arc::new(AtomicUsize::new(0));
    let threads: Vec<_> = delays
      .iter()
      .map(|(d, late)| {
        let mut s = if *late { handle.make_shutdown() } else { trigger.make_shutdown() };
        let (d, late, handle, done) = (*d, *late, handle.clone(), done.clone());
        std::thread::spawn(move || {
          let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
          rt.block_on(s.cancelled());
          let mut status = vec![s.component_status()];
          if late {
            let mut other = handle.make_shutdown();
            drop(std::mem::replace(&mut s, other.clone()));
            rt.block_on(other.cancelled());
            status.push(other.component_status());
          }
          std::thread::sleep(Duration::from_millis(d));
          done.fetch_add(1, Ordering::SeqCst);
          drop(s);
          status
        })
      })
      .collect();
    trigger.shutdown_blocking();
    ensure_eq!(done.load(Ordering::SeqCst), delays.len(), "components finished when shutdown returned");
    for t in threads {
      for s in t.join().unwrap() {
        ensure_eq!(s, ComponentStatus::PendingShutdown, "status seen by a told component");
      }
    }
    let mut after = handle.make_shutdown();
    ensure_eq!(after.component_status(), ComponentStatus::PendingShutdown, "status seen by a component that a handle makes after the shutdown");
    let mut w = tokio_test::task::spawn(async move { after.cancelled().await });
    ensure!(w.poll().is_ready(), "a component that a handle makes after the shutdown is not told");
    Ok(())
  };

  run.run(
    part(
      "blocking",
      96,
      800,
      "blocking shutdown against up to 4 component threads that stop after being told and some more steps, or hand over to another component; \
       non-trivial = more than one thread",
    ),
    || prop::collection::vec((0u64 .. 20, any::<bool>()), 0 .. 5),
    |delays, obs| {
      obs.nontrivial(delays.len() > 1);
      obs.label_if(delays.is_empty(), "no component");
      blocking(delays)
    },
  );

  run.run(
    part(
      "slow",
      8,
      8,
      "blocking shutdown against a component that takes seconds to stop (a minute in thorough), and a completion that takes as long; \
       non-trivial = all",
    )
    .shards(8)
    .max_shrink(0),
    {
      let most = if matches!(run.tier, vcommon::Tier::Quick) { 7_000u64 } else { 65_000 };
      move || prop::collection::vec((most / 4 .. most, any::<bool>()), 1 .. 3)
    },
    |delays, obs| {
      obs.nontrivial(true);
      let (tx, rx) = bd_completion::Sender::<u64>::new();
      let wait = delays[0].0;
      let receiver = std::thread::spawn(move || rx.blocking_recv());
      let sender = std::thread::spawn(move || {
        std::thread::sleep(Duration::from_millis(wait));
        tx.send(wait);
      });
      blocking(delays)?;
      sender.join().unwrap();
      ensure_eq!(receiver.join().unwrap().ok(), Some(wait), "completion that takes seconds");
      Ok(())
    },
  );

  run.run(
    part(
      "completion",
      20_000,
      300_000,
      "one-shot completion: send or drop the sender before/after the receiver starts to wait, or drop the receiver; async and blocking; \
       non-trivial = a value is sent",
    ),
    || (any::<Option<u32>>(), 0u8 .. 3, any::<bool>()),
    |(value, order, blocking), obs| {
      obs.nontrivial(value.is_some());
      let (tx, rx) = bd_completion::Sender::<u32>::new();
      if *order == 2 {
        drop(rx);
        // Must not fail or panic.
        tx.send(7);
        return Ok(());
      }
      let fire = |tx: bd_completion::Sender<u32>| match value {
        Some(v) => tx.send(*v),
        None => drop(tx),
      };
      let got = if *blocking {
        fire(tx);
        rx.blocking_recv()
      } else {
        let mut tx = Some(tx);
        if *order == 0 {
          fire(tx.take().unwrap());
        }
        let mut f = tokio_test::task::spawn(rx.recv());
        if let Some(tx) = tx {
          ensure!(f.poll().is_pending(), "completion received before it was sent");
          fire(tx);
          ensure!(f.is_woken(), "the receiver is not woken");
        }
        match f.poll() {
          std::task::Poll::Ready(r) => r,
          std::task::Poll::Pending => return Err(Fail::new("the receiver does not see the completion")),
        }
      };
      ensure_eq!(got.ok(), *value, "completion value");
      Ok(())
    },
  );
}

// ---------------------------------------------------------------------------------------------
// C10

pub fn c10(run: &mut Run) {
  run.assume("The host's own parallelism, as the standard library reports it, is the fallback.");
  let host = std::thread::available_parallelism().map_or(1, std::num::NonZeroUsize::get);
  run.run(
    part(
      "sizing",
      30_000,
      300_000,
      "values of the CPU-share variable: integers, fractions, negatives, zero, subnormal, infinite, not a number, text, unset; \
       non-trivial = a positive normal number",
    )
    .shards(1),
    || {
      prop_oneof![
        1 => Just(None),
        3 => (0u32 .. 200).prop_map(|n| Some(n.to_string())),
        4 => (0.0f64 .. 100.0).prop_map(|n| Some(n.to_string())),
        2 => any::<f64>().prop_map(|n| Some(n.to_string())),
        2 => prop::sample::select(vec!["0", "-0", "0.0", "1e-310", "inf", "-inf", "NaN", "-1", "-3.5", "", " 2", "2 ", "two", "0x2",
          "1e3", "1.9999", "0.5", "+3", ".5", "5.", "1_0"]).prop_map(|s| Some(s.to_string())),
        1 => "[0-9a-z.+-]{0,5}".prop_map(Some),
      ]
    },
    |v, obs| {
      match v {
        Some(v) => std::env::set_var("NUM_CPUS", v),
        None => std::env::remove_var("NUM_CPUS"),
      }
      let got = bd_rt::num_cpus();
      std::env::remove_var("NUM_CPUS");
      let want = match v.as_ref().and_then(|v| v.parse::<f64>().ok()) {
        Some(f) if f.is_normal() => {
          obs.nontrivial(f > 0.0);
          if f < 1.0 { 1 } else { f as usize }
        },
        _ => host.clamp(1, bd_rt::MAX_RT_THREADPOOL_SIZE),
      };
      ensure_eq!(got, want, "threads for a CPU share of {v:?}");
      Ok(())
    },
  );
  run.run(
    part(
      "runtime",
      48,
      300,
      "child processes that build the runtime under a generated CPU share; the number of workers must be that share; non-trivial = more \
       than one worker",
    )
    .max_shrink(40),
    || prop_oneof![(1u32 .. 24).prop_map(|n| n.to_string()), (0.1f64 .. 16.0).prop_map(|n| n.to_string())],
    |v, obs| {
      let exe = std::env::current_exe().unwrap();
      let out = std::process::Command::new(exe).args(["child", "runtime"]).env("NUM_CPUS", v).output().unwrap();
      let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
      let f: f64 = v.parse().unwrap();
      let n = (f as usize).max(1);
      obs.nontrivial(n > 1);
      ensure!(
        out.status.success() && text == format!("workers={n} sum=42"),
        "runtime for a CPU share of {v}: {text:?} ({:?}), expected {n} workers",
        out.status
      );
      Ok(())
    },
  );
  c10_fallback(run, host);
}

fn c10_fallback(run: &mut Run, host: usize) {
  run.run(
    part(
      "fallback",
      40,
      300,
      "child processes restricted to 1 to 8 processors, without a CPU share or with one that is not a normal number; non-trivial = fewer \
       processors than the machine has",
    )
    .max_shrink(20),
    || {
      let odd = vec!["", "NaN", "inf", "0", "-0.0", "1e-310", "two", "2 "];
      (1usize .. 9, prop_oneof![Just(None), prop::sample::select(odd).prop_map(|s| Some(s.to_string()))])
    },
    move |(cpus, v), obs| {
      let n = (*cpus).min(host);
      obs.nontrivial(n < host);
      let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
      cmd.args(["child", "runtime"]).env("C10_CPUS", n.to_string());
      match v {
        Some(v) => cmd.env("NUM_CPUS", v),
        None => cmd.env_remove("NUM_CPUS"),
      };
      let out = cmd.output().unwrap();
      let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
      ensure!(
        out.status.success() && text == format!("workers={n} sum=42"),
        "runtime on {n} processors with a CPU share of {v:?}: {text:?} ({:?})",
        out.status
      );
      Ok(())
    },
  );
}

pub fn child_runtime() {
  if let Some(n) = std::env::var("C10_CPUS").ok().and_then(|n| n.parse::<usize>().ok()) {
    // Keeps the first n processors this process may use.
    unsafe {
      let mut all: libc::cpu_set_t = std::mem::zeroed();
      let size = std::mem::size_of::<libc::cpu_set_t>();
      assert_eq!(0, libc::sched_getaffinity(0, size, &mut all));
      let mut few: libc::cpu_set_t = std::mem::zeroed();
      let mut left = n;
      for i in 0 .. libc::CPU_SETSIZE as usize {
        if left > 0 && libc::CPU_ISSET(i, &all) {
          libc::CPU_SET(i, &mut few);
          left -= 1;
        }
      }
      assert_eq!(0, libc::sched_setaffinity(0, size, &few));
    }
    assert_eq!(n, std::thread::available_parallelism().unwrap().get());
  }
  let rt = bd_rt::new_runtime().expect("runtime");
  let n = rt.metrics().num_workers();
  let sum = rt.block_on(async {
    let a = tokio::spawn(async {
      tokio::time::sleep(Duration::from_millis(1)).await;
      40
    });
    let b = tokio::spawn(async { 2 });
    a.await.unwrap() + b.await.unwrap()
  });
  println!("workers={n} sum={sum}");
}

// ---------------------------------------------------------------------------------------------
// C11

#[derive(Serialize, Deserialize, Clone, Debug)]
enum WOp {
  Advance(u64),
  /// tracker, window in ms
  Ask(u8, i64),
  /// Log through the rate-limiting macros at one of two sites.
  Log(u8),
}

struct Capture;
thread_local! {
  static LINES: std::cell::RefCell<Vec<(log::Level, String)>> = const { std::cell::RefCell::new(vec![]) };
}
impl log::Log for Capture {
  fn enabled(&self, m: &log::Metadata<'_>) -> bool {
    m.target() == "c11"
  }
  fn log(&self, r: &log::Record<'_>) {
    if r.args().to_string().starts_with("c11 ") {
      LINES.with(|l| l.borrow_mut().push((r.level(), r.args().to_string())));
    }
  }
  fn flush(&self) {}
}
static CAPTURE: Capture = Capture;

fn site(i: u8, n: usize) {
  use time::ext::NumericalDuration;
  if i == 0 {
    bd_log::warn_every!(15.seconds(), "c11 {} {}", 0, n);
  } else {
    bd_log::error_every!(2.seconds(), "c11 {} {}", 1, n);
  }
}

pub fn c11(run: &mut Run) {
  let _ = log::set_logger(&CAPTURE);
  log::set_max_level(log::LevelFilter::Trace);
  // The two macro sites are process-wide, so the cases run one after another, each later on the
  // (virtual) clock than everything before it.
  static OFFSET: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
  run.run(
    part(
      "history",
      40_000,
      600_000,
      "virtual-clock histories of asking several trackers and two logging sites, advancing by amounts around the windows; non-trivial = \
       one tracker is asked again within its window and again after it",
    )
    .shards(1),
    || {
      prop::collection::vec(
        prop_oneof![
          4 => prop_oneof![0u64 .. 20, 990u64 .. 1010, 1990u64 .. 2010, 14_990u64 .. 15_010, 0u64 .. 40_000].prop_map(WOp::Advance),
          4 => (0u8 .. 3, prop_oneof![Just(0i64), Just(1000), Just(15_000), Just(1), -5i64 .. 30_000]).prop_map(|(a, b)| WOp::Ask(a, b)),
          3 => (0u8 .. 2).prop_map(WOp::Log),
        ],
        1 .. 25,
      )
    },
    |ops, obs| {
      let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
      rt.block_on(async {
        let start = *OFFSET.lock().unwrap();
        tokio::time::advance(Duration::from_millis(start + 3_600_000)).await;
        let trackers: Vec<bd_log::rate_limit_log::WarnTracker> = (0 .. 3).map(|_| Default::default()).collect();
        let mut last: [Option<u64>; 3] = [None; 3];
        let mut site_last: [Option<u64>; 2] = [None; 2];
        let (mut yes, mut no) = ([0; 3], [0; 3]);
        let mut now = 0u64;
        let mut result: Res = Ok(());
        for (n, op) in ops.iter().enumerate() {
          match op {
            WOp::Advance(ms) => {
              tokio::time::advance(Duration::from_millis(*ms)).await;
              now += ms;
            },
            WOp::Ask(i, window) => {
              let i = *i as usize;
              let want = last[i].is_none_or(|l| (now - l) as i64 > *window);
              let got = trackers[i].should_warn(time::Duration::milliseconds(*window));
              if got != want {
                result = Err(Fail::new(format!(
                  "tracker at {now} ms, last warning {:?}, window {window} ms: {got}, expected {want}",
                  last[i]
                )));
                break;
              }
              if want {
                yes[i] += 1;
                last[i] = Some(now);
              } else {
                no[i] += 1;
              }
            },
            WOp::Log(i) => {
              LINES.with(|l| l.borrow_mut().clear());
              site(*i, n);
              let lines = LINES.with(|l| l.borrow_mut().split_off(0));
              let i = *i as usize;
              let window = [15_000, 2_000][i];
              let loud = site_last[i].is_none_or(|l| now - l > window);
              if loud {
                site_last[i] = Some(now);
              }
              let level = match (loud, i) {
                (true, 0) => log::Level::Warn,
                (true, _) => log::Level::Error,
                (false, _) => log::Level::Debug,
              };
              let want = vec![(level, format!("c11 {i} {n}"))];
              if lines != want {
                result = Err(Fail::new(format!("site {i} at {now} ms logged {lines:?}, expected {want:?}")));
                break;
              }
            },
          }
        }
        *OFFSET.lock().unwrap() = start + 3_600_000 + now;
        obs.nontrivial((0 .. 3).any(|i| yes[i] > 1 && no[i] > 0));
        result
      })
    },
  );
}

// ---------------------------------------------------------------------------------------------
// C13

#[derive(Serialize, Deserialize, Clone, Debug)]
struct MetaCase {
  inner: BTreeMap<String, String>,
  platform: u8,
  sdk: u8,
}
struct Meta(HashMap<String, String>, bd_metadata::Platform, &'static str);
impl bd_metadata::Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    self.2
  }
  fn platform(&self) -> &bd_metadata::Platform {
    &self.1
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    self.0.clone()
  }
}

pub fn c13(run: &mut Run) {
  use bd_metadata::{Metadata, Platform};
  run.run(
    part(
      "collect",
      40_000,
      400_000,
      "platform, SDK version and host-supplied entries, some of which collide with the handshake's own keys; non-trivial = a collision",
    ),
    || {
      let k = prop_oneof![
        3 => prop::sample::select(vec!["os", "kind", "sdk_version", "config_version"]).prop_map(String::from),
        3 => prop::sample::select(vec!["OS", "app_id", "model", "device_id", "platform"]).prop_map(String::from),
        1 => "\\PC{0,5}",
      ];
      (prop::collection::btree_map(k, "[a-z0-9.]{0,6}", 0 .. 8), 0u8 .. 5, 0u8 .. 3)
        .prop_map(|(inner, platform, sdk)| MetaCase { inner, platform, sdk })
    },
    |c, obs| {
      let (platform, os, kind) = match c.platform {
        0 => (Platform::Android, "android", "mobile"),
        1 => (Platform::Ios, "ios", "mobile"),
        2 => (Platform::Pulse, "pulse", "pulse"),
        3 => (Platform::Other("linux", "server"), "linux", "server"),
        _ => (Platform::Other("", "x"), "", "x"),
      };
      let sdk = ["1.2.3", "", "9.9.9-rc1"][c.sdk as usize];
      let m = Meta(c.inner.clone().into_iter().collect(), platform, sdk);
      let got: BTreeMap<_, _> = m.collect().into_iter().collect();
      let mut want = c.inner.clone();
      for (k, v) in [("os", os), ("kind", kind), ("sdk_version", sdk)] {
        obs.nontrivial(want.insert(k.into(), v.into()).is_some());
      }
      // The configuration version is a constant of the build: present, non-empty, and not the host's.
      let version = got.get("config_version").cloned().unwrap_or_default();
      let again = Meta(HashMap::new(), Platform::Ios, "").collect().remove("config_version").unwrap_or_default();
      ensure!(!version.is_empty() && version == again, "config_version {version:?}, elsewhere {again:?}");
      ensure!(version.parse::<u32>().is_ok(), "config_version {version:?} is not a number");
      want.insert("config_version".into(), version);
      ensure_eq!(got, want, "collected metadata");
      Ok(())
    },
  );
}

// ---------------------------------------------------------------------------------------------
// C14

#[derive(Serialize, Deserialize, Clone, Debug)]
struct PanicCase {
  abort: bool,
  log: bool,
  place: u8,
  payload: u8,
  text: String,
  /// Whether the hooks are installed twice.
  twice: bool,
}

pub fn c14(run: &mut Run) {
  run.run(
    part(
      "child",
      320,
      3_000,
      "child processes with a panic policy (forced exit or not, single-line logging or not) that panic in the main thread, another \
       thread, a spawned task or a blocking task with text, formatted or opaque payloads; non-trivial = forced exit off the main thread",
    )
    .max_shrink(60),
    || {
      (any::<bool>(), any::<bool>(), 0u8 .. 4, 0u8 .. 3, "[a-z0-9 ]{0,12}", prop::bool::weighted(0.1))
        .prop_map(|(abort, log, place, payload, text, twice)| PanicCase { abort, log, place, payload, text, twice })
    },
    |c, obs| {
      obs.nontrivial(c.abort && c.place > 0);
      let exe = std::env::current_exe().unwrap();
      let mut cmd = std::process::Command::new(exe);
      cmd.args(["child", "panic", &serde_json::to_string(c).unwrap()]).env_remove("LOG_PANIC").env("RUST_BACKTRACE", "0");
      if c.log {
        cmd.env("LOG_PANIC", "1");
      }
      let out = cmd.output().unwrap();
      let text = String::from_utf8_lossy(&out.stdout).to_string();
      ensure!(text.contains("before"), "child did not start: {out:?}");
      let code = out.status.code();
      if c.abort {
        ensure_eq!(code, Some(1), "exit code after a panic under the forced-exit policy");
        ensure!(!text.contains("CONTINUED"), "execution continued after a panic under the forced-exit policy");
      } else {
        ensure_eq!(code, Some(0), "exit code after a contained panic");
        ensure!(text.contains("CONTINUED"), "execution did not continue after a contained panic");
      }
      let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("ERROR panic: ")).collect();
      if c.log {
        let msg = match c.payload {
          0 => "literal text".to_string(),
          1 => format!("formatted {}", c.text),
          _ => "<none>".to_string(),
        };
        ensure!(
          lines.len() == 1
            && lines[0].contains(&format!("message=\"{msg}\""))
            && lines[0].contains("misc.rs:"),
          "panic log lines {lines:?}, expected one with message {msg:?} and the place of the panic"
        );
      } else {
        ensure!(lines.is_empty(), "panic logged as a line without being asked: {lines:?}");
        ensure!(!out.stderr.is_empty(), "no backtrace printed");
      }
      Ok(())
    },
  );
}

struct Out;
impl log::Log for Out {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    println!("{} {}", r.level(), r.args());
  }
  fn flush(&self) {}
}
static OUT: Out = Out;

pub fn child_panic(arg: &str) {
  let c: PanicCase = serde_json::from_str(arg).unwrap();
  let _ = log::set_logger(&OUT);
  log::set_max_level(log::LevelFilter::Error);
  let ty = || if c.abort { bd_panic::PanicType::ForceAbort } else { bd_panic::PanicType::BacktraceOnly };
  bd_panic::default(ty());
  if c.twice {
    bd_panic::default(ty());
  }
  println!("before");
  let (payload, text) = (c.payload, c.text.clone());
  let boom = move || match payload {
    0 => panic!("literal text"),
    1 => panic!("formatted {text}"),
    _ => std::panic::panic_any(7u32),
  };
  match c.place {
    0 => {
      let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(boom));
    },
    1 => {
      let _ = std::thread::spawn(boom).join();
    },
    n => {
      let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
      rt.block_on(async {
        if n == 2 {
          let _ = tokio::spawn(async move { boom() }).await;
        } else {
          let _ = tokio::task::spawn_blocking(boom).await;
        }
      });
    },
  }
  println!("CONTINUED");
}

// ---------------------------------------------------------------------------------------------
// C15

pub fn c15(run: &mut Run) {
  use bd_stats_common::{labels, Id};
  run.run(
    part(
      "identity",
      60_000,
      600_000,
      "pairs of stat identities with labels given in any order, with repeats; non-trivial = at least two labels",
    ),
    || {
      let l = || prop::collection::vec(("[ab]{0,2}", "[xy]{0,2}"), 0 .. 5);
      ("[ab]{0,2}", l(), "[ab]{0,2}", l(), any::<u64>(), any::<bool>())
    },
    |(n1, l1, n2, l2, perm, same), obs| {
      use std::hash::{Hash, Hasher};
      obs.nontrivial(l1.len() > 1);
      let h = |i: &Id| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        i.hash(&mut h);
        h.finish()
      };
      let map = |l: &[(String, String)]| l.iter().cloned().collect::<BTreeMap<_, _>>();
      let a = Id::new(n1.clone(), map(l1));
      let b = if *same {
        // The same labels, inserted in another order.
        let mut v: Vec<_> = map(l1).into_iter().collect();
        let len = v.len().max(1);
        v.rotate_left(*perm as usize % len);
        Id::new(n1.clone(), map(&v))
      } else {
        Id::new(n2.clone(), map(l2))
      };
      let equal = a.name == b.name && a.labels == b.labels;
      ensure_eq!(a == b, equal, "identity of {a:?} and {b:?}");
      ensure!(!equal || h(&a) == h(&b), "equal identities {a:?} hash differently");
      if *same {
        ensure!(equal, "label order matters");
      }
      if l1.len() >= 2 {
        // The literal form: a later entry for the same key wins.
        let (x, y) = (&l1[0], &l1[1]);
        let m: BTreeMap<String, String> = labels!(x.0.as_str() => x.1.as_str(), y.0.as_str() => y.1.as_str(),);
        ensure_eq!(m, map(&l1[.. 2]), "label literal");
      }
      let m: BTreeMap<String, String> = labels!();
      ensure!(m.is_empty(), "empty label literal");
      Ok(())
    },
  );
}
