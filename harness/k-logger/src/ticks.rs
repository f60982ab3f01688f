//! C43: what the app is asked to do, and when.
use bd_client_stats_store::Collector;
use bd_log_primitives::{LogInterceptor, LogMessage, LogType};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_session_replay::{CaptureScreenshotHandler, Recorder, ScreenshotLogInterceptor, SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE};
use bd_shutdown::ComponentShutdownTrigger;
use parking_lot::Mutex;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::time::Instant;
use vcommon::proptest::collection::vec as many;
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Op {
  /// Time passes, and everything happens when it is due.
  Pass(u32),
  /// The device slept.
  Jump(u32),
  Screens(bool),
  ScreensEvery(u16),
  Resource(bool),
  ResourceEvery(u16),
  Shots(bool),
  Events(Vec<bool>),
  /// The logger has something else to do in between.
  Poke,
  /// Screenshots are asked for, so many at once.
  Ask(u8),
  /// A screenshot comes, or two, one after the other.
  Arrive(bool),
  /// Other logs that are not screenshots.
  Other(u8),
  /// The logger is busy: so many are asked for, perhaps one comes, and this much time passes.
  Busy(u8, bool, u16),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  screens: (bool, u16),
  resource: (bool, u16),
  shots: bool,
  ops: Vec<Op>,
}
fn every() -> impl Strategy<Value = u16> + Clone {
  prop_oneof![1 => Just(0u16), 6 => 50u16 .. 1000, 6 => 1000u16 .. 10_000, 2 => Just(3000u16), 2 => Just(6000u16)]
}
fn case() -> impl Strategy<Value = Case> + Clone {
  let op = prop_oneof![
    8 => (0u32 .. 15_000).prop_map(Op::Pass),
    3 => prop_oneof![0u32 .. 15_000, 15_000u32 .. 200_000].prop_map(Op::Jump),
    3 => any::<bool>().prop_map(Op::Screens),
    2 => every().prop_map(Op::ScreensEvery),
    3 => any::<bool>().prop_map(Op::Resource),
    2 => every().prop_map(Op::ResourceEvery),
    3 => any::<bool>().prop_map(Op::Shots),
    2 => many(any::<bool>(), 1 .. 4).prop_map(Op::Events),
    4 => Just(Op::Poke),
    5 => (1u8 .. 4).prop_map(Op::Ask),
    4 => any::<bool>().prop_map(Op::Arrive),
    1 => any::<u8>().prop_map(Op::Other),
    3 => (0u8 .. 3, any::<bool>(), 0u16 .. 20_000).prop_map(|(n, a, t)| Op::Busy(n, a, t)),
  ];
  let on = || prop_oneof![3 => Just(true), 2 => Just(false)];
  ((on(), every()), (on(), every()), on(), many(op, 0 .. 40)).prop_map(|(screens, resource, shots, ops)| Case { screens, resource, shots, ops })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Done {
  Screen,
  Shot,
  Tick,
  Start,
  Stop,
}
#[derive(Clone, Default)]
struct App(Arc<Mutex<Vec<Done>>>);
impl bd_session_replay::Target for App {
  fn capture_screen(&self) {
    self.0.lock().push(Done::Screen);
  }
  fn capture_screenshot(&self) {
    self.0.lock().push(Done::Shot);
  }
}
impl bd_resource_utilization::Target for App {
  fn tick(&self) {
    self.0.lock().push(Done::Tick);
  }
}
impl bd_events::ListenerTarget for App {
  fn start(&self) {
    self.0.lock().push(Done::Start);
  }
  fn stop(&self) {
    self.0.lock().push(Done::Stop);
  }
}

/// Something done again and again.
#[derive(Debug)]
struct Clockwork {
  on: bool,
  every: u64,
  due: u64,
}
impl Clockwork {
  /// How often it is done now, and when it is done next.
  fn at(&mut self, now: u64) -> usize {
    let mut n = 0;
    while self.on && self.every > 0 && self.due <= now {
      n += 1;
      // When it is (noticeably) late, the next one is counted from now.
      self.due = if now - self.due > 5 { now } else { self.due } + self.every;
    }
    n
  }
}

struct Flags {
  loader: Arc<ConfigLoader>,
  values: BTreeMap<&'static str, Value>,
}
impl Flags {
  fn set(&mut self, name: &'static str, v: value::Type) {
    self.values.insert(name, Value { type_: Some(v), ..Default::default() });
    self.loader.update_snapshot(&RuntimeUpdate {
      version_nonce: "1".into(),
      runtime: Some(Runtime { values: self.values.iter().map(|(k, v)| ((*k).to_string(), v.clone())).collect(), ..Default::default() }).into(),
      ..Default::default()
    });
  }
  fn bool(&mut self, name: &'static str, v: bool) {
    self.set(name, value::Type::BoolValue(v));
  }
  fn ms(&mut self, name: &'static str, v: u16) {
    self.set(name, value::Type::UintValue(v.into()));
  }
}

enum Ask {
  Poke,
  Stop,
  Hold(tokio::sync::oneshot::Receiver<()>),
}

struct World {
  app: App,
  flags: Flags,
  to: mpsc::Sender<Ask>,
  handler: CaptureScreenshotHandler,
  interceptor: ScreenshotLogInterceptor,
  collector: Collector,
  began: Instant,
  screens: Clockwork,
  resource: Clockwork,
  shots: bool,
  ready: bool,
  running: bool,
  events: bool,
  /// What was counted, by type.
  counts: BTreeMap<&'static str, u64>,
  received: u64,
}
async fn settle() {
  for _ in 0 .. 30 {
    tokio::task::yield_now().await;
  }
}
impl World {
  fn now(&self) -> u64 {
    self.began.elapsed().as_millis() as u64
  }
  fn counted(&self, kind: &str) -> u64 {
    self.collector.scope("r").scope("screenshots").counter_with_labels("requests_total", [("type".to_string(), kind.to_string())].into()).get()
  }
  fn log(&self, t: LogType, m: LogMessage) {
    let mut fields = vec![];
    self.interceptor.process(1, t, &m, &mut fields);
    assert!(fields.is_empty(), "fields are added to a screenshot");
  }
  /// What was done, of which so often each is to be expected (and the listener as it may).
  fn check(&mut self, what: &Op, shot: usize, listener: Option<bool>, obs: &mut Obs) -> Res {
    let now = self.now();
    let done = std::mem::take(&mut *self.app.0.lock());
    let n = |d: Done| done.iter().filter(|x| **x == d).count();
    for (name, d, c) in [("screens", Done::Screen, &mut self.screens), ("resource", Done::Tick, &mut self.resource)] {
      let before = format!("{c:?}");
      let want = c.at(now);
      if c.every == 0 && c.on {
        // How often that is is nobody's concern, as long as it does no harm.
        obs.label("no time between");
        continue;
      }
      ensure!(n(d) == want, "{name} ({before}) at {now} after {what:?}: {} times, not {want}", n(d));
      obs.label_if(want > 0, name);
    }
    ensure!(n(Done::Shot) == shot, "{} screenshots were taken at {now} after {what:?}, not {shot}", n(Done::Shot));
    let calls: Vec<_> = done.iter().filter(|d| [Done::Start, Done::Stop].contains(d)).collect();
    match listener {
      None => ensure!(calls.is_empty(), "the listener was told {calls:?} at {now} after {what:?}"),
      Some(on) => {
        ensure!(calls.len() <= 1, "the listener was told {calls:?} at {now} after {what:?}");
        if let Some(c) = calls.first() {
          self.running = **c == Done::Start;
          obs.label("listener");
        }
        ensure!(self.running == on, "the listener was told {calls:?} at {now} after {what:?}, and is{} running", if self.running { "" } else { " not" });
      },
    }
    for kind in ["success", "channel_full", "disabled", "not_ready"] {
      ensure_eq!(self.counted(kind), self.counts.get(kind).copied().unwrap_or(0), "how often {kind} was counted after {what:?}");
    }
    ensure_eq!(self.collector.scope("r").scope("screenshots").counter("received_total").get(), self.received, "how many screenshots were received after {what:?}");
    Ok(())
  }
  /// The answer to what was asked for while nothing else happened.
  fn ask(&mut self, n: u8, may: Option<bool>) -> usize {
    for _ in 0 .. n {
      self.handler.capture_screenshot();
    }
    if n == 0 {
      return 0;
    }
    *self.counts.entry("channel_full").or_default() += u64::from(n) - 1;
    let took = may.unwrap_or(self.ready) && self.shots;
    let kind = if !self.shots {
      "disabled"
    } else if took {
      "success"
    } else {
      "not_ready"
    };
    *self.counts.entry(kind).or_default() += 1;
    if took {
      self.ready = false;
    }
    usize::from(took)
  }
  fn arrive(&mut self) {
    self.log(LogType::Replay, SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.to_string().into());
    self.received += 1;
  }

  async fn step(&mut self, op: &Op, obs: &mut Obs) -> Res {
    let (mut shot, mut listener) = (0, None);
    match op {
      Op::Pass(ms) => {
        let end = self.now() + u64::from(*ms);
        loop {
          let now = self.now();
          let wild = [&self.screens, &self.resource].iter().any(|c| c.on && c.every == 0);
          let next = [&self.screens, &self.resource].iter().filter(|c| c.on && c.every > 0).map(|c| c.due).min().unwrap_or(end);
          let to = if wild { end } else { next.clamp(now, end) };
          if to > now + 1 && !wild {
            // Not a moment before.
            tokio::time::advance(Duration::from_millis(to - now - 1)).await;
            settle().await;
            self.check(op, 0, None, obs)?;
          }
          tokio::time::advance(Duration::from_millis(to - self.now())).await;
          settle().await;
          self.check(op, 0, None, obs)?;
          if to == end {
            return Ok(());
          }
        }
      },
      Op::Jump(ms) => tokio::time::advance(Duration::from_millis((*ms).into())).await,
      Op::Screens(v) => {
        self.flags.bool("session_replay.screens.enabled", *v);
        self.screens.on = *v;
      },
      Op::Resource(v) => {
        self.flags.bool("resource_utilization.enabled", *v);
        self.resource.on = *v;
      },
      Op::ScreensEvery(v) => {
        self.flags.ms("session_replay.screens.interval_ms", *v);
        if u64::from(*v) != self.screens.every {
          self.screens = Clockwork { on: self.screens.on, every: (*v).into(), due: self.now() + u64::from(*v) };
        }
      },
      Op::ResourceEvery(v) => {
        self.flags.ms("resource_utilization.reporting_interval_ms", *v);
        if u64::from(*v) != self.resource.every {
          self.resource = Clockwork { on: self.resource.on, every: (*v).into(), due: self.now() + u64::from(*v) };
        }
      },
      Op::Shots(v) => {
        self.flags.bool("session_replay.screenshots.enabled", *v);
        self.shots = *v;
      },
      Op::Events(v) => {
        let before = self.events;
        for on in v {
          self.flags.bool("platform_events.enabled", *on);
          self.events = *on;
        }
        // When nothing changed, nothing is to be said.
        listener = v.iter().any(|on| *on != before).then_some(self.events);
      },
      Op::Poke => {
        let _ = self.to.send(Ask::Poke).await;
      },
      Op::Ask(n) => {
        if !self.ready {
          obs.label("asked too early");
        }
        shot = self.ask(*n, None);
        obs.label_if(shot > 0, "screenshot");
      },
      Op::Arrive(twice) => {
        self.arrive();
        if *twice {
          settle().await;
          self.arrive();
        }
        self.ready = true;
      },
      Op::Other(n) => {
        let text = SESSION_REPLAY_SCREENSHOT_LOG_MESSAGE.to_string();
        match n % 4 {
          0 => self.log(LogType::Normal, text.into()),
          1 => self.log(LogType::Replay, "Screen captured".to_string().into()),
          2 => self.log(LogType::Replay, LogMessage::Bytes(text.into_bytes())),
          _ => self.log(LogType::InternalSDK, text.into()),
        }
      },
      Op::Busy(n, arrives, ms) => {
        let (go, hold) = tokio::sync::oneshot::channel();
        let _ = self.to.send(Ask::Hold(hold)).await;
        settle().await;
        if *arrives {
          self.arrive();
        }
        // Whether what came is seen before what was asked for is not fixed.
        let was = self.ready;
        let success = self.counted("success");
        for _ in 0 .. *n {
          self.handler.capture_screenshot();
        }
        tokio::time::advance(Duration::from_millis((*ms).into())).await;
        settle().await;
        ensure!(self.app.0.lock().is_empty(), "something is done while the logger is busy");
        drop(go);
        settle().await;
        if *n > 0 {
          *self.counts.entry("channel_full").or_default() += u64::from(*n) - 1;
          let took = self.counted("success") > success;
          ensure!(!took || was || *arrives, "another screenshot is taken before the last one came");
          ensure!(!took || self.shots, "a screenshot is taken although none are to be taken");
          ensure!(took || !was || !self.shots, "no screenshot is taken although one was asked for, and nothing is in the way");
          let kind = if !self.shots {
            "disabled"
          } else if took {
            "success"
          } else {
            "not_ready"
          };
          *self.counts.entry(kind).or_default() += 1;
          shot = usize::from(took);
          // When it was taken first and what came was seen after that, the next one may be taken, too.
          self.ready = (!took && was) || *arrives;
          if took && *arrives && was {
            // Which it was shows when the next one is asked for.
            obs.label("which came first");
            self.check(op, shot, None, obs)?;
            let before = self.counted("success");
            self.handler.capture_screenshot();
            settle().await;
            let again = self.counted("success") > before;
            *self.counts.entry(if again { "success" } else { "not_ready" }).or_default() += 1;
            self.ready = false;
            return self.check(op, usize::from(again), None, obs);
          } else if took && *arrives {
            self.ready = false;
          }
        } else {
          self.ready = was || *arrives;
        }
      },
    }
    settle().await;
    self.check(op, shot, listener, obs)
  }
}

fn run_case(c: &Case, obs: &mut Obs) -> Res {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  let dir = tempfile::tempdir().unwrap();
  rt.block_on(async {
    let mut flags = Flags { loader: ConfigLoader::new(dir.path()), values: BTreeMap::new() };
    flags.bool("session_replay.screens.enabled", c.screens.0);
    flags.ms("session_replay.screens.interval_ms", c.screens.1);
    flags.bool("resource_utilization.enabled", c.resource.0);
    flags.ms("resource_utilization.reporting_interval_ms", c.resource.1);
    flags.bool("session_replay.screenshots.enabled", c.shots);
    let app = App::default();
    let collector = Collector::default();
    let (mut recorder, handler, interceptor) = Recorder::new(Box::new(app.clone()), &flags.loader, &collector.scope("r"));
    let mut resource = bd_resource_utilization::Reporter::new(Box::new(app.clone()), &flags.loader);
    let mut events = bd_events::Listener::new(Box::new(app.clone()), &flags.loader);
    let (to, mut asks) = mpsc::channel::<Ask>(1);
    let began = Instant::now();
    let run = tokio::spawn(async move {
      // As the logger does it: whatever else there is to do interrupts all of them.
      loop {
        tokio::select! {
          ask = asks.recv() => match ask {
            Some(Ask::Poke) => {},
            Some(Ask::Hold(until)) => { let _ = until.await; },
            Some(Ask::Stop) | None => break,
          },
          () = recorder.run() => return Err("the recorder ended"),
          () = resource.run() => return Err("the reporter ended"),
          () = events.run() => return Err("the listener ended"),
        }
      }
      // And they end when they are told to.
      let trigger = ComponentShutdownTrigger::default();
      let (a, b, c) = (trigger.make_shutdown(), trigger.make_shutdown(), trigger.make_shutdown());
      let all = async { tokio::join!(recorder.run_with_shutdown(a), resource.run_with_shutdown(b), events.run_with_shutdown(c)) };
      let stop = trigger.shutdown();
      if tokio::time::timeout(Duration::from_secs(3600), async { tokio::join!(all, stop) }).await.is_err() {
        return Err("they did not end when they were told to");
      }
      Ok(())
    });
    let mut w = World {
      app,
      flags,
      to,
      handler,
      interceptor,
      collector,
      began,
      screens: Clockwork { on: c.screens.0, every: c.screens.1.into(), due: 0 },
      resource: Clockwork { on: c.resource.0, every: c.resource.1.into(), due: 0 },
      shots: c.shots,
      ready: true,
      running: false,
      events: false,
      counts: BTreeMap::new(),
      received: 0,
    };
    settle().await;
    w.check(&Op::Poke, 0, None, obs)?;
    for op in &c.ops {
      w.step(op, obs).await?;
      if run.is_finished() {
        break;
      }
    }
    let _ = w.to.send(Ask::Stop).await;
    match run.await {
      Ok(Ok(())) => {},
      Ok(Err(e)) => return Err(Fail::new(e)),
      Err(e) => return Err(Fail::new(format!("{e}: {}", vcommon::last_panic().unwrap_or_default()))),
    }
    obs.nontrivial(w.counts.values().any(|v| *v > 0) && w.now() > 10_000);
    Ok(())
  })
}

pub fn c43(run: &mut Run) {
  run.run(part("ticks", 16_000, 200_000, "screenshots were asked for, and ten seconds passed").shards(8), case, run_case);
}
