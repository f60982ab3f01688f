//! C38: from the buffers to the connection.
use bd_api::upload::UploadResponse;
use bd_api::{DataUpload, TriggerUpload};
use bd_buffer::{Buffer, Manager};
use bd_client_stats_store::Collector;
use bd_proto::protos::client::api::{LogUploadRequest, RuntimeUpdate};
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::config::v1::config::{buffer_config, BufferConfig, BufferConfigList};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use open_logger::consumer::BufferUploadManager;
use parking_lot::Mutex;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::Path;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::{mpsc, oneshot};
use tokio::time::Instant;
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Op {
  /// Where to, how many, how long, and whether they are old (or no logs at all).
  Write(u8, u8, u16, u8),
  /// To which of the uploads, and what.
  Answer(u8, u8),
  AnswerAll(u8),
  Advance(u32),
  Flag(u8, u32),
  Trigger(Vec<u8>),
  /// Which buffers there are, and whether logs are streamed.
  Configure(u8, bool),
  /// Properly shut down, or not.
  Restart(bool),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  flags: Vec<(u8, u32)>,
  buffers: u8,
  ops: Vec<Op>,
}
const FLAGS: [(&str, u32); 8] = [
  ("log_uploader.batch_size", 1000),
  ("log_uploader.batch_size_bytes", 1024 * 1024),
  ("log_uploader.batch_deadline_ms", 30_000),
  ("log_uploader.retry_count", 10),
  ("upload_ratelimit.bytes_count_per_period", 2 << 21),
  ("upload_ratelimit.period_ms", 60_000),
  ("log_uploader.initial_retry_backoff_ms", 30_000),
  ("log_uploader.max_retry_backoff_ms", 1_800_000),
];
const LOOKBACK: (&str, u32) = ("workflows.flush_buffer_lookback_ms", 3_600_000);
/// Two continuous ones, then two trigger buffers.
const CONTINUOUS: usize = 2;
const STREAM: usize = 4;

fn flag() -> impl Strategy<Value = (u8, u32)> + Clone {
  prop_oneof![
    3 => (0u8 .. 1, 1u32 .. 7),
    2 => (1u8 .. 2, prop_oneof![1u32 .. 400, 400u32 .. 3000]),
    2 => (2u8 .. 3, 1u32 .. 20_000),
    2 => (3u8 .. 4, 0u32 .. 4),
    2 => (4u8 .. 5, prop_oneof![1u32 .. 500, 500u32 .. 5000]),
    1 => (5u8 .. 6, 1u32 .. 100_000),
    1 => (6u8 .. 7, 100u32 .. 20_000),
    1 => (7u8 .. 8, 1000u32 .. 100_000),
    1 => (8u8 .. 9, 0u32 .. 2),
  ]
}
fn case() -> impl Strategy<Value = Case> {
  let ms = prop_oneof![3 => 1u32 .. 1000, 3 => 1000u32 .. 20_000, 2 => 20_000u32 .. 200_000];
  let op = prop_oneof![
    8 => (0u8 .. 5, 1u8 .. 5, prop_oneof![4 => 10u16 .. 60, 1 => 60u16 .. 400], 0u8 .. 4).prop_map(|(a, b, c, d)| Op::Write(a, b, c, d)),
    6 => (any::<u8>(), prop_oneof![3 => Just(0u8), 2 => 1u8 .. 3]).prop_map(|(a, b)| Op::Answer(a, b)),
    2 => prop_oneof![3 => Just(0u8), 2 => 1u8 .. 3].prop_map(Op::AnswerAll),
    5 => ms.prop_map(Op::Advance),
    2 => flag().prop_map(|(a, b)| Op::Flag(a, b)),
    3 => prop::collection::vec(prop_oneof![8 => 2u8 .. 4, 1 => 0u8 .. 6], 1 .. 4).prop_map(Op::Trigger),
    2 => (0u8 .. 16, prop::bool::weighted(0.4)).prop_map(|(a, b)| Op::Configure(a, b)),
    1 => any::<bool>().prop_map(Op::Restart),
  ];
  (prop::collection::vec(flag(), 0 .. 4), prop_oneof![2 => Just(31u8), 1 => 1u8 .. 32], prop::collection::vec(op, 1 .. 50))
    .prop_map(|(flags, buffers, ops)| Case { flags, buffers, ops })
}

#[derive(Clone, Debug, PartialEq)]
struct Entry {
  data: Vec<u8>,
  old: bool,
}
enum Step {
  /// Nothing under way.
  Idle,
  /// Waits for its turn.
  Want(Vec<Entry>),
  Flight { uuid: String, batch: Vec<Entry>, attempts: u32, interval: Option<f64>, tx: oneshot::Sender<UploadResponse> },
  Pause { uuid: String, batch: Vec<Entry>, attempts: u32, interval: f64, from: Instant, lo: f64, hi: f64 },
}
struct Task {
  kind: usize,
  queue: VecDeque<Entry>,
  batch: Vec<Entry>,
  deadline: Option<Instant>,
  step: Step,
  /// Trigger buffers: being uploaded.
  active: bool,
  /// And whether old logs are left out.
  lookback: bool,
}
impl Task {
  fn new(kind: usize, queue: VecDeque<Entry>) -> Self {
    Self { kind, queue, batch: vec![], deadline: None, step: Step::Idle, active: false, lookback: false }
  }
}
struct Limiter {
  rem: Option<u32>,
  until: Instant,
}
struct Request {
  buffers: BTreeSet<String>,
  rx: oneshot::Receiver<()>,
}
type Sent = Arc<Mutex<VecDeque<(Instant, LogUploadRequest, oneshot::Sender<UploadResponse>)>>>;

struct World {
  loader: Arc<ConfigLoader>,
  flags: BTreeMap<usize, u32>,
  collector: Collector,
  manager: Arc<Manager>,
  trigger_tx: mpsc::Sender<TriggerUpload>,
  shutdown: Option<ComponentShutdownTrigger>,
  run: tokio::task::JoinHandle<anyhow::Result<()>>,
  sent: Sent,
  rings: BTreeMap<usize, (String, Arc<Buffer>, bd_buffer::Producer)>,
  stream: Option<bd_buffer::Producer>,
  // The model.
  tasks: BTreeMap<String, Task>,
  limiter: Limiter,
  requests: Vec<Request>,
  counts: BTreeMap<(&'static str, String), u64>,
  seen: BTreeSet<String>,
  finished: usize,
  /// Those of removed buffers; their uploads are never answered.
  gone: Vec<(String, Task)>,
}

fn configs(ids: &BTreeMap<usize, String>) -> BufferConfigList {
  BufferConfigList {
    buffer_config: ids
      .iter()
      .map(|(i, id)| BufferConfig {
        id: id.clone(),
        name: id.clone(),
        type_: if *i < CONTINUOUS { buffer_config::Type::CONTINUOUS } else { buffer_config::Type::TRIGGER }.into(),
        ..Default::default()
      })
      .collect(),
    ..Default::default()
  }
}

fn other(e: impl std::fmt::Display) -> Fail {
  Fail::new(format!("unexpected error: {e}"))
}

impl World {
  async fn start(dir: &Path, flags: &BTreeMap<usize, u32>) -> Self {
    // Not on a whole millisecond: what is due is due after it.
    tokio::time::advance(Duration::from_micros(500)).await;
    let loader = ConfigLoader::new(&dir.join("rt"));
    let collector = Collector::default();
    let scope = collector.scope("");
    std::fs::create_dir_all(dir.join("buffers")).unwrap();
    let (data_tx, mut data_rx) = mpsc::channel(1);
    let (trigger_tx, trigger_rx) = mpsc::channel(1);
    let trigger = ComponentShutdownTrigger::default();
    let (manager, events) = Manager::new(dir.join("buffers"), &scope, &loader);
    set(&loader, flags);
    let uploads =
      BufferUploadManager::new(data_tx, &loader, trigger.make_shutdown(), events, trigger_rx, &scope, bd_internal_logging::NoopLogger::new()).unwrap();
    let run = tokio::spawn(uploads.run());
    let sent: Sent = Arc::default();
    let to = sent.clone();
    tokio::spawn(async move {
      while let Some(d) = data_rx.recv().await {
        if let DataUpload::LogsUploadRequest(t) = d {
          to.lock().push_back((Instant::now(), t.payload, t.response_tx));
        }
      }
    });
    let num = get(flags, 4);
    Self {
      loader,
      flags: flags.clone(),
      collector,
      manager,
      trigger_tx,
      shutdown: Some(trigger),
      run,
      sent,
      rings: BTreeMap::new(),
      stream: None,
      tasks: BTreeMap::new(),
      limiter: Limiter { rem: Some(num), until: Instant::now() },
      requests: vec![],
      counts: BTreeMap::new(),
      seen: BTreeSet::new(),
      finished: 0,
      gone: vec![],
    }
  }
  fn flag(&self, i: usize) -> u32 {
    get(&self.flags, i)
  }
  fn count(&mut self, name: &'static str, id: &str, by: u64) {
    *self.counts.entry((name, id.to_string())).or_default() += by;
  }

  async fn settle(&self) {
    for _ in 0 .. 200 {
      tokio::task::yield_now().await;
    }
  }

  fn limit(&self, batch: &[Entry]) -> bool {
    !batch.is_empty() && (batch.len() >= self.flag(0) as usize || batch.iter().map(|e| e.data.len()).sum::<usize>() >= self.flag(1) as usize)
  }

  /// What the tasks do without anybody's help.
  fn pump(&mut self) -> Res {
    let ids: Vec<String> = self.tasks.keys().cloned().collect();
    let now = Instant::now();
    for id in ids {
      let mut t = self.tasks.remove(&id).unwrap();
      if matches!(t.step, Step::Idle) {
        if t.kind < CONTINUOUS {
          if t.deadline.is_some_and(|d| d < now) || self.limit(&t.batch) {
            t.deadline = None;
            t.step = Step::Want(std::mem::take(&mut t.batch));
          }
          while matches!(t.step, Step::Idle) && !t.queue.is_empty() {
            t.batch.push(t.queue.pop_front().unwrap());
            if self.limit(&t.batch) {
              t.deadline = None;
              t.step = Step::Want(std::mem::take(&mut t.batch));
            } else if t.deadline.is_none() {
              t.deadline = Some(now + Duration::from_millis(self.flag(2).into()));
            }
          }
        } else if t.kind == STREAM {
          if let Some(e) = t.queue.pop_front() {
            t.step = Step::Want(vec![e]);
          }
        } else if t.active {
          while let Some(e) = t.queue.pop_front() {
            if e.old && t.lookback {
              self.count("old_logs_dropped", "", 1);
              continue;
            }
            t.batch.push(e);
            if self.limit(&t.batch) {
              break;
            }
          }
          if t.batch.is_empty() {
            t.active = false;
            for r in &mut self.requests {
              r.buffers.remove(&id);
            }
          } else {
            t.step = Step::Want(std::mem::take(&mut t.batch));
          }
        }
      }
      self.tasks.insert(id, t);
    }
    Ok(())
  }

  fn permit(&mut self, size: u32, at: Instant) -> bool {
    if self.limiter.until < at {
      self.limiter = Limiter { rem: Some(self.flag(4)), until: at + Duration::from_millis(self.flag(5).into()) };
    }
    match &mut self.limiter.rem {
      None => false,
      Some(r) => {
        if *r > size {
          *r -= size;
        } else {
          self.limiter.rem = None;
        }
        true
      },
    }
  }

  /// Everything that was sent by now must be due.
  fn absorb(&mut self) -> Res {
    loop {
      self.pump()?;
      let Some((at, r, tx)) = self.sent.lock().pop_front() else { break };
      let id = r.buffer_uuid.clone();
      if !self.tasks.contains_key(&id) {
        // It may still read on as it is being removed.
        let g = self.gone.iter_mut().find(|(g, t)| *g == id && (t.kind < CONTINUOUS || t.kind == STREAM));
        let Some((_, t)) = g else { return Err(Fail::new(format!("an upload from {id}, which there is not"))) };
        t.batch.extend(t.queue.drain(..));
        let n = r.logs.len();
        while t.batch.len() > n && !t.batch.iter().map(|e| &e.data).take(n).eq(r.logs.iter()) {
          t.batch.remove(0);
        }
        ensure!(t.batch.iter().map(|e| &e.data).take(n).eq(r.logs.iter()), "an upload from {id}, which is gone, holds other logs: {:?}", show(&r.logs));
        t.batch.drain(.. n);
        ensure!(self.permit(r.logs.iter().map(|l| l.len() as u32).sum(), at), "more is uploaded than the limit allows");
        self.count("uploader:log_upload_attempt", &id, 1);
        continue;
      }
      let mut t = self.tasks.remove(&id).unwrap();
      let matches = |b: &[Entry]| b.iter().map(|e| &e.data).eq(r.logs.iter());
      self.count("uploader:log_upload_attempt", &id, 1);
      t.step = match t.step {
        Step::Want(batch) => {
          ensure!(matches(&batch), "an upload from {id} holds {:?} instead of {:?}", show(&r.logs), batch.iter().map(|e| show(&[e.data.clone()])).collect::<String>());
          ensure!(self.permit(batch.iter().map(|e| e.data.len() as u32).sum(), at), "more is uploaded than the limit allows");
          ensure!(self.seen.insert(r.upload_uuid.clone()), "two uploads with the same identity");
          Step::Flight { uuid: r.upload_uuid, batch, attempts: 0, interval: None, tx }
        },
        Step::Pause { uuid, batch, attempts, interval, from, lo, hi } => {
          ensure!(matches(&batch) && r.upload_uuid == uuid, "an upload tried again is not the same");
          let after = (at - from).as_secs_f64() * 1000.0;
          ensure!((lo - 0.5 ..= hi + 0.5).contains(&after), "an upload is tried again after {after} ms instead of {lo} to {hi}");
          Step::Flight { uuid, batch, attempts, interval: Some(interval), tx }
        },
        Step::Idle => return Err(Fail::new(format!("an upload from {id}, where none is due: {:?}", show(&r.logs)))),
        Step::Flight { .. } => return Err(Fail::new(format!("a second upload from {id} while the first is under way"))),
      };
      self.tasks.insert(id, t);
    }
    Ok(())
  }

  /// And everything that was due must have been sent.
  fn verify(&mut self) -> Res {
    let now = Instant::now();
    for (id, t) in &self.tasks {
      match &t.step {
        Step::Want(b) => ensure!(
          self.limiter.rem.is_none() && self.limiter.until + Duration::from_millis(2) >= now,
          "{} logs from {id} are not uploaded, though they are due and within the limit",
          b.len()
        ),
        Step::Pause { from, hi, .. } => {
          let after = (now - *from).as_secs_f64() * 1000.0;
          ensure!(after <= *hi + 0.5, "an upload is not tried again after {after} ms");
        },
        _ => (),
      }
    }
    let mut i = 0;
    while i < self.requests.len() {
      let r = &mut self.requests[i];
      let done = r.rx.try_recv();
      let due = r.buffers.is_empty();
      ensure!(done.is_ok() == due, "the one who asked for buffers to be uploaded {} when {} were left", if done.is_ok() { "was told" } else { "was not told" }, r.buffers.len());
      if done.is_ok() || due {
        self.requests.remove(i);
        self.finished += 1;
      } else {
        i += 1;
      }
    }
    let mut left = self.counts.clone();
    let mut failed = None;
    self.collector.inner().retain(|id, m| {
      use bd_client_stats_store::MetricData;
      if let MetricData::Counter(c) = m {
        let name = &id.name;
        for known in ["uploader:log_upload_attempt", "uploader:log_upload_failure", "uploader:retry_limit_exceeded", "uploader:retry_limit_exceeded_dropped_logs", "old_logs_dropped"] {
          if name.as_str() == known {
            let label = id.labels.get("buffer_id").cloned().unwrap_or_default();
            let want = left.remove(&(known, label.clone())).unwrap_or(0);
            // An upload may also be dropped right before it is sent.
            let gone = known.ends_with("attempt") && self.gone.iter().any(|g| g.0 == label);
            if want != c.get() && !(gone && want < c.get()) {
              failed = Some(format!("{known} for {label:?} counts {} instead of {want}", c.get()));
            }
          }
        }
      }
      true
    });
    if let Some(f) = failed {
      return Err(Fail::new(f));
    }
    ensure!(left.values().all(|v| *v == 0), "not counted: {left:?}");
    Ok(())
  }

  async fn check(&mut self) -> Res {
    self.settle().await;
    // Reading goes through another thread.
    for _ in 0 .. 400 {
      self.absorb()?;
      if self.verify().is_ok() {
        break;
      }
      std::thread::sleep(Duration::from_millis(2));
      self.settle().await;
    }
    self.absorb()?;
    self.verify()?;
    ensure!(!self.run.is_finished(), "the uploading ended");
    Ok(())
  }

  fn answer(&mut self, id: &str, how: u8, obs: &mut Obs) {
    let Some(mut t) = self.tasks.remove(id) else { return };
    if !matches!(t.step, Step::Flight { .. }) {
      self.tasks.insert(id.to_string(), t);
      return;
    }
    if let Step::Flight { uuid, batch, attempts, interval, tx } = std::mem::replace(&mut t.step, Step::Idle) {
      match how {
        0 => drop(tx.send(UploadResponse { uuid: uuid.clone(), success: true })),
        1 => drop(tx.send(UploadResponse { uuid: uuid.clone(), success: false })),
        _ => drop(tx),
      }
      if how != 0 {
        self.count("uploader:log_upload_failure", id, 1);
        if attempts < self.flag(3) {
          obs.label("tried again");
          let cur = interval.unwrap_or(f64::from(self.flag(6)));
          let max = f64::from(self.flag(7));
          t.step = Step::Pause {
            uuid,
            batch,
            attempts: attempts + 1,
            interval: if cur >= max / 1.5 { max } else { cur * 1.5 },
            from: Instant::now(),
            lo: cur * 0.5 - 2.0,
            hi: cur * 1.5 + 3.0,
          };
        } else {
          obs.label("given up");
          self.count("uploader:retry_limit_exceeded", "", 1);
          self.count("uploader:retry_limit_exceeded_dropped_logs", "", batch.len() as u64);
          self.finished += 1;
        }
      } else {
        self.finished += 1;
      }
    }
    self.tasks.insert(id.to_string(), t);
  }
}
fn show(logs: &[Vec<u8>]) -> String {
  logs.iter().map(|l| format!("{}({}) ", String::from_utf8_lossy(&l[.. l.len().min(6)]), l.len())).collect()
}
fn get(flags: &BTreeMap<usize, u32>, i: usize) -> u32 {
  flags.get(&i).copied().unwrap_or_else(|| FLAGS.get(i).map_or(0, |f| f.1))
}
fn set(loader: &ConfigLoader, flags: &BTreeMap<usize, u32>) {
  let values = flags.iter().map(|(i, v)| {
    let (name, v) = if *i == 8 { (LOOKBACK.0, v * LOOKBACK.1) } else { (FLAGS[*i].0, *v) };
    (name.to_string(), Value { type_: Some(value::Type::UintValue(v)), ..Default::default() })
  });
  loader.update_snapshot(&RuntimeUpdate {
    version_nonce: "1".into(),
    runtime: Some(Runtime { values: values.collect(), ..Default::default() }).into(),
    ..Default::default()
  });
}

fn entry(n: usize, len: u16, kind: u8) -> Entry {
  let text = format!("{n:05}{}", "x".repeat(usize::from(len)));
  if kind == 0 {
    return Entry { data: text.into_bytes(), old: false };
  }
  let at = time::OffsetDateTime::now_utc() - time::Duration::hours(if kind == 1 { 3 } else { 0 });
  let mut data = vec![];
  bd_client_common::fb::make_log(
    &mut Default::default(),
    2,
    bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::LogType::Normal,
    &text.into(),
    &vec![],
    "s",
    at,
    std::iter::empty(),
    std::iter::empty(),
    |d| {
      data = d.to_vec();
      Ok(())
    },
  )
  .unwrap();
  Entry { data, old: kind == 1 }
}

fn play(c: &Case, obs: &mut Obs) -> Res {
  let dir = tempfile::tempdir().map_err(other)?;
  let mut ops = &c.ops[..];
  // What the files hold.
  let mut stored: BTreeMap<usize, (String, VecDeque<Entry>)> = BTreeMap::new();
  let mut flags: BTreeMap<usize, u32> = c.flags.iter().map(|(a, b)| (usize::from(*a), *b)).collect();
  let mut buffers = c.buffers;
  let (mut n, mut names, mut lives) = (0, 0, 0);
  let mut finished = 0;
  loop {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    lives += 1;
    let done = rt.block_on(life(dir.path(), &mut ops, &mut stored, &mut flags, &mut buffers, &mut n, &mut names, &mut finished, obs))?;
    drop(rt);
    if done {
      break;
    }
  }
  obs.label_if(lives > 1, "restarted");
  obs.nontrivial(finished > 1);
  Ok(())
}

#[allow(clippy::too_many_arguments)]
async fn life(
  dir: &Path,
  ops: &mut &[Op],
  stored: &mut BTreeMap<usize, (String, VecDeque<Entry>)>,
  flags: &mut BTreeMap<usize, u32>,
  buffers: &mut u8,
  n: &mut usize,
  names: &mut usize,
  finished: &mut usize,
  obs: &mut Obs,
) -> Result<bool, Fail> {
  let mut w = World::start(dir, flags).await;
  let first = Op::Configure(*buffers & 15, *buffers & 16 != 0);
  let mut done = true;
  let mut begun = false;
  loop {
    let op = if begun {
      let Some((o, rest)) = ops.split_first() else { break };
      *ops = rest;
      o
    } else {
      begun = true;
      &first
    };
    match op {
      Op::Write(to, count, len, kind) => {
        let to = usize::from(*to);
        for i in 0 .. *count {
          let e = entry(*n, *len, if i % 2 == 0 { *kind } else { 2 });
          *n += 1;
          if to == STREAM {
            if let Some(p) = &mut w.stream {
              p.write(&e.data).map_err(other)?;
              w.tasks.get_mut("streamed").unwrap().queue.push_back(e);
            }
            continue;
          }
          let Some((id, ring, p)) = w.rings.get_mut(&to) else { continue };
          let t = w.tasks.get_mut(id).unwrap();
          match p.write(&e.data) {
            Ok(()) => {
              ensure!(!t.active, "a log is taken by a buffer that is being uploaded as a whole");
              t.queue.push_back(e);
            },
            Err(e) => {
              ensure!(t.active, "a log is refused by {id}: {e}");
              obs.label("refused during an upload");
            },
          }
          ring.flush();
        }
      },
      Op::Answer(which, how) => {
        let ids: Vec<String> = w.tasks.iter().filter(|(_, t)| matches!(t.step, Step::Flight { .. })).map(|x| x.0.clone()).collect();
        if !ids.is_empty() {
          w.answer(&ids[usize::from(*which) % ids.len()], *how, obs);
        }
      },
      Op::AnswerAll(how) => {
        for id in w.tasks.keys().cloned().collect::<Vec<_>>() {
          w.answer(&id, *how, obs);
        }
      },
      Op::Advance(ms) => {
        let end = Instant::now() + Duration::from_millis((*ms).into());
        while Instant::now() < end {
          let now = Instant::now();
          let mut next = end;
          let mut at = |i: Instant| {
            if i > now {
              next = next.min(i);
            }
          };
          at(w.limiter.until + Duration::from_millis(1));
          for t in w.tasks.values() {
            if let Some(d) = t.deadline {
              at(d + Duration::from_millis(1));
            }
            if let Step::Pause { from, lo, hi, .. } = &t.step {
              at(*from + Duration::from_millis(lo.max(0.0) as u64));
              at(*from + Duration::from_millis(*hi as u64));
            }
          }
          tokio::time::advance(next - now).await;
          w.check().await?;
        }
      },
      Op::Flag(i, v) => {
        w.flags.insert((*i).into(), *v);
        flags.clone_from(&w.flags);
        set(&w.loader, &w.flags);
      },
      Op::Trigger(which) => {
        let ids: Vec<String> =
          which.iter().map(|i| w.rings.get(&usize::from(*i)).map_or_else(|| "nobody".to_string(), |r| r.0.clone())).collect();
        let (tx, rx) = oneshot::channel();
        let mut waits = BTreeSet::new();
        for id in &ids {
          if let Some(t) = w.tasks.get_mut(id).filter(|t| t.kind >= CONTINUOUS && t.kind != STREAM && !t.active) {
            t.active = true;
            t.lookback = get(flags, 8) == 1;
            waits.insert(id.clone());
          } else {
            obs.label("nothing to upload, or under way");
          }
        }
        w.requests.push(Request { buffers: waits, rx });
        w.trigger_tx.try_send(TriggerUpload::new(ids, tx)).map_err(|_| Fail::new("requests to upload are not taken"))?;
      },
      Op::Configure(set, streaming) => {
        *buffers = set | if *streaming { 16 } else { 0 };
        let mut ids = BTreeMap::new();
        for i in 0 .. 4usize {
          if set & (1 << i) != 0 {
            let id = match (w.rings.get(&i), stored.remove(&i)) {
              (Some(r), _) => r.0.clone(),
              (None, Some((id, queue))) => {
                w.tasks.insert(id.clone(), Task::new(i, queue));
                id
              },
              (None, None) => {
                *names += 1;
                let id = format!("{}{i}-{names}", if i < CONTINUOUS { "c" } else { "t" });
                w.tasks.insert(id.clone(), Task::new(i, VecDeque::new()));
                id
              },
            };
            ids.insert(i, id);
          }
        }
        let gone: Vec<usize> = w.rings.keys().filter(|i| !ids.contains_key(i)).copied().collect();
        for i in gone {
          let (id, ..) = w.rings.remove(&i).unwrap();
          let t = w.tasks.remove(&id).unwrap();
          obs.label_if(!matches!(t.step, Step::Idle), "removed while uploading");
          for r in &mut w.requests {
            r.buffers.remove(&id);
          }
          w.gone.push((id, t));
        }
        if !streaming {
          w.stream = None;
          let t = w.tasks.remove("streamed");
          w.gone.retain(|g| g.0 != "streamed");
          w.gone.extend(t.map(|t| ("streamed".to_string(), t)));
        }
        let m = w.manager.clone();
        let list = configs(&ids);
        let s = *streaming;
        let update = tokio::spawn(async move { m.update_from_config(&list, s).await.map(|_| ()) });
        for _ in 0 .. 40 {
          if update.is_finished() {
            break;
          }
          w.settle().await;
        }
        ensure!(update.is_finished(), "a configuration cannot be applied before the server has answered");
        update.await.map_err(other)?.map_err(other)?;
        let rings = w.manager.buffers();
        ensure_eq!(rings.keys().collect::<BTreeSet<_>>(), ids.values().collect::<BTreeSet<_>>(), "buffers");
        for (i, id) in ids {
          if !w.rings.contains_key(&i) {
            let ring = rings[&id].1.clone();
            let p = ring.new_thread_local_producer().map_err(other)?;
            w.rings.insert(i, (id, ring, p));
          }
        }
        if *streaming && w.stream.is_none() {
          w.stream = Some(w.manager.stream_buffer().unwrap().register_producer().map_err(other)?);
          w.tasks.insert("streamed".into(), Task::new(STREAM, VecDeque::new()));
        }
      },
      Op::Restart(proper) => {
        if *proper {
          let t = w.shutdown.take().unwrap();
          let out = tokio::time::timeout(Duration::from_secs(3600), t.shutdown()).await;
          ensure!(out.is_ok(), "shutdown is not heeded");
          w.settle().await;
          ensure!(w.run.is_finished(), "the uploading goes on after shutdown");
        }
        done = false;
      },
    }
    if !done {
      break;
    }
    w.check().await?;
  }
  *finished += w.finished;
  // What is there the next time.
  for (i, (id, ..)) in &w.rings {
    let mut t = w.tasks.remove(id).unwrap();
    let mut queue = t.queue;
    if *i < CONTINUOUS {
      let mut back = match t.step {
        Step::Idle => std::mem::take(&mut t.batch),
        Step::Want(b) | Step::Flight { batch: b, .. } | Step::Pause { batch: b, .. } => b,
      };
      back.extend(queue);
      queue = back.into();
    }
    stored.insert(*i, (id.clone(), queue));
  }
  Ok(done)
}

pub fn c38(run: &mut Run) {
  run.run(part("histories", 15_000, 300_000, "at least two uploads or requests to upload were finished").shards(8), case, play);
}
