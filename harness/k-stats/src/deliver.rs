//! C32: from recording a metric to its upload.
use crate::store::{same, value, Held, Key};
use async_trait::async_trait;
use bd_api::upload::UploadResponse;
use bd_api::DataUpload;
use bd_client_common::error::{Reporter, UnexpectedErrorHandler};
use bd_client_common::file::{read_compressed_protobuf, write_compressed_protobuf};
use bd_client_stats::file_manager::{FileManager, FileSystem, RealFileSystem};
use bd_client_stats::stats::{Flusher, Ticker};
use bd_client_stats::{DynamicStats, FlushTrigger, Stats};
use bd_client_stats_store::{make_sketch, Collector};
use bd_proto::protos::client::api::stats_upload_request::snapshot::{Occurred_at, Snapshot_type};
use bd_proto::protos::client::api::{RuntimeUpdate, StatsUploadRequest};
use bd_proto::protos::client::metric::metric::Data;
use bd_proto::protos::client::metric::FixedBucketHistogram;
use bd_proto::protos::client::runtime::{runtime::{value, Value as RtValue}, Runtime};
use bd_runtime::runtime::ConfigLoader;
use bd_shutdown::ComponentShutdownTrigger;
use bd_time::TimeProvider;
use parking_lot::Mutex;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Once};
use time::OffsetDateTime;
use tokio::sync::{mpsc, oneshot};
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

// ---------------------------------------------------------------------------------------------
// Surroundings

struct Quiet;
impl Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<Cow<'_, str>, Cow<'_, str>>) {}
}
pub fn quiet() {
  static ONCE: Once = Once::new();
  ONCE.call_once(|| UnexpectedErrorHandler::set_reporter(Arc::new(Quiet)));
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[serde(crate = "vcommon::serde")]
enum Fault {
  /// The operation fails without effect.
  Fail,
  /// Half of what is written arrives, and an error is returned.
  Torn,
  /// The process ends before, or just after, the operation.
  Stop,
  StopAfter,
}

#[derive(Default)]
struct DiskState {
  files: BTreeMap<PathBuf, Vec<u8>>,
  dirs: Vec<PathBuf>,
  /// operations to go until the fault
  plan: Option<(u8, Fault)>,
}
struct Disk {
  state: Mutex<DiskState>,
  real: Option<RealFileSystem>,
  busy: AtomicUsize,
}
struct Fs(Arc<Disk>);

impl Disk {
  /// Whether the operation takes place; None if it never returns.
  async fn fault(&self) -> Option<Fault> {
    tokio::task::yield_now().await;
    let f = {
      let mut s = self.state.lock();
      match &mut s.plan {
        Some((0, f)) => {
          let f = *f;
          s.plan = None;
          Some(f)
        },
        Some((n, _)) => {
          *n -= 1;
          None
        },
        None => None,
      }
    };
    if f == Some(Fault::Stop) {
      std::future::pending::<()>().await;
    }
    f
  }
  async fn end(f: Option<Fault>) -> anyhow::Result<()> {
    match f {
      None => Ok(()),
      Some(Fault::StopAfter) => std::future::pending().await,
      Some(_) => anyhow::bail!("no such luck"),
    }
  }
}
struct Busy<'a>(&'a AtomicUsize);
impl<'a> Busy<'a> {
  fn new(a: &'a AtomicUsize) -> Self {
    a.fetch_add(1, Ordering::SeqCst);
    Self(a)
  }
}
impl Drop for Busy<'_> {
  fn drop(&mut self) {
    self.0.fetch_sub(1, Ordering::SeqCst);
  }
}

#[async_trait]
impl FileSystem for Fs {
  async fn read_file(&self, path: &Path) -> anyhow::Result<Vec<u8>> {
    if let Some(r) = &self.0.real {
      let _b = Busy::new(&self.0.busy);
      return r.read_file(path).await;
    }
    let f = self.0.fault().await;
    let got = self.0.state.lock().files.get(path).cloned();
    Disk::end(f).await?;
    got.ok_or_else(|| anyhow::anyhow!("not found"))
  }
  async fn write_file(&self, path: &Path, data: &[u8]) -> anyhow::Result<()> {
    if let Some(r) = &self.0.real {
      let _b = Busy::new(&self.0.busy);
      return r.write_file(path, data).await;
    }
    let f = self.0.fault().await;
    if f != Some(Fault::Fail) {
      let mut s = self.0.state.lock();
      if !s.dirs.iter().any(|d| path.parent() == Some(d)) {
        anyhow::bail!("no directory");
      }
      let data = if f == Some(Fault::Torn) { &data[.. data.len() / 2] } else { data };
      s.files.insert(path.to_path_buf(), data.to_vec());
    }
    Disk::end(f).await
  }
  async fn delete_file(&self, path: &Path) -> anyhow::Result<()> {
    if let Some(r) = &self.0.real {
      let _b = Busy::new(&self.0.busy);
      return r.delete_file(path).await;
    }
    let f = self.0.fault().await;
    if f != Some(Fault::Fail) {
      self.0.state.lock().files.remove(path);
    }
    Disk::end(f).await
  }
  async fn remove_dir(&self, path: &Path) -> anyhow::Result<()> {
    if let Some(r) = &self.0.real {
      let _b = Busy::new(&self.0.busy);
      return r.remove_dir(path).await;
    }
    let f = self.0.fault().await;
    if f != Some(Fault::Fail) {
      let mut s = self.0.state.lock();
      s.files.retain(|p, _| !p.starts_with(path));
      s.dirs.retain(|d| d != path);
    }
    Disk::end(f).await
  }
  async fn create_dir(&self, path: &Path) -> anyhow::Result<()> {
    if let Some(r) = &self.0.real {
      let _b = Busy::new(&self.0.busy);
      return r.create_dir(path).await;
    }
    let f = self.0.fault().await;
    if f != Some(Fault::Fail) {
      let mut s = self.0.state.lock();
      if s.dirs.iter().any(|d| d == path) {
        anyhow::bail!("exists");
      }
      s.dirs.push(path.to_path_buf());
    }
    Disk::end(f).await
  }
}

struct Clock(AtomicI64);
impl Clock {
  fn at(ms: i64) -> OffsetDateTime {
    OffsetDateTime::from_unix_timestamp_nanos(i128::from(ms) * 1_000_000).unwrap()
  }
}
#[async_trait]
impl TimeProvider for Clock {
  fn now(&self) -> OffsetDateTime {
    Self::at(self.0.load(Ordering::SeqCst))
  }
  async fn sleep(&self, _: time::Duration) {}
}

struct Tick(mpsc::Receiver<()>);
#[async_trait]
impl Ticker for Tick {
  async fn tick(&mut self) {
    if self.0.recv().await.is_none() {
      std::future::pending::<()>().await;
    }
  }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug)]
#[serde(crate = "vcommon::serde")]
struct Config {
  files: u8,
  window_ms: u32,
  dynamic: u8,
}

fn update(c: Config) -> RuntimeUpdate {
  let v = |n: u32| RtValue { type_: Some(value::Type::UintValue(n)), ..Default::default() };
  RuntimeUpdate {
    version_nonce: "n".to_string(),
    runtime: protobuf::MessageField::some(Runtime {
      values: [
        ("stats.max_aggregated_files".to_string(), v(u32::from(c.files))),
        ("stats.max_aggregation_window_per_file_ms".to_string(), v(c.window_ms)),
        ("stats.max_dynamic_stats".to_string(), v(u32::from(c.dynamic))),
      ]
      .into(),
      ..Default::default()
    }),
    ..Default::default()
  }
}

struct Sys {
  loader: Arc<ConfigLoader>,
  stats: Arc<Stats>,
  dynamic: Arc<DynamicStats>,
  kept: bd_client_stats_store::Counter,
  flush: mpsc::Sender<()>,
  upload: mpsc::Sender<()>,
  trigger: FlushTrigger,
  data: mpsc::Receiver<DataUpload>,
  shutdown: ComponentShutdownTrigger,
  task: tokio::task::JoinHandle<()>,
  disk: Arc<Disk>,
}

impl Sys {
  fn new(dir: &Path, disk: &Arc<Disk>, clock: &Arc<Clock>, config: Config) -> Self {
    let loader = ConfigLoader::new(dir);
    loader.update_snapshot(&update(config));
    let collector = Collector::default();
    let scope = collector.scope("");
    let dynamic = Arc::new(DynamicStats::new(&scope, &loader));
    let stats = Stats::new(collector, dynamic.clone());
    let shutdown = ComponentShutdownTrigger::default();
    let (flush, flush_rx) = mpsc::channel(4);
    let (upload, upload_rx) = mpsc::channel(4);
    let (data_tx, data) = mpsc::channel(4);
    let (trigger, trigger_rx) = FlushTrigger::new();
    let files = Arc::new(FileManager::new(Box::new(Fs(disk.clone())), clock.clone(), &loader).unwrap());
    let time = stats.scope("stats").histogram("flush_time");
    let flusher = Flusher::new(stats.clone(), shutdown.make_shutdown(), Tick(flush_rx), trigger_rx, time, Tick(upload_rx), data_tx, files);
    let kept = stats.scope("s").counter("kept");
    let task = tokio::spawn(flusher.periodic_flush());
    Self { loader, stats, dynamic, kept, flush, upload, trigger, data, shutdown, task, disk: disk.clone() }
  }

  async fn settle(&self) -> Res {
    for _ in 0 .. 2_000_000 {
      for _ in 0 .. 60 {
        tokio::task::yield_now().await;
      }
      if self.disk.busy.load(Ordering::SeqCst) == 0 {
        ensure!(!self.task.is_finished(), "flushing and uploading of metrics ended for good");
        return Ok(());
      }
    }
    Err("writing did not end".into())
  }

  fn record(&self, name: u8, values: &[u16], hist: bool) {
    match name {
      // 0, 1: known in advance; 2: known and kept; from 3 on configured at run time
      0 | 1 => {
        let s = self.stats.scope("s");
        for v in values {
          if hist { s.histogram(["h0", "h1"][usize::from(name)]).observe(value(*v)) } else { s.counter(["c0", "c1"][usize::from(name)]).inc_by(u64::from(*v)) }
        }
      },
      2 => values.iter().for_each(|v| self.kept.inc_by(u64::from(*v))),
      n => {
        let (name, tags) = dynamic_key(n);
        for v in values {
          if hist {
            self.dynamic.record_dynamic_histogram(&name, tags.clone(), value(*v));
          } else {
            self.dynamic.record_dynamic_counter(&name, tags.clone(), u64::from(*v));
          }
        }
      },
    }
  }
}

fn dynamic_key(n: u8) -> Key {
  let tags: &[(&str, &str)] = match n % 3 {
    0 => &[],
    1 => &[("t", "a")],
    _ => &[("t", ""), ("u", "a")],
  };
  (format!("d{}", n / 3), tags.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())
}

// ---------------------------------------------------------------------------------------------
// Exact histories

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Op {
  Record(u8, Vec<u16>, bool),
  /// by the timer, or asked for
  Flush(bool),
  Upload,
  /// success, failure, no answer
  Answer(Option<bool>),
  Advance(i32),
  Config(Config),
  /// with an orderly shutdown or not
  Restart(bool),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  real: bool,
  config: Config,
  ops: Vec<Op>,
}

fn config() -> impl Strategy<Value = Config> {
  (prop_oneof![4 => 1u8 .. 5, 1 => Just(0u8), 2 => Just(10u8)], prop::sample::select(vec![0u32, 1, 1000, 1000, 1000, 300_000]), prop_oneof![2 => Just(100u8), 1 => 0u8 .. 6])
    .prop_map(|(files, window_ms, dynamic)| Config { files, window_ms, dynamic })
}

fn record() -> impl Strategy<Value = Op> {
  (0u8 .. 12, prop::collection::vec(1u16 .. 2000, 1 .. 8), any::<bool>()).prop_map(|(n, v, h)| Op::Record(n, v, h))
}

fn op() -> impl Strategy<Value = Op> {
  prop_oneof![
    6 => record(),
    6 => any::<bool>().prop_map(Op::Flush),
    4 => Just(Op::Upload),
    4 => prop_oneof![4 => Just(Some(true)), 1 => Just(Some(false)), 1 => Just(None)].prop_map(Op::Answer),
    4 => prop_oneof![prop::sample::select(vec![1i32, 500, 999, 1000, 1001, 2000, 300_000, -1500]), 0i32 .. 3000].prop_map(Op::Advance),
    1 => config().prop_map(Op::Config),
    2 => any::<bool>().prop_map(Op::Restart),
  ]
}

fn case() -> impl Strategy<Value = Case> {
  (prop::bool::weighted(0.1), config(), prop::collection::vec(op(), 1 .. 50)).prop_map(|(real, config, ops)| Case { real, config, ops })
}

type Batch = BTreeMap<Key, Held>;

struct File {
  uuid: Option<String>,
  start: i64,
  end: Option<i64>,
  held: Batch,
}

#[derive(Default)]
struct Model {
  fixed: Batch,
  dynamic: Batch,
  files: Vec<File>,
  /// whether the front file is under way, or one since dropped
  sent: Option<Option<String>>,
  flush_times: usize,
}

fn held(hist: bool, values: &[u16]) -> Held {
  if hist { Held::Values(values.iter().map(|v| value(*v)).collect()) } else { Held::Count(values.iter().map(|v| u64::from(*v)).sum()) }
}
fn nothing(h: &Held) -> bool {
  match h {
    Held::Count(n) => *n == 0,
    Held::Values(v) => v.is_empty(),
  }
}

const TIMES: &str = "stats:flush_time";

impl Model {
  fn record(&mut self, name: u8, values: &[u16], hist: bool, limit: usize, obs: &mut Obs) {
    let none = BTreeMap::new;
    let h = held(hist, values);
    match name {
      0 | 1 => {
        let key = (format!("s:{}{name}", if hist { "h" } else { "c" }), none());
        self.fixed.entry(key).or_insert_with(|| held(hist, &[])).add(&h);
      },
      2 => {
        self.fixed.entry(("s:kept".to_string(), none())).or_insert(Held::Count(0)).add(&held(false, values));
      },
      n => {
        let key = dynamic_key(n);
        if !self.dynamic.contains_key(&key) && self.dynamic.len() >= limit {
          obs.label("too many dynamic metrics");
          self.fixed.entry(("stats:dynamic_stats_overflow".to_string(), none())).or_insert(Held::Count(0)).add(&Held::Count(values.len() as u64));
          return;
        }
        if !self.dynamic.entry(key).or_insert_with(|| held(hist, &[])).add(&h) {
          obs.label("changed type");
        }
      },
    }
  }

  fn flush(&mut self, now: i64, c: Config, obs: &mut Obs) {
    let mut delta: Batch = std::mem::take(&mut self.fixed).into_iter().filter(|(_, h)| !nothing(h)).collect();
    if self.flush_times > 0 {
      delta.insert((TIMES.to_string(), BTreeMap::new()), Held::Values(vec![0.0; self.flush_times]));
    }
    // What nobody used since the last flush is forgotten.
    self.dynamic.retain(|_, h| !nothing(h));
    for (k, h) in &mut self.dynamic {
      delta.insert(k.clone(), h.clone());
      *h = if matches!(h, Held::Count(_)) { Held::Count(0) } else { Held::Values(vec![]) };
    }
    self.flush_times = 1;
    let merge = self.files.last().is_some_and(|f| f.end.is_none() && f.start + i64::from(c.window_ms) > now);
    if !merge {
      if let Some(f) = self.files.last_mut() {
        f.end = f.end.or(Some(now));
      }
      if !self.files.is_empty() && self.files.len() >= usize::from(c.files) {
        obs.label("oldest file dropped");
        self.files.remove(0);
      }
      self.files.push(File { uuid: None, start: now, end: None, held: Batch::new() });
    }
    let f = self.files.last_mut().unwrap();
    for (k, h) in delta {
      f.held.entry(k).and_modify(|e| { e.add(&h); }).or_insert(h);
    }
    if f.held.is_empty() {
      self.files.pop();
    }
  }
}

fn entries(r: &StatsUploadRequest) -> Result<BTreeMap<Key, Data>, Fail> {
  let mut out = BTreeMap::new();
  for s in &r.snapshot {
    if let Some(Snapshot_type::Metrics(m)) = &s.snapshot_type {
      for m in &m.metric {
        let key = (m.name.clone(), m.tags.clone().into_iter().collect());
        // A damaged file may hold such.
        let Some(data) = m.data.clone() else { continue };
        ensure!(out.insert(key, data).is_none(), "a metric is there twice in an upload");
      }
    }
  }
  Ok(out)
}

pub fn number(d: &Data) -> u64 {
  match d {
    Data::Counter(c) => c.value + u64::from(c.value_deprecated),
    Data::InlineHistogramValues(v) => v.values.len() as u64,
    Data::DdsketchHistogram(h) => {
      let mut s = make_sketch();
      let _ = s.decode_and_merge_with(&h.serialized);
      s.get_count() as u64
    },
    Data::FixedBucketHistogramDeprecated(_) => 0,
  }
}

fn wire(t: &protobuf::well_known_types::timestamp::Timestamp) -> i64 {
  t.seconds * 1000 + i64::from(t.nanos) / 1_000_000
}

fn runtime() -> Result<tokio::runtime::Runtime, Fail> {
  quiet();
  tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| Fail::new(e.to_string()))
}

fn play(c: &Case, obs: &mut Obs) -> Res {
  runtime()?.block_on(run(c, obs))
}

async fn run(c: &Case, obs: &mut Obs) -> Res {
  let dir = tempfile::tempdir().unwrap();
  let clock = Arc::new(Clock(AtomicI64::new(1_700_000_000_000)));
  let real = c.real.then(|| RealFileSystem::new(dir.path().to_path_buf()));
  let disk = Arc::new(Disk { state: Mutex::new(DiskState::default()), real, busy: AtomicUsize::new(0) });
  let mut config = c.config;
  let mut sys = Sys::new(dir.path(), &disk, &clock, config);
  let mut m = Model::default();
  let mut answer: Option<oneshot::Sender<UploadResponse>> = None;
  let mut uuid = String::new();
  let (mut delivered, mut restarts) = (0, 0);
  let mut seen: Vec<String> = vec![];
  sys.settle().await?;
  for op in &c.ops {
    let now = clock.0.load(Ordering::SeqCst);
    // Whether the front file is to be sent now.
    let mut send = false;
    match op {
      Op::Record(n, v, h) => {
        sys.record(*n, v, *h);
        for v in v {
          m.record(*n, &[*v], *h, usize::from(config.dynamic), obs);
        }
      },
      Op::Flush(timer) => {
        if *timer {
          sys.flush.send(()).await.unwrap();
        } else {
          let (tx, rx) = bd_completion::Sender::new();
          sys.trigger.flush(Some(tx)).await.map_err(|e| Fail::new(e.to_string()))?;
          let done = tokio::time::timeout(std::time::Duration::from_secs(20), rx.recv()).await;
          ensure!(matches!(done, Ok(Ok(()))), "a flush that was asked for was not answered");
          let files = disk.state.lock().files.clone();
          sys.settle().await?;
          ensure!(files == disk.state.lock().files, "a flush was answered before it was stored");
        }
        sys.settle().await?;
        m.flush(now, config, obs);
      },
      Op::Upload => {
        sys.upload.send(()).await.unwrap();
        send = m.sent.is_none();
      },
      Op::Answer(a) => {
        if let Some(tx) = answer.take() {
          match a {
            Some(success) => { let _ = tx.send(UploadResponse { success: *success, uuid: uuid.clone() }); },
            None => drop(tx),
          }
          let was = m.sent.take().unwrap();
          if *a == Some(true) {
            if m.files.first().is_some_and(|f| f.uuid.is_some() && f.uuid == was) {
              m.files.remove(0);
              delivered += 1;
            } else {
              obs.label("answer for a dropped file");
            }
            send = m.files.first().is_some_and(|f| f.start + i64::from(config.window_ms) <= now);
            obs.label_if(send, "old file sent at once");
          } else {
            obs.label("upload failed");
          }
        }
      },
      Op::Advance(ms) => {
        clock.0.fetch_add(i64::from(*ms), Ordering::SeqCst);
      },
      Op::Config(new) => {
        config = *new;
        sys.loader.update_snapshot(&update(config));
      },
      Op::Restart(orderly) => {
        restarts += 1;
        if *orderly {
          let Sys { shutdown, task, .. } = sys;
          let done = tokio::time::timeout(std::time::Duration::from_secs(20), async {
            shutdown.shutdown().await;
            task.await
          })
          .await;
          ensure!(matches!(done, Ok(Ok(()))), "shutdown is not heeded");
        } else {
          sys.task.abort();
          let _ = (&mut sys.task).await;
        }
        sys = Sys::new(dir.path(), &disk, &clock, config);
        m = Model { files: std::mem::take(&mut m.files), ..Model::default() };
        answer = None;
      },
    }
    sys.settle().await?;
    let got = sys.data.try_recv().ok();
    if send && !m.files.is_empty() {
      let f = &mut m.files[0];
      f.end = f.end.or(Some(now));
      let Some(DataUpload::StatsUploadRequest(got)) = got else { return Err("no upload where there is one due".into()) };
      match &f.uuid {
        Some(u) => {
          obs.label("sent again");
          ensure_eq!(got.uuid, *u, "id of a repeated upload");
        },
        None => {
          ensure!(!seen.contains(&got.uuid), "two uploads with one id");
          seen.push(got.uuid.clone());
          f.uuid = Some(got.uuid.clone());
        },
      }
      ensure_eq!(got.payload.upload_uuid, got.uuid, "id within the upload");
      ensure_eq!(got.payload.snapshot.len(), 1, "number of snapshots");
      match &got.payload.snapshot[0].occurred_at {
        Some(Occurred_at::Aggregated(a)) => {
          ensure_eq!(wire(&a.period_start), f.start, "start of the period");
          ensure_eq!(Some(wire(&a.period_end)), f.end, "end of the period");
        },
        o => return Err(format!("no period in an upload: {o:?}").into()),
      }
      let mut sent = entries(&got.payload)?;
      for (k, h) in &f.held {
        let d = sent.remove(k).ok_or_else(|| Fail::new(format!("{k:?} is missing in an upload")))?;
        match h {
          Held::Values(v) if k.0 == TIMES => ensure_eq!(number(&d), v.len() as u64, "number of flushes timed"),
          h => same(&d, h, &format!("{k:?}"))?,
        }
      }
      ensure!(sent.is_empty(), "an upload holds {sent:?}, which nobody recorded");
      m.sent = Some(f.uuid.clone());
      uuid = got.uuid.clone();
      answer = Some(got.response_tx);
    } else {
      ensure!(got.is_none(), "an upload where none is due: {got:?}");
    }
    ensure!(sys.data.try_recv().is_err(), "two uploads at once");
  }
  obs.label_if(c.real, "real files");
  obs.label_if(restarts > 0, "restarts");
  obs.nontrivial(delivered > 0 && c.ops.len() > 8);
  Ok(())
}

// ---------------------------------------------------------------------------------------------
// Faults

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum FOp {
  Do(Op),
  /// The n-th file operation from here goes wrong.
  Fault(u8, Fault),
  /// which file, how
  Damage(u8, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Faulty {
  config: Config,
  ops: Vec<FOp>,
}

fn faulty() -> impl Strategy<Value = Faulty> {
  let f = prop::sample::select(vec![Fault::Fail, Fault::Torn, Fault::Stop, Fault::StopAfter]);
  let fop = prop_oneof![
    8 => op().prop_map(FOp::Do),
    3 => (0u8 .. 5, f).prop_map(|(n, f)| FOp::Fault(n, f)),
    1 => (0u8 .. 4, 0u8 .. 8).prop_map(|(n, h)| FOp::Damage(n, h)),
  ];
  (config(), prop::collection::vec(fop, 1 .. 45)).prop_map(|(config, ops)| Faulty { config, ops })
}

fn damage(data: &mut Vec<u8>, how: u8) {
  let edit = |data: &mut Vec<u8>, f: &dyn Fn(&mut StatsUploadRequest)| {
    if let Ok(mut r) = read_compressed_protobuf::<StatsUploadRequest>(data) {
      f(&mut r);
      *data = write_compressed_protobuf(&r);
    }
  };
  let metrics = |f: &'static dyn Fn(&mut bd_proto::protos::client::metric::Metric)| {
    move |r: &mut StatsUploadRequest| {
      for s in &mut r.snapshot {
        if let Some(Snapshot_type::Metrics(m)) = &mut s.snapshot_type {
          m.metric.iter_mut().step_by(2).for_each(f);
        }
      }
    }
  };
  match how {
    0 => data.clear(),
    1 => data.truncate(data.len() / 2),
    2 => {
      let n = data.len() / 2;
      if let Some(b) = data.get_mut(n) {
        *b ^= 0x10;
      }
    },
    3 => *data = b"garbage".to_vec(),
    // What another version of this code may have written.
    4 => edit(data, &metrics(&|m| m.data = None)),
    5 => edit(data, &metrics(&|m| m.data = Some(Data::FixedBucketHistogramDeprecated(FixedBucketHistogram::default())))),
    6 => edit(data, &|r| r.snapshot.clear()),
    _ => edit(data, &|r| r.snapshot.iter_mut().for_each(|s| s.snapshot_type = None)),
  }
}

fn play_faulty(c: &Faulty, obs: &mut Obs) -> Res {
  runtime()?.block_on(run_faulty(c, obs))
}

async fn run_faulty(c: &Faulty, obs: &mut Obs) -> Res {
  let dir = tempfile::tempdir().unwrap();
  let clock = Arc::new(Clock(AtomicI64::new(1_700_000_000_000)));
  let disk = Arc::new(Disk { state: Mutex::new(DiskState::default()), real: None, busy: AtomicUsize::new(0) });
  let mut config = c.config;
  let mut sys = Sys::new(dir.path(), &disk, &clock, config);
  let mut recorded: BTreeMap<String, u64> = BTreeMap::new();
  let mut uploads: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
  let mut under_way: Option<(String, oneshot::Sender<UploadResponse>)> = None;
  let (mut faults, mut damages) = (0, 0);
  let name = |k: &Key| format!("{}{:?}", k.0, k.1);
  macro_rules! collect {
    () => {
      sys.settle().await?;
      while let Ok(DataUpload::StatsUploadRequest(t)) = sys.data.try_recv() {
        let to = uploads.entry(t.uuid.clone()).or_default();
        for (k, d) in entries(&t.payload)? {
          let n = to.entry(name(&k)).or_default();
          *n = number(&d).max(*n);
        }
        under_way = Some((t.uuid, t.response_tx));
      }
    };
  }
  for op in &c.ops {
    match op {
      FOp::Fault(n, f) => {
        faults += 1;
        disk.state.lock().plan = Some((*n, *f));
      },
      FOp::Damage(n, how) => {
        let mut s = disk.state.lock();
        let len = s.files.len();
        if len > 0 {
          damages += 1;
          let data = s.files.values_mut().nth(usize::from(*n) % len).unwrap();
          damage(data, *how);
        }
      },
      FOp::Do(op) => match op {
        Op::Record(n, v, h) => {
          sys.record(*n, v, *h);
          let key = match n {
            0 | 1 => format!("s:{}{n}{{}}", if *h { "h" } else { "c" }),
            2 => "s:kept{}".to_string(),
            n => name(&dynamic_key(*n)),
          };
          // Of a metric recorded as both types either may be kept.
          *recorded.entry(key).or_default() += v.iter().map(|v| u64::from(*v)).sum::<u64>();
        },
        Op::Flush(_) => { let _ = sys.flush.try_send(()); },
        Op::Upload => { let _ = sys.upload.try_send(()); },
        Op::Answer(a) => if let Some((uuid, tx)) = under_way.take() {
          if let Some(success) = a {
            let _ = tx.send(UploadResponse { success: *success, uuid });
          }
        },
        Op::Advance(ms) => { clock.0.fetch_add(i64::from(*ms), Ordering::SeqCst); },
        Op::Config(new) => {
          config = *new;
          sys.loader.update_snapshot(&update(config));
        },
        Op::Restart(_) => {
          sys.task.abort();
          let _ = (&mut sys.task).await;
          under_way = None;
          sys = Sys::new(dir.path(), &disk, &clock, config);
        },
      },
    }
    collect!();
  }
  // From here on nothing goes wrong any more.
  disk.state.lock().plan = None;
  if c.ops.iter().any(|o| matches!(o, FOp::Fault(_, Fault::Stop | Fault::StopAfter))) {
    sys.task.abort();
    let _ = (&mut sys.task).await;
    under_way = None;
    sys = Sys::new(dir.path(), &disk, &clock, config);
  }
  sys.loader.update_snapshot(&update(Config { files: 40, window_ms: 1000, dynamic: 100 }));
  sys.settle().await?;
  let marker = 12_345;
  for round in 0 .. 40 {
    if let Some((uuid, tx)) = under_way.take() {
      let _ = tx.send(UploadResponse { success: true, uuid });
    } else if round > 20 && round < 23 {
      if round == 21 {
        sys.stats.scope("s").counter("marker").inc_by(marker);
      }
      let _ = sys.flush.try_send(());
    } else {
      let _ = sys.upload.try_send(());
    }
    collect!();
  }
  ensure!(under_way.is_none(), "uploads never end");
  let mut total: BTreeMap<&String, u64> = BTreeMap::new();
  for u in uploads.values() {
    for (k, n) in u {
      *total.entry(k).or_default() += n;
    }
  }
  ensure_eq!(total.get(&"s:marker{}".to_string()).copied().unwrap_or(0), marker, "uploaded of what was recorded after all went well again");
  for (k, n) in total {
    if k.starts_with("s:marker") || k.starts_with("stats:") {
      continue;
    }
    let r = recorded.get(k).copied().unwrap_or(0);
    ensure!(n <= r, "{n} of {k} uploaded where {r} were recorded");
  }
  obs.label_if(damages > 0, "damaged files");
  obs.nontrivial(faults + damages > 0 && !uploads.is_empty());
  Ok(())
}

// ---------------------------------------------------------------------------------------------
// Threads

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Threads {
  writers: u8,
  rounds: u16,
  pause: u8,
}

fn play_threads(c: &Threads, obs: &mut Obs) -> Res {
  runtime()?.block_on(run_threads(c, obs))
}

async fn run_threads(c: &Threads, obs: &mut Obs) -> Res {
  let dir = tempfile::tempdir().unwrap();
  let clock = Arc::new(Clock(AtomicI64::new(1_700_000_000_000)));
  let disk = Arc::new(Disk { state: Mutex::new(DiskState::default()), real: None, busy: AtomicUsize::new(0) });
  let mut sys = Sys::new(dir.path(), &disk, &clock, Config { files: 200, window_ms: 1_000_000, dynamic: 100 });
  let writers: Vec<_> = (0 .. c.writers)
    .map(|_| {
      let (dynamic, stats, c) = (sys.dynamic.clone(), sys.stats.clone(), c.clone());
      std::thread::spawn(move || {
        let scope = stats.scope("s");
        for r in 0 .. c.rounds {
          dynamic.record_dynamic_counter("d", [("k".to_string(), (r % 2).to_string())].into(), 1);
          scope.counter("c").inc();
          scope.histogram("h").observe(1.0);
          for _ in 0 .. u32::from(c.pause) * 8 {
            std::hint::spin_loop();
          }
        }
      })
    })
    .collect();
  let mut flushes = 0;
  while !writers.iter().all(|w| w.is_finished()) {
    sys.flush.send(()).await.unwrap();
    flushes += 1;
    for _ in 0 .. 4 {
      tokio::task::yield_now().await;
    }
  }
  for w in writers {
    ensure!(w.join().is_ok(), "recording a metric panicked");
  }
  for _ in 0 .. 6 {
    sys.settle().await?;
  }
  sys.flush.send(()).await.unwrap();
  sys.settle().await?;
  sys.upload.send(()).await.unwrap();
  sys.settle().await?;
  let Ok(DataUpload::StatsUploadRequest(got)) = sys.data.try_recv() else { return Err("no upload".into()) };
  let all = entries(&got.payload)?;
  let want = u64::from(c.writers) * u64::from(c.rounds);
  let count = |n: &str| all.iter().filter(|(k, _)| k.0 == n).map(|(_, d)| number(d)).sum::<u64>();
  ensure_eq!(count("d"), want, "dynamic counters recorded by {} threads during {flushes} flushes", c.writers);
  ensure_eq!(count("s:c"), want, "counters recorded by {} threads during {flushes} flushes", c.writers);
  ensure_eq!(count("s:h"), want, "values observed by {} threads during {flushes} flushes", c.writers);
  obs.nontrivial(c.writers > 1 && flushes > 3);
  Ok(())
}

pub fn c32(run: &mut Run) {
  run.run(part("histories", 12_000, 600_000, "an upload was acknowledged in a history of more than eight steps").shards(8), case, play);
  run.run(part("faults", 12_000, 600_000, "something went wrong and something was uploaded").shards(8), faulty, play_faulty);
  run.run(
    part("threads", 250, 6_000, "several threads recorded during more than three flushes").shards(2).max_shrink(40),
    || (1u8 .. 5, 1u16 .. 4000, 0u8 .. 40).prop_map(|(writers, rounds, pause)| Threads { writers, rounds, pause }),
    play_threads,
  );
}
