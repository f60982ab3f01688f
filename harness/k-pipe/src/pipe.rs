//! C44: the pipeline against a twin of the engine, the selector and the filters it puts together.
use crate::spec::*;
use bd_api::upload::{IntentDecision, IntentResponse, Tracked};
use bd_api::{DataUpload, TriggerUpload};
use bd_buffer::buffer::RingBufferProducer;
use bd_buffer::{AbslCode, BuffersWithAck};
use bd_client_stats::{DynamicStats, FlushTrigger};
use bd_client_stats_store::{Collector, Counter};
use bd_log_filter::FilterChain;
use bd_log_primitives::{FieldsRef, Log, LogField, LogRef, LogType};
use bd_matcher::buffer_selector::BufferSelector;
use bd_proto::protos::client::api::log_upload_intent_request::Intent_type;
use bd_proto::protos::client::api::{LogUploadIntentRequest, RuntimeUpdate};
use bd_proto::protos::client::runtime::runtime::{value, Value as RtValue};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use bd_workflows::actions_flush_buffers::BuffersToFlush;
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::{WorkflowsEngine, WorkflowsEngineConfig};
use open_logger::log_replay::{LogReplay, LoggerReplay};
use open_logger::logging_state::{BufferProducers, ConfigUpdate, InitializedLoggingContext, UninitializedLoggingContext};
use parking_lot::Mutex;
use protobuf::MessageField;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tokio::sync::{mpsc, oneshot};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

fn other(e: impl std::fmt::Debug) -> Fail {
  Fail::new(format!("{e:?}"))
}
const TYPES: [LogType; 7] =
  [LogType::Normal, LogType::Replay, LogType::Lifecycle, LogType::Resource, LogType::InternalSDK, LogType::View, LogType::Device];
/// How many flushes may wait for whoever uploads them.
const WAITING: usize = 2;

/// The buffers, as far as the pipeline sees them.
#[derive(Default)]
struct Room {
  writes: Vec<(String, Vec<u8>, bool)>,
  fails: BTreeMap<String, u8>,
}
struct Slot {
  id: String,
  room: Arc<Mutex<Room>>,
  at: Vec<u8>,
}
impl RingBufferProducer for Slot {
  fn reserve(&mut self, size: u32, _: bool) -> Result<&mut [u8], bd_buffer::Error> {
    if let Some(code) = self.room.lock().fails.get(&self.id) {
      let code = match code {
        0 => AbslCode::InvalidArgument,
        1 => AbslCode::ResourceExhausted,
        _ => AbslCode::FailedPrecondition,
      };
      return Err(bd_buffer::Error::AbslStatus(code, "no".to_string()));
    }
    self.at = vec![0; size as usize];
    Ok(&mut self.at)
  }
  fn commit(&mut self) -> Result<(), bd_buffer::Error> {
    self.room.lock().writes.push((self.id.clone(), std::mem::take(&mut self.at), true));
    Ok(())
  }
  fn write(&mut self, data: &[u8]) -> Result<(), bd_buffer::Error> {
    match self.reserve(data.len() as u32, true) {
      Ok(at) => at.copy_from_slice(data),
      Err(e) => {
        self.room.lock().writes.push((self.id.clone(), data.to_vec(), false));
        return Err(e);
      },
    }
    self.commit()
  }
}
struct App;
impl bd_session_replay::Target for App {
  fn capture_screen(&self) {}
  fn capture_screenshot(&self) {}
}

/// What is written.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Got {
  level: u32,
  ty: u32,
  message: String,
  fields: Vec<(String, String)>,
  session: String,
  time: i64,
  actions: BTreeSet<String>,
}
fn parse(bytes: &[u8]) -> Result<Got, Fail> {
  let log = bd_client_common::fb::root_as_log(bytes).map_err(other)?;
  ensure!(log.stream_ids().iter().flatten().next().is_none(), "streamed to {:?}", log.stream_ids());
  let text = |s: Option<&str>| s.unwrap_or("(none)").to_string();
  Ok(Got {
    level: log.log_level(),
    ty: log.log_type().0,
    message: text(log.message_as_string_data().map(|s| s.data())),
    fields: log.fields().iter().flatten().map(|f| (f.key().to_string(), text(f.value_as_string_data().map(|s| s.data())))).collect(),
    session: text(log.session_id()),
    time: log.timestamp().map_or(-1, |t| t.seconds() * 1_000_000_000 + i64::from(t.nanos())),
    actions: log.workflow_action_ids().iter().flatten().map(str::to_string).collect(),
  })
}

type Intent = Tracked<LogUploadIntentRequest, IntentResponse>;
fn asks(i: &Intent) -> BTreeSet<String> {
  match &i.payload.intent_type {
    Some(Intent_type::WorkflowActionUpload(w)) => w.workflow_action_ids.iter().cloned().collect(),
    None => BTreeSet::new(),
  }
}

/// What the real pipeline is made of, or what the twin has of it.
struct Base {
  dir: PathBuf,
  runtime: Arc<ConfigLoader>,
  collector: Collector,
  stats: Arc<DynamicStats>,
}
impl Base {
  fn new(dir: &Path, runtime: &Arc<ConfigLoader>) -> Result<Self, Fail> {
    std::fs::create_dir(dir).map_err(other)?;
    let collector = Collector::default();
    let stats = Arc::new(DynamicStats::new(&collector.scope("dynamic"), runtime));
    Ok(Self { dir: dir.into(), runtime: runtime.clone(), collector, stats })
  }
}

struct Real {
  base: Base,
  room: Arc<Mutex<Room>>,
  context: InitializedLoggingContext,
  data: mpsc::Receiver<DataUpload>,
  triggers: mpsc::Receiver<TriggerUpload>,
  flushes: mpsc::Receiver<BuffersWithAck>,
  stats: mpsc::Receiver<Option<bd_completion::Sender<()>>>,
  intents: VecDeque<Intent>,
  // Kept for the requests it holds.
  _recorder: bd_session_replay::Recorder,
}

fn update(base: &Base, room: &Arc<Mutex<Room>>, c: &Cfg) -> Result<ConfigUpdate, Fail> {
  let (manager, _) = bd_buffer::Manager::new(base.dir.join("none"), &base.collector.scope("none"), &base.runtime);
  let mut producers = BufferProducers::new(&manager).map_err(other)?;
  for (i, _) in &c.buffers {
    let id = buffer_id(*i);
    producers.buffers.insert(id.clone(), Box::new(Slot { id, room: room.clone(), at: vec![] }));
  }
  producers.continuous_buffer_ids = c.ids(true).map(Cow::Owned).collect();
  producers.trigger_buffer_ids = c.ids(false).map(Cow::Owned).collect();
  Ok(ConfigUpdate {
    buffer_producers: producers,
    buffer_selector: BufferSelector::new(&c.selector()).map_err(other)?,
    workflows_configuration: WorkflowsConfiguration::new(&c.flows()),
    tail_configs: open_logger::client_config::TailConfigurations::default(),
    filter_chain: FilterChain::new(c.filters()).0,
  })
}

async fn context(
  base: &Base,
  room: &Arc<Mutex<Room>>,
  c: &Cfg,
  stats: bool,
) -> Result<
  (
    InitializedLoggingContext,
    mpsc::Receiver<DataUpload>,
    mpsc::Receiver<TriggerUpload>,
    mpsc::Receiver<BuffersWithAck>,
    mpsc::Receiver<Option<bd_completion::Sender<()>>>,
    bd_session_replay::Recorder,
  ),
  Fail,
> {
  let (data_tx, data) = mpsc::channel(16);
  let (trigger_tx, triggers) = mpsc::channel(WAITING);
  let (flush_tx, flushes) = mpsc::channel(1);
  let (trigger, stats_rx) = FlushTrigger::new();
  let (recorder, screenshots, _) = bd_session_replay::Recorder::new(Box::new(App), &base.runtime, &base.collector.scope("shots"));
  let first = UninitializedLoggingContext::<Log>::new(
    &base.dir,
    &base.runtime,
    base.collector.scope(""),
    base.stats.clone(),
    trigger_tx,
    data_tx,
    flush_tx,
    stats.then_some(trigger),
    10,
    10_000,
  );
  let (context, _) = first.updated(update(base, room, c)?, screenshots).await;
  Ok((context, data, triggers, flushes, stats_rx, recorder))
}

impl Real {
  async fn new(base: Base, c: &Cfg, stats: bool) -> Result<Self, Fail> {
    let room = Arc::new(Mutex::new(Room::default()));
    let (context, data, triggers, flushes, stats, _recorder) = context(&base, &room, c, stats).await?;
    Ok(Self { base, room, context, data, triggers, flushes, stats, intents: VecDeque::new(), _recorder })
  }
  async fn restart(&mut self, c: &Cfg, stats: bool) -> Res {
    let (context, data, triggers, flushes, stats, recorder) = context(&self.base, &self.room, c, stats).await?;
    self.context = context;
    self.data = data;
    self.triggers = triggers;
    self.flushes = flushes;
    self.stats = stats;
    self._recorder = recorder;
    self.intents.clear();
    Ok(())
  }
}

struct Twin {
  base: Base,
  engine: Option<WorkflowsEngine>,
  selector: BufferSelector,
  filters: FilterChain,
  data: mpsc::Receiver<DataUpload>,
  data_tx: mpsc::Sender<DataUpload>,
  flush: Option<mpsc::Receiver<BuffersToFlush>>,
  intents: VecDeque<Intent>,
  waiting: VecDeque<BuffersToFlush>,
  lost: u64,
  shots: u64,
  shots_lost: u64,
}
fn engine(c: &Cfg) -> WorkflowsEngineConfig {
  WorkflowsEngineConfig::new(WorkflowsConfiguration::new(&c.flows()), c.ids(false).map(Cow::Owned).collect(), c.ids(true).map(Cow::Owned).collect())
}
impl Twin {
  fn new(base: Base, c: &Cfg, on: bool) -> Result<Self, Fail> {
    let (data_tx, data) = mpsc::channel(16);
    let mut twin = Self {
      base,
      engine: None,
      selector: BufferSelector::new(&c.selector()).map_err(other)?,
      filters: FilterChain::new(c.filters()).0,
      data,
      data_tx,
      flush: None,
      intents: VecDeque::new(),
      waiting: VecDeque::new(),
      lost: 0,
      shots: 0,
      shots_lost: 0,
    };
    if on {
      twin.start(c);
    }
    Ok(twin)
  }
  fn start(&mut self, c: &Cfg) {
    let b = &self.base;
    let (mut e, flush) = WorkflowsEngine::new(&b.collector.scope(""), &b.dir, &b.runtime, self.data_tx.clone(), b.stats.clone());
    e.start(engine(c));
    self.engine = Some(e);
    self.flush = Some(flush);
  }
  fn update(&mut self, c: &Cfg, on: bool) -> Res {
    self.selector = BufferSelector::new(&c.selector()).map_err(other)?;
    self.filters = FilterChain::new(c.filters()).0;
    match (on, &mut self.engine) {
      (false, _) => self.engine = None,
      (true, Some(e)) => e.update(engine(c)),
      (true, None) => self.start(c),
    }
    Ok(())
  }
  fn restart(&mut self, c: &Cfg, on: bool) -> Res {
    let (data_tx, data) = mpsc::channel(16);
    self.engine = None;
    self.flush = None;
    self.data = data;
    self.data_tx = data_tx;
    self.intents.clear();
    self.waiting.clear();
    self.shots = 0;
    self.update(c, on)
  }
  async fn run(&mut self) -> bool {
    if let Some(e) = &mut self.engine {
      tokio::select! {
        biased;
        () = e.run() => {},
        () = some_time() => {},
      }
    }
    let mut more = false;
    while let Some(f) = self.flush.as_mut().and_then(|f| f.try_recv().ok()) {
      more = true;
      if self.waiting.len() < WAITING {
        self.waiting.push_back(f);
      } else {
        self.lost += 1;
      }
    }
    while let Ok(d) = self.data.try_recv() {
      more = true;
      if let DataUpload::LogsUploadIntentRequest(i) = d {
        self.intents.push_back(i);
      }
    }
    more
  }
}
/// Until nothing goes on any more.
async fn some_time() {
  tokio::time::sleep(std::time::Duration::from_millis(1)).await;
}

fn flags(loader: &ConfigLoader, workflows: bool, filters: bool, nonce: usize) {
  let b = |v| RtValue { type_: Some(value::Type::BoolValue(v)), ..Default::default() };
  let n = |v| RtValue { type_: Some(value::Type::UintValue(v)), ..Default::default() };
  loader.update_snapshot(&RuntimeUpdate {
    version_nonce: nonce.to_string(),
    runtime: MessageField::some(Runtime {
      values: [
        ("workflows.enabled".to_string(), b(workflows)),
        ("filter_chain.enabled".to_string(), b(filters)),
        ("workflows.persistence_write_interval_ms".to_string(), n(1000)),
      ]
      .into_iter()
      .collect(),
      ..Default::default()
    }),
    ..Default::default()
  });
}

fn flushed(b: &BuffersWithAck) -> BTreeSet<String> {
  let text = format!("{b:?}");
  let list = text.split_once("buffers: [").and_then(|(_, r)| r.split_once(']')).map_or("", |(l, _)| l);
  list.split(',').map(|s| s.trim().trim_matches('"').to_string()).filter(|s| !s.is_empty()).collect()
}

struct World {
  real: Real,
  twin: Twin,
  acks: mpsc::Sender<BuffersWithAck>,
  c: Cfg,
  stats: bool,
  workflows: bool,
  filters: bool,
  time: i64,
}
impl World {
  async fn settle(&mut self) -> Res {
    let mut quiet = 0;
    for _ in 0 .. 100 {
      if quiet == 3 {
        break;
      }
      let mut more = tokio::select! {
        biased;
        () = self.real.context.processing_pipeline.run() => true,
        () = some_time() => false,
      };
      while let Ok(d) = self.real.data.try_recv() {
        more = true;
        if let DataUpload::LogsUploadIntentRequest(i) = d {
          self.real.intents.push_back(i);
        }
      }
      more |= self.twin.run().await;
      quiet = if more { 0 } else { quiet + 1 };
    }
    ensure_eq!(quiet, 3, "does not come to rest");
    let got: Vec<_> = self.real.intents.iter().map(asks).collect();
    let want: Vec<_> = self.twin.intents.iter().map(asks).collect();
    ensure_eq!(got, want, "questions to the server");
    ensure_eq!(self.real.triggers.len(), self.twin.waiting.len(), "flushes that were passed on");
    let lost = self.count("logger", "send_trigger_upload", "result", "failure_full");
    ensure_eq!(lost, self.twin.lost, "flushes nobody had room for");
    let shots = self.count("shots", "screenshots:requests_total", "type", "channel_full");
    ensure_eq!(shots, self.twin.shots_lost, "screenshots asked for while one was");
    Ok(())
  }
  fn count(&self, scope: &str, name: &str, label: &str, v: &str) -> u64 {
    let c: Counter = self.real.base.collector.scope(scope).counter_with_labels(name, [(label.to_string(), v.to_string())].into());
    c.get()
  }

  async fn configure(&mut self, c: &Cfg) -> Res {
    self.c = c.sane();
    let config = update(&self.real.base, &self.real.room, &self.c)?;
    self.real.context.update(config).await;
    let c = self.c.clone();
    self.twin.update(&c, self.workflows)
  }

  fn answer(&mut self, how: Option<bool>) -> bool {
    let (Some(a), Some(b)) = (self.real.intents.pop_front(), self.twin.intents.pop_front()) else {
      return false;
    };
    for i in [a, b] {
      let decision = match how {
        None => continue,
        Some(true) => IntentDecision::UploadImmediately,
        Some(false) => IntentDecision::Drop,
      };
      let _ = i.response_tx.send(IntentResponse { uuid: i.uuid, decision });
    }
    true
  }
  fn uploaded(&mut self, ok: bool) -> Res {
    let Some(b) = self.twin.waiting.pop_front() else {
      return Ok(());
    };
    let a = self.real.triggers.try_recv().map_err(|_| Fail::new("a flush was not passed on"))?;
    let got: BTreeSet<String> = a.buffer_ids.iter().cloned().collect();
    ensure_eq!(got.len(), a.buffer_ids.len(), "a buffer is named twice");
    ensure_eq!(got, b.buffer_ids.iter().map(ToString::to_string).collect::<BTreeSet<_>>(), "what is to be flushed");
    if ok {
      let _ = a.response_tx.send(());
      let _ = b.response_tx.send(());
    }
    Ok(())
  }

  async fn log(&mut self, l: &LogSpec, obs: &mut Obs) -> Res {
    self.time += 1;
    let at = time::OffsetDateTime::from_unix_timestamp_nanos(i128::from(self.time) * 1_000_000_007).unwrap();
    let field = |v: u8| vec![LogField { key: "f".into(), value: VALUES[usize::from(v) % 3].to_string().into() }];
    let log = || Log {
      log_level: u32::from(l.level),
      log_type: TYPES[usize::from(l.ty) % 7],
      message: MESSAGES[usize::from(l.message) % 4].into(),
      fields: l.field.map(field).unwrap_or_default(),
      matching_fields: l.matching.map(field).unwrap_or_default(),
      session_id: format!("s{}", l.session),
      occurred_at: at,
    };
    // What is to happen.
    let mut mine = log();
    if self.filters {
      self.twin.filters.process(&mut mine);
    }
    let fields = FieldsRef::new(&mine.fields, &mine.matching_fields);
    let seen = LogRef {
      log_type: mine.log_type,
      log_level: mine.log_level,
      message: &mine.message,
      fields: &fields,
      session_id: &mine.session_id,
      occurred_at: at,
    };
    let selected = self.twin.selector.buffers(mine.log_type, mine.log_level, &mine.message, &fields);
    let mut want = Got {
      level: mine.log_level,
      ty: mine.log_type.0,
      message: MESSAGES[usize::from(l.message) % 4].to_string(),
      fields: mine.fields.iter().map(|f| (f.key.to_string(), f.value.as_str().unwrap_or_default().to_string())).collect(),
      session: mine.session_id.clone(),
      time: at.unix_timestamp_nanos() as i64,
      actions: BTreeSet::new(),
    };
    let mut to: BTreeSet<String> = selected.iter().map(ToString::to_string).collect();
    let direct = to.clone();
    let mut flush = BTreeSet::new();
    if let Some(e) = &mut self.twin.engine {
      let r = e.process_log(&seen, &selected);
      to = r.log_destination_buffer_ids.iter().map(ToString::to_string).collect();
      want.actions = r.triggered_flush_buffers_action_ids.iter().map(ToString::to_string).collect();
      flush = r.triggered_flushes_buffer_ids.iter().map(ToString::to_string).collect();
      if r.capture_screenshot {
        self.twin.shots += 1;
        self.twin.shots_lost += u64::from(self.twin.shots > 1);
        obs.label("a screenshot was asked for");
      }
      e.maybe_persist(l.blocking.is_some()).await;
    }
    let uploaded = self.c.ids(true).any(|b| to.contains(&b)) || !to.is_disjoint(&flush);
    let synthetic = !want.actions.is_empty() && !flush.is_empty() && !uploaded;
    if to != direct {
      obs.label("went elsewhere");
      obs.nontrivial(true);
    }
    if synthetic {
      obs.label("a synthetic log");
    }

    // What happens.
    self.real.room.lock().writes.clear();
    let (tx, mut rx) = oneshot::channel();
    let mut asked = BTreeSet::new();
    let mut stats = false;
    {
      let pipeline = &mut self.real.context.processing_pipeline;
      let mut replay = LoggerReplay;
      let f = replay.replay_log(log(), l.blocking.is_some().then_some(tx), pipeline);
      tokio::pin!(f);
      let (mut acks, mut done): (VecDeque<BuffersWithAck>, VecDeque<Option<bd_completion::Sender<()>>>) = (VecDeque::new(), VecDeque::new());
      let mut turns = 0;
      loop {
        turns += 1;
        ensure!(turns < 20, "the log is never done with");
        let r = tokio::select! {
          biased;
          r = &mut f => Some(r),
          () = some_time() => None,
        };
        while let Ok(b) = self.real.flushes.try_recv() {
          let ids = flushed(&b);
          if ids.is_empty() {
            asked.extend((0 .. BUFFERS).map(buffer_id));
          }
          asked.extend(ids);
          acks.push_back(b);
        }
        while let Ok(s) = self.real.stats.try_recv() {
          stats = true;
          done.push_back(s);
        }
        if let Some(r) = r {
          ensure!(r.is_ok(), "the log failed: {r:?}");
          ensure!(acks.is_empty() && done.iter().all(Option::is_none), "done with before what was asked for was stored");
          break;
        }
        ensure!(l.blocking.is_some(), "a log nobody waits for waits");
        ensure_eq!(rx.try_recv().err(), Some(oneshot::error::TryRecvError::Empty), "the caller goes on while something is being stored");
        // One thing is stored at a time.
        if l.blocking == Some(true) && !done.is_empty() || acks.is_empty() {
          ensure!(!done.is_empty(), "waits for nothing");
          if let Some(s) = done.pop_front().flatten() {
            s.send(());
          }
        } else if let Some(b) = acks.pop_front() {
          self.acks.send(b).await.map_err(other)?;
        }
      }
    }
    // What there was.
    let mut written = BTreeSet::new();
    let mut extra = vec![];
    for (b, bytes, ok) in self.real.room.lock().writes.drain(..) {
      let got = parse(&bytes)?;
      if ok && to.contains(&b) && got == want && written.insert(b.clone()) {
        continue;
      }
      if !ok && to.contains(&b) && got == want {
        obs.label("a write failed");
        continue;
      }
      extra.push((b, got, ok));
    }
    let fails: BTreeSet<String> = self.real.room.lock().fails.keys().cloned().collect();
    let there: BTreeSet<String> = to.difference(&fails).cloned().collect();
    ensure_eq!(written, there, "where {want:?} was written");
    let mut must = written;
    if synthetic {
      let w = Got { level: 1, ty: LogType::InternalSDK.0, ..want.clone() };
      ensure_eq!(extra.len(), 1, "synthetic logs in {extra:?} for {want:?}");
      let (b, got, ok) = extra.pop().unwrap();
      ensure_eq!(got, w, "the synthetic log");
      ensure!(flush.contains(&b), "the synthetic log is in {b}, and {flush:?} are flushed");
      if ok {
        must.insert(b);
      }
    }
    ensure!(extra.is_empty(), "{want:?} to {to:?}: written besides: {extra:?}");
    if l.blocking.is_some() {
      ensure_eq!(rx.try_recv(), Ok(()), "whoever waits for the log");
      ensure!(must.is_subset(&asked), "the caller goes on, but of {must:?}, where the log is, only {asked:?} were stored");
      ensure!(stats || !self.stats, "the caller goes on before the metrics are stored");
      obs.label("waited for");
      if to != direct && !must.is_empty() {
        obs.label("waited for one that went elsewhere");
      }
    } else {
      ensure!(asked.is_empty() && !stats, "stored for a log nobody waits for");
    }
    Ok(())
  }
}

async fn all(case: &Case, dir: &Path, obs: &mut Obs) -> Res {
  let c = case.first.sane();
  let runtime = ConfigLoader::new(&dir.join("rt"));
  flags(&runtime, case.flags.0, case.flags.1, 0);
  let (manager, _) = bd_buffer::Manager::new(dir.join("acks"), &Collector::default().scope(""), &runtime);
  let (acks, acks_rx) = mpsc::channel(1);
  let acking = tokio::spawn(async move { manager.process_flushes(acks_rx).await });
  let real = Real::new(Base::new(&dir.join("real"), &runtime)?, &c, case.stats).await?;
  let twin = Twin::new(Base::new(&dir.join("twin"), &runtime)?, &c, case.flags.0)?;
  let mut w = World { real, twin, acks, c, stats: case.stats, workflows: case.flags.0, filters: case.flags.1, time: 1_700_000_000 };
  w.settle().await?;
  for (n, op) in case.ops.iter().enumerate() {
    let r = async {
      match op {
        Op::Log(l) => w.log(l, obs).await?,
        Op::Configure(c) => w.configure(c).await?,
        Op::Change(workflows, filters, c) => {
          flags(&runtime, *workflows, *filters, n + 1);
          w.workflows = *workflows;
          w.filters = *filters;
          w.configure(c).await?;
        },
        Op::Answer(how) => {
          w.answer(*how);
        },
        Op::Uploaded(ok) => w.uploaded(*ok)?,
        Op::Flags(workflows, filters) => {
          flags(&runtime, *workflows, *filters, n + 1);
          w.workflows = *workflows;
          w.filters = *filters;
          if !workflows {
            w.twin.engine = None;
          }
        },
        Op::Fails(b, how) => {
          let mut room = w.real.room.lock();
          if *how < 3 {
            room.fails.insert(buffer_id(*b), *how);
          } else {
            room.fails.remove(&buffer_id(*b));
          }
        },
        Op::Advance(ms) => tokio::time::advance(std::time::Duration::from_millis((*ms).into())).await,
        Op::Restart => {
          while w.answer(Some(false)) {
            w.settle().await?;
          }
          while !w.twin.waiting.is_empty() {
            w.uploaded(true)?;
            w.settle().await?;
          }
          let c = w.c.clone();
          w.real.restart(&c, w.stats).await?;
          w.twin.restart(&c, w.workflows)?;
        },
      }
      w.settle().await
    }
    .await;
    r.map_err(|e: Fail| Fail { msg: format!("step {n} {op:?}: {}", e.msg), ..e })?;
  }
  while !w.twin.waiting.is_empty() {
    w.uploaded(true)?;
  }
  acking.abort();
  Ok(())
}

fn play(case: &Case, obs: &mut Obs) -> Res {
  let dir = tempfile::tempdir().map_err(other)?;
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map_err(other)?;
  rt.block_on(all(case, dir.path(), obs))
}

pub fn c44(run: &mut Run) {
  run.run(part("pipeline", 30_000, 500_000, "a log went to other buffers than those selected").shards(8), || case(40), play);
}
