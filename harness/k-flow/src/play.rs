//! C28, C29, C30: the engine against the reference.
use crate::model::{Emitted, Model};
use crate::spec::*;
use bd_api::upload::{IntentDecision, IntentResponse, Tracked, UploadResponse};
use bd_api::DataUpload;
use bd_client_stats::DynamicStats;
use bd_client_stats_store::{Collector, MetricData};
use bd_log_primitives::{FieldsRef, LogField, LogRef, LogType, StringOrBytes};
use bd_proto::protos::client::api::{LogUploadIntentRequest, RuntimeUpdate};
use bd_proto::protos::client::api::log_upload_intent_request::Intent_type;
use bd_proto::protos::client::metric::metric::Data as MetricProto;
use bd_proto::protos::client::runtime::{runtime::{value, Value as RtValue}, Runtime};
use bd_proto::protos::workflow::workflow::WorkflowsConfiguration as WorkflowsConfigurationProto;
use bd_runtime::runtime::ConfigLoader;
use bd_workflows::actions_flush_buffers::BuffersToFlush;
use bd_workflows::config::WorkflowsConfiguration;
use bd_workflows::engine::{WorkflowsEngine, WorkflowsEngineConfig};
use protobuf::MessageField;
use sha2::Digest;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vcommon::{ensure, ensure_eq, Fail, Obs};

fn other(e: impl std::fmt::Debug) -> Fail {
  Fail::new(format!("{e:?}"))
}

/// What the server gets to see about diagrams.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub enum Seen {
  Intent(String, String),
  Upload(String, String, Vec<String>),
}

pub struct Sys {
  dir: std::path::PathBuf,
  runtime: Arc<ConfigLoader>,
  collector: Collector,
  pub stats: Arc<DynamicStats>,
  pub engine: WorkflowsEngine,
  flush_rx: tokio::sync::mpsc::Receiver<BuffersToFlush>,
  data_rx: tokio::sync::mpsc::Receiver<DataUpload>,
  /// What is open.
  pub intents: Vec<Tracked<LogUploadIntentRequest, IntentResponse>>,
  pub flushes: Vec<BuffersToFlush>,
  pub sankeys: Vec<Seen>,
  answers: Vec<u8>,
  asked: BTreeMap<String, usize>,
}

/// What is answered: 0, 1 upload; 2 drop; 3 nothing; 4 upload, which gets no answer.
pub fn answer(answers: &[u8], id: &str, nth: usize) -> u8 {
  if answers.is_empty() {
    return 0;
  }
  let h: usize = id.bytes().map(usize::from).sum();
  answers[(h + nth) % answers.len()] % 6
}

fn limited(limit: u32) -> RuntimeUpdate {
  let value = RtValue { type_: Some(value::Type::UintValue(limit)), ..Default::default() };
  RuntimeUpdate {
    version_nonce: limit.to_string(),
    runtime: MessageField::some(Runtime {
      values: [
        ("workflows.traversals_global_count_limit".to_string(), value),
        ("workflows.persistence_write_interval_ms".to_string(), RtValue { type_: Some(value::Type::UintValue(1000)), ..Default::default() }),
      ]
      .into_iter()
      .collect(),
      ..Default::default()
    }),
    ..Default::default()
  }
}

impl Sys {
  pub fn new(dir: &std::path::Path, limit: u32, answers: &[u8]) -> Self {
    let runtime = ConfigLoader::new(&dir.join("rt"));
    runtime.update_snapshot(&limited(limit));
    let collector = Collector::default();
    let stats = Arc::new(DynamicStats::new(&collector.scope(""), &runtime));
    let (data_tx, data_rx) = tokio::sync::mpsc::channel(16);
    let (engine, flush_rx) = WorkflowsEngine::new(&collector.scope(""), dir, &runtime, data_tx, stats.clone());
    Self {
      dir: dir.into(),
      runtime,
      collector,
      stats,
      engine,
      flush_rx,
      data_rx,
      intents: vec![],
      flushes: vec![],
      sankeys: vec![],
      answers: answers.into(),
      asked: BTreeMap::new(),
    }
  }

  pub fn restart(&mut self, limit: u32) {
    self.runtime.update_snapshot(&limited(limit));
    let (data_tx, data_rx) = tokio::sync::mpsc::channel(16);
    let (engine, flush_rx) = WorkflowsEngine::new(&self.collector.scope(""), &self.dir, &self.runtime, data_tx, self.stats.clone());
    self.engine = engine;
    self.flush_rx = flush_rx;
    self.data_rx = data_rx;
    self.intents.clear();
    self.flushes.clear();
  }

  /// Until nothing happens by itself any more.
  pub async fn pump(&mut self) {
    let mut quiet = 0;
    while quiet < 2 {
      quiet += 1;
      tokio::select! {
        biased;
        () = self.engine.run() => {},
        () = async { for _ in 0 .. 6 { tokio::task::yield_now().await } } => {},
      }
      while let Ok(f) = self.flush_rx.try_recv() {
        self.flushes.push(f);
        quiet = 0;
      }
      while let Ok(d) = self.data_rx.try_recv() {
        quiet = 0;
        match d {
          DataUpload::LogsUploadIntentRequest(i) => self.intents.push(i),
          DataUpload::SankeyPathUploadIntentRequest(t) => {
            let id = t.payload.path_id.clone();
            let of = format!("{}{id}", t.payload.sankey_diagram_id);
            let n = self.asked.entry(of.clone()).or_default();
            let a = answer(&self.answers, &of, *n);
            *n += 1;
            self.sankeys.push(Seen::Intent(t.payload.sankey_diagram_id.clone(), id));
            let decision = match a {
              2 => IntentDecision::Drop,
              3 => continue,
              _ => IntentDecision::UploadImmediately,
            };
            let _ = t.response_tx.send(IntentResponse { uuid: t.uuid, decision });
          },
          DataUpload::SankeyPathUpload(t) => {
            let id = t.payload.path_id.clone();
            let of = format!("{}{id}", t.payload.id);
            let n = self.asked[&of] - 1;
            self.sankeys.push(Seen::Upload(
              t.payload.id.clone(),
              id.clone(),
              t.payload.nodes.iter().map(|n| n.extracted_value.clone()).collect(),
            ));
            let a = answer(&self.answers, &of, n);
            if a != 4 {
              let _ = t.response_tx.send(UploadResponse { success: a != 5, uuid: t.uuid });
            }
          },
          _ => unreachable!(),
        }
      }
    }
  }

  /// The number of active positions, as last observed, and nothing else.
  pub fn active(&self) -> Option<f64> {
    let mut last = None;
    self.collector.inner().retain(|id, m| {
      if let (MetricData::Histogram(_), Some(s)) = (m, m.snap()) {
        if id.name == "workflows:traversal_active_total" {
          if let MetricProto::InlineHistogramValues(v) = s.to_proto() {
            last = v.values.last().copied();
          }
        }
      }
      true
    });
    last
  }
}

pub fn config(case: &Case, which: &[usize], buffers: u8) -> WorkflowsEngineConfig {
  let set = |trigger| names(buffers, trigger).into_iter().map(Cow::Owned).collect::<BTreeSet<Cow<'static, str>>>();
  WorkflowsEngineConfig::new(
    WorkflowsConfiguration::new(&WorkflowsConfigurationProto {
      workflows: which.iter().map(|i| case.wfs[*i].proto(&case.flushes)).collect(),
      ..Default::default()
    }),
    set(true),
    set(false),
  )
}

/// Of several with an id the first.
pub fn distinct(case: &Case, which: &[usize]) -> Vec<usize> {
  let mut ids = BTreeSet::new();
  which.iter().map(|i| i % case.wfs.len()).filter(|i| ids.insert(case.wfs[*i].id)).collect()
}
/// Those that can be understood.
pub fn good(case: &Case, which: &[usize]) -> Vec<usize> {
  which.iter().copied().filter(|i| case.wfs[*i].good()).collect()
}

/// What one log brings about, owned.
pub struct Got {
  pub dest: BTreeSet<String>,
  pub flush_ids: BTreeSet<String>,
  pub flush_buffers: BTreeSet<String>,
  pub screenshot: bool,
}

pub fn feed(sys: &mut Sys, log: &LogSpec, now: i64) -> Got {
  let fields: Vec<LogField> = log
    .field
    .iter()
    .map(|f| LogField { key: "f".into(), value: StringOrBytes::String(text(*f).into()) })
    .collect();
  let none = vec![];
  // Half of them only for matching.
  let refs = if log.letter % 2 == 0 { FieldsRef::new(&fields, &none) } else { FieldsRef::new(&none, &fields) };
  let dest: BTreeSet<Cow<'_, str>> = names(log.dest, true).into_iter().chain(names(log.dest, false)).map(Cow::Owned).collect();
  let message = StringOrBytes::String(LETTERS[log.letter as usize % 4].to_string());
  let session = "s".repeat(1 + usize::from(log.session));
  let r = sys.engine.process_log(
    &LogRef {
      log_type: LogType(u32::from(log.letter % 3)),
      log_level: u32::from(log.letter % 5),
      message: &message,
      fields: &refs,
      session_id: &session,
      occurred_at: time::OffsetDateTime::UNIX_EPOCH + time::Duration::milliseconds(now),
    },
    &dest,
  );
  Got {
    dest: r.log_destination_buffer_ids.iter().map(ToString::to_string).collect(),
    flush_ids: r.triggered_flush_buffers_action_ids.iter().map(ToString::to_string).collect(),
    flush_buffers: r.triggered_flushes_buffer_ids.iter().map(ToString::to_string).collect(),
    screenshot: r.capture_screenshot,
  }
}

fn path_id(nodes: &[String]) -> String {
  let mut h = sha2::Sha256::new();
  for n in nodes {
    h.update(n.as_bytes());
  }
  format!("{:x}", h.finalize())
}

/// The sums expected of the metrics.
#[derive(Default)]
struct Sums {
  counters: BTreeMap<(String, BTreeMap<String, String>), u64>,
  histograms: BTreeMap<(String, BTreeMap<String, String>), Vec<f64>>,
  processed: BTreeMap<(u8, String), Vec<String>>,
  /// The same, the last seen at the end; only so many are known.
  order: Vec<(u8, String)>,
  full: bool,
  /// Paths that were taken for others.
  mistaken: Vec<(Vec<String>, Vec<String>)>,
  asked: BTreeMap<String, usize>,
}
fn labels(tags: &[Value], log: &LogSpec) -> BTreeMap<String, String> {
  tags.iter().enumerate().filter_map(|(i, t)| t.of(log).map(|v| (format!("k{i}"), v))).collect()
}
impl Sums {
  fn metric(&mut self, m: &Metric, log: &LogSpec) {
    let mut tags = labels(&m.tags, log);
    tags.insert("_id".into(), format!("m{}", m.id));
    let value = match m.fixed {
      Some(n) => f64::from(n),
      None => {
        let Some(Ok(v)) = Value::Field.of(log).map(|v| v.parse::<f64>()) else { return };
        v
      },
    };
    if m.counter {
      *self.counters.entry(("workflows_dyn:action".into(), tags)).or_default() += value as u64;
    } else {
      self.histograms.entry(("workflows_dyn:histogram".into(), tags)).or_default().push(value);
    }
  }

  fn sankey(&mut self, e: &Emitted, log: &LogSpec, answers: &[u8], events: &mut Vec<Seen>) {
    let id = path_id(&e.nodes);
    let mut tags = labels(&e.tags, log);
    tags.insert("_id".into(), format!("d{}", e.diagram));
    tags.insert("_path_id".into(), id.clone());
    *self.counters.entry(("workflows_dyn:action".into(), tags)).or_default() += 1;
    if let Some(other) = self.processed.get(&(e.diagram, id.clone())) {
      self.order.retain(|o| *o != (e.diagram, id.clone()));
      self.order.push((e.diagram, id));
      if *other != e.nodes {
        self.mistaken.push((other.clone(), e.nodes.clone()));
      }
      return;
    }
    let of = format!("d{}{id}", e.diagram);
    let n = self.asked.entry(of.clone()).or_default();
    let a = answer(answers, &of, *n);
    *n += 1;
    events.push(Seen::Intent(format!("d{}", e.diagram), id.clone()));
    if a != 2 && a != 3 {
      events.push(Seen::Upload(format!("d{}", e.diagram), id.clone(), e.nodes.clone()));
    }
    if a < 3 {
      self.processed.insert((e.diagram, id.clone()), e.nodes.clone());
      self.order.push((e.diagram, id));
      if self.order.len() > 100 {
        let old = self.order.remove(0);
        self.processed.remove(&old);
        self.full = true;
      }
    }
  }
}

pub fn play(case: &Case, obs: &mut Obs) -> Result<(), Fail> {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().map_err(other)?;
  rt.block_on(run(case, obs))
}

async fn run(case: &Case, obs: &mut Obs) -> Result<(), Fail> {
  let dir = tempfile::tempdir().map_err(other)?;
  let mut sys = Sys::new(dir.path(), case.limit, &case.sankey_answers);
  let mut limit = case.limit;
  let mut stored: Option<tokio::time::Instant> = None;
  let mut m = Model::new(case.limit, case.buffers);
  let mut sums = Sums::default();
  // The order in which the server sees those of one log is open.
  let all: Vec<usize> = distinct(case, &(0 .. case.wfs.len()).collect::<Vec<_>>());
  let mut which = all.clone();
  sys.engine.start(config(case, &which, m.buffers));
  m.restart(&good(case, &which));
  let mut now = 1_700_000_000_000i64;
  let mut last_ids: Vec<usize> = vec![];
  for (step, op) in case.ops.iter().enumerate() {
    let at = format!("step {step} {op:?}");
    match op {
      Op::Log(log) => {
        now += i64::from(log.ms);
        let got = feed(&mut sys, log, now);
        let want = m.log(case, log, now);
        ensure_eq!(got.flush_ids, want.flush_ids, "{at}: flush actions");
        ensure_eq!(got.flush_buffers, want.flush_buffers, "{at}: buffers to be flushed");
        ensure_eq!(got.screenshot, want.screenshot, "{at}: screenshot");
        ensure_eq!(got.dest, want.dest, "{at}: destinations");
        let active = sys.active();
        ensure_eq!(active, Some(f64::from(want.active)), "{at}: active traversals");
        ensure!(m.limit < want.active || f64::from(m.limit) >= active.unwrap(), "{at}: more than allowed");
        if want.sankeys.len() > 10 {
          // Some of so many at once may be left out, and only so many in all are remembered.
          break;
        }
        sys.pump().await;
        let mut events = vec![];
        for x in &want.metrics {
          sums.metric(x, log);
        }
        for e in &want.sankeys {
          sums.sankey(e, log, &case.sankey_answers, &mut events);
        }
        let mut seen = std::mem::take(&mut sys.sankeys);
        seen.sort();
        events.sort();
        ensure_eq!(seen, events, "{at}: diagrams");
        if let Some((a, b)) = sums.mistaken.first() {
          return Err(Fail::sig("path-id-of-joined-values", format!("{at}: the path {b:?} is taken for {a:?}, and is not uploaded")));
        }
        let mut counters = BTreeMap::new();
        let mut histograms = BTreeMap::new();
        sys.stats.collector_for_test().retain(|id, d| {
          match d {
            MetricData::Counter(c) => {
              counters.insert((id.name.clone(), id.labels.clone()), c.get());
            },
            MetricData::Histogram(_) => {
              if let MetricProto::InlineHistogramValues(v) = d.to_proto() {
                histograms.insert((id.name.clone(), id.labels.clone()), v.values);
              }
            },
          }
          true
        });
        ensure_eq!(counters, sums.counters, "{at}: counters");
        // Many values are only kept in outline.
        for (k, v) in &histograms {
          let w = sums.histograms.get(k).ok_or_else(|| Fail::new(format!("{at}: histogram {k:?}")))?;
          let sorted = |v: &[f64]| {
            let mut v = v.to_vec();
            v.sort_by(f64::total_cmp);
            v
          };
          ensure_eq!(sorted(v), sorted(w), "{at}: histogram {k:?}");
        }
        for (k, w) in &sums.histograms {
          ensure!(w.len() > 5 || histograms.contains_key(k), "{at}: no histogram {k:?}");
        }
      },
      Op::Update(to, buffers) => {
        if m.queue.len() > 5 {
          continue;
        }
        which = distinct(case, to);
        let buffers = if *buffers == 0 { m.buffers } else { *buffers };
        sys.engine.update(config(case, &which, buffers));
        m.update(case, &good(case, &which), buffers);
        sys.pump().await;
      },
      Op::Answer(a) => {
        sys.pump().await;
        m.pump();
        let Some(intent) = sys.intents.pop() else {
          ensure!(m.asking.is_none(), "{at}: nobody was asked about {:?}", m.asking);
          continue;
        };
        let Some(yes) = a else {
          // It is asked again.
          drop(intent);
          sys.pump().await;
          ensure_eq!(sys.intents.len(), 1, "{at}: questions after one was lost");
          continue;
        };
        let decision = if *yes { IntentDecision::UploadImmediately } else { IntentDecision::Drop };
        let _ = intent.response_tx.send(IntentResponse { uuid: intent.uuid, decision });
        let n = sys.flushes.len();
        sys.pump().await;
        let id = m.asking.as_ref().map(|p| p.id).unwrap_or_default();
        match m.answer(*yes) {
          Some(buffers) => {
            ensure_eq!(sys.flushes.len(), n + 1, "{at}: flushes");
            // Those that are gone meanwhile may be named.
            let got: BTreeSet<String> = sys.flushes[n].buffer_ids.iter().map(ToString::to_string).collect();
            let here: BTreeSet<String> = names(m.buffers, true).into_iter().collect();
            ensure!(got.is_subset(&buffers), "{at}: flushes {got:?} for {buffers:?}");
            ensure!(buffers.intersection(&here).all(|b| got.contains(b)), "{at}: flushes only {got:?} of {buffers:?}");
            last_ids.push(id);
          },
          None => ensure_eq!(sys.flushes.len(), n, "{at}: flushes"),
        }
      },
      Op::Flushed(k, ok) => {
        if sys.flushes.is_empty() {
          continue;
        }
        let k = k % sys.flushes.len();
        let f = sys.flushes.remove(k);
        let id = last_ids.remove(k);
        if *ok {
          let _ = f.response_tx.send(());
        } else {
          drop(f);
        }
        m.flushes.insert(id, true);
      },
      Op::Persist(later) => {
        let by = later.map_or(0, u64::from);
        tokio::time::advance(std::time::Duration::from_millis(by)).await;
        let now = tokio::time::Instant::now();
        sys.engine.maybe_persist(later.is_none()).await;
        // Not more than once in a second, unless it has to be.
        m.doubt = later.is_some() && stored.is_some_and(|t| now < t + std::time::Duration::from_secs(1));
        stored = Some(now);
        if !m.doubt {
          m.persist();
        }
      },
      Op::Limit(l) => limit = *l,
      Op::Restart(store) => {
        if m.stale {
          continue;
        }
        if *store || m.doubt {
          m.doubt = false;
          sys.engine.maybe_persist(true).await;
          m.persist();
        }
        // What is stored under an id must fit what is configured.
        let saved: BTreeMap<u8, usize> = m.saved_defs().into_iter().map(|d| (case.wfs[d].id, d)).collect();
        for d in &mut which {
          if let Some(s) = saved.get(&case.wfs[*d].id) {
            *d = *s;
          }
        }
        m.limit = limit;
        stored = None;
        sys.restart(limit);
        sys.engine.start(config(case, &which, m.buffers));
        m.restart(&good(case, &which));
        last_ids.clear();
        sums.processed.clear();
        sums.order.clear();
        sys.pump().await;
      },
    }
    m.pump();
    ensure_eq!(sys.intents.len(), usize::from(m.asking.is_some()), "{at}: questions to the server");
    if let (Some(i), Some(p)) = (sys.intents.first(), &m.asking) {
      let ids = match &i.payload.intent_type {
        Some(Intent_type::WorkflowActionUpload(w)) => w.workflow_action_ids.clone(),
        x => return Err(Fail::new(format!("{at}: asked about {x:?}"))),
      };
      ensure_eq!(ids, vec![format!("f{}", p.id)], "{at}: asked about");
      ensure!(p.from.contains(&i.payload.buffer_id), "{at}: asked about buffer {}", i.payload.buffer_id);
    }
  }
  let s = &m.seen;
  obs.label_if(s.forked, "forked");
  obs.label_if(s.completed, "completed");
  obs.label_if(s.stopped, "stopped");
  obs.label_if(s.reset, "reset");
  obs.label_if(s.limited, "too many traversals");
  obs.label_if(sums.full, "a path was forgotten");
  obs.label_if(s.rerouted, "rerouted");
  obs.label_if(s.stream_ended, "streaming ended");
  obs.label_if(s.resumed, "resumed");
  obs.label_if(!sums.histograms.is_empty(), "histogram");
  obs.label_if(!sums.asked.is_empty(), "diagram");
  obs.nontrivial(s.advanced > 2);
  Ok(())
}
