//! C37: the connection to the server.
use crate::codec::quiet;
use async_trait::async_trait;
use bd_api::api::{Api, SimpleNetworkQualityProvider};
use bd_api::upload::{IntentDecision, IntentResponse, Tracked, UploadResponse};
use bd_api::{ConfigurationUpdate, DataUpload, PlatformNetworkManager, PlatformNetworkStream, StreamEvent, StreamEventSender, TriggerUpload};
use bd_client_stats_store::Collector;
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_metadata::{Metadata, Platform};
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::handshake_response::StreamSettings;
use bd_proto::protos::client::api::*;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::logging::payload::data::Data_type;
use bd_runtime::runtime::{ConfigLoader, RuntimeManager};
use bd_shutdown::ComponentShutdownTrigger;
use bd_time::{OffsetDateTimeExt, TimeProvider};
use parking_lot::Mutex;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;
use time::OffsetDateTime;
use tokio::sync::{mpsc, oneshot};
use tokio::time::Instant;
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Answer {
  /// to which of the open questions; 0 yes, 1 no, 2 says nothing
  Ack(u8, u8),
  Pong,
  Flush(u8),
  Config(u8, bool),
  /// which flags, to what
  Flags(Vec<(u8, u32)>, u8),
  Error,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Op {
  Submit(u8, u16),
  /// every how many milliseconds to ping; what else comes with it
  Handshake(Option<u32>, Vec<Answer>),
  Respond(Vec<Answer>),
  Close(u8),
  /// refused before the handshake: for good, or not
  Refuse(bool),
  Advance(u32),
  Shutdown,
  /// another key; the process was killed rather than shut down
  Restart(bool, bool),
  /// a restart so many milliseconds after the end of being switched off; another key
  Return(i16, bool),
  DamageKillFile(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  metadata: Vec<(String, String)>,
  pieces: u16,
  ops: Vec<Op>,
}

const FLAGS: [&str; 5] = [
  "api.initial_backoff_interval_ms",
  "api.max_backoff_interval_ms",
  "api.requests_compression_enabled",
  "client_kill.generic_kill_duration_ms",
  "client_kill.unauthenticated_kill_duration_ms",
];

fn case() -> impl Strategy<Value = Case> {
  let ms = prop_oneof![1 => Just(0u32), 3 => 1u32 .. 1000, 3 => 1000u32 .. 20_000, 2 => 20_000u32 .. 200_000, 1 => 200_000u32 .. 90_000_000];
  let flag = prop_oneof![
    3 => (0u8 .. 1, 100u32 .. 5000), 3 => (1u8 .. 2, 1000u32 .. 60_000), 3 => (2u8 .. 3, 0u32 .. 2), 1 => (3u8 .. 4, 1000u32 .. 100_000), 2 => (4u8 .. 5, 0u32 .. 100_000)
  ];
  let answer = prop_oneof![
    8 => (any::<u8>(), 0u8 .. 3).prop_map(|(a, b)| Answer::Ack(a, b)),
    3 => Just(Answer::Pong),
    1 => (0u8 .. 4).prop_map(Answer::Flush),
    2 => (0u8 .. 4, prop::bool::weighted(0.25)).prop_map(|(a, b)| Answer::Config(a, b)),
    2 => (prop::collection::vec(flag, 0 .. 3), 0u8 .. 4).prop_map(|(a, b)| Answer::Flags(a, b)),
    1 => Just(Answer::Error),
  ];
  let answers = prop::collection::vec(answer, 0 .. 4);
  let op = prop_oneof![
    7 => (0u8 .. 6, prop_oneof![3 => 0u16 .. 60, 1 => 60u16 .. 2000]).prop_map(|(a, b)| Op::Submit(a, b)),
    6 => (prop::option::of(prop_oneof![1 => Just(1u32), 6 => 500u32 .. 50_000]), answers.clone()).prop_map(|(a, b)| Op::Handshake(a, b)),
    6 => answers.prop_map(Op::Respond),
    4 => (0u8 .. 3).prop_map(Op::Close),
    2 => prop::bool::weighted(0.3).prop_map(Op::Refuse),
    7 => ms.prop_map(Op::Advance),
    1 => Just(Op::Shutdown),
    2 => (prop::bool::weighted(0.3), any::<bool>()).prop_map(|(a, b)| Op::Restart(a, b)),
    1 => any::<u8>().prop_map(Op::DamageKillFile),
    1 => (prop_oneof![1 => -2i16 .. 3, 3 => -1500i16 .. 1500], prop::bool::weighted(0.1)).prop_map(|(a, b)| Op::Return(a, b)),
  ];
  let metadata = prop::collection::vec((prop_oneof![1 => Just("app_id".to_string()), 2 => "[a-c_]{1,4}"], "[a-z]{0,3}"), 0 .. 3);
  (metadata, prop_oneof![2 => Just(60_000u16), 2 => 1u16 .. 30, 1 => 30u16 .. 300], prop::collection::vec(op, 1 .. 40)).prop_map(|(metadata, pieces, ops)| Case {
    metadata,
    pieces,
    ops,
  })
}

/// Flags that say for how long, a stream that ends, a refusal, and returns around its end.
fn refused() -> impl Strategy<Value = Case> {
  let long = || prop_oneof![1 => Just(0u32), 6 => 1u32 .. 5000, 3 => 1000u32 .. 100_000];
  let flags = (prop_oneof![1 => Just(0u32), 2 => long()], long()).prop_map(|(a, b)| Answer::Flags(vec![(3, a), (4, b)], 0));
  let back = || (prop_oneof![1 => -2i16 .. 3, 3 => -1500i16 .. 1500], prop::bool::weighted(0.2)).prop_map(|(a, b)| Op::Return(a, b));
  (case(), flags, 0u8 .. 3, prop::bool::weighted(0.9), back(), prop::collection::vec(back(), 0 .. 3)).prop_map(|(mut c, flags, how, good, first, more)| {
    let mut ops = vec![Op::Handshake(None, vec![flags]), Op::Close(how), Op::Advance(400_000), Op::Refuse(good), first];
    ops.extend(more);
    c.ops.truncate(12);
    ops.append(&mut c.ops);
    c.ops = ops;
    c
  })
}

// ---------------------------------------------------------------------------------------------
// Surroundings

struct Meta(HashMap<String, String>);
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    "1.2.3"
  }
  fn platform(&self) -> &Platform {
    &Platform::Ios
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    self.0.clone()
  }
}

struct Clock(Instant);
const BASE: i64 = 1_700_000_000_000;
impl Clock {
  fn ms(&self) -> i64 {
    BASE + (Instant::now() - self.0).as_millis() as i64
  }
}
#[async_trait]
impl TimeProvider for Clock {
  async fn sleep(&self, d: time::Duration) {
    tokio::time::sleep(d.unsigned_abs()).await;
  }
  fn now(&self) -> OffsetDateTime {
    OffsetDateTime::from_unix_timestamp_nanos(i128::from(self.ms()) * 1_000_000).unwrap()
  }
}

struct Line {
  at: Instant,
  headers: BTreeMap<String, String>,
  tx: StreamEventSender,
  sent: Vec<ApiRequest>,
  open: bool,
}
#[derive(Default)]
struct Net {
  lines: Vec<Line>,
  broken: Option<String>,
}
struct Manager(Arc<Mutex<Net>>);
struct Stream {
  net: Arc<Mutex<Net>>,
  line: usize,
  dec: Decoder<ApiRequest>,
}
#[async_trait]
impl PlatformNetworkManager<ConfigLoader> for Manager {
  async fn start_stream(&self, tx: StreamEventSender, _: &ConfigLoader, headers: &HashMap<&str, &str>) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    let headers: BTreeMap<String, String> = headers.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let able = headers.get("grpc-encoding").is_some_and(|v| v == "deflate");
    let mut net = self.0.lock();
    net.lines.push(Line { at: Instant::now(), headers, tx, sent: vec![], open: true });
    let line = net.lines.len() - 1;
    Ok(Box::new(Stream { net: self.0.clone(), line, dec: Decoder::new(able.then_some(Decompression::StatelessZlib), OptimizeFor::Cpu) }))
  }
}
#[async_trait]
impl PlatformNetworkStream for Stream {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    tokio::task::yield_now().await;
    let got = self.dec.decode_data(data);
    let mut net = self.net.lock();
    if !net.lines[self.line].open {
      net.broken = Some("data is sent on a stream that was closed".to_string());
    }
    match got {
      Ok(m) => net.lines[self.line].sent.extend(m),
      Err(e) => net.broken = Some(format!("what is sent cannot be read: {e}")),
    }
    Ok(())
  }
}

#[derive(Clone, Debug, PartialEq)]
enum Event {
  Loaded,
  Config(String),
  Complete,
}
struct Pipeline {
  version: String,
  events: Arc<Mutex<Vec<Event>>>,
}
#[async_trait]
impl ConfigurationUpdate for Pipeline {
  async fn try_apply_config(&mut self, r: &ApiResponse) -> Option<ApiRequest> {
    let Some(Response_type::ConfigurationUpdate(u)) = &r.response_type else { return None };
    let bad = u.version_nonce.starts_with("bad");
    self.events.lock().push(Event::Config(u.version_nonce.clone()));
    if !bad {
      self.version.clone_from(&u.version_nonce);
    }
    Some(config_ack(&self.version))
  }
  async fn try_load_persisted_config(&mut self) {
    self.events.lock().push(Event::Loaded);
  }
  fn partial_handshake(&self) -> HandshakeRequest {
    HandshakeRequest { configuration_version_nonce: self.version.clone(), ..Default::default() }
  }
  fn on_handshake_complete(&self) {
    self.events.lock().push(Event::Complete);
  }
}

/// One more, that only watches.
struct Last(Arc<Mutex<Vec<Event>>>);
#[async_trait]
impl ConfigurationUpdate for Last {
  async fn try_apply_config(&mut self, r: &ApiResponse) -> Option<ApiRequest> {
    let Some(Response_type::ConfigurationUpdate(u)) = &r.response_type else { return None };
    self.0.lock().push(Event::Config(u.version_nonce.clone()));
    None
  }
  async fn try_load_persisted_config(&mut self) {
    self.0.lock().push(Event::Loaded);
  }
  fn partial_handshake(&self) -> HandshakeRequest {
    HandshakeRequest::default()
  }
  fn on_handshake_complete(&self) {
    self.0.lock().push(Event::Complete);
  }
}

fn request(r: Request_type) -> ApiRequest {
  ApiRequest { request_type: Some(r), ..Default::default() }
}
fn config_ack(v: &str) -> ApiRequest {
  request(Request_type::ConfigurationUpdateAck(ConfigurationUpdateAck { last_applied_version_nonce: v.to_string(), ..Default::default() }))
}

enum Waiting {
  Upload(oneshot::Receiver<UploadResponse>),
  Intent(oneshot::Receiver<IntentResponse>),
}
struct Question {
  uuid: String,
  kind: u8,
  waiting: Waiting,
  /// on the current stream
  sent: bool,
}

struct Proc {
  task: tokio::task::JoinHandle<anyhow::Result<()>>,
  trigger: Option<ComponentShutdownTrigger>,
  data: mpsc::Sender<DataUpload>,
  flushes: mpsc::Receiver<TriggerUpload>,
  quality: Arc<SimpleNetworkQualityProvider>,
  events: Arc<Mutex<Vec<Event>>>,
  last: Arc<Mutex<Vec<Event>>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
  /// until when at the earliest and at the latest
  Backoff(Instant, f64, f64),
  Asking,
  Up,
  Killed,
  Over,
}

struct World {
  dir: PathBuf,
  net: Arc<Mutex<Net>>,
  clock: Arc<Clock>,
  key: &'static str,
  meta: HashMap<String, String>,
  p: Proc,
  // The model.
  state: State,
  lines: usize,
  flags: BTreeMap<usize, u32>,
  /// version of what is stored of the flags
  flags_version: Option<String>,
  config_version: String,
  /// key, time in ms; readable
  kill: Option<(&'static str, i64, bool)>,
  want: Vec<ApiRequest>,
  events: Vec<Event>,
  open: Vec<Question>,
  policy: (u32, u32),
  /// changed since the policy was made
  dirty: bool,
  interval: f64,
  ping: Option<u32>,
  ping_at: Option<Instant>,
  up_since: Instant,
  down_since: Option<Instant>,
  quality: NetworkQuality,
  reason: String,
  answered: usize,
}

fn flag(flags: &BTreeMap<usize, u32>, i: usize) -> u32 {
  flags.get(&i).copied().unwrap_or([500, 300_000, 1, 0, 86_400_000][i])
}

impl World {
  fn start(dir: &Path, net: &Arc<Mutex<Net>>, clock: &Arc<Clock>, key: &'static str, meta: &HashMap<String, String>) -> Proc {
    let loader = ConfigLoader::new(dir);
    let trigger = ComponentShutdownTrigger::default();
    let (data, data_rx) = mpsc::channel(100);
    let (flush_tx, flushes) = mpsc::channel(100);
    let quality = Arc::new(SimpleNetworkQualityProvider::default());
    let events: Arc<Mutex<Vec<Event>>> = Arc::default();
    let last: Arc<Mutex<Vec<Event>>> = Arc::default();
    let api = Api::new(
      dir.to_path_buf(),
      key.to_string(),
      Box::new(Manager(net.clone())),
      trigger.make_shutdown(),
      data_rx,
      flush_tx,
      Arc::new(Meta(meta.clone())),
      loader.clone(),
      if meta.len() % 2 == 0 {
        vec![Box::new(Pipeline { version: String::new(), events: events.clone() }), Box::new(RuntimeManager::new(loader)), Box::new(Last(last.clone()))]
      } else {
        vec![Box::new(Last(last.clone())), Box::new(RuntimeManager::new(loader)), Box::new(Pipeline { version: String::new(), events: events.clone() })]
      },
      clock.clone(),
      quality.clone(),
      bd_internal_logging::NoopLogger::new(),
      &Collector::default().scope("api"),
    )
    .unwrap();
    let task = tokio::spawn(api.start());
    Proc { task, trigger: Some(trigger), data, flushes, quality, events, last }
  }

  /// What the start of the process leads to.
  fn started(&mut self, obs: &mut Obs) {
    let now = self.clock.ms();
    self.events = vec![Event::Loaded];
    self.config_version.clear();
    self.open.clear();
    self.reason.clear();
    self.down_since = None;
    self.dirty = false;
    self.policy = (flag(&self.flags, 0), flag(&self.flags, 1));
    self.interval = f64::from(self.policy.0);
    match self.kill {
      Some((key, until, true)) => {
        if key == self.key && until > now {
          obs.label("still switched off");
          self.state = State::Killed;
          return;
        }
        obs.label("no longer switched off");
        self.kill = None;
      },
      _ if flag(&self.flags, 3) != 0 => {
        obs.label("switched off by a flag");
        self.kill = Some((self.key, now + i64::from(flag(&self.flags, 3)), true));
        self.state = State::Killed;
        return;
      },
      _ => (),
    }
    self.attempt();
  }

  /// A new stream is begun.
  fn attempt(&mut self) {
    let now = Instant::now();
    let since = *self.down_since.get_or_insert(now);
    self.quality = if since + Duration::from_secs(15) < now { NetworkQuality::Offline } else { NetworkQuality::Unknown };
    if self.dirty {
      self.policy = (flag(&self.flags, 0), flag(&self.flags, 1));
      self.interval = f64::from(self.policy.0);
      self.dirty = false;
    }
    self.lines += 1;
    self.state = State::Asking;
    self.ping = None;
    self.ping_at = None;
    let data = Meta(self.meta.clone())
      .collect()
      .into_iter()
      .map(|(k, v)| (k, bd_proto::protos::logging::payload::Data { data_type: Some(Data_type::StringData(v)), ..Default::default() }))
      .collect();
    self.want = vec![request(Request_type::Handshake(HandshakeRequest {
      static_device_metadata: data,
      configuration_version_nonce: self.config_version.clone(),
      runtime_version_nonce: self.flags_version.clone().unwrap_or_default(),
      previous_disconnect_reason: std::mem::take(&mut self.reason),
      ..Default::default()
    }))];
  }

  fn backoff(&mut self) {
    let cur = self.interval;
    self.state = State::Backoff(Instant::now(), cur * 0.5 - 2.0, cur * 1.5 + 3.0);
    self.interval = if cur >= f64::from(self.policy.1) / 1.5 { f64::from(self.policy.1) } else { cur * 1.5 };
  }

  /// The stream is gone, and what was asked on it with it.
  fn gone(&mut self, reason: &str) {
    self.reason = reason.to_string();
    self.net.lock().lines.last_mut().unwrap().open = false;
  }

  fn lost(&mut self) -> Res {
    for q in std::mem::take(&mut self.open) {
      if !q.sent {
        self.open.push(q);
        continue;
      }
      let got = match q.waiting {
        Waiting::Upload(mut r) => r.try_recv().err(),
        Waiting::Intent(mut r) => r.try_recv().err(),
      };
      ensure_eq!(got, Some(oneshot::error::TryRecvError::Closed), "what came of {} when its stream was gone", q.uuid);
    }
    Ok(())
  }

  async fn settle(&self) {
    for _ in 0 .. 8 {
      for _ in 0 .. 40 {
        tokio::task::yield_now().await;
      }
      // With one such thread this one comes after all file operations.
      let _ = tokio::task::spawn_blocking(|| ()).await;
    }
    for _ in 0 .. 40 {
      tokio::task::yield_now().await;
    }
  }

  async fn event(&self, e: StreamEvent) {
    let tx = self.net.lock().lines.last().unwrap().tx.clone();
    let _ = tokio::time::timeout(Duration::from_millis(100), tx.send(e)).await;
  }

  /// What an answer leads to, and its message.
  fn answer(&mut self, a: &Answer, late: &mut Vec<(Question, Option<bool>)>, flushes: &mut Vec<Vec<String>>, obs: &mut Obs) -> Option<ApiResponse> {
    let r = match a {
      Answer::Ack(which, how) => {
        let sent: Vec<usize> = (0 .. self.open.len()).filter(|i| self.open[*i].sent).collect();
        if sent.is_empty() {
          return None;
        }
        let q = self.open.remove(sent[usize::from(*which) % sent.len()]);
        let error = if *how == 1 { "no".to_string() } else { String::new() };
        let uuid = q.uuid.clone();
        let kind = q.kind;
        late.push((q, match (kind, how) {
          (0 | 3, 0) => Some(true),
          (0 | 3, _) => Some(false),
          (_, how) => Some(*how != 1),
        }));
        self.answered += 1;
        match kind {
          0 => Response_type::LogUploadIntent(LogUploadIntentResponse {
            intent_uuid: uuid,
            decision: match how {
              0 => Some(bd_api::api::LogsUploadDecision::UploadImmediately(Default::default())),
              1 => Some(bd_api::api::LogsUploadDecision::Drop(Default::default())),
              _ => None,
            },
            ..Default::default()
          }),
          1 => Response_type::LogUpload(LogUploadResponse { upload_uuid: uuid, error, ..Default::default() }),
          2 => Response_type::StatsUpload(StatsUploadResponse { upload_uuid: uuid, error, ..Default::default() }),
          3 => Response_type::SankeyIntentResponse(SankeyIntentResponse {
            intent_uuid: uuid,
            decision: match how {
              0 => Some(bd_api::api::SankeyPathUploadDecision::UploadImmediately(Default::default())),
              1 => Some(bd_api::api::SankeyPathUploadDecision::Drop(Default::default())),
              _ => None,
            },
            ..Default::default()
          }),
          4 => Response_type::SankeyDiagramUpload(SankeyPathUploadResponse { upload_uuid: uuid, error, ..Default::default() }),
          _ => Response_type::OpaqueUpload(OpaqueResponse { uuid, error: (*how == 1).then_some(error), ..Default::default() }),
        }
      },
      Answer::Pong => {
        self.ping_at = self.ping.map(|p| Instant::now() + Duration::from_millis(p.into()));
        Response_type::Pong(PongResponse::default())
      },
      Answer::Flush(n) => {
        let ids: Vec<String> = (0 .. *n).map(|i| format!("b{i}")).collect();
        flushes.push(ids.clone());
        Response_type::FlushBuffers(FlushBuffers { buffer_id_list: ids, ..Default::default() })
      },
      Answer::Config(n, bad) => {
        let version = format!("{}{n}", if *bad { "bad" } else { "c" });
        self.events.push(Event::Config(version.clone()));
        if !bad {
          self.config_version.clone_from(&version);
        }
        self.want.push(config_ack(&self.config_version));
        Response_type::ConfigurationUpdate(bd_proto::protos::client::api::ConfigurationUpdate { version_nonce: version, ..Default::default() })
      },
      Answer::Flags(v, n) => {
        let mut r = Runtime::default();
        let before = (flag(&self.flags, 0), flag(&self.flags, 1));
        self.flags.clear();
        for (i, v) in v {
          let mut x = Value::default();
          x.type_ = Some(if *i == 2 { value::Type::BoolValue(*v == 1) } else { value::Type::UintValue(*v) });
          r.values.insert(FLAGS[usize::from(*i)].to_string(), x);
          self.flags.insert((*i).into(), *v);
        }
        self.dirty |= before != (flag(&self.flags, 0), flag(&self.flags, 1));
        let version = format!("f{n}");
        self.flags_version = Some(version.clone());
        let ack = ConfigurationUpdateAck { last_applied_version_nonce: version.clone(), ..Default::default() };
        self.want.push(request(Request_type::RuntimeUpdateAck(ack)));
        Response_type::RuntimeUpdate(RuntimeUpdate { version_nonce: version, runtime: Some(r).into(), ..Default::default() })
      },
      Answer::Error => {
        obs.label("error from the server");
        Response_type::ErrorShutdown(ErrorShutdown { grpc_status: 14, grpc_message: "busy".to_string(), ..Default::default() })
      },
    };
    Some(ApiResponse { response_type: Some(r), ..Default::default() })
  }

  async fn respond(&mut self, enc: &mut Encoder<ApiResponse>, answers: &[Answer], pieces: u16, obs: &mut Obs) -> Res {
    let (mut late, mut flushes) = (vec![], vec![]);
    let mut bytes = vec![];
    for a in answers {
      if let Some(r) = self.answer(a, &mut late, &mut flushes, obs) {
        bytes.extend(enc.encode(&r));
      }
    }
    for piece in bytes.chunks(usize::from(pieces.max(1))) {
      self.event(StreamEvent::Data(piece.to_vec())).await;
      if bytes.len() > 3 * usize::from(pieces) {
        obs.label("in pieces");
      }
    }
    self.settle().await;
    for (q, want) in late {
      let (uuid, got) = match q.waiting {
        Waiting::Upload(mut r) => r.try_recv().map(|r| (r.uuid, r.success)),
        Waiting::Intent(mut r) => r.try_recv().map(|r| (r.uuid, matches!(r.decision, IntentDecision::UploadImmediately))),
      }
      .map_err(|_| Fail::new(format!("nothing came of the answer to {}", q.uuid)))?;
      ensure_eq!((uuid, Some(got)), (q.uuid, want), "answer of kind {}", q.kind);
    }
    for f in flushes {
      let got = self.p.flushes.try_recv().map_err(|_| Fail::new("a flush the server asked for is not passed on"))?;
      ensure_eq!(got.buffer_ids, f, "buffers to flush");
    }
    ensure!(self.p.flushes.try_recv().is_err(), "a flush nobody asked for");
    Ok(())
  }

  /// All that was handed over goes out.
  fn sent(&mut self, waiting: &mut Vec<ApiRequest>) {
    for q in &mut self.open {
      q.sent = true;
    }
    self.want.append(waiting);
  }

  fn check(&mut self) -> Res {
    let net = self.net.lock();
    if let Some(b) = &net.broken {
      return Err(Fail::new(b.clone()));
    }
    ensure_eq!(net.lines.len(), self.lines, "streams begun ({:?})", self.state);
    if self.state != State::Over {
      ensure!(!self.p.task.is_finished(), "the connection ended for good");
    }
    if matches!(self.state, State::Asking | State::Up) {
      let line = net.lines.last().unwrap();
      // A ping and an upload that are due together may go in either order.
      let ping = |r: &ApiRequest| matches!(r.request_type, Some(Request_type::Ping(_)));
      let (got, want): (Vec<_>, Vec<_>) = (line.sent.iter().filter(|r| !ping(r)).collect(), self.want.iter().filter(|r| !ping(r)).collect());
      ensure_eq!(line.sent.iter().filter(|r| ping(r)).count(), self.want.iter().filter(|r| ping(r)).count(), "pings");
      ensure!(
        got == want,
        "requests on a stream: {} instead of {}, first different {:?} instead of {:?}",
        got.len(),
        want.len(),
        got.iter().zip(&want).find(|(a, b)| a != b).map(|x| x.0).or(got.get(want.len())),
        got.iter().zip(&want).find(|(a, b)| a != b).map(|x| x.1).or(want.get(got.len()))
      );
      ensure_eq!(line.headers.get("x-bitdrift-api-key").map(String::as_str), Some(self.key), "key");
      let id = self.meta.get("app_id").cloned().unwrap_or_default();
      ensure_eq!(line.headers.get("x-bitdrift-app-id"), Some(&id), "app id");
      ensure_eq!(line.headers.get("content-type").map(String::as_str), Some("application/grpc"), "content type");
      ensure_eq!(line.headers.contains_key("grpc-accept-encoding"), line.headers.contains_key("grpc-encoding"), "compression headers");
      ensure_eq!(self.p.quality.get_network_quality(), self.quality, "network quality");
    }
    drop(net);
    ensure_eq!(self.p.events.lock().clone(), self.events, "what the configuration was told");
    ensure_eq!(self.p.last.lock().clone(), self.events, "what the last one was told");
    for q in &mut self.open {
      // What was asked on a stream that is gone may be given up before there is another.
      let gone = q.sent && self.state != State::Up;
      let pending = match &mut q.waiting {
        Waiting::Upload(r) => r.try_recv().is_err_and(|e| gone || e == oneshot::error::TryRecvError::Empty),
        Waiting::Intent(r) => r.try_recv().is_err_and(|e| gone || e == oneshot::error::TryRecvError::Empty),
      };
      ensure!(pending, "{} was answered by nobody", q.uuid);
    }
    Ok(())
  }

  /// A new stream, if one is due, and its headers by the flags there are then.
  fn observe(&mut self) -> Res {
    if let State::Backoff(since, lo, hi) = self.state {
      let n = self.net.lock().lines.len();
      let after = (Instant::now() - since).as_secs_f64() * 1000.0;
      if n > self.lines {
        let at = (self.net.lock().lines[self.lines].at - since).as_secs_f64() * 1000.0;
        ensure!(at >= lo, "a new stream after {at} ms, where at least {lo} were due");
        self.attempt();
        self.lost()?;
        let line = self.net.lock().lines[self.lines - 1].headers.contains_key("grpc-encoding");
        ensure_eq!(line, flag(&self.flags, 2) == 1, "compression of a stream");
      } else {
        ensure!(after <= hi, "no new stream after {after} ms, where one was due within {hi}");
      }
    }
    Ok(())
  }
}

fn play(c: &Case, obs: &mut Obs) -> Res {
  quiet();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).max_blocking_threads(1).build().unwrap();
  rt.block_on(history(c, obs))
}

async fn history(c: &Case, obs: &mut Obs) -> Res {
  let dir = tempfile::tempdir().map_err(|e| Fail::new(e.to_string()))?;
  let clock = Arc::new(Clock(Instant::now()));
  let net: Arc<Mutex<Net>> = Arc::default();
  let meta: HashMap<String, String> = c.metadata.iter().cloned().collect();
  let now = Instant::now();
  let mut w = World {
    p: World::start(dir.path(), &net, &clock, "key", &meta),
    dir: dir.path().to_path_buf(),
    net,
    clock,
    key: "key",
    meta,
    state: State::Over,
    lines: 0,
    flags: BTreeMap::new(),
    flags_version: None,
    config_version: String::new(),
    kill: None,
    want: vec![],
    events: vec![],
    open: vec![],
    policy: (500, 300_000),
    dirty: false,
    interval: 500.0,
    ping: None,
    ping_at: None,
    up_since: now,
    down_since: None,
    quality: NetworkQuality::Unknown,
    reason: String::new(),
    answered: 0,
  };
  let mut enc: Encoder<ApiResponse> = Encoder::new(None);
  let mut waiting: Vec<ApiRequest> = vec![];
  let (mut n, mut restarts) = (0, 0);
  w.started(obs);
  w.settle().await;
  w.check()?;
  for op in &c.ops {
    // Where there is no stream, one is waited for; an unanswered one is answered.
    let as_handshake;
    let op = match (op, w.state) {
      (Op::Respond(a), State::Asking | State::Backoff(..)) => {
        as_handshake = Op::Handshake(None, a.clone());
        &as_handshake
      },
      (Op::Return(after, other), _) => {
        let Some((_, until, _)) = w.kill.filter(|_| restarts < 4) else { continue };
        let by = (until + i64::from(*after) - w.clock.ms()).max(0);
        w.advance(Duration::from_millis(by as u64), false).await?;
        as_handshake = Op::Restart(*other, true);
        &as_handshake
      },
      (op, _) => op,
    };
    match op {
      Op::Submit(kind, size) => {
        if w.state == State::Over || waiting.len() > 90 {
          continue;
        }
        n += 1;
        let uuid = format!("u{n}");
        let text = "x".repeat((*size).into());
        macro_rules! tracked {
          ($kind:ident, $w:ident, $req:ident, $r:expr) => {{
            let r = $r;
            let (t, rx) = Tracked::new(uuid.clone(), r.clone());
            (DataUpload::$kind(t), Waiting::$w(rx), request(Request_type::$req(r)))
          }};
        }
        let (data, rx, mut req) = match kind {
          0 => tracked!(LogsUploadIntentRequest, Intent, LogUploadIntent, LogUploadIntentRequest { intent_uuid: uuid.clone(), buffer_id: text, ..Default::default() }),
          1 => tracked!(LogsUploadRequest, Upload, LogUpload, LogUploadRequest { upload_uuid: uuid.clone(), logs: vec![text.into_bytes()], ..Default::default() }),
          2 => tracked!(StatsUploadRequest, Upload, StatsUpload, StatsUploadRequest { upload_uuid: uuid.clone(), ..Default::default() }),
          3 => tracked!(SankeyPathUploadIntentRequest, Intent, SankeyIntent, SankeyIntentRequest { intent_uuid: uuid.clone(), path_id: text, ..Default::default() }),
          4 => tracked!(SankeyPathUpload, Upload, SankeyPathUpload, SankeyPathUploadRequest { upload_uuid: uuid.clone(), id: text, ..Default::default() }),
          _ => tracked!(OpaqueRequest, Upload, OpaqueUpload, OpaqueRequest { uuid: uuid.clone(), ..Default::default() }),
        };
        w.p.data.try_send(data).map_err(|_| Fail::new("no uploads are taken any more"))?;
        w.open.push(Question { uuid, kind: *kind, waiting: rx, sent: false });
        if w.state == State::Up {
          if let Some(Request_type::StatsUpload(s)) = &mut req.request_type {
            s.sent_at = w.clock.now().into_proto();
          }
          waiting.push(req);
          w.sent(&mut waiting);
        } else {
          waiting.push(req);
        }
        w.settle().await;
      },
      Op::Handshake(ping, answers) => {
        if matches!(w.state, State::Backoff(..)) {
          w.advance(Duration::from_secs(3600), true).await?;
        }
        if w.state != State::Asking {
          continue;
        }
        enc = Encoder::new(w.net.lock().lines.last().unwrap().headers.contains_key("grpc-encoding").then_some(Compression::StatelessZlib { level: 5 }));
        let mut h = HandshakeResponse::default();
        if let Some(p) = ping {
          let d = protobuf::well_known_types::duration::Duration { seconds: i64::from(*p / 1000), nanos: (*p % 1000) as i32 * 1_000_000, ..Default::default() };
          h.stream_settings = Some(StreamSettings { ping_interval: Some(d).into(), ..Default::default() }).into();
        }
        w.ping = *ping;
        w.ping_at = ping.map(|p| Instant::now() + Duration::from_millis(p.into()));
        w.state = State::Up;
        w.up_since = Instant::now();
        w.down_since = None;
        w.quality = NetworkQuality::Online;
        obs.label_if(!waiting.is_empty(), "uploads waited for the connection");
        let first = ApiResponse { response_type: Some(Response_type::Handshake(h)), ..Default::default() };
        // Nothing has been asked on this stream yet; what comes in the same piece as the handshake comes first.
        let answers: Vec<Answer> = answers.iter().filter(|a| !matches!(a, Answer::Ack(..))).cloned().collect();
        let (with, after) = if c.pieces >= 60_000 { (&answers[..], &[][..]) } else { (&[][..], &answers[..]) };
        w.complete(&mut enc, first, with, 60_000, obs, &mut waiting).await?;
        w.check()?;
        if !after.is_empty() {
          w.respond(&mut enc, after, c.pieces, obs).await?;
        }
        w.pings();
        w.settle().await;
      },
      Op::Respond(answers) => {
        if w.state != State::Up || answers.is_empty() {
          continue;
        }
        w.respond(&mut enc, answers, c.pieces, obs).await?;
        w.pings();
        w.settle().await;
      },
      Op::Close(reason) => {
        if !matches!(w.state, State::Asking | State::Up) {
          continue;
        }
        let reason = ["", "gone", "no network"][usize::from(*reason)];
        w.event(StreamEvent::StreamClosed(reason.to_string())).await;
        w.gone(reason);
        let long = w.state == State::Up && Instant::now() - w.up_since > Duration::from_secs(60);
        if long {
          obs.label("a long stream ended");
          w.interval = f64::from(w.policy.0);
          w.attempt();
        } else {
          w.backoff();
        }
        w.settle().await;
        if long {
          w.lost()?;
        }
        w.observe()?;
      },
      Op::Refuse(good) => {
        if w.state != State::Asking {
          continue;
        }
        let mut enc: Encoder<ApiResponse> = Encoder::new(None);
        let e = ErrorShutdown { grpc_status: if *good { 16 } else { 13 }, grpc_message: "nope".to_string(), ..Default::default() };
        let r = ApiResponse { response_type: Some(Response_type::ErrorShutdown(e)), ..Default::default() };
        w.event(StreamEvent::Data(enc.encode(&r).to_vec())).await;
        if *good {
          obs.label("unauthenticated");
          w.kill = Some((w.key, w.clock.ms() + i64::from(flag(&w.flags, 4)), true));
          w.state = State::Killed;
          w.net.lock().lines.last_mut().unwrap().open = false;
        } else {
          w.gone("error shutdown: nope");
          w.backoff();
        }
        w.settle().await;
      },
      Op::Return(..) => unreachable!(),
      Op::Advance(ms) => w.advance(Duration::from_millis((*ms).into()), false).await?,
      Op::Shutdown => {
        if let Some(t) = w.p.trigger.take() {
          let done = tokio::time::timeout(Duration::from_secs(20), t.shutdown()).await;
          ensure!(done.is_ok(), "shutdown is not heeded ({:?})", w.state);
          w.settle().await;
          ensure!(w.p.task.is_finished(), "the connection goes on after shutdown");
          w.state = State::Over;
          for q in std::mem::take(&mut w.open) {
            let gone = match q.waiting {
              Waiting::Upload(mut r) => r.try_recv().is_err(),
              Waiting::Intent(mut r) => r.try_recv().is_err(),
            };
            ensure!(gone, "{} was answered at shutdown", q.uuid);
          }
        }
      },
      Op::Restart(other, hard) => {
        restarts += 1;
        if restarts > 4 {
          continue;
        }
        obs.label("restart");
        if *hard {
          w.p.task.abort();
        } else if let Some(t) = w.p.trigger.take() {
          let done = tokio::time::timeout(Duration::from_secs(20), t.shutdown()).await;
          ensure!(done.is_ok(), "shutdown is not heeded ({:?})", w.state);
        }
        w.settle().await;
        if *other {
          w.key = if w.key == "key" { "other" } else { "key" };
        }
        waiting.clear();
        w.p = World::start(&w.dir, &w.net, &w.clock, w.key, &w.meta);
        w.started(obs);
        w.settle().await;
      },
      Op::DamageKillFile(n) => {
        let path = w.dir.join("client_kill_until");
        if let Some(b) = std::fs::read(&path).ok().filter(|b| !b.is_empty()) {
          std::fs::write(&path, &b[.. usize::from(*n) % b.len()]).unwrap();
          w.kill = w.kill.map(|(k, t, _)| (k, t, false));
        }
      },
    }
    w.check()?;
  }
  obs.nontrivial(w.answered > 0 && w.lines > 1);
  Ok(())
}

impl World {
  /// The handshake is answered, and more with it.
  async fn complete(&mut self, enc: &mut Encoder<ApiResponse>, first: ApiResponse, with: &[Answer], pieces: u16, obs: &mut Obs, waiting: &mut Vec<ApiRequest>) -> Res {
    let mut bytes = enc.encode(&first).to_vec();
    let (mut late, mut flushes) = (vec![], vec![]);
    for a in with {
      if let Some(r) = self.answer(a, &mut late, &mut flushes, obs) {
        bytes.extend(enc.encode(&r));
      }
    }
    self.events.push(Event::Complete);
    for r in waiting.iter_mut() {
      if let Some(Request_type::StatsUpload(s)) = &mut r.request_type {
        s.sent_at = self.clock.now().into_proto();
      }
    }
    self.sent(waiting);
    for piece in bytes.chunks(pieces.into()) {
      self.event(StreamEvent::Data(piece.to_vec())).await;
    }
    self.settle().await;
    for f in flushes {
      let got = self.p.flushes.try_recv().map_err(|_| Fail::new("a flush the server asked for is not passed on"))?;
      ensure_eq!(got.buffer_ids, f, "buffers to flush");
    }
    self.pings();
    Ok(())
  }

  /// Time passes; at the longest until there is another stream, if so asked.
  async fn advance(&mut self, by: Duration, until_asking: bool) -> Res {
    let end = Instant::now() + by;
    // Pings and attempts may fall due on the way.
    while Instant::now() < end && !(until_asking && self.state == State::Asking) {
      let mut next = end;
      if let (State::Up, Some(p)) = (self.state, self.ping_at) {
        next = next.min(p.max(Instant::now()));
      }
      if let State::Backoff(since, _, hi) = self.state {
        next = next.min(since + Duration::from_millis(hi.ceil() as u64 + 1)).max(Instant::now());
      }
      let step = next - Instant::now();
      if step.is_zero() && !matches!(self.state, State::Up) {
        return Err("no new stream where one is due".into());
      }
      tokio::time::advance(step).await;
      self.settle().await;
      self.pings();
      self.settle().await;
      self.observe()?;
      self.check()?;
    }
    Ok(())
  }

  fn pings(&mut self) {
    if self.state == State::Up && self.ping_at.is_some_and(|p| p <= Instant::now()) {
      self.ping_at = None;
      self.want.push(request(Request_type::Ping(PingRequest::default())));
    }
  }
}

pub fn c37(run: &mut Run) {
  run.run(part("histories", 36_000, 400_000, "more than one stream was begun and a request was answered").shards(8), case, play);
  run.run(part("refused", 6_000, 60_000, "more than one stream was begun and a request was answered").shards(8), refused, play);
}
