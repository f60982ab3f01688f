//! C39 and C40: the logger as a whole, from what the app logs to what the server gets.
use bd_api::{PlatformNetworkManager, PlatformNetworkStream, StreamEvent, StreamEventSender};
use bd_client_common::error::{Reporter as ErrorReporter, UnexpectedErrorHandler};
use bd_client_stats_store::Collector;
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_log_primitives::{AnnotatedLogField, AnnotatedLogFields, LogField, LogFieldKind};
use bd_metadata::{Metadata, Platform};
use bd_proto::protos::bdtail::bdtail_config::{BdTailConfigurations, BdTailStream};
use bd_proto::protos::client::api::api_request::Request_type;
use bd_proto::protos::client::api::api_response::Response_type;
use bd_proto::protos::client::api::configuration_update::{StateOfTheWorld, Update_type};
use bd_proto::protos::client::api::*;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_proto::protos::config::v1::config as cfg;
use bd_proto::protos::filter::filter as flt;
use bd_proto::protos::log_matcher::log_matcher as lm;
use bd_proto::protos::workflow::workflow as wf;
use bd_runtime::runtime::ConfigLoader;
use bd_session::{activity_based, fixed, Strategy as Session};
use open_logger::async_log_buffer::LogAttributesOverridesPreviousRunSessionID;
use open_logger::{InitParams, LogType, Logger, LoggerBuilder, LoggerHandle, MetadataProvider};
use parking_lot::Mutex;
use protobuf::{EnumOrUnknown, MessageField};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use std::time::Duration;
use time::OffsetDateTime;
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

const MESSAGES: [&str; 5] = ["a", "b", "c", "d", "HTTPRequest"];
/// One more, which does not fit into the smaller buffers.
fn text(i: u8) -> &'static str {
  static LONG: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| "long ".repeat(12_400));
  MESSAGES.get(usize::from(i)).copied().unwrap_or_else(|| LONG.as_str())
}
/// How much fits into a buffer before it is stored.
fn room(b: u8) -> usize {
  if b % 2 == 1 { 60_000 } else { 500_000 }
}
const VALUES: [&str; 3] = ["x", "y", ""];
const KEYS: [&str; 5] = ["f", "f.g", "Field_h", "_u", "app_id"];
const TYPES: [LogType; 7] =
  [LogType::Normal, LogType::Replay, LogType::Lifecycle, LogType::Resource, LogType::InternalSDK, LogType::View, LogType::Device];
/// Buffers 0 and 1 are uploaded all the time, the others when they are asked for.
const CONTINUOUS: u8 = 2;
const BUFFERS: u8 = 5;
const STREAMED: u8 = BUFFERS;

// ---------------------------------------------------------------------------------------------
// What is configured

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(crate = "vcommon::serde")]
enum P {
  Letters(u8),
  NotLetters(u8),
  Field(u8),
  Level(u8),
  Type(u8),
}
impl P {
  fn holds(&self, l: &L) -> bool {
    let has = |m: u8| MESSAGES.iter().enumerate().any(|(i, s)| m >> i & 1 == 1 && *s == l.message);
    match self {
      P::Letters(m) => has(*m),
      P::NotLetters(m) => !has(*m),
      P::Field(v) => l.fields.get("f").or_else(|| l.matching.get("f")).is_some_and(|f| f == VALUES[usize::from(*v) % 3]),
      P::Level(v) => l.level >= u32::from(*v),
      P::Type(t) => l.ty == TYPES[usize::from(*t) % 7].0,
    }
  }
  fn cfg(&self) -> cfg::LogMatcher {
    use cfg::log_matcher::base_log_matcher as b;
    use cfg::log_matcher::Match_type as T;
    let base = |m| cfg::LogMatcher {
      match_type: Some(T::BaseMatcher(cfg::log_matcher::BaseLogMatcher { match_type: Some(m), ..Default::default() })),
      ..Default::default()
    };
    let any = |m: u8| cfg::LogMatcher {
      match_type: Some(T::OrMatcher(cfg::log_matcher::MatcherList {
        matcher: (0 .. 5)
          .filter(|i| m >> i & 1 == 1)
          .map(|i| base(b::Match_type::MessageMatch(b::MessageMatch { match_type: EnumOrUnknown::from_i32(0), match_value: MESSAGES[i].to_string(), ..Default::default() })))
          .collect(),
        ..Default::default()
      })),
      ..Default::default()
    };
    match self {
      P::Letters(m) => any(*m),
      P::NotLetters(m) => cfg::LogMatcher { match_type: Some(T::NotMatcher(Box::new(any(*m)))), ..Default::default() },
      P::Field(v) => base(b::Match_type::TagMatch(b::TagMatch {
        match_type: EnumOrUnknown::from_i32(0),
        tag_key: "f".into(),
        match_value: VALUES[usize::from(*v) % 3].into(),
        ..Default::default()
      })),
      P::Level(v) => base(b::Match_type::LogLevelMatch(b::LogLevelMatch {
        operator: EnumOrUnknown::from_i32(4),
        log_level: EnumOrUnknown::from_i32(i32::from(*v)),
        ..Default::default()
      })),
      P::Type(t) => base(b::Match_type::TypeMatch(b::TypeMatch { type_: TYPES[usize::from(*t) % 7].0, ..Default::default() })),
    }
  }
  /// Only for the first three kinds.
  fn log(&self) -> lm::LogMatcher {
    use lm::log_matcher::{base_log_matcher as b, BaseLogMatcher, Matcher, MatcherList};
    let base = |m| lm::LogMatcher { matcher: Some(Matcher::BaseMatcher(BaseLogMatcher { match_type: Some(m), ..Default::default() })), ..Default::default() };
    let equals = |v: &str| b::StringValueMatch { operator: b::Operator::OPERATOR_EQUALS.into(), match_value: v.to_string(), ..Default::default() };
    let any = |m: u8| lm::LogMatcher {
      matcher: Some(Matcher::OrMatcher(MatcherList {
        log_matchers: (0 .. 5)
          .filter(|i| m >> i & 1 == 1)
          .map(|i| base(b::Match_type::MessageMatch(b::MessageMatch { string_value_match: MessageField::some(equals(MESSAGES[i])), ..Default::default() })))
          .collect(),
        ..Default::default()
      })),
      ..Default::default()
    };
    match self {
      P::Letters(m) => any(*m),
      P::NotLetters(m) => lm::LogMatcher { matcher: Some(Matcher::NotMatcher(Box::new(any(*m)))), ..Default::default() },
      P::Field(v) => base(b::Match_type::TagMatch(b::TagMatch {
        tag_key: "f".into(),
        value_match: Some(b::tag_match::Value_match::StringValueMatch(equals(VALUES[usize::from(*v) % 3]))),
        ..Default::default()
      })),
      P::Level(_) | P::Type(_) => lm::LogMatcher::default(),
    }
  }
  fn readable(&self) -> bool {
    !matches!(self, P::Level(_) | P::Type(_))
  }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(crate = "vcommon::serde")]
enum Tr {
  Set(u8, u8),
  Remove(u8),
  Capture(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
#[serde(crate = "vcommon::serde")]
struct Cfg {
  buffers: Vec<(u8, Vec<Option<P>>)>,
  filters: Vec<(P, Tr)>,
  /// which logs flush which of the buffers
  flows: Vec<(P, u8)>,
  streams: Vec<Option<P>>,
  /// 0 fine; 1 a filter of a buffer is broken, 2 there is nothing in it, 3 the type of a buffer is unknown
  bad: u8,
}
fn buffer_id(i: u8) -> String {
  format!("b{i}")
}
fn flushed_by(mask: u8) -> BTreeSet<u8> {
  (CONTINUOUS .. BUFFERS).filter(|i| mask >> (i - CONTINUOUS) & 1 == 1).collect()
}
impl Cfg {
  fn sane(&self) -> Self {
    let mut c = self.clone();
    let mut ids = BTreeSet::new();
    c.buffers.retain(|b| ids.insert(b.0));
    c
  }
  fn proto(&self, nonce: &str) -> ConfigurationUpdate {
    let mut buffers: Vec<cfg::BufferConfig> = self
      .buffers
      .iter()
      .map(|(i, fs)| cfg::BufferConfig {
        id: buffer_id(*i),
        name: format!("buffer {i}"),
        type_: if *i < CONTINUOUS { cfg::buffer_config::Type::CONTINUOUS } else { cfg::buffer_config::Type::TRIGGER }.into(),
        filters: fs
          .iter()
          .enumerate()
          .map(|(n, f)| cfg::buffer_config::BufferFilter { id: format!("f{n}"), filter: f.as_ref().map(P::cfg).into(), ..Default::default() })
          .collect(),
        buffer_sizes: MessageField::some(cfg::buffer_config::BufferSizes {
          volatile_buffer_size_bytes: room(*i) as u32,
          non_volatile_buffer_size_bytes: 4 * room(*i) as u32,
          ..Default::default()
        }),
        ..Default::default()
      })
      .collect();
    match self.bad {
      1 => {
        let broken = cfg::buffer_config::BufferFilter { id: "x".into(), filter: MessageField::some(cfg::LogMatcher::default()), ..Default::default() };
        match buffers.last_mut() {
          Some(b) => b.filters.push(broken),
          None => buffers.push(cfg::BufferConfig { id: "b0".into(), type_: cfg::buffer_config::Type::CONTINUOUS.into(), filters: vec![broken], ..Default::default() }),
        }
      },
      3 => buffers.push(cfg::BufferConfig { id: "b9".into(), type_: EnumOrUnknown::from_i32(99), ..Default::default() }),
      _ => {},
    }
    let filters = self
      .filters
      .iter()
      .map(|(p, t)| {
        use flt::filter::transform as t_;
        use t_::Transform_type as T;
        let ty = match t {
          Tr::Set(k, v) => T::SetField(t_::SetField {
            name: KEYS[usize::from(*k) % 3].into(),
            value: MessageField::some(t_::set_field::SetFieldValue {
              value: Some(t_::set_field::set_field_value::Value::StringValue(VALUES[usize::from(*v) % 3].into())),
              ..Default::default()
            }),
            field_type: EnumOrUnknown::from_i32(1),
            allow_override: true,
            ..Default::default()
          }),
          Tr::Remove(k) => T::RemoveField(t_::RemoveField { name: KEYS[usize::from(*k) % 3].into(), ..Default::default() }),
          Tr::Capture(k) => T::CaptureField(t_::CaptureField { name: KEYS[usize::from(*k) % 3].into(), ..Default::default() }),
        };
        flt::Filter {
          matcher: MessageField::some(p.log()),
          transforms: vec![flt::filter::Transform { transform_type: Some(ty), ..Default::default() }],
          ..Default::default()
        }
      })
      .collect();
    let flows = self
      .flows
      .iter()
      .enumerate()
      .map(|(i, (p, mask))| {
        use wf::workflow as w;
        let action = w::Action {
          action_type: Some(w::action::Action_type::ActionFlushBuffers(w::action::ActionFlushBuffers {
            id: format!("flush{i}"),
            buffer_ids: flushed_by(*mask).into_iter().map(buffer_id).collect(),
            ..Default::default()
          })),
          ..Default::default()
        };
        let rule = w::Rule {
          rule_type: Some(w::rule::Rule_type::RuleLogMatch(w::RuleLogMatch { log_matcher: MessageField::some(p.log()), count: 1, ..Default::default() })),
          ..Default::default()
        };
        wf::Workflow {
          id: format!("flow{i}"),
          states: vec![
            w::State {
              id: "s0".into(),
              transitions: vec![w::Transition { target_state_id: "s1".into(), rule: MessageField::some(rule), actions: vec![action], ..Default::default() }],
              ..Default::default()
            },
            w::State { id: "s1".into(), ..Default::default() },
          ],
          execution: MessageField::some(w::Execution {
            execution_type: Some(w::execution::Execution_type::ExecutionParallel(Default::default())),
            ..Default::default()
          }),
          ..Default::default()
        }
      })
      .collect();
    let streams = self
      .streams
      .iter()
      .enumerate()
      .map(|(i, p)| BdTailStream { stream_id: format!("t{i}").into(), matcher: p.as_ref().map(P::log).into(), ..Default::default() })
      .collect();
    ConfigurationUpdate {
      version_nonce: nonce.to_string(),
      update_type: (self.bad != 2).then(|| {
        Update_type::StateOfTheWorld(StateOfTheWorld {
          buffer_config_list: MessageField::some(cfg::BufferConfigList { buffer_config: buffers, ..Default::default() }),
          workflows_configuration: MessageField::some(wf::WorkflowsConfiguration { workflows: flows, ..Default::default() }),
          bdtail_configuration: MessageField::some(BdTailConfigurations { active_streams: streams, ..Default::default() }),
          filters_configuration: MessageField::some(flt::FiltersConfiguration { filters, ..Default::default() }),
          ..Default::default()
        })
      }),
      ..Default::default()
    }
  }
}

// ---------------------------------------------------------------------------------------------
// What is done

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(crate = "vcommon::serde")]
struct F {
  key: u8,
  value: u8,
  ootb: bool,
}
impl F {
  fn real(&self) -> AnnotatedLogField {
    AnnotatedLogField { field: self.field(), kind: if self.ootb { LogFieldKind::Ootb } else { LogFieldKind::Custom } }
  }
  fn field(&self) -> LogField {
    LogField { key: self.name().to_string(), value: VALUES[usize::from(self.value) % 3].to_string().into() }
  }
  fn name(&self) -> &'static str {
    KEYS[usize::from(self.key) % 5]
  }
  fn reserved(&self) -> bool {
    self.key % 5 >= 3
  }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct LogSpec {
  level: u8,
  ty: u8,
  message: u8,
  fields: Vec<F>,
  matching: Vec<F>,
  /// of the process before: 1 the session it says, 2 another
  other: u8,
  blocking: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Op {
  Log(Vec<LogSpec>),
  Add(F),
  Remove(u8),
  /// what goes with each log; whether it fails (1, 2) or logs itself (3)
  Provider(Vec<F>, u8),
  Configure(Cfg),
  Flags(u8, bool, bool),
  ServerFlush(u8),
  Flush,
  /// ... and the process ends the moment that returns.
  FlushAndEnd,
  /// 0 up, 1 down, 2 up but without answers
  Net(u8),
  DropIntents(bool),
  NewSession,
  Advance(u32),
  /// properly shut down, or not
  Restart(bool),
  /// the stored configuration is cut off as by a crash
  Tear(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  mobile: bool,
  first: Option<Cfg>,
  flags: (u8, bool, bool),
  ops: Vec<Op>,
}

fn pred() -> impl Strategy<Value = P> + Clone {
  prop_oneof![4 => (1u8 .. 32).prop_map(P::Letters), 1 => (0u8 .. 32).prop_map(P::NotLetters), 1 => (0u8 .. 3).prop_map(P::Field)]
}
fn config() -> impl Strategy<Value = Cfg> + Clone {
  let any = prop_oneof![3 => pred(), 1 => (0u8 .. 5).prop_map(P::Level), 1 => (0u8 .. 7).prop_map(P::Type)];
  let filter = prop_oneof![1 => Just(None), 4 => Just(Some(P::NotLetters(0))), 6 => any.prop_map(Some)];
  let buffers = prop::collection::vec((0u8 .. BUFFERS, prop::collection::vec(filter, 0 .. 3)), 0 .. 6);
  let tr = prop_oneof![3 => (0u8 .. 3, 0u8 .. 3).prop_map(|(a, b)| Tr::Set(a, b)), 1 => (0u8 .. 3).prop_map(Tr::Remove), 1 => (0u8 .. 3).prop_map(Tr::Capture)];
  let flow = (prop_oneof![4 => (0u32 .. 5).prop_map(|i| P::Letters(1 << i)), 1 => pred()], prop_oneof![1 => Just(0u8), 3 => 0u8 .. 8]);
  let stream = prop::option::weighted(0.8, pred());
  (
    buffers,
    prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((pred(), tr), 0 .. 3)],
    prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(flow, 0 .. 3)],
    prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(stream, 0 .. 3)],
    prop_oneof![9 => Just(0u8), 1 => 1u8 .. 4],
  )
    .prop_map(|(buffers, filters, flows, streams, bad)| Cfg { buffers, filters, flows, streams, bad })
}
fn field() -> impl Strategy<Value = F> + Clone {
  (prop_oneof![5 => 0u8 .. 3, 1 => 3u8 .. 5], 0u8 .. 3, any::<bool>()).prop_map(|(key, value, ootb)| F { key, value, ootb })
}
fn log() -> impl Strategy<Value = LogSpec> + Clone {
  (
    0u8 .. 5,
    prop_oneof![3 => Just(0u8), 2 => 0u8 .. 7],
    prop_oneof![25 => 0u8 .. 5, 1 => Just(5u8)],
    prop::collection::vec(field(), 0 .. 3),
    prop::collection::vec(field(), 0 .. 2),
    prop_oneof![10 => Just(0u8), 1 => 1u8 .. 3],
    prop::bool::weighted(0.12),
  )
    .prop_map(|(level, ty, message, fields, matching, other, blocking)| LogSpec { level, ty, message, fields, matching, other, blocking })
}
fn flags() -> impl Strategy<Value = (u8, bool, bool)> + Clone {
  (prop_oneof![1 => Just(0u8), 2 => 1u8 .. 6], prop::bool::weighted(0.8), any::<bool>())
}
fn case() -> impl Strategy<Value = Case> {
  let op = prop_oneof![
    14 => prop::collection::vec(log(), 1 .. 4).prop_map(Op::Log),
    1 => field().prop_map(Op::Add),
    1 => (0u8 .. 5).prop_map(Op::Remove),
    1 => (prop::collection::vec(field(), 0 .. 3), prop_oneof![3 => Just(0u8), 2 => 1u8 .. 4]).prop_map(|(a, b)| Op::Provider(a, b)),
    3 => config().prop_map(Op::Configure),
    1 => flags().prop_map(|(a, b, c)| Op::Flags(a, b, c)),
    3 => (0u8 .. 32).prop_map(Op::ServerFlush),
    2 => Just(Op::Flush),
    1 => Just(Op::FlushAndEnd),
    3 => prop_oneof![2 => Just(0u8), 1 => 1u8 .. 3].prop_map(Op::Net),
    1 => any::<bool>().prop_map(Op::DropIntents),
    1 => Just(Op::NewSession),
    3 => prop_oneof![1u32 .. 1000, 1000u32 .. 60_000].prop_map(Op::Advance),
    2 => any::<bool>().prop_map(Op::Restart),
    1 => any::<u8>().prop_map(Op::Tear),
  ];
  (any::<bool>(), prop::option::weighted(0.8, config()), flags(), prop::collection::vec(op, 1 .. 30))
    .prop_map(|(mobile, first, flags, mut ops)| {
      // Few enough to fit into the larger buffers together.
      let logs = ops.iter_mut().filter_map(|o| if let Op::Log(l) = o { Some(l) } else { None }).flatten();
      for l in logs.filter(|l| l.message == 5).skip(6) {
        l.message = 0;
      }
      Case { mobile, first, flags, ops }
    })
}

// ---------------------------------------------------------------------------------------------
// Surroundings

thread_local! {
  static ERRORS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
struct Errors;
impl ErrorReporter for Errors {
  fn report(&self, message: &str, _: &Option<String>, _: &HashMap<Cow<'_, str>, Cow<'_, str>>) {
    ERRORS.with(|e| e.borrow_mut().push(message.to_string()));
  }
}

struct Unheard;
impl activity_based::Callbacks for Unheard {
  fn session_id_changed(&self, _: &str) {}
}

#[derive(Clone, Default)]
struct Mem(Arc<Mutex<HashMap<String, String>>>);
impl bd_key_value::Storage for Mem {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    self.0.lock().insert(key.to_string(), value.to_string());
    Ok(())
  }
  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> {
    Ok(self.0.lock().get(key).cloned())
  }
  fn delete(&self, key: &str) -> anyhow::Result<()> {
    self.0.lock().remove(key);
    Ok(())
  }
}
struct Meta;
impl Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    "1.2.3"
  }
  fn platform(&self) -> &Platform {
    &Platform::Ios
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    HashMap::new()
  }
}
struct Ids(Arc<Mutex<u64>>);
impl fixed::Callbacks for Ids {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    let mut n = self.0.lock();
    *n += 1;
    Ok(format!("session {n}"))
  }
}
#[derive(Default)]
struct Said {
  fields: Vec<F>,
  mode: u8,
  now: i64,
  handle: Option<LoggerHandle>,
}
#[derive(Clone, Default)]
struct Provider(Arc<Mutex<Said>>);
fn at(n: i64) -> OffsetDateTime {
  thread_local! {
    static BASE: OffsetDateTime = OffsetDateTime::now_utc();
  }
  BASE.with(|b| *b) + time::Duration::milliseconds(n)
}
impl MetadataProvider for Provider {
  fn timestamp(&self) -> anyhow::Result<OffsetDateTime> {
    let mut s = self.0.lock();
    anyhow::ensure!(s.mode != 1, "no time");
    s.now += 1;
    if s.mode == 3 {
      if let Some(h) = &s.handle {
        h.log(4, LogType::Normal, "a".into(), vec![], vec![], None, false);
        h.add_log_field(LogField { key: "f".into(), value: "within".to_string().into() });
        h.remove_log_field("f");
        h.start_new_session();
      }
    }
    Ok(at(s.now))
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    let s = self.0.lock();
    anyhow::ensure!(s.mode != 2, "no fields");
    Ok(s.fields.iter().map(F::real).collect())
  }
}
struct Nothing;
impl bd_resource_utilization::Target for Nothing {
  fn tick(&self) {}
}
impl bd_session_replay::Target for Nothing {
  fn capture_screen(&self) {}
  fn capture_screenshot(&self) {}
}
impl bd_events::ListenerTarget for Nothing {
  fn start(&self) {}
  fn stop(&self) {}
}

struct Line {
  deflate: bool,
  tx: StreamEventSender,
  sent: Vec<ApiRequest>,
  open: bool,
}
#[derive(Default)]
struct Net {
  lines: Vec<Line>,
  broken: Option<String>,
}
struct Manager(Arc<Mutex<Net>>);
struct Stream {
  net: Arc<Mutex<Net>>,
  line: usize,
  dec: Decoder<ApiRequest>,
}
#[async_trait::async_trait]
impl PlatformNetworkManager<ConfigLoader> for Manager {
  async fn start_stream(&self, tx: StreamEventSender, _: &ConfigLoader, headers: &HashMap<&str, &str>) -> anyhow::Result<Box<dyn PlatformNetworkStream>> {
    let deflate = headers.get("grpc-encoding").is_some_and(|v| *v == "deflate");
    let mut net = self.0.lock();
    net.lines.push(Line { deflate, tx, sent: vec![], open: true });
    let line = net.lines.len() - 1;
    Ok(Box::new(Stream { net: self.0.clone(), line, dec: Decoder::new(deflate.then_some(Decompression::StatelessZlib), OptimizeFor::Cpu) }))
  }
}
#[async_trait::async_trait]
impl PlatformNetworkStream for Stream {
  async fn send_data(&mut self, data: &[u8]) -> anyhow::Result<()> {
    let got = self.dec.decode_data(data);
    let mut net = self.net.lock();
    match got {
      Ok(m) => net.lines[self.line].sent.extend(m),
      Err(e) => net.broken = Some(format!("what is sent cannot be read: {e}")),
    }
    Ok(())
  }
}

// ---------------------------------------------------------------------------------------------
// The model

/// A log, as it is on its way.
#[derive(Clone, Debug, PartialEq)]
struct L {
  level: u32,
  ty: u32,
  message: String,
  fields: BTreeMap<String, String>,
  matching: BTreeMap<String, String>,
  session: String,
  time: (i64, i32),
}
/// A log, as it arrives.
#[derive(Clone, Debug, PartialEq)]
struct Got {
  level: u32,
  ty: u32,
  message: String,
  fields: BTreeMap<String, String>,
  session: String,
  time: (i64, i32),
  actions: BTreeSet<String>,
  streams: BTreeSet<String>,
}
impl L {
  fn got(&self, actions: BTreeSet<String>, streams: BTreeSet<String>) -> Got {
    let (level, ty, time) = (self.level, self.ty, self.time);
    Got { level, ty, message: self.message.clone(), fields: self.fields.clone(), session: self.session.clone(), time, actions, streams }
  }
}
#[derive(Clone, Debug)]
struct Entry {
  log: Got,
  /// it may be uploaded; it must not be passed over; it has to be uploaded; it survives a crash; it was
  /// received; the client knows
  allowed: bool,
  kept: bool,
  due: bool,
  durable: bool,
  seen: bool,
  acked: bool,
}

/// What outlives the process.
struct World {
  dir: tempfile::TempDir,
  mem: Mem,
  ids: Arc<Mutex<u64>>,
  said: Provider,
  mobile: bool,
  flags: (u8, bool, bool),
  flags_nonce: u32,
  nonce: u32,
  /// in force, and its version
  config: Option<(Cfg, String)>,
  /// the stored one is damaged
  torn: bool,
  buffers: BTreeMap<u8, Vec<Entry>>,
  cursor: BTreeMap<u8, usize>,
  uploads: BTreeSet<String>,
  net: u8,
  drop_intents: bool,
  /// Uploads of trigger buffers may be under way without the model knowing how far they are.
  unsure: bool,
  /// The same of this burst of logs.
  burst: bool,
  /// Some that began in an earlier process may be resumed.
  late: bool,
  /// The answer to some may not be stored.
  asked: bool,
  without_handshake: u32,
  flushes: u64,
  clock: i64,
  received: u64,
}

/// What does not.
struct Life {
  logger: Logger,
  handle: Arc<LoggerHandle>,
  session: Arc<Session>,
  run: tokio::task::JoinHandle<anyhow::Result<()>>,
  net: Arc<Mutex<Net>>,
  encoder: Encoder<ApiResponse>,
  /// a handshake was made on this line
  line: Option<usize>,
  closed: usize,
  added: Vec<F>,
  config: Option<Cfg>,
  engine: bool,
  /// The server does not want what these ask for; it is not asked again.
  rejected: BTreeSet<String>,
  before: Vec<L>,
  before_size: usize,
  acks: Vec<ConfigurationUpdateAck>,
  flag_acks: Vec<ConfigurationUpdateAck>,
  unanswered: Vec<(u8, String, usize, usize)>,
}

fn other(e: impl std::fmt::Display) -> Fail {
  Fail::new(format!("unexpected error: {e}"))
}
fn stamp(t: OffsetDateTime) -> (i64, i32) {
  (t.unix_timestamp(), t.nanosecond() as i32)
}

impl World {
  fn start(&self) -> Life {
    let store = Arc::new(bd_key_value::Store::new(Box::new(self.mem.clone())));
    let session = Arc::new(if self.mobile {
      let clock = Arc::new(bd_time::SystemTimeProvider {});
      Session::ActivityBased(activity_based::Strategy::new(time::Duration::hours(5), store.clone(), Arc::new(Unheard), clock))
    } else {
      Session::Fixed(fixed::Strategy::new(store.clone(), Arc::new(Ids(self.ids.clone()))))
    });
    let net: Arc<Mutex<Net>> = Arc::default();
    let device = Arc::new(open_logger::Device::new(store.clone()));
    let mut builder = LoggerBuilder::new(InitParams {
      sdk_directory: self.dir.path().to_path_buf(),
      api_key: "key".to_string(),
      session_strategy: session.clone(),
      store,
      metadata_provider: Arc::new(self.said.clone()),
      resource_utilization_target: Box::new(Nothing),
      session_replay_target: Box::new(Nothing),
      events_listener_target: Box::new(Nothing),
      device,
      network: Box::new(Manager(net.clone())),
      platform: Platform::Ios,
      static_metadata: Arc::new(Meta),
    });
    builder = if self.mobile { builder.with_mobile_features(true) } else { builder.with_stats_scope(Collector::default().scope("")) };
    let (logger, _, future) = builder.build().unwrap();
    let run = tokio::task::spawn_local(future);
    let handle = Arc::new(logger.new_logger_handle());
    self.said.0.lock().handle = Some(logger.new_logger_handle());
    Life {
      logger,
      handle,
      session,
      run,
      net,
      encoder: Encoder::new(None),
      line: None,
      closed: 0,
      added: vec![],
      config: None,
      engine: false,
      rejected: BTreeSet::new(),
      before: vec![],
      before_size: 0,
      acks: vec![],
      flag_acks: vec![],
      unanswered: vec![],
    }
  }

  fn list(&mut self, b: u8) -> &mut Vec<Entry> {
    self.buffers.entry(b).or_default()
  }
  fn put(&mut self, b: u8, log: Got) {
    if b != STREAMED && log.message == "long" && text(5).len() > room(b) {
      return;
    }
    let unsure = (self.unsure || self.burst || self.late) && b >= CONTINUOUS && b != STREAMED;
    let allowed = b < CONTINUOUS || b == STREAMED || unsure;
    self.list(b).push(Entry { log, allowed, kept: true, due: allowed && !unsure, durable: false, seen: false, acked: false });
  }
  /// The buffers are uploaded as a whole. Is it certain?
  fn flushed(&mut self, ids: &BTreeSet<u8>, certain: bool) {
    self.flushes += 1;
    for b in ids {
      for e in self.list(*b) {
        if !e.seen {
          e.allowed = true;
          e.due |= certain && e.kept;
        }
      }
    }
  }

  fn arrived(&mut self, r: &LogUploadRequest) -> Result<(u8, usize, usize), Fail> {
    let b = if r.buffer_uuid == "streamed" {
      STREAMED
    } else {
      r.buffer_uuid.strip_prefix('b').and_then(|n| n.parse().ok()).ok_or_else(|| Fail::new(format!("logs come from {:?}", r.buffer_uuid)))?
    };
    let again = !self.uploads.insert(r.upload_uuid.clone());
    let mut cursor = self.cursor.get(&b).copied().unwrap_or(0);
    let from = cursor;
    if again {
      return Ok((b, from, from));
    }
    for bytes in &r.logs {
      let log = bd_client_common::fb::root_as_log(bytes).map_err(other)?;
      let got = Got {
        level: log.log_level(),
        ty: log.log_type().0,
        message: log.message_as_string_data().map(|d| if d.data() == text(5) { "long" } else { d.data() }.to_string()).unwrap_or_default(),
        fields: log
          .fields()
          .iter()
          .flatten()
          .map(|f| (f.key().to_string(), f.value_as_string_data().map(|d| d.data().to_string()).unwrap_or_default()))
          .filter(|f| f.0 != "_network_quality")
          .collect(),
        session: log.session_id().unwrap_or_default().to_string(),
        time: log.timestamp().map(|t| (t.seconds(), t.nanos())).unwrap_or_default(),
        actions: log.workflow_action_ids().iter().flatten().map(str::to_string).collect(),
        streams: log.stream_ids().iter().flatten().map(str::to_string).collect(),
      };
      let list = self.buffers.entry(b).or_default();
      let Some(n) = list.iter().skip(cursor).position(|e| e.log == got) else {
        let hint: Vec<_> = list.iter().skip(cursor).take(3).collect();
        return Err(Fail::new(format!("the server gets from {} what it should not: {got:?}; next would be {hint:?}", r.buffer_uuid)));
      };
      for e in &list[cursor .. cursor + n] {
        ensure!(!e.kept, "the server does not get from {} a log before {got:?}: {:?}", r.buffer_uuid, e.log);
      }
      let e = &mut list[cursor + n];
      ensure!(e.allowed, "the server gets from {}, which is not flushed, {got:?}", r.buffer_uuid);
      e.seen = true;
      cursor += n + 1;
      self.received += 1;
    }
    self.cursor.insert(b, cursor);
    Ok((b, from, cursor))
  }


  /// All that has to be there by now is there.
  fn complete(&self, buffers: impl Fn(u8) -> bool, when: &str) -> Res {
    for (b, list) in &self.buffers {
      for e in list {
        ensure!(e.seen || !e.due || !buffers(*b), "a log never arrives from {b} {when}: {:?}", e.log);
      }
    }
    Ok(())
  }

  /// What was asked may be asked again, unless it is known to be stored that it was answered.
  fn forgets(&mut self) {
    if self.asked {
      self.late = true;
      self.asked = false;
      for (b, list) in &mut self.buffers {
        for e in list.iter_mut().filter(|e| !e.seen && *b != STREAMED) {
          e.allowed = true;
        }
      }
    }
  }

  /// The process is gone.
  fn ended(&mut self) {
    for (b, list) in &mut self.buffers {
      let first = list.iter().position(|e| !(e.seen && e.acked)).unwrap_or(list.len());
      let cursor = self.cursor.entry(*b).or_default();
      *cursor = (*cursor).min(first);
      // What was asked may be asked again, unless it is known to be stored that it was answered.
      let unsure = self.unsure || self.asked;
      for e in list.iter_mut() {
        e.kept &= e.durable && !e.seen && *b != STREAMED && (*b < CONTINUOUS || !e.allowed && !unsure && !self.late);
        e.due &= e.kept && *b < CONTINUOUS;
        e.allowed |= unsure;
      }
      // Those that were not uploaded to the end have to wait for the next time.
      if *b >= CONTINUOUS && *b != STREAMED && !unsure && !self.late {
        for e in list.iter_mut().filter(|e| !e.seen) {
          e.allowed = false;
        }
      }
    }
    self.late |= self.unsure || self.asked;
    self.unsure = false;
    self.asked = false;
  }
}

impl Life {
  async fn respond(&mut self, r: Response_type) {
    let Some(line) = self.line else { return };
    let bytes = self.encoder.encode(&ApiResponse { response_type: Some(r), ..Default::default() });
    let tx = self.net.lock().lines[line].tx.clone();
    let _ = tokio::time::timeout(Duration::from_secs(1), tx.send(StreamEvent::Data(bytes.to_vec()))).await;
  }

  /// Until nothing happens any more.
  async fn settle(&mut self, w: &mut World) -> Res {
    loop {
      for _ in 0 .. 2 {
        for _ in 0 .. 30 {
          tokio::task::yield_now().await;
        }
        // There is one thread for what blocks; what was asked of it before is done.
        let fence = tokio::task::spawn_blocking(|| ());
        while !fence.is_finished() {
          tokio::task::yield_now().await;
        }
      }
      let (line, requests) = {
        let mut net = self.net.lock();
        if let Some(b) = net.broken.take() {
          return Err(Fail::new(b));
        }
        let n = net.lines.len();
        let Some(last) = net.lines.last_mut() else { break };
        (n - 1, std::mem::take(&mut last.sent))
      };
      if requests.is_empty() {
        break;
      }
      for r in requests {
        self.serve(w, line, r.request_type).await?;
      }
    }
    ensure!(!self.run.is_finished(), "the logger has stopped");
    Ok(())
  }

  async fn serve(&mut self, w: &mut World, line: usize, r: Option<Request_type>) -> Res {
    let answers = w.net == 0 && self.line == Some(line);
    match r {
      Some(Request_type::Handshake(h)) => {
        let want = w.config.as_ref().map(|c| c.1.clone()).unwrap_or_default();
        ensure_eq!(h.configuration_version_nonce, want, "the configuration the client says it has");
        if w.net == 0 {
          self.shake(w, line).await;
        }
      },
      Some(Request_type::LogUpload(u)) => {
        let (b, from, to) = w.arrived(&u)?;
        if answers {
          for e in &mut w.list(b)[from .. to] {
            e.acked = true;
          }
          for (_, _, f, t) in self.unanswered.iter().filter(|x| x.0 == b && x.1 == u.upload_uuid) {
            for e in &mut w.buffers.get_mut(&b).unwrap()[*f .. *t] {
              e.acked = true;
            }
          }
          self.respond(Response_type::LogUpload(LogUploadResponse { upload_uuid: u.upload_uuid, ..Default::default() })).await;
        } else {
          self.unanswered.push((b, u.upload_uuid, from, to));
        }
      },
      Some(Request_type::LogUploadIntent(i)) => {
        if answers {
          let decision = if w.drop_intents {
            if let Some(log_upload_intent_request::Intent_type::WorkflowActionUpload(a)) = &i.intent_type {
              self.rejected.extend(a.workflow_action_ids.iter().cloned());
            }
            bd_api::api::LogsUploadDecision::Drop(Default::default())
          } else {
            bd_api::api::LogsUploadDecision::UploadImmediately(Default::default())
          };
          self
            .respond(Response_type::LogUploadIntent(LogUploadIntentResponse { intent_uuid: i.intent_uuid, decision: Some(decision), ..Default::default() }))
            .await;
        }
      },
      Some(Request_type::StatsUpload(s)) => {
        if answers {
          self.respond(Response_type::StatsUpload(StatsUploadResponse { upload_uuid: s.upload_uuid, ..Default::default() })).await;
        }
      },
      Some(Request_type::ConfigurationUpdateAck(a)) => self.acks.push(a),
      Some(Request_type::RuntimeUpdateAck(a)) => self.flag_acks.push(a),
      _ => {},
    }
    Ok(())
  }

  async fn shake(&mut self, w: &mut World, line: usize) {
    self.line = Some(line);
    w.without_handshake = 0;
    let deflate = self.net.lock().lines[line].deflate;
    self.encoder = Encoder::new(deflate.then_some(Compression::StatelessZlib { level: 5 }));
    self.respond(Response_type::Handshake(HandshakeResponse::default())).await;
  }

  async fn hang_up(&mut self) {
    let (tx, n) = {
      let mut net = self.net.lock();
      let n = net.lines.len();
      if n == 0 || n == self.closed {
        return;
      }
      let last = net.lines.last_mut().unwrap();
      last.open = false;
      (last.tx.clone(), n)
    };
    self.closed = n;
    self.line = None;
    let _ = tokio::time::timeout(Duration::from_secs(1), tx.send(StreamEvent::StreamClosed("gone".to_string()))).await;
  }

  /// There is a connection, and what waited for it is done.
  async fn connect(&mut self, w: &mut World) -> Res {
    if w.net != 0 || self.line.is_none() {
      if w.net == 2 {
        self.hang_up().await;
      }
      w.net = 0;
      self.settle(w).await?;
      if self.line.is_none() {
        // One that is there already, but was refused an answer.
        self.hang_up().await;
        for _ in 0 .. 2000 {
          self.settle(w).await?;
          if self.line.is_some() {
            break;
          }
          tokio::time::advance(Duration::from_secs(2)).await;
        }
        ensure!(self.line.is_some(), "the client does not connect again");
      }
      self.unanswered.clear();
    }
    Ok(())
  }
  /// What has to be there comes. Threads of the buffers' own pass logs on.
  async fn arrives(&mut self, w: &mut World, buffers: impl Fn(u8) -> bool, when: &str) -> Res {
    let begun = std::time::Instant::now();
    loop {
      let r = w.complete(&buffers, when);
      if r.is_ok() || begun.elapsed() > Duration::from_secs(3) {
        return r;
      }
      std::thread::sleep(Duration::from_millis(1));
      self.settle(w).await?;
    }
  }
  /// All uploads that can be made are made.
  async fn drain(&mut self, w: &mut World) -> Res {
    self.flush(w).await?;
    for i in 0 .. 60 {
      self.settle(w).await?;
      if i >= 6 && w.complete(|_| true, "").is_ok() {
        break;
      }
      // Retries take longer.
      tokio::time::advance(Duration::from_secs(if i < 6 { 31 } else { 200 })).await;
    }
    if w.unsure {
      // Retries take longer.
      for _ in 0 .. 30 {
        self.settle(w).await?;
        tokio::time::advance(Duration::from_secs(200)).await;
      }
      w.unsure = false;
      for (b, list) in &mut w.buffers {
        if *b >= CONTINUOUS && *b != STREAMED {
          for e in list.iter_mut().filter(|e| !e.seen) {
            (e.kept, e.due) = (false, false);
          }
        }
      }
    }
    self.settle(w).await
  }

  async fn only_on_thread(&mut self, what: &str, f: impl FnOnce(&LoggerHandle) + Send + 'static) -> Res {
    let handle = self.handle.clone();
    let t = std::thread::spawn(move || f(&handle));
    let begun = std::time::Instant::now();
    let mut n = 0;
    while !t.is_finished() {
      for _ in 0 .. 5 {
        tokio::task::yield_now().await;
      }
      n += 1;
      if n > 20 {
        std::thread::sleep(Duration::from_micros(20));
      }
      ensure!(begun.elapsed() < Duration::from_secs(20), "{what} never returns");
    }
    t.join().map_err(|_| Fail::new(format!("{what} panics")))
  }
  async fn on_thread(&mut self, w: &mut World, what: &str, f: impl FnOnce(&LoggerHandle) + Send + 'static) -> Res {
    self.only_on_thread(what, f).await?;
    self.settle(w).await
  }
  async fn flush(&mut self, w: &mut World) -> Res {
    self.on_thread(w, "flush_state", |h| h.flush_state(true)).await?;
    // When the session was last used is stored.
    let stored = w.mem.0.lock().clone();
    self.session.flush();
    let now = w.mem.0.lock().clone();
    ensure!(stored == now, "flush_state returns, and the session's state {now:?} is stored as {stored:?}");
    w.asked &= w.unsure || !self.engine;
    for e in w.buffers.values_mut().flatten() {
      e.durable = true;
    }
    Ok(())
  }

  /// A configuration is in force.
  fn configured(&mut self, w: &mut World, c: &Cfg, obs: &mut Obs) {
    self.engine = w.flags.1;
    if !self.engine {
      self.rejected.clear();
      w.forgets();
    }
    let ids: BTreeSet<u8> = c.buffers.iter().map(|b| b.0).collect();
    for (b, list) in &mut w.buffers {
      if *b == STREAMED && c.streams.is_empty() || *b != STREAMED && !ids.contains(b) {
        for e in list.iter_mut() {
          (e.kept, e.due) = (false, false);
        }
      }
    }
    self.config = Some(c.clone());
    let n = self.before.len();
    let before = std::mem::take(&mut self.before);
    let mut sure = true;
    for l in before {
      self.write(w, l, false, &mut sure, obs);
    }
    w.burst = false;
    obs.label_if(n > 0, "logs from before the configuration");
  }

  /// A log goes through the pipeline.
  fn write(&mut self, w: &mut World, l: L, blocking: bool, sure: &mut bool, obs: &mut Obs) {
    let Some(c) = self.config.clone() else {
      self.before.push(l);
      return;
    };
    let mut l = l;
    if w.flags.2 {
      for (p, t) in &c.filters {
        if !p.holds(&l) {
          continue;
        }
        obs.label("filtered");
        match t {
          Tr::Set(k, v) => {
            l.fields.insert(KEYS[usize::from(*k) % 3].into(), VALUES[usize::from(*v) % 3].into());
          },
          Tr::Remove(k) => {
            l.fields.remove(KEYS[usize::from(*k) % 3]);
            l.matching.remove(KEYS[usize::from(*k) % 3]);
          },
          Tr::Capture(k) => {
            if let Some(v) = l.matching.remove(KEYS[usize::from(*k) % 3]) {
              l.fields.insert(KEYS[usize::from(*k) % 3].into(), v);
            }
          },
        }
      }
    }
    let streams: BTreeSet<String> =
      c.streams.iter().enumerate().filter(|(_, p)| p.as_ref().is_none_or(|p| p.holds(&l))).map(|(i, _)| format!("t{i}")).collect();
    if !streams.is_empty() {
      obs.label("streamed");
      w.put(STREAMED, l.got(BTreeSet::new(), streams));
    }
    let mut to: BTreeSet<u8> = c.buffers.iter().filter(|b| b.1.iter().flatten().any(|p| p.holds(&l))).map(|b| b.0).collect();
    let triggers: BTreeSet<u8> = c.buffers.iter().map(|b| b.0).filter(|b| *b >= CONTINUOUS).collect();
    let mut actions = BTreeSet::new();
    let mut flushed: BTreeSet<u8> = BTreeSet::new();
    let mut wanted: BTreeSet<u8> = BTreeSet::new();
    if self.engine {
      for (i, (p, mask)) in c.flows.iter().enumerate() {
        let asked = flushed_by(*mask);
        let ids: BTreeSet<u8> = if asked.is_empty() { triggers.clone() } else { asked.intersection(&triggers).copied().collect() };
        if p.holds(&l) {
          let id = format!("flush{i}");
          if self.rejected.contains(&id) {
            obs.label("not wanted");
          } else {
            wanted.extend(&ids);
          }
          actions.insert(id);
          flushed.extend(ids);
        }
      }
    }
    for b in &to {
      w.put(*b, l.got(actions.clone(), BTreeSet::new()));
    }
    if !actions.is_empty() {
      obs.label("a log flushes buffers");
      if !flushed.is_empty() && to.iter().all(|b| *b >= CONTINUOUS && !flushed.contains(b)) {
        obs.label_if(!to.is_empty(), "written where it is not flushed");
        let mut s = l.got(actions.clone(), BTreeSet::new());
        s.level = 1;
        s.ty = LogType::InternalSDK.0;
        let b = *flushed.first().unwrap();
        w.put(b, s);
        to.insert(b);
      }
      if w.net != 0 {
        w.unsure = true;
        w.flushed(&triggers, false);
      } else if !w.drop_intents {
        w.flushed(&wanted, actions.len() == 1 && *sure && !w.unsure && !w.late);
      }
      *sure = false;
      w.burst = true;
      w.asked = true;
    }
    if blocking {
      for b in to {
        for e in w.list(b) {
          e.durable = true;
        }
      }
    }
  }

  /// What the logger is told of a log, and what becomes of it.
  fn expect(&mut self, w: &mut World, s: &LogSpec, over: Option<&LogAttributesOverridesPreviousRunSessionID>, sure: &mut bool, obs: &mut Obs) {
    let (mode, provided) = {
      let p = w.said.0.lock();
      (p.mode, p.fields.clone())
    };
    if mode != 1 {
      w.clock += 1;
    }
    let now = w.clock;
    if mode == 1 || mode == 2 {
      obs.label("a log without metadata");
      return;
    }
    let ty = TYPES[usize::from(s.ty) % 7];
    let apart = [LogType::Replay, LogType::Resource, LogType::InternalSDK].contains(&ty);
    let ootb = |v: &[F], m: &mut BTreeMap<String, String>| {
      for f in v.iter().filter(|f| f.ootb) {
        m.entry(f.name().into()).or_insert_with(|| VALUES[usize::from(f.value) % 3].into());
      }
    };
    let custom = |v: &[F], m: &mut BTreeMap<String, String>| {
      for f in v.iter().filter(|f| !f.ootb && !f.reserved()) {
        m.entry(f.name().into()).or_insert_with(|| VALUES[usize::from(f.value) % 3].into());
      }
    };
    let (mut fields, mut matching) = (BTreeMap::new(), BTreeMap::new());
    if !apart {
      ootb(&provided, &mut fields);
    }
    ootb(&s.fields, &mut fields);
    custom(&s.fields, &mut fields);
    for f in &self.added {
      fields.entry(f.name().into()).or_insert_with(|| VALUES[usize::from(f.value) % 3].into());
    }
    if !apart {
      custom(&provided, &mut fields);
    }
    if apart {
      ootb(&provided, &mut matching);
    }
    ootb(&s.matching, &mut matching);
    custom(&s.matching, &mut matching);
    if apart {
      custom(&provided, &mut matching);
    }
    let mut l = L {
      level: s.level.into(),
      ty: ty.0,
      message: MESSAGES.get(usize::from(s.message)).copied().unwrap_or("long").into(),
      fields,
      matching,
      session: self.session.session_id(),
      time: stamp(at(now)),
    };
    let mut blocking = s.blocking;
    if let Some(o) = over {
      if Some(&o.expected_previous_process_session_id) == self.session.previous_process_session_id().as_ref() {
        obs.label("of the process before");
        l.fields.insert("_logged_at".into(), at(now).to_string());
        l.session.clone_from(&o.expected_previous_process_session_id);
        l.time = stamp(o.occurred_at);
      } else {
        obs.label("not of the process before");
        l.fields.insert("_original_session_id".into(), l.session.clone());
        l.fields.insert("_override_session_id".into(), o.expected_previous_process_session_id.clone());
        l.level = 3;
        l.ty = LogType::InternalSDK.0;
        l.message = "failed to override log attributes, provided override attributes do not match expectations".into();
        blocking = false;
      }
    }
    self.write(w, l, blocking, sure, obs);
  }
}

async fn life(w: &mut World, c: &Case, ops: &mut &[Op], begun: &mut bool, obs: &mut Obs) -> Result<bool, Fail> {
  ERRORS.with(|e| e.borrow_mut().clear());
  tokio::time::advance(Duration::from_micros(500)).await;
  let mut l = w.start();
  w.without_handshake += 1;
  if w.without_handshake > 3 {
    w.net = 0;
  }
  if w.torn {
    w.torn = false;
    w.config = None;
    for e in w.buffers.values_mut().flatten() {
      (e.kept, e.due) = (false, false);
    }
    obs.label("a torn configuration");
  }
  l.settle(w).await?;
  if let Some((c, _)) = w.config.clone() {
    obs.label("from the stored configuration");
    l.configured(w, &c, obs);
    l.settle(w).await?;
  }
  let opening = [Op::Flags(c.flags.0, c.flags.1, c.flags.2), Op::Configure(c.first.clone().unwrap_or_default())];
  let mut first: &[Op] = if *begun { &[] } else { &opening[.. 1 + usize::from(c.first.is_some())] };
  *begun = true;
  let mut proper = None;
  let mut sudden = false;
  loop {
    let op = if let Some((o, rest)) = first.split_first() {
      first = rest;
      o
    } else {
      let Some((o, rest)) = ops.split_first() else { break };
      *ops = rest;
      o
    };
    l.settle(w).await?;
    match op {
      Op::Log(specs) => {
        let mut sure = true;
        for s in specs {
          let over = (s.other > 0).then(|| LogAttributesOverridesPreviousRunSessionID {
            expected_previous_process_session_id: if s.other == 1 {
              l.session.session_id();
              l.session.previous_process_session_id().unwrap_or_else(|| "none".into())
            } else {
              "unheard of".into()
            },
            occurred_at: at(w.clock) - time::Duration::seconds(100),
          });
          let real = |s: &LogSpec| {
            (
              u32::from(s.level),
              TYPES[usize::from(s.ty) % 7],
              text(s.message),
              s.fields.iter().map(F::real).collect::<Vec<_>>(),
              s.matching.iter().map(F::real).collect::<Vec<_>>(),
            )
          };
          let (level, ty, message, fields, matching) = real(s);
          let again = over.as_ref().map(|o| LogAttributesOverridesPreviousRunSessionID {
            expected_previous_process_session_id: o.expected_previous_process_session_id.clone(),
            occurred_at: o.occurred_at,
          });
          let blocking = s.blocking;
          if blocking {
            // In order.
            l.settle(w).await?;
            sure = true;
            w.burst = false;
          }
          l.expect(w, s, again.as_ref(), &mut sure, obs);
          if blocking {
            obs.label("waited for");
            l.on_thread(w, "log", move |h| h.log(level, ty, message.into(), fields, matching, over, true)).await?;
            sure = true;
            w.burst = false;
          } else {
            l.handle.log(level, ty, message.into(), fields, matching, over, false);
          }
        }
        l.settle(w).await?;
        l.settle(w).await?;
        w.burst = false;
        if w.net == 0 && !w.unsure {
          l.arrives(w, |b| b >= CONTINUOUS && b != STREAMED, "after a log flushed it").await?;
        }
      },
      Op::Add(f) => {
        l.handle.add_log_field(f.field());
        if !f.reserved() {
          l.added.retain(|a| a.name() != f.name());
          l.added.push(f.clone());
        }
        l.settle(w).await?;
      },
      Op::Remove(k) => {
        let name = KEYS[usize::from(*k) % 5];
        l.handle.remove_log_field(name);
        l.added.retain(|a| a.name() != name);
        l.settle(w).await?;
      },
      Op::Provider(fields, mode) => {
        let mut s = w.said.0.lock();
        s.fields.clone_from(fields);
        s.mode = *mode;
      },
      Op::Configure(c) => {
        l.connect(w).await?;
        l.drain_unsure(w).await?;
        let c = c.sane();
        w.nonce += 1;
        let nonce = format!("c{}", w.nonce);
        l.acks.clear();
        l.respond(Response_type::ConfigurationUpdate(c.proto(&nonce))).await;
        if c.bad == 0 {
          w.config = Some((c.clone(), nonce.clone()));
          l.configured(w, &c, obs);
        }
        l.settle(w).await?;
        ensure_eq!(l.acks.len(), 1, "answers to a configuration");
        let ack = &l.acks[0];
        if c.bad == 0 {
          ensure!(ack.nack.is_none(), "a valid configuration is refused: {:?}", ack.nack);
          ensure_eq!(ack.last_applied_version_nonce, nonce, "the version that is confirmed");
        } else {
          obs.label("a configuration that cannot be used");
          ensure_eq!(ack.nack.as_ref().map(|n| n.version_nonce.clone()), Some(nonce), "the version that is refused");
        }
      },
      Op::Flags(batch, flows, filters) => {
        l.connect(w).await?;
        l.drain_unsure(w).await?;
        let mut r = Runtime::default();
        let mut put = |k: &str, v| {
          let mut x = Value::default();
          x.type_ = Some(v);
          r.values.insert(k.to_string(), x);
        };
        if *batch > 0 {
          put("log_uploader.batch_size", value::Type::UintValue((*batch).into()));
        }
        put("workflows.enabled", value::Type::BoolValue(*flows));
        put("filter_chain.enabled", value::Type::BoolValue(*filters));
        w.flags = (*batch, *flows, *filters);
        w.flags_nonce += 1;
        l.engine &= *flows;
        if !l.engine {
          l.rejected.clear();
          w.forgets();
        }
        l.respond(Response_type::RuntimeUpdate(RuntimeUpdate { version_nonce: format!("f{}", w.flags_nonce), runtime: Some(r).into(), ..Default::default() })).await;
        l.settle(w).await?;
      },
      Op::ServerFlush(mask) => {
        if w.net != 0 || l.line.is_none() || w.unsure {
          continue;
        }
        let ids: BTreeSet<u8> = (0 .. BUFFERS).filter(|i| mask >> i & 1 == 1).collect();
        let there: BTreeSet<u8> =
          l.config.iter().flat_map(|c| &c.buffers).map(|b| b.0).filter(|b| *b >= CONTINUOUS && ids.contains(b)).collect();
        let buffer_id_list = ids.iter().map(|b| buffer_id(*b)).collect();
        w.flushed(&there, true);
        l.respond(Response_type::FlushBuffers(FlushBuffers { buffer_id_list, ..Default::default() })).await;
        l.settle(w).await?;
        l.settle(w).await?;
        obs.label("the server asks for buffers");
        l.arrives(w, |b| there.contains(&b), "when the server asked for it").await?;
      },
      Op::Flush => {
        let up = w.net == 0 && l.line.is_some() && l.engine && !w.unsure;
        l.settle(w).await?;
        l.flush(w).await?;
        // What was to be resumed is.
        w.late &= !up;
      },
      Op::Net(0) => {
        l.connect(w).await?;
        l.drain_unsure(w).await?;
      },
      Op::Net(n) => {
        if w.net == 0 {
          w.net = *n;
          if *n == 1 {
            l.hang_up().await;
            l.settle(w).await?;
          }
        }
      },
      Op::DropIntents(d) => w.drop_intents = *d,
      Op::FlushAndEnd => {
        l.settle(w).await?;
        l.only_on_thread("flush_state", |h| h.flush_state(true)).await?;
        for e in w.buffers.values_mut().flatten() {
          e.durable = true;
        }
        proper = Some(false);
        sudden = true;
        obs.label("ends as a flush returns");
        break;
      },
      Op::NewSession => l.handle.start_new_session(),
      Op::Advance(ms) => {
        tokio::time::advance(Duration::from_millis((*ms).into())).await;
        l.settle(w).await?;
      },
      Op::Restart(p) => {
        proper = Some(*p);
        break;
      },
      Op::Tear(n) => {
        let path = w.dir.path().join("config.pb");
        if let Ok(data) = std::fs::read(&path) {
          if !data.is_empty() {
            let n = usize::from(*n) % data.len();
            std::fs::write(&path, &data[.. n]).unwrap();
            w.torn = true;
          }
        }
        // It only matters to the next one.
        proper = Some(false);
        break;
      },
    }
  }
  if !sudden {
    l.settle(w).await?;
  }
  ERRORS.with(|e| {
    let e = e.borrow();
    let bad = e.iter().find(|e| !e.contains("failed to override log attributes"));
    ensure!(bad.is_none(), "reported as unexpected: {bad:?}");
    Ok(())
  })?;
  if let Some(proper) = proper {
    if proper {
      let logger = l.logger;
      let t = std::thread::spawn(move || logger.shutdown(true));
      let begun = std::time::Instant::now();
      while !t.is_finished() || !l.run.is_finished() {
        tokio::task::yield_now().await;
        std::thread::sleep(Duration::from_micros(20));
        ensure!(begun.elapsed() < Duration::from_secs(20), "the logger does not shut down");
      }
      obs.label("shut down");
    }
    w.said.0.lock().handle = None;
    w.ended();
    return Ok(true);
  }
  l.connect(w).await?;
  l.drain(w).await?;
  l.arrives(w, |_| true, "in the end").await?;
  w.said.0.lock().handle = None;
  Ok(false)
}

impl Life {
  async fn drain_unsure(&mut self, w: &mut World) -> Res {
    if w.unsure {
      self.drain(w).await?;
    }
    Ok(())
  }
}

fn exec(c: &Case, obs: &mut Obs) -> Res {
  let mut w = World {
    dir: tempfile::tempdir().map_err(other)?,
    mem: Mem::default(),
    ids: Arc::default(),
    said: Provider::default(),
    mobile: c.mobile,
    flags: (0, false, false),
    flags_nonce: 0,
    nonce: 0,
    config: None,
    torn: false,
    buffers: BTreeMap::new(),
    cursor: BTreeMap::new(),
    uploads: BTreeSet::new(),
    net: 0,
    drop_intents: false,
    unsure: false,
    burst: false,
    late: false,
    asked: false,
    without_handshake: 0,
    flushes: 0,
    clock: 0,
    received: 0,
  };
  let mut ops = &c.ops[..];
  let mut begun = false;
  loop {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).max_blocking_threads(1).build().unwrap();
    let local = tokio::task::LocalSet::new();
    let again = local.block_on(&rt, life(&mut w, c, &mut ops, &mut begun, obs));
    drop(local);
    drop(rt);
    if !again? {
      break;
    }
    obs.label("restarted");
  }
  obs.nontrivial(w.received > 2 && w.flushes > 0);
  Ok(())
}

pub fn c39(run: &mut Run) {
  UnexpectedErrorHandler::set_reporter(Arc::new(Errors));
  run.run(
    part("whole", 6_000, 120_000, "generated histories of the whole logger; non-trivial = more than two logs arrive and some buffer is flushed"),
    case,
    exec,
  );
}
