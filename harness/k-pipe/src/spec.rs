//! What is generated: configurations, logs and what happens between them.
use bd_proto::protos::config::v1::config as cfg;
use bd_proto::protos::filter::filter as flt;
use bd_proto::protos::log_matcher::log_matcher as lm;
use bd_proto::protos::workflow::workflow as wf;
use protobuf::{EnumOrUnknown, MessageField};
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};

pub const MESSAGES: [&str; 4] = ["a", "b", "c", "d"];
pub const VALUES: [&str; 3] = ["x", "y", ""];
/// Buffers below this are uploaded all the time.
pub const CONTINUOUS: u8 = 2;
pub const BUFFERS: u8 = 5;
pub fn buffer_id(i: u8) -> String {
  format!("b{i}")
}
pub fn named(mask: u8) -> Vec<String> {
  (0 .. BUFFERS).filter(|i| mask >> i & 1 == 1).map(buffer_id).collect()
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(crate = "vcommon::serde")]
pub enum P {
  Letters(u8),
  Field(u8),
}
impl P {
  fn cfg(&self) -> cfg::LogMatcher {
    use cfg::log_matcher::base_log_matcher as b;
    use cfg::log_matcher::Match_type as T;
    let base = |m| cfg::LogMatcher {
      match_type: Some(T::BaseMatcher(cfg::log_matcher::BaseLogMatcher { match_type: Some(m), ..Default::default() })),
      ..Default::default()
    };
    match self {
      P::Letters(m) => cfg::LogMatcher {
        match_type: Some(T::OrMatcher(cfg::log_matcher::MatcherList {
          matcher: (0 .. 4)
            .filter(|i| m >> i & 1 == 1)
            .map(|i| base(b::Match_type::MessageMatch(b::MessageMatch { match_type: EnumOrUnknown::from_i32(0), match_value: MESSAGES[i].to_string(), ..Default::default() })))
            .collect(),
          ..Default::default()
        })),
        ..Default::default()
      },
      P::Field(v) => base(b::Match_type::TagMatch(b::TagMatch {
        match_type: EnumOrUnknown::from_i32(0),
        tag_key: "f".into(),
        match_value: VALUES[usize::from(*v) % 3].into(),
        ..Default::default()
      })),
    }
  }
  fn log(&self) -> lm::LogMatcher {
    use lm::log_matcher::{base_log_matcher as b, BaseLogMatcher, Matcher, MatcherList};
    let base = |m| lm::LogMatcher { matcher: Some(Matcher::BaseMatcher(BaseLogMatcher { match_type: Some(m), ..Default::default() })), ..Default::default() };
    let equals = |v: &str| b::StringValueMatch { operator: b::Operator::OPERATOR_EQUALS.into(), match_value: v.to_string(), ..Default::default() };
    match self {
      P::Letters(m) => lm::LogMatcher {
        matcher: Some(Matcher::OrMatcher(MatcherList {
          log_matchers: (0 .. 4)
            .filter(|i| m >> i & 1 == 1)
            .map(|i| base(b::Match_type::MessageMatch(b::MessageMatch { string_value_match: MessageField::some(equals(MESSAGES[i])), ..Default::default() })))
            .collect(),
          ..Default::default()
        })),
        ..Default::default()
      },
      P::Field(v) => base(b::Match_type::TagMatch(b::TagMatch {
        tag_key: "f".into(),
        value_match: Some(b::tag_match::Value_match::StringValueMatch(equals(VALUES[usize::from(*v) % 3]))),
        ..Default::default()
      })),
    }
  }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(crate = "vcommon::serde")]
pub enum What {
  /// buffers to flush; to where logs go meanwhile and for how many
  Flush(u8, Option<(u8, Option<u8>)>),
  Shot,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(crate = "vcommon::serde")]
pub struct Flow {
  pub when: Vec<P>,
  pub what: What,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
#[serde(crate = "vcommon::serde")]
pub struct Cfg {
  pub buffers: Vec<(u8, Option<P>)>,
  /// set the field to a value, or remove it
  pub filters: Vec<(P, Option<u8>)>,
  pub flows: Vec<Flow>,
}
impl Cfg {
  pub fn sane(&self) -> Self {
    let mut c = self.clone();
    let mut ids = std::collections::BTreeSet::new();
    c.buffers.retain(|b| ids.insert(b.0));
    c
  }
  pub fn ids(&self, continuous: bool) -> impl Iterator<Item = String> + '_ {
    self.buffers.iter().map(|b| b.0).filter(move |b| (*b < CONTINUOUS) == continuous).map(buffer_id)
  }
  pub fn selector(&self) -> cfg::BufferConfigList {
    cfg::BufferConfigList {
      buffer_config: self
        .buffers
        .iter()
        .map(|(i, f)| cfg::BufferConfig {
          id: buffer_id(*i),
          type_: if *i < CONTINUOUS { cfg::buffer_config::Type::CONTINUOUS } else { cfg::buffer_config::Type::TRIGGER }.into(),
          filters: f
            .iter()
            .map(|f| cfg::buffer_config::BufferFilter { id: "f".into(), filter: MessageField::some(f.cfg()), ..Default::default() })
            .collect(),
          ..Default::default()
        })
        .collect(),
      ..Default::default()
    }
  }
  pub fn filters(&self) -> flt::FiltersConfiguration {
    use flt::filter::transform as t_;
    use t_::Transform_type as T;
    let filters = self
      .filters
      .iter()
      .map(|(p, t)| {
        let ty = match t {
          Some(v) => T::SetField(t_::SetField {
            name: "f".into(),
            value: MessageField::some(t_::set_field::SetFieldValue {
              value: Some(t_::set_field::set_field_value::Value::StringValue(VALUES[usize::from(*v) % 3].into())),
              ..Default::default()
            }),
            field_type: EnumOrUnknown::from_i32(1),
            allow_override: true,
            ..Default::default()
          }),
          None => T::RemoveField(t_::RemoveField { name: "f".into(), ..Default::default() }),
        };
        flt::Filter {
          matcher: MessageField::some(p.log()),
          transforms: vec![flt::filter::Transform { transform_type: Some(ty), ..Default::default() }],
          ..Default::default()
        }
      })
      .collect();
    flt::FiltersConfiguration { filters, ..Default::default() }
  }
  pub fn flows(&self) -> wf::WorkflowsConfiguration {
    use wf::workflow as w;
    use w::action::action_flush_buffers::{streaming as s_, Streaming};
    let workflows = self
      .flows
      .iter()
      .enumerate()
      .map(|(i, flow)| {
        let what = match &flow.what {
          What::Flush(mask, stream) => w::action::Action_type::ActionFlushBuffers(w::action::ActionFlushBuffers {
            id: format!("flush{i}"),
            buffer_ids: named(mask << CONTINUOUS),
            streaming: stream
              .map(|(to, most)| Streaming {
                destination_streaming_buffer_ids: named(to & 3),
                termination_criteria: most
                  .iter()
                  .map(|n| s_::TerminationCriterion {
                    type_: Some(s_::termination_criterion::Type::LogsCount(s_::termination_criterion::LogsCount { max_logs_count: u64::from(*n), ..Default::default() })),
                    ..Default::default()
                  })
                  .collect(),
                ..Default::default()
              })
              .into(),
            ..Default::default()
          }),
          What::Shot => w::action::Action_type::ActionTakeScreenshot(w::action::ActionTakeScreenshot { id: format!("shot{i}"), ..Default::default() }),
        };
        let last = flow.when.len();
        let mut states: Vec<w::State> = flow
          .when
          .iter()
          .enumerate()
          .map(|(n, p)| {
            let rule = w::Rule {
              rule_type: Some(w::rule::Rule_type::RuleLogMatch(w::RuleLogMatch { log_matcher: MessageField::some(p.log()), count: 1, ..Default::default() })),
              ..Default::default()
            };
            let actions = if n + 1 == last { vec![w::Action { action_type: Some(what.clone()), ..Default::default() }] } else { vec![] };
            w::State {
              id: format!("s{n}"),
              transitions: vec![w::Transition { target_state_id: format!("s{}", n + 1), rule: MessageField::some(rule), actions, ..Default::default() }],
              ..Default::default()
            }
          })
          .collect();
        states.push(w::State { id: format!("s{last}"), ..Default::default() });
        wf::Workflow {
          id: format!("flow{i}"),
          states,
          execution: MessageField::some(w::Execution {
            execution_type: Some(w::execution::Execution_type::ExecutionExclusive(Default::default())),
            ..Default::default()
          }),
          ..Default::default()
        }
      })
      .collect();
    wf::WorkflowsConfiguration { workflows, ..Default::default() }
  }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
pub struct LogSpec {
  pub level: u8,
  pub ty: u8,
  pub message: u8,
  pub field: Option<u8>,
  pub matching: Option<u8>,
  pub session: u8,
  /// Someone waits for it, and which of what has to be stored is stored first.
  pub blocking: Option<bool>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
pub enum Op {
  Log(LogSpec),
  Configure(Cfg),
  /// The server says what it wants, or nothing.
  Answer(Option<bool>),
  /// A flush was uploaded, or could not be.
  Uploaded(bool),
  Flags(bool, bool),
  /// Both at once.
  Change(bool, bool, Cfg),
  /// Writes to a buffer fail from here on, or no more.
  Fails(u8, u8),
  Advance(u16),
  Restart,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
pub struct Case {
  pub first: Cfg,
  pub flags: (bool, bool),
  pub stats: bool,
  pub ops: Vec<Op>,
}

fn pred() -> impl Strategy<Value = P> + Clone {
  prop_oneof![6 => (1u8 .. 16).prop_map(P::Letters), 1 => (0u8 .. 3).prop_map(P::Field)]
}
fn config() -> impl Strategy<Value = Cfg> + Clone {
  let to = (1u8 .. 4, prop::option::of(1u8 .. 6));
  let what = prop_oneof![8 => (0u8 .. 8, prop::option::weighted(0.7, to)).prop_map(|(a, b)| What::Flush(a, b)), 1 => Just(What::Shot)];
  let flow = (prop_oneof![3 => prop::collection::vec(pred(), 1), 1 => prop::collection::vec(pred(), 2 .. 4)], what).prop_map(|(when, what)| Flow { when, what });
  let filter = prop_oneof![1 => Just(None), 3 => Just(Some(P::Letters(15))), 8 => pred().prop_map(Some)];
  (
    prop::collection::vec((0u8 .. BUFFERS, filter), 1 .. 7),
    prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((pred(), prop::option::of(0u8 .. 3)), 1 .. 3)],
    prop::collection::vec(flow, 0 .. 4),
  )
    .prop_map(|(buffers, filters, flows)| Cfg { buffers, filters, flows })
}
fn log() -> impl Strategy<Value = LogSpec> + Clone {
  let value = || prop::option::weighted(0.4, 0u8 .. 3);
  (0u8 .. 5, 0u8 .. 7, 0u8 .. 4, value(), value(), prop_oneof![5 => Just(0u8), 1 => Just(1)], prop::option::weighted(0.4, any::<bool>()))
    .prop_map(|(level, ty, message, field, matching, session, blocking)| LogSpec { level, ty, message, field, matching, session, blocking })
}
pub fn case(n: usize) -> impl Strategy<Value = Case> {
  let op = prop_oneof![
    30 => log().prop_map(Op::Log),
    12 => prop_oneof![6 => Just(Some(true)), 2 => Just(Some(false)), 1 => Just(None)].prop_map(Op::Answer),
    5 => any::<bool>().prop_map(Op::Uploaded),
    2 => config().prop_map(Op::Configure),
    2 => (prop_oneof![1 => Just(false), 3 => Just(true)], any::<bool>()).prop_map(|(a, b)| Op::Flags(a, b)),
    1 => (any::<bool>(), any::<bool>(), config()).prop_map(|(a, b, c)| Op::Change(a, b, c)),
    2 => (0u8 .. BUFFERS, 0u8 .. 6).prop_map(|(a, b)| Op::Fails(a, b)),
    2 => (0u16 .. 3000).prop_map(Op::Advance),
    1 => Just(Op::Restart),
  ];
  let flags = (prop_oneof![1 => Just(false), 8 => Just(true)], any::<bool>());
  (config(), flags, prop_oneof![1 => Just(false), 4 => Just(true)], prop::collection::vec(op, 1 .. n))
    .prop_map(|(first, flags, stats, ops)| Case { first, flags, stats, ops })
}
