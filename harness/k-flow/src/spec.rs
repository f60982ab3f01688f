//! What is generated: workflows, logs and the rest of a history.
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::tag_match::Value_match;
use bd_proto::protos::log_matcher::log_matcher::log_matcher::base_log_matcher::Match_type;
use bd_proto::protos::log_matcher::log_matcher::log_matcher::{base_log_matcher, BaseLogMatcher, Matcher, MatcherList};
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use bd_proto::protos::workflow::workflow::workflow::action::action_emit_metric::{Counter, Histogram, Metric_type, Value_extractor_type};
use bd_proto::protos::workflow::workflow::workflow::action::action_flush_buffers::streaming::{termination_criterion, TerminationCriterion};
use bd_proto::protos::workflow::workflow::workflow::action::action_flush_buffers::Streaming;
use bd_proto::protos::workflow::workflow::workflow::action::tag::Tag_type;
use bd_proto::protos::workflow::workflow::workflow::action::{
  ActionEmitMetric,
  ActionEmitSankeyDiagram,
  ActionFlushBuffers,
  ActionTakeScreenshot,
  Action_type,
  Tag,
};
use bd_proto::protos::workflow::workflow::workflow::execution::Execution_type;
use bd_proto::protos::workflow::workflow::workflow::rule::Rule_type;
use bd_proto::protos::workflow::workflow::workflow::transition_extension::{
  sankey_diagram_value_extraction,
  Extension_type,
  SankeyDiagramValueExtraction,
};
use bd_proto::protos::workflow::workflow::workflow::{
  Action as ActionProto,
  Execution,
  FieldExtracted,
  LimitDuration,
  LimitMatchedLogsCount,
  Rule,
  RuleLogMatch,
  State as StateProto,
  Transition as TransitionProto,
  TransitionExtension,
};
use bd_proto::protos::workflow::workflow::Workflow as WorkflowProto;
use protobuf::MessageField;
use serde::{Deserialize, Serialize};

/// A message is a letter, a field has one of a few values.
pub const LETTERS: [&str; 4] = ["a", "b", "c", "d"];
const VALUES: [&str; 6] = ["1;", "2", "-3", "2.5", " 2", "7e2"];
/// Of which some make others when they are put together.
const PIECES: [&str; 6] = ["a", "b", "ab", "ba", "aa", ""];
pub const PIECE: u8 = 100;
pub fn text(v: u8) -> &'static str {
  if v >= PIECE { PIECES[usize::from(v - PIECE) % PIECES.len()] } else { VALUES[usize::from(v) % VALUES.len()] }
}
pub const BUFFERS: [&str; 6] = ["t0", "t1", "t2", "c0", "c1", "c2"];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Pred {
  /// Any of these letters.
  Letters(u8),
  NotLetters(u8),
  Field(u8),
}
impl Pred {
  pub fn holds(&self, log: &LogSpec) -> bool {
    match self {
      Self::Letters(m) => m >> (log.letter % 4) & 1 == 1,
      Self::NotLetters(m) => m >> (log.letter % 4) & 1 == 0,
      Self::Field(v) => log.field.map(|f| text(f)) == Some(text(*v)),
    }
  }

  fn proto(&self) -> LogMatcher {
    let base = |m| LogMatcher {
      matcher: Some(Matcher::BaseMatcher(BaseLogMatcher { match_type: Some(m), ..Default::default() })),
      ..Default::default()
    };
    let equals = |v: &str| base_log_matcher::StringValueMatch {
      operator: base_log_matcher::Operator::OPERATOR_EQUALS.into(),
      match_value: v.to_string(),
      ..Default::default()
    };
    let any = |m: u8| LogMatcher {
      matcher: Some(Matcher::OrMatcher(MatcherList {
        log_matchers: (0 .. 4)
          .filter(|i| m >> i & 1 == 1)
          .map(|i| {
            base(Match_type::MessageMatch(base_log_matcher::MessageMatch {
              string_value_match: MessageField::some(equals(LETTERS[i])),
              ..Default::default()
            }))
          })
          .collect(),
        ..Default::default()
      })),
      ..Default::default()
    };
    match self {
      Self::Letters(m) => any(*m),
      Self::NotLetters(m) => LogMatcher { matcher: Some(Matcher::NotMatcher(Box::new(any(*m)))), ..Default::default() },
      Self::Field(v) => base(Match_type::TagMatch(base_log_matcher::TagMatch {
        tag_key: "f".into(),
        value_match: Some(Value_match::StringValueMatch(equals(text(*v)))),
        ..Default::default()
      })),
    }
  }
}

/// A fixed text or the value of the field.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Value {
  Fixed(u8),
  Field,
  Level,
  Type,
}
impl Value {
  pub fn of(&self, log: &LogSpec) -> Option<String> {
    match self {
      Self::Fixed(v) => Some(format!("v{v};")),
      Self::Field => log.field.map(|f| text(f).into()),
      Self::Level => Some((log.letter % 5).to_string()),
      Self::Type => Some((log.letter % 3).to_string()),
    }
  }
}
fn extracted(v: &Value) -> FieldExtracted {
  FieldExtracted { field_name: match v { Value::Field => "f", Value::Type => "log_type", _ => "log_level" }.into(), ..Default::default() }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Metric {
  pub id: u8,
  pub counter: bool,
  pub fixed: Option<u32>,
  pub tags: Vec<Value>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
  Metric(Metric),
  Sankey(u8, Vec<Value>),
  Screenshot(u8),
  Flush(usize),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Tr {
  pub target: usize,
  pub pred: Pred,
  pub count: u32,
  pub acts: Vec<Act>,
  /// Which diagram, the value, and whether it counts.
  pub nodes: Vec<(u8, Value, bool)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Wf {
  pub id: u8,
  pub exclusive: bool,
  pub states: Vec<Vec<Tr>>,
  pub logs_limit: Option<u32>,
  pub ms_limit: Option<u64>,
  pub sankey_limits: [u32; 2],
  /// Makes it impossible to understand.
  pub bad: Option<u8>,
}

/// One that flushes buffers: of `t0` ..; streams to of `c0` .., up to a number of logs.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FlushSpec {
  pub buffers: u8,
  pub streaming: Option<(u8, Option<u64>)>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LogSpec {
  pub letter: u8,
  pub field: Option<u8>,
  pub session: u8,
  pub ms: i16,
  pub dest: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
  Log(LogSpec),
  /// Which workflows and which buffers there are from now on.
  Update(Vec<usize>, u8),
  /// An answer to the question whether to upload: yes, no, or none at all.
  Answer(Option<bool>),
  /// A flush is done, or given up.
  Flushed(usize, bool),
  /// With what was stored last, or with everything.
  Restart(bool),
  /// Another limit of active traversals, from the next restart on.
  Limit(u32),
  /// At once; or so many milliseconds later, if it is time.
  Persist(Option<u16>),
}

/// What happens to the stored state: where (of 1000), and what.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wound {
  Byte(u16, u8),
  Word(u16, u64),
  Cut(u16),
  Insert(u16, Vec<u8>),
}
impl Wound {
  pub fn inflict(&self, b: &mut Vec<u8>) {
    let at = |p: u16, n: usize| n * usize::from(p) / 1000;
    match self {
      Self::Byte(p, v) => {
        let i = at(*p, b.len());
        if let Some(x) = b.get_mut(i) {
          *x = *v;
        }
      },
      Self::Word(p, v) => {
        let i = at(*p, b.len());
        if i + 8 <= b.len() {
          b[i .. i + 8].copy_from_slice(&v.to_le_bytes());
        }
      },
      Self::Cut(p) => b.truncate(at(*p, b.len())),
      Self::Insert(p, v) => {
        let i = at(*p, b.len());
        b.splice(i .. i, v.iter().copied());
      },
    }
  }
}

/// A history, damage to what it left behind or other workflows under the same ids, and what comes then.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hurt {
  pub before: Case,
  /// Of active traversals, after the restart.
  pub limit: u32,
  pub wounds: Vec<Wound>,
  pub others: Option<Vec<Wf>>,
  pub after: Vec<LogSpec>,
  pub fresh: Vec<LogSpec>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
  pub wfs: Vec<Wf>,
  pub flushes: Vec<FlushSpec>,
  pub limit: u32,
  pub buffers: u8,
  /// Answers to what is asked about diagrams: upload, drop, no answer; and uploads that get no answer.
  pub sankey_answers: Vec<u8>,
  pub ops: Vec<Op>,
}

pub fn names(mask: u8, trigger: bool) -> Vec<String> {
  (0 .. 6).filter(|i| mask >> i & 1 == 1 && (*i < 3) == trigger).map(|i| BUFFERS[i].to_string()).collect()
}

impl Wf {
  pub fn name(&self) -> String {
    format!("w{}", self.id)
  }

  /// Whether there is an action that emits the diagram.
  pub fn emits(&self, sankey: u8) -> bool {
    self.states.iter().flatten().flat_map(|t| &t.acts).any(|a| matches!(a, Act::Sankey(s, _) if *s == sankey))
  }

  pub fn target(&self, from: usize, t: &Tr) -> usize {
    // Never back to the first one.
    let _ = from;
    if self.states.len() == 1 { 0 } else { 1 + t.target % (self.states.len() - 1) }
  }

  pub fn proto(&self, flushes: &[FlushSpec]) -> WorkflowProto {
    let tags = |tags: &[Value]| {
      tags
        .iter()
        .enumerate()
        .map(|(i, v)| Tag {
          name: format!("k{i}"),
          tag_type: Some(match v {
            Value::Fixed(_) => Tag_type::FixedValue(v.of(&LogSpec { letter: 0, field: None, session: 0, ms: 0, dest: 0 }).unwrap()),
            _ => Tag_type::FieldExtracted(extracted(v)),
          }),
          ..Default::default()
        })
        .collect::<Vec<_>>()
    };
    let states = self
      .states
      .iter()
      .enumerate()
      .map(|(i, trs)| StateProto {
        id: format!("s{i}"),
        transitions: trs
          .iter()
          .map(|t| TransitionProto {
            target_state_id: if self.bad == Some(1) { "s99".into() } else { format!("s{}", self.target(i, t)) },
            rule: if self.bad == Some(2) {
              MessageField::none()
            } else {
              MessageField::some(Rule {
                rule_type: Some(Rule_type::RuleLogMatch(RuleLogMatch {
                  log_matcher: MessageField::some(t.pred.proto()),
                  count: t.count,
                  ..Default::default()
                })),
                ..Default::default()
              })
            },
            actions: t
              .acts
              .iter()
              .map(|a| ActionProto {
                action_type: (self.bad != Some(3)).then(|| match a {
                  Act::Metric(m) => Action_type::ActionEmitMetric(ActionEmitMetric {
                    id: format!("m{}", m.id),
                    tags: tags(&m.tags),
                    metric_type: Some(if m.counter { Metric_type::Counter(Counter::default()) } else { Metric_type::Histogram(Histogram::default()) }),
                    value_extractor_type: Some(match m.fixed {
                      Some(n) => Value_extractor_type::Fixed(n),
                      None => Value_extractor_type::FieldExtracted(extracted(&Value::Field)),
                    }),
                    ..Default::default()
                  }),
                  Act::Sankey(s, t) => Action_type::ActionEmitSankeyDiagram(ActionEmitSankeyDiagram {
                    id: format!("d{s}"),
                    limit: self.sankey_limits[*s as usize],
                    tags: tags(t),
                    ..Default::default()
                  }),
                  Act::Screenshot(n) => Action_type::ActionTakeScreenshot(ActionTakeScreenshot { id: format!("p{n}"), ..Default::default() }),
                  Act::Flush(f) => {
                    let f = f % flushes.len();
                    Action_type::ActionFlushBuffers(ActionFlushBuffers {
                      id: format!("f{f}"),
                      buffer_ids: names(flushes[f].buffers, true),
                      streaming: flushes[f]
                        .streaming
                        .map(|(to, max)| Streaming {
                          destination_streaming_buffer_ids: names(to, false),
                          termination_criteria: max
                            .iter()
                            .map(|n| TerminationCriterion {
                              type_: Some(termination_criterion::Type::LogsCount(termination_criterion::LogsCount {
                                max_logs_count: *n,
                                ..Default::default()
                              })),
                              ..Default::default()
                            })
                            .collect(),
                          ..Default::default()
                        })
                        .into(),
                      ..Default::default()
                    })
                  },
                }),
                ..Default::default()
              })
              .collect(),
            extensions: t
              .nodes
              .iter()
              .filter(|(s, ..)| self.emits(*s))
              .map(|(s, v, counts)| TransitionExtension {
                extension_type: Some(Extension_type::SankeyDiagramValueExtraction(SankeyDiagramValueExtraction {
                  sankey_diagram_id: format!("d{s}"),
                  counts_toward_sankey_extraction_limit: *counts,
                  value_type: Some(match v {
                    Value::Fixed(_) => sankey_diagram_value_extraction::Value_type::Fixed(
                      v.of(&LogSpec { letter: 0, field: None, session: 0, ms: 0, dest: 0 }).unwrap(),
                    ),
                    _ => sankey_diagram_value_extraction::Value_type::FieldExtracted(extracted(v)),
                  }),
                  ..Default::default()
                })),
                ..Default::default()
              })
              .collect(),
            ..Default::default()
          })
          .collect(),
        ..Default::default()
      })
      .collect();
    WorkflowProto {
      id: self.name(),
      states: if self.bad == Some(0) { vec![] } else { states },
      execution: if self.bad == Some(4) {
        MessageField::none()
      } else {
        MessageField::some(Execution {
          execution_type: Some(if self.exclusive {
            Execution_type::ExecutionExclusive(Default::default())
          } else {
            Execution_type::ExecutionParallel(Default::default())
          }),
          ..Default::default()
        })
      },
      limit_matched_logs_count: self
        .logs_limit
        .map(|count| LimitMatchedLogsCount { count: if self.bad == Some(5) { 0 } else { count }, ..Default::default() })
        .into(),
      limit_duration: self
        .ms_limit
        .map(|duration_ms| LimitDuration { duration_ms: if self.bad == Some(6) { 0 } else { duration_ms }, ..Default::default() })
        .into(),
      ..Default::default()
    }
  }

  /// Whether it can be understood.
  pub fn good(&self) -> bool {
    match self.bad {
      None => true,
      Some(0) | Some(4) => false,
      Some(1) | Some(2) => self.states.iter().all(Vec::is_empty),
      Some(3) => self.states.iter().flatten().all(|t| t.acts.is_empty()),
      Some(5) => self.logs_limit.is_none(),
      Some(6) => self.ms_limit.is_none(),
      _ => true,
    }
  }
}
