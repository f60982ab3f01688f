//! C18: workflow log matching. C19: buffer selection.
use crate::logs::{self, key, log, version, L};
use crate::rx::{rx, word, Rx};
use bd_log_matcher::matcher::Tree;
use bd_log_primitives::{FieldsRef, LogRef};
use bd_proto::protos::log_matcher::log_matcher::log_matcher as p;
use bd_proto::protos::log_matcher::log_matcher::LogMatcher;
use p::base_log_matcher::{self as b, tag_match::Value_match, Match_type, Operator};
use protobuf::{EnumOrUnknown, Message};
use serde::{Deserialize, Serialize};
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Run};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Val {
  Text(String),
  Rx(Rx),
  /// Not a regular expression.
  Bad,
}
impl Val {
  fn text(&self) -> String {
    match self {
      Val::Text(s) => s.clone(),
      Val::Rx(r) => r.text(),
      Val::Bad => "(a".to_string(),
    }
  }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum M {
  Message(i32, Val),
  Tag(String, i32, Val),
  Int(String, i32, i32),
  Version(String, i32, Val),
  IsSet(String),
  Or(Vec<M>),
  And(Vec<M>),
  Not(Box<M>),
  Missing(u8),
}
const LT: i32 = Operator::OPERATOR_LESS_THAN as i32;
const LE: i32 = Operator::OPERATOR_LESS_THAN_OR_EQUAL as i32;
const EQ: i32 = Operator::OPERATOR_EQUALS as i32;
const GT: i32 = Operator::OPERATOR_GREATER_THAN as i32;
const GE: i32 = Operator::OPERATOR_GREATER_THAN_OR_EQUAL as i32;
const NE: i32 = Operator::OPERATOR_NOT_EQUALS as i32;
const RX: i32 = Operator::OPERATOR_REGEX as i32;

fn op<O: protobuf::Enum>(i: i32) -> EnumOrUnknown<O> {
  EnumOrUnknown::from_i32(i)
}

impl M {
  pub fn config(&self) -> LogMatcher {
    let string = |o: &i32, v: &Val| b::StringValueMatch { operator: op(*o), match_value: v.text(), ..Default::default() };
    let tag = |k: &String, v: Option<Value_match>| Match_type::TagMatch(b::TagMatch { tag_key: k.clone(), value_match: v, ..Default::default() });
    let base = |m: Option<Match_type>| p::Matcher::BaseMatcher(p::BaseLogMatcher { match_type: m, ..Default::default() });
    let list = |v: &Vec<M>| p::MatcherList { log_matchers: v.iter().map(M::config).collect(), ..Default::default() };
    let matcher = match self {
      M::Message(o, v) => {
        base(Some(Match_type::MessageMatch(b::MessageMatch { string_value_match: Some(string(o, v)).into(), ..Default::default() })))
      },
      M::Tag(k, o, v) => base(Some(tag(k, Some(Value_match::StringValueMatch(string(o, v)))))),
      M::Int(k, o, v) => base(Some(tag(
        k,
        Some(Value_match::IntValueMatch(b::IntValueMatch { operator: op(*o), match_value: *v, ..Default::default() })),
      ))),
      M::Version(k, o, v) => base(Some(tag(
        k,
        Some(Value_match::SemVerValueMatch(b::SemVerValueMatch { operator: op(*o), match_value: v.text(), ..Default::default() })),
      ))),
      M::IsSet(k) => base(Some(tag(k, Some(Value_match::IsSetMatch(b::IsSetMatch::default()))))),
      M::Or(v) => p::Matcher::OrMatcher(list(v)),
      M::And(v) => p::Matcher::AndMatcher(list(v)),
      M::Not(m) => p::Matcher::NotMatcher(Box::new(m.config())),
      M::Missing(0) => return LogMatcher::default(),
      M::Missing(1) => base(None),
      M::Missing(2) => base(Some(Match_type::MessageMatch(b::MessageMatch::default()))),
      M::Missing(_) => base(Some(tag(&"k0".to_string(), None))),
    };
    LogMatcher { matcher: Some(matcher), ..Default::default() }
  }
  pub fn valid(&self) -> bool {
    let text = |o: &i32, v: &Val| [LT, LE, EQ, GT, GE, NE].contains(o) || *o == RX && *v != Val::Bad;
    match self {
      M::Message(o, v) | M::Tag(_, o, v) | M::Version(_, o, v) => text(o, v),
      M::Int(k, o, v) if k == "log_type" => *o == EQ && *v >= 0,
      M::Int(_, o, _) => [LT, LE, EQ, GT, GE, NE].contains(o),
      M::IsSet(_) => true,
      M::Or(v) | M::And(v) => v.iter().all(M::valid),
      M::Not(m) => m.valid(),
      M::Missing(_) => false,
    }
  }
  /// `field` looks a field up; level and type are known to the fields too when matching a whole log.
  pub fn eval(&self, l: &L, field: &dyn Fn(&str) -> Option<String>) -> bool {
    let rec = |m: &M| m.eval(l, field);
    match self {
      M::Message(o, v) => l.message.text().is_some_and(|t| text_op(*o, t, v)),
      M::Tag(k, o, v) => field(k).is_some_and(|t| text_op(*o, &t, v)),
      M::Int(k, o, v) if k == "log_level" => l.level <= i32::MAX as u32 && ord_op(*o, i64::from(l.level).cmp(&i64::from(*v))),
      M::Int(k, _, v) if k == "log_type" => i64::from(l.ty) == i64::from(*v),
      M::Int(k, o, v) => field(k).and_then(|t| t.parse::<f64>().ok()).is_some_and(|f| {
        let whole = f.trunc().clamp(-2_147_483_648.0, 2_147_483_647.0);
        ord_op(*o, whole.partial_cmp(&f64::from(*v)).unwrap())
      }),
      M::Version(k, o, v) => field(k).is_some_and(|t| match v {
        Val::Rx(r) if *o == RX => r.matches(&t),
        v => ord_op(*o, version_cmp(&t, &v.text())),
      }),
      M::IsSet(k) => field(k).is_some(),
      M::Or(v) => v.iter().any(rec),
      M::And(v) => v.iter().all(rec),
      M::Not(m) => !rec(m),
      M::Missing(_) => unreachable!(),
    }
  }
}
fn ord_op(o: i32, c: std::cmp::Ordering) -> bool {
  use std::cmp::Ordering::{Equal, Greater, Less};
  match o {
    LT => c == Less,
    LE => c != Greater,
    EQ => c == Equal,
    GT => c == Greater,
    GE => c != Less,
    NE => c != Equal,
    _ => unreachable!(),
  }
}
fn text_op(o: i32, t: &str, v: &Val) -> bool {
  match v {
    Val::Rx(r) if o == RX => r.matches(t),
    v => ord_op(o, t.as_bytes().cmp(v.text().as_bytes())),
  }
}
/// Dot-separated parts, whole numbers by value and everything else as text, padded with zeros;
/// whatever follows a hyphen or plus sign does not count.
fn version_cmp(a: &str, b: &str) -> std::cmp::Ordering {
  fn parts(s: &str) -> Vec<Result<u32, String>> {
    let end = s.find(['-', '+']).unwrap_or(s.len());
    s[.. end]
      .split('.')
      .map(|p| if !p.is_empty() && p.bytes().all(|b| b.is_ascii_digit()) { p.parse().map_err(|_| p.to_string()) } else { Err(p.to_string()) })
      .collect()
  }
  let (mut a, mut b) = (parts(a), parts(b));
  let n = a.len().max(b.len());
  a.resize(n, Ok(0));
  b.resize(n, Ok(0));
  let text = |p: &Result<u32, String>| p.clone().map_or_else(|s| s, |n| n.to_string());
  for (x, y) in a.iter().zip(&b) {
    let c = match (x, y) {
      (Ok(x), Ok(y)) => x.cmp(y),
      _ => text(x).cmp(&text(y)),
    };
    if c.is_ne() {
      return c;
    }
  }
  std::cmp::Ordering::Equal
}

/// (operator, value) pairs; `plain` generates values for the operators other than regex.
fn operand(plain: BoxedStrategy<String>) -> impl Strategy<Value = (i32, Val)> + Clone {
  prop_oneof![
    60 => (prop::sample::select(vec![LT, LE, EQ, GT, GE, NE]), plain.prop_map(Val::Text)),
    25 => (Just(RX), rx().prop_map(Val::Rx)),
    1 => prop::sample::select(vec![(RX, Val::Bad), (0, Val::Text("a".into())), (99, Val::Text("a".into()))]),
  ]
}
pub fn matcher() -> impl Strategy<Value = M> + Clone {
  let leaf = prop_oneof![
    20 => operand(word().boxed()).prop_map(|(o, v)| M::Message(o, v)),
    30 => (key(), operand(logs::text().boxed())).prop_map(|(k, (o, v))| M::Tag(k, o, v)),
    20 => (key(), prop::sample::select(vec![LT, LE, EQ, GT, GE, NE]), prop_oneof![8 => -5i32 .. 20, 1 => any::<i32>()])
      .prop_map(|(k, o, v)| M::Int(k, o, v)),
    8 => (prop::sample::select(vec![LT, LE, EQ, GT, GE, NE]), 0i32 .. 6).prop_map(|(o, v)| M::Int("log_level".into(), o, v)),
    4 => (0i32 .. 9).prop_map(|v| M::Int("log_type".into(), EQ, v)),
    1 => (key(), prop::sample::select(vec![RX, 99])).prop_map(|(k, o)| M::Int(k, o, 1)),
    20 => (key(), operand(version().boxed())).prop_map(|(k, (o, v))| M::Version(k, o, v)),
    10 => key().prop_map(M::IsSet),
    1 => (0u8 .. 4).prop_map(M::Missing),
  ]
  // The operator of a log type leaf other than equality has no meaning.
  .prop_map(|m| match m {
    M::Int(k, o, v) if k == "log_type" && o != EQ => M::Int("k0".into(), o, v),
    m => m,
  });
  leaf.prop_recursive(3, 10, 3, |inner| {
    prop_oneof![
      prop::collection::vec(inner.clone(), 0 .. 4).prop_map(M::Or),
      prop::collection::vec(inner.clone(), 0 .. 4).prop_map(M::And),
      inner.prop_map(|m| M::Not(Box::new(m))),
    ]
  })
}

/// Almost `s`.
fn almost(s: &str, how: u8, c: char) -> String {
  let mut v: Vec<char> = s.chars().collect();
  match how % 10 {
    0 => return s.to_uppercase(),
    1 => return s.to_lowercase(),
    2 => v.push(c),
    3 => v.insert(0, c),
    4 => drop(v.pop()),
    5 if !v.is_empty() => drop(v.remove(0)),
    6 => return format!("{s}{s}"),
    7 => return format!("{s}\n"),
    8 => v.reverse(),
    _ => (),
  }
  v.into_iter().collect()
}
fn spelled(v: i64, how: u8) -> String {
  match how % 9 {
    0 => format!("{v}.0"),
    1 => format!("{v}.5"),
    2 => format!("{v}.999999"),
    3 => format!("+{v}"),
    4 => format!("{v}e0"),
    5 => format!("{v}0e-1"),
    6 => format!("0{v}"),
    _ => v.to_string(),
  }
}
fn near() -> impl Strategy<Value = Case> + Clone {
  const OPS: [i32; 6] = [LT, LE, EQ, GT, GE, NE];
  let log = |v: String, message: bool| L {
    level: 1,
    ty: 0,
    message: logs::V::S(if message { v.clone() } else { String::new() }),
    fields: if message { Default::default() } else { [("k0".to_string(), logs::V::S(v))].into() },
    matching: Default::default(),
  };
  let base = prop_oneof![logs::text(), "[a-cA-C1é.+-]{1,6}", version(), "[a-b]{60,70}"];
  let texts = (prop::sample::select(OPS.to_vec()), base, prop::collection::vec((any::<u8>(), prop::sample::select(vec![' ', 'a', 'A', '0', '.', '+', '-', '\u{0}', 'é'])), 1 .. 5), 0u8 .. 3)
    .prop_map(move |(o, s, near, kind)| {
      let mut logs = vec![log(s.clone(), kind == 0)];
      logs.extend(near.into_iter().map(|(how, c)| log(almost(&s, how, c), kind == 0)));
      let v = Val::Text(s);
      let m = match kind {
        0 => M::Message(o, v),
        1 => M::Tag("k0".into(), o, v),
        _ => M::Version("k0".into(), o, v),
      };
      Case { m, logs }
    });
  let numbers = (prop::sample::select(OPS.to_vec()), prop_oneof![any::<i32>(), -3i32 .. 4, prop::sample::select(vec![i32::MAX, i32::MIN, 16_777_216, -16_777_216])], prop::collection::vec((-2i64 .. 3, any::<u8>()), 1 .. 6))
    .prop_map(move |(o, v, near)| Case {
      m: M::Int("k0".into(), o, v),
      logs: near.into_iter().map(|(d, how)| log(spelled(i64::from(v) + d, how), false)).collect(),
    });
  prop_oneof![texts, numbers]
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  m: M,
  logs: Vec<L>,
}
pub fn c18(run: &mut Run) {
  run.run(
    part(
      "trees",
      60_000,
      1_500_000,
      "matcher trees of all leaf kinds and operators, a few of them invalid, against logs with text, binary, numeric and version values in \
       captured and matching-only fields; the expected outcome comes from an own evaluator with its own regular expression engine; \
       non-trivial = the tree matches one of the logs and not another",
    ),
    || (matcher(), prop::collection::vec(log(), 1 .. 7)).prop_map(|(m, logs)| Case { m, logs }),
    tree_case,
  );
  run.run(
    part(
      "near",
      30_000,
      700_000,
      "single conditions against values that are almost the operand: other case, an added, missing or doubled character, neighbouring \
       numbers in several spellings; non-trivial = the condition matches one of the logs and not another",
    ),
    near,
    tree_case,
  );
  run.run(
    part(
      "versions",
      60_000,
      1_500_000,
      "pairs of version texts under every operator; non-trivial = the versions differ in their number of parts or have a suffix",
    ),
    || (version(), version()),
    |(x, y), obs| {
      obs.nontrivial(x.matches('.').count() != y.matches('.').count() || x.contains(['-', '+']));
      let c = version_cmp(x, y);
      let (captured, none) = (vec![bd_log_primitives::LogField { key: "k".into(), value: x.as_str().into() }], vec![]);
      for o in [LT, LE, EQ, GT, GE, NE] {
        let m = Tree::new(&M::Version("k".into(), o, Val::Text(y.clone())).config()).map_err(|e| Fail::new(format!("{e}")))?;
        let got = m.do_match(1, bd_log_primitives::LogType(0), &"".into(), &FieldsRef::new(&captured, &none));
        ensure_eq!(got, ord_op(o, c), "version {x:?} against operator {o} and {y:?}");
      }
      Ok(())
    },
  );
}
fn tree_case(case: &Case, obs: &mut Obs) -> Result<(), Fail> {
  let config = case.m.config();
  let tree = Tree::new(&config);
  if !case.m.valid() {
    obs.label("invalid");
    ensure!(tree.is_err(), "an invalid matcher was accepted");
    return Ok(());
  }
  let tree = tree.map_err(|e| Fail::new(format!("a valid matcher was rejected: {e}")))?;
  ensure!(tree == Tree::new(&config).unwrap(), "compiling a matcher twice gives different trees");
  let wire = LogMatcher::parse_from_bytes(&config.write_to_bytes().unwrap()).unwrap();
  ensure!(Tree::new(&wire).is_ok_and(|t| t == tree), "the tree of a transmitted matcher differs");
  let (mut yes, mut no) = (false, false);
  for l in &case.logs {
    let real = l.real();
    let fields = FieldsRef::new(&real.fields, &real.matching_fields);
    let got = tree.do_match(real.log_level, real.log_type, &real.message, &fields);
    let want = case.m.eval(l, &|k| l.field(k));
    ensure_eq!(got, want, "match of {l:?} by its fields");
    if want {
      yes = true;
    } else {
      no = true;
    }
    let log_ref = LogRef {
      log_type: real.log_type,
      log_level: real.log_level,
      message: &real.message,
      fields: &fields,
      session_id: "s",
      occurred_at: real.occurred_at,
    };
    let got = tree.do_match(real.log_level, real.log_type, &real.message, &log_ref);
    let want = case.m.eval(l, &|k| match k {
      "log_level" => Some(l.level.to_string()),
      "log_type" => Some(l.ty.to_string()),
      k => l.field(k),
    });
    ensure_eq!(got, want, "match of {l:?} as a whole");
  }
  obs.nontrivial(yes && no);
  Ok(())
}

// ---------------------------------------------------------------------------------------------
// C19

use bd_proto::protos::config::v1::config as cfg;
use cfg::log_matcher::base_log_matcher::{self as cb};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum B {
  Level(i32, i32),
  Message(i32, Val),
  Tag(String, i32, Val),
  Type(u32),
  Any,
  Or(Vec<B>),
  And(Vec<B>),
  Not(Box<B>),
  Missing(bool),
}
impl B {
  fn config(&self) -> cfg::LogMatcher {
    use cfg::log_matcher::Match_type as T;
    let base = |m| T::BaseMatcher(cfg::log_matcher::BaseLogMatcher { match_type: m, ..Default::default() });
    let list = |v: &Vec<B>| cfg::log_matcher::MatcherList { matcher: v.iter().map(B::config).collect(), ..Default::default() };
    let m = match self {
      B::Level(o, l) => base(Some(cb::Match_type::LogLevelMatch(cb::LogLevelMatch { operator: op(*o), log_level: op(*l), ..Default::default() }))),
      B::Message(t, v) => {
        base(Some(cb::Match_type::MessageMatch(cb::MessageMatch { match_type: op(*t), match_value: v.text(), ..Default::default() })))
      },
      B::Tag(k, t, v) => base(Some(cb::Match_type::TagMatch(cb::TagMatch {
        match_type: op(*t),
        tag_key: k.clone(),
        match_value: v.text(),
        ..Default::default()
      }))),
      B::Type(t) => base(Some(cb::Match_type::TypeMatch(cb::TypeMatch { type_: *t, ..Default::default() }))),
      B::Any => base(Some(cb::Match_type::AnyMatch(cb::AnyMatch::default()))),
      B::Or(v) => T::OrMatcher(list(v)),
      B::And(v) => T::AndMatcher(list(v)),
      B::Not(m) => T::NotMatcher(Box::new(m.config())),
      B::Missing(true) => base(None),
      B::Missing(false) => return cfg::LogMatcher::default(),
    };
    cfg::LogMatcher { match_type: Some(m), ..Default::default() }
  }
  fn valid(&self) -> bool {
    match self {
      B::Level(o, l) => (0 .. 5).contains(o) && *l >= 0,
      B::Message(t, v) | B::Tag(_, t, v) => (0 .. 2).contains(t) || *t == 2 && *v != Val::Bad,
      B::Type(_) | B::Any => true,
      B::Or(v) | B::And(v) => v.iter().all(B::valid),
      B::Not(m) => m.valid(),
      B::Missing(_) => false,
    }
  }
  fn eval(&self, l: &L) -> bool {
    let text = |t: i32, s: &str, v: &Val| match (t, v) {
      (0, v) => s == v.text(),
      (1, v) => s.as_bytes().starts_with(v.text().as_bytes()),
      (_, Val::Rx(r)) => r.matches(s),
      _ => unreachable!(),
    };
    match self {
      B::Level(o, v) => {
        let (l, v) = (i64::from(l.level), i64::from(*v));
        [l < v, l <= v, l == v, l > v, l >= v][*o as usize]
      },
      B::Message(t, v) => l.message.text().is_some_and(|s| text(*t, s, v)),
      B::Tag(k, t, v) => l.field(k).is_some_and(|s| text(*t, &s, v)),
      B::Type(t) => *t == l.ty,
      B::Any => true,
      B::Or(v) => v.iter().any(|m| m.eval(l)),
      B::And(v) => v.iter().all(|m| m.eval(l)),
      B::Not(m) => !m.eval(l),
      B::Missing(_) => unreachable!(),
    }
  }
}
fn bmatcher() -> impl Strategy<Value = B> + Clone {
  let operand = || {
    prop_oneof![
      30 => (0i32 .. 2, logs::text()).prop_map(|(t, s)| (t, Val::Text(s))),
      15 => rx().prop_map(|r| (2, Val::Rx(r))),
      1 => Just((2, Val::Bad)),
    ]
  };
  let leaf = prop_oneof![
    20 => (0i32 .. 5, 0i32 .. 6).prop_map(|(a, b)| B::Level(a, b)),
    1 => prop::sample::select(vec![B::Level(7, 1), B::Level(1, -1), B::Message(9, Val::Text(String::new())), B::Missing(true), B::Missing(false)]),
    20 => operand().prop_map(|(t, v)| B::Message(t, v)),
    20 => (key(), operand()).prop_map(|(k, (t, v))| B::Tag(k, t, v)),
    10 => (0u32 .. 9).prop_map(B::Type),
    5 => Just(B::Any),
  ];
  leaf.prop_recursive(3, 8, 3, |inner| {
    prop_oneof![
      prop::collection::vec(inner.clone(), 0 .. 4).prop_map(B::Or),
      prop::collection::vec(inner.clone(), 0 .. 4).prop_map(B::And),
      inner.prop_map(|m| B::Not(Box::new(m))),
    ]
  })
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Select {
  /// Per buffer: its id, and its filters (None = a filter without a matcher).
  buffers: Vec<(String, Vec<Option<B>>)>,
  logs: Vec<L>,
  #[serde(default)]
  named: bool,
}
/// One or two buffers, and logs that almost have what a condition names.
fn near_selection() -> impl Strategy<Value = Select> + Clone {
  let log = |v: String, message: bool| L {
    level: 1,
    ty: 0,
    message: logs::V::S(if message { v.clone() } else { String::new() }),
    fields: if message { Default::default() } else { [("k0".to_string(), logs::V::S(v))].into() },
    matching: Default::default(),
  };
  let base = prop_oneof![logs::text(), "[a-cA-C1é.+-]{1,6}", "[a-b]{60,70}"];
  let c = prop::sample::select(vec![' ', 'a', 'A', '0', '.', '\u{0}', 'é']);
  let one = (base, 0i32 .. 2, any::<bool>(), prop::collection::vec((any::<u8>(), c), 1 .. 5)).prop_map(move |(s, t, message, near)| {
    let mut logs = vec![log(s.clone(), message)];
    logs.extend(near.into_iter().map(|(how, c)| log(almost(&s, how, c), message)));
    let v = Val::Text(s);
    (if message { B::Message(t, v) } else { B::Tag("k0".into(), t, v) }, logs)
  });
  (one, any::<bool>(), prop::option::weighted(0.3, bmatcher())).prop_map(|((m, logs), named, other)| {
    let mut filters = vec![Some(m)];
    filters.extend(other.map(Some));
    Select { buffers: vec![("b0".into(), filters), ("b1".into(), vec![])], logs, named }
  })
}
pub fn c19(run: &mut Run) {
  run.run(
    part(
      "near",
      30_000,
      700_000,
      "a buffer whose condition names a text, and logs whose text is almost that one; non-trivial = some log selects some but not all buffers",
    ),
    near_selection,
    selection,
  );
  run.run(
    part(
      "selection",
      40_000,
      800_000,
      "buffer lists with filters of all kinds (a few invalid) against generated logs; the set of selected buffers must be that of an own \
       evaluator; non-trivial = some log selects some but not all buffers",
    ),
    || {
      let filter = prop_oneof![9 => bmatcher().prop_map(Some), 1 => Just(None)];
      let buffer = ("b[0-4]", prop::collection::vec(filter, 0 .. 3));
      (prop::collection::vec(buffer, 0 .. 5), prop::collection::vec(log(), 1 .. 5), any::<bool>())
        .prop_map(|(buffers, logs, named)| Select { buffers, logs, named })
    },
    selection,
  );
}
fn selection(case: &Select, obs: &mut Obs) -> Result<(), Fail> {
  let config = cfg::BufferConfigList {
    buffer_config: case
      .buffers
      .iter()
      .map(|(id, fs)| cfg::BufferConfig {
        name: format!("name of {id}"),
        id: id.clone(),
        filters: fs
          .iter()
          .enumerate()
          .map(|(i, f)| cfg::buffer_config::BufferFilter {
            // Names of filters say nothing; some are equal or missing.
            id: ["f", "", "g"][(i + fs.len()) % 3 * usize::from(case.named)].to_string(),
            filter: f.as_ref().map(B::config).into(),
            ..Default::default()
          })
          .collect(),
        ..Default::default()
      })
      .collect(),
    ..Default::default()
  };
  let selector = bd_matcher::buffer_selector::BufferSelector::new(&config);
  if !case.buffers.iter().all(|b| b.1.iter().flatten().all(B::valid)) {
    obs.label("invalid");
    ensure!(selector.is_err(), "an invalid filter was accepted");
    return Ok(());
  }
  let selector = selector.map_err(|e| Fail::new(format!("a valid configuration was rejected: {e}")))?;
  for l in &case.logs {
    let real = l.real();
    let fields = FieldsRef::new(&real.fields, &real.matching_fields);
    let got: Vec<String> =
      selector.buffers(real.log_type, real.log_level, &real.message, &fields).into_iter().map(|s| s.to_string()).collect();
    let want: std::collections::BTreeSet<String> =
      case.buffers.iter().filter(|b| b.1.iter().flatten().any(|m| m.eval(l))).map(|b| b.0.clone()).collect();
    obs.nontrivial(!want.is_empty() && want.len() < case.buffers.len());
    ensure_eq!(got, want.into_iter().collect::<Vec<_>>(), "buffers of {l:?}");
  }
  Ok(())
}
