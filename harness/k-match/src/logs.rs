//! Generated logs.
use crate::rx::word;
use bd_log_primitives::{Log, LogField, LogType, StringOrBytes};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vcommon::proptest::prelude::*;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum V {
  S(String),
  B(Vec<u8>),
}
impl V {
  pub fn real(&self) -> StringOrBytes<String, Vec<u8>> {
    match self {
      V::S(s) => StringOrBytes::String(s.clone()),
      V::B(b) => StringOrBytes::Bytes(b.clone()),
    }
  }
  pub fn of(v: &StringOrBytes<String, Vec<u8>>) -> Self {
    match v {
      StringOrBytes::String(s) => V::S(s.clone()),
      StringOrBytes::Bytes(b) => V::B(b.clone()),
    }
  }
  pub fn text(&self) -> Option<&str> {
    match self {
      V::S(s) => Some(s),
      V::B(_) => None,
    }
  }
}
/// A log whose field keys are unique within the captured and within the matching-only fields.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct L {
  pub level: u32,
  pub ty: u32,
  pub message: V,
  pub fields: BTreeMap<String, V>,
  pub matching: BTreeMap<String, V>,
}
pub fn list(m: &BTreeMap<String, V>) -> Vec<LogField> {
  m.iter().map(|(k, v)| LogField { key: k.clone(), value: v.real() }).collect()
}
impl L {
  pub fn real(&self) -> Log {
    Log {
      log_level: self.level,
      log_type: LogType(self.ty),
      message: self.message.real(),
      fields: list(&self.fields),
      matching_fields: list(&self.matching),
      session_id: "s".into(),
      occurred_at: time::OffsetDateTime::UNIX_EPOCH,
    }
  }
  /// Captured text, else matching-only text.
  pub fn field(&self, key: &str) -> Option<String> {
    self
      .fields
      .get(key)
      .and_then(V::text)
      .or_else(|| self.matching.get(key).and_then(V::text))
      .map(ToString::to_string)
  }
}
pub fn key() -> impl Strategy<Value = String> + Clone {
  prop_oneof![
    8 => prop::sample::select(vec!["k0", "k1", "k2", "k3"]),
    1 => prop::sample::select(vec!["log_level", "log_type", "_message", ""]),
  ]
  .prop_map(ToString::to_string)
}
pub fn number() -> impl Strategy<Value = String> + Clone {
  prop_oneof![
    (-5i64 .. 20).prop_map(|i| i.to_string()),
    (-5i64 .. 20, 0u32 .. 100).prop_map(|(i, f)| format!("{i}.{f:02}")),
    prop::sample::select(vec![
      "2147483647", "2147483648", "-2147483648", "-2147483649", "1e3", "1e300", "-1e300", " 1", "1 ", "0x1", "+7", "007", "-0", "", "1.", ".5",
      "1_0", "one"
    ])
    .prop_map(ToString::to_string),
  ]
}
pub fn version() -> impl Strategy<Value = String> + Clone {
  let seg = prop_oneof![
    6 => (0u32 .. 12).prop_map(|i| i.to_string()),
    1 => prop::sample::select(vec!["01", "10", "4294967295", "4294967296", "a", "b1", "", "1a"]).prop_map(ToString::to_string),
  ];
  let suffix = prop_oneof![
    4 => Just(String::new()),
    1 => prop::sample::select(vec!["-alpha", "-1", "+5", "+b-1", "-a+b", "-", "+", "+1+2", ".1+0+3"]).prop_map(ToString::to_string),
  ];
  (prop::collection::vec(seg, 1 .. 4), suffix).prop_map(|(s, x)| s.join(".") + &x)
}
pub fn text() -> impl Strategy<Value = String> + Clone {
  prop_oneof![3 => word(), 2 => number(), 2 => version()]
}
pub fn value() -> impl Strategy<Value = V> + Clone {
  prop_oneof![7 => text().prop_map(V::S), 1 => "[ab]{0,2}".prop_map(|s| V::B(s.into_bytes()))]
}
pub fn log() -> impl Strategy<Value = L> + Clone {
  let map = || prop::collection::btree_map(key(), value(), 0 .. 5);
  let level = prop_oneof![9 => 0u32 .. 6, 1 => prop::sample::select(vec![i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX])];
  (level, prop_oneof![9 => 0u32 .. 9, 1 => Just(u32::MAX)], value(), map(), map())
    .prop_map(|(level, ty, message, fields, matching)| L { level, ty, message, fields, matching })
}
