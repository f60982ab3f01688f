//! C20: log filters (matched transforms of fields).
use crate::logs::{key, log, text, L, V};
use crate::matcher::{matcher, M};
use crate::rx::{rx, Rx};
use bd_log_filter::FilterChain;
use bd_log_primitives::LogField;
use bd_proto::protos::filter::filter::filter::transform as t;
use bd_proto::protos::filter::filter::{filter, Filter, FiltersConfiguration};
use protobuf::EnumOrUnknown;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use t::Transform_type as T;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Run};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Value {
  Text(String),
  Copy(String),
  Unset,
  Missing,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Tr {
  Capture(String),
  Set { key: String, value: Value, ty: i32, over: bool },
  Remove(String),
  Regex(String, Option<Rx>, String),
  Missing,
}
impl Tr {
  fn config(&self) -> filter::Transform {
    let ty = match self {
      Tr::Capture(k) => Some(T::CaptureField(t::CaptureField { name: k.clone(), ..Default::default() })),
      Tr::Set { key, value, ty, over } => {
        use t::set_field::set_field_value::{self as sv, Value as W};
        let value = match value {
          Value::Text(s) => Some(Some(W::StringValue(s.clone()))),
          Value::Copy(k) => Some(Some(W::ExistingField(sv::ExistingField { name: k.clone(), ..Default::default() }))),
          Value::Unset => Some(None),
          Value::Missing => None,
        };
        Some(T::SetField(t::SetField {
          name: key.clone(),
          value: value.map(|value| t::set_field::SetFieldValue { value, ..Default::default() }).into(),
          field_type: EnumOrUnknown::from_i32(*ty),
          allow_override: *over,
          ..Default::default()
        }))
      },
      Tr::Remove(k) => Some(T::RemoveField(t::RemoveField { name: k.clone(), ..Default::default() })),
      Tr::Regex(k, p, s) => Some(T::RegexMatchAndSubstituteField(t::RegexMatchAndSubstituteField {
        name: k.clone(),
        pattern: p.as_ref().map_or("[".into(), Rx::text),
        substitution: s.clone(),
        ..Default::default()
      })),
      Tr::Missing => None,
    };
    filter::Transform { transform_type: ty, ..Default::default() }
  }
  fn valid(&self) -> bool {
    match self {
      Tr::Set { value, ty, .. } => matches!(value, Value::Text(_) | Value::Copy(_)) && (*ty == 1 || *ty == 2),
      Tr::Regex(_, p, _) => p.is_some(),
      Tr::Missing => false,
      _ => true,
    }
  }
  fn apply(&self, l: &mut L) {
    match self {
      Tr::Capture(k) => {
        if let Some(v) = l.matching.remove(k) {
          l.fields.insert(k.clone(), v);
        }
      },
      Tr::Set { key, value, ty, over } => {
        let exists = match key.as_str() {
          "log_level" | "log_type" => true,
          "_message" => l.message.text().is_some() || l.fields.contains_key("_message") || l.matching.contains_key("_message"),
          k => l.fields.contains_key(k) || l.matching.contains_key(k),
        };
        if exists && !over {
          return;
        }
        let v = match value {
          Value::Text(s) => Some(s.clone()),
          Value::Copy(k) => match k.as_str() {
            "log_level" => Some(l.level.to_string()),
            "log_type" => Some(l.ty.to_string()),
            "_message" => l.message.text().map(ToString::to_string),
            // Only text is copied.
            k => l.fields.get(k).or_else(|| l.matching.get(k)).and_then(V::text).map(ToString::to_string),
          },
          _ => unreachable!(),
        };
        let Some(v) = v else { return };
        if *ty == 1 { &mut l.fields } else { &mut l.matching }.insert(key.clone(), V::S(v));
      },
      Tr::Remove(k) => {
        l.fields.remove(k);
        l.matching.remove(k);
      },
      Tr::Regex(k, p, s) => {
        let Some(v) = l.fields.get_mut(k).or_else(|| l.matching.get_mut(k)) else { return };
        if let V::S(old) = v {
          let re = regex::Regex::new(&p.as_ref().unwrap().text()).unwrap();
          *old = re.replace_all(old, s.as_str()).to_string();
        }
      },
      Tr::Missing => unreachable!(),
    }
  }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct F {
  matcher: Option<M>,
  transforms: Vec<Tr>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  filters: Vec<F>,
  logs: Vec<L>,
}
fn transform() -> impl Strategy<Value = Tr> + Clone {
  let value = prop_oneof![20 => text().prop_map(Value::Text), 20 => key().prop_map(Value::Copy), 1 => Just(Value::Unset), 1 => Just(Value::Missing)];
  let sub = prop_oneof![Just(String::new()), Just("x".to_string()), Just("$0-$0".to_string()), Just("$1".to_string()), Just("${0}y".to_string()), text()];
  prop_oneof![
    10 => key().prop_map(Tr::Capture),
    30 => (key(), value, prop_oneof![20 => 1i32 .. 3, 1 => Just(0), 1 => Just(9)], any::<bool>())
      .prop_map(|(key, value, ty, over)| Tr::Set { key, value, ty, over }),
    8 => key().prop_map(Tr::Remove),
    12 => (key(), prop::option::weighted(0.95, rx()), sub).prop_map(|(k, p, s)| Tr::Regex(k, p, s)),
    1 => Just(Tr::Missing),
  ]
}
fn by_key(fields: &[LogField]) -> Result<BTreeMap<String, V>, String> {
  let mut out = BTreeMap::new();
  for f in fields {
    if out.insert(f.key.clone(), V::of(&f.value)).is_some() {
      return Err(f.key.clone());
    }
  }
  Ok(out)
}

pub fn c20(run: &mut Run) {
  run.run(
    part(
      "chains",
      40_000,
      800_000,
      "chains of filters with generated matchers and transforms, some of them invalid, applied to logs; the fields afterwards must be those \
       of an own interpreter; non-trivial = at least two transforms applied to one log",
    ),
    || {
      let m = prop_oneof![
        20 => matcher().prop_map(Some),
        20 => Just(Some(M::And(vec![]))),
        1 => Just(None),
      ];
      let f = (m, prop::collection::vec(transform(), 0 .. 5)).prop_map(|(matcher, transforms)| F { matcher, transforms });
      (prop::collection::vec(f, 0 .. 5), prop::collection::vec(log(), 1 .. 4)).prop_map(|(filters, logs)| Case { filters, logs })
    },
    |case, obs| {
      let config = FiltersConfiguration {
        filters: case
          .filters
          .iter()
          .map(|f| Filter {
            matcher: f.matcher.as_ref().map(M::config).into(),
            transforms: f.transforms.iter().map(Tr::config).collect(),
            ..Default::default()
          })
          .collect(),
        ..Default::default()
      };
      let (chain, failed) = FilterChain::new(config);
      let (good, bad): (Vec<&F>, Vec<&F>) =
        case.filters.iter().partition(|f| f.matcher.as_ref().is_some_and(M::valid) && f.transforms.iter().all(Tr::valid));
      ensure_eq!(failed, bad.len() as u64, "number of filters that could not be understood");
      for l in &case.logs {
        let mut want = l.clone();
        let mut applied = 0;
        for f in &good {
          let m = f.matcher.as_ref().unwrap();
          if !m.eval(&want, &|k| want.field(k)) {
            continue;
          }
          for t in &f.transforms {
            t.apply(&mut want);
            applied += 1;
          }
        }
        obs.nontrivial(applied >= 2);
        let mut real = l.real();
        chain.process(&mut real);
        let dup = |k: String| vcommon::Fail::new(format!("field {k:?} occurs twice after filtering {l:?}"));
        ensure_eq!(by_key(&real.fields).map_err(dup)?, want.fields, "captured fields of {l:?} after the filters");
        ensure_eq!(by_key(&real.matching_fields).map_err(dup)?, want.matching, "matching-only fields of {l:?} after the filters");
        let before = l.real();
        ensure!(
          (real.log_level, real.log_type, &real.message, &real.session_id, real.occurred_at)
            == (before.log_level, before.log_type, &before.message, &before.session_id, before.occurred_at),
          "a filter changed more than fields"
        );
      }
      Ok(())
    },
  );
}
