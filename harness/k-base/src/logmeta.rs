//! C04: metadata attached to logs. C12: log field lookups. C05: app version changes.
use bd_log_metadata::MetadataProvider;
use bd_log_primitives::{
  AnnotatedLogField, AnnotatedLogFields, FieldsRef, LogField, LogFieldKind, LogType, StringOrBytes,
};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Run};

#[allow(dead_code, clippy::all)]
#[path = "/repo/bd-logger/src/metadata.rs"]
mod metadata;
#[allow(dead_code, clippy::all)]
#[path = "/repo/bd-logger/src/app_version.rs"]
mod app_version;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum V {
  S(String),
  B(Vec<u8>),
}
impl V {
  fn value(&self) -> bd_log_primitives::LogFieldValue {
    match self {
      V::S(s) => StringOrBytes::String(s.clone()),
      V::B(b) => StringOrBytes::Bytes(b.clone()),
    }
  }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct F {
  key: String,
  value: V,
  ootb: bool,
}
fn field(f: &F) -> LogField {
  LogField { key: f.key.clone(), value: f.value.value() }
}
fn annotated(fs: &[F]) -> AnnotatedLogFields {
  fs.iter()
    .map(|f| AnnotatedLogField {
      field: field(f),
      kind: if f.ootb { LogFieldKind::Ootb } else { LogFieldKind::Custom },
    })
    .collect()
}

const RESERVED: [&str; 11] = [
  "app_id", "app_version", "carrier", "foreground", "log_level", "log_type", "model", "network_type", "os",
  "os_version", "radio_type",
];
fn reserved(k: &str) -> bool {
  RESERVED.contains(&k) || k.starts_with('_')
}

fn key() -> impl Strategy<Value = String> {
  prop_oneof![
    8 => prop::sample::select(vec!["a", "b", "c", "d", "A", "a_", "a ", "osx", "app"]).prop_map(String::from),
    4 => prop::sample::select(RESERVED.to_vec()).prop_map(String::from),
    2 => prop::sample::select(vec!["_a", "_", "__b", "_app_id"]).prop_map(String::from),
    // Nearly one of those that are reserved.
    2 => (prop::sample::select(RESERVED.to_vec()), 0u8 .. 8).prop_map(|(r, n)| match n {
      0 => r.to_uppercase(),
      1 => r[.. 1].to_uppercase() + &r[1 ..],
      2 => format!(" {r}"),
      3 => format!("{r} "),
      4 => format!("{r}s"),
      5 => r[.. r.len() - 1].to_string(),
      6 => r.replace('_', "-"),
      _ => format!("{r}_"),
    }),
    1 => (prop::sample::select(vec!["_", "a", "a_", " _"]), prop::sample::select(vec![20usize, 64, 300])).prop_map(|(p, n)| p.to_string() + &"x".repeat(n)),
    1 => "\\PC{0,4}",
  ]
}
fn value() -> impl Strategy<Value = V> {
  prop_oneof![3 => "[a-z0-9]{0,6}".prop_map(V::S), 1 => prop::collection::vec(any::<u8>(), 0 .. 5).prop_map(V::B)]
}
fn fields(max: usize) -> impl Strategy<Value = Vec<F>> {
  prop::collection::vec(
    (key(), value(), any::<bool>()).prop_map(|(key, value, ootb)| F { key, value, ootb }),
    0 .. max,
  )
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
  Add(String, V),
  Remove(String),
  /// A log: its own fields, its own matching fields, the provider's fields at that time.
  Log { fields: Vec<F>, matching: Vec<F>, provider: Vec<F>, ty: u8, secs: i64, fail: u8 },
}

struct Provider(parking_lot::Mutex<(Vec<F>, i64, u8)>);
impl MetadataProvider for Provider {
  fn timestamp(&self) -> anyhow::Result<time::OffsetDateTime> {
    let p = self.0.lock();
    if p.2 == 1 {
      anyhow::bail!("no timestamp");
    }
    Ok(time::OffsetDateTime::from_unix_timestamp(p.1)?)
  }
  fn fields(&self) -> anyhow::Result<AnnotatedLogFields> {
    let p = self.0.lock();
    if p.2 == 2 {
      anyhow::bail!("no fields");
    }
    Ok(annotated(&p.0))
  }
}

const TYPES: [LogType; 8] = [
  LogType::Normal,
  LogType::Replay,
  LogType::Lifecycle,
  LogType::Resource,
  LogType::InternalSDK,
  LogType::View,
  LogType::Device,
  LogType::UX,
];

/// First writer of a key wins.
fn merge(groups: &[Vec<(String, V)>]) -> BTreeMap<String, V> {
  let mut out = BTreeMap::new();
  for g in groups {
    for (k, v) in g {
      out.entry(k.clone()).or_insert_with(|| v.clone());
    }
  }
  out
}
fn pick(fs: &[F], ootb: bool) -> Vec<(String, V)> {
  fs.iter()
    .filter(|f| f.ootb == ootb && (ootb || !reserved(&f.key)))
    .map(|f| (f.key.clone(), f.value.clone()))
    .collect()
}
fn same(what: &str, got: &[LogField], want: &BTreeMap<String, V>) -> Result<(), Fail> {
  let mut seen = BTreeMap::new();
  for f in got {
    let v = match &f.value {
      StringOrBytes::String(s) => V::S(s.clone()),
      StringOrBytes::Bytes(b) => V::B(b.clone()),
    };
    ensure!(seen.insert(f.key.clone(), v).is_none(), "{what}: key {:?} occurs twice", f.key);
  }
  ensure_eq!(seen, *want, "{what}");
  Ok(())
}

pub fn c04(run: &mut Run) {
  run.run(
    part(
      "history",
      30_000,
      600_000,
      "histories of adding/removing global fields and emitting logs of all types with generated own, matching and provider fields drawn \
       from a small pool of colliding, reserved and underscore keys; non-trivial = a log in which one key came from two sources",
    ),
    || {
      let log = (fields(8), fields(5), fields(8), 0u8 .. 8, -1_000_000i64 .. 4_000_000_000, 0u8 .. 20)
        .prop_map(|(fields, matching, provider, ty, secs, fail)| Op::Log { fields, matching, provider, ty, secs, fail });
      prop::collection::vec(
        prop_oneof![3 => (key(), value()).prop_map(|(k, v)| Op::Add(k, v)), 1 => key().prop_map(Op::Remove), 4 => log],
        1 .. 12,
      )
    },
    |ops, obs| {
      let provider = Arc::new(Provider(parking_lot::Mutex::new((vec![], 0, 0))));
      let mut c = metadata::MetadataCollector::new(provider.clone());
      let mut global: BTreeMap<String, V> = BTreeMap::new();
      for op in ops {
        match op {
          Op::Add(k, v) => {
            let r = c.add_field(LogField { key: k.clone(), value: v.value() });
            ensure_eq!(r.is_err(), reserved(k), "rejection of global field {k:?}");
            if r.is_ok() {
              global.insert(k.clone(), v.clone());
            }
          },
          Op::Remove(k) => {
            c.remove_field(k);
            global.remove(k);
          },
          Op::Log { fields, matching, provider: pf, ty, secs, fail } => {
            *provider.0.lock() = (pf.clone(), *secs, *fail);
            let ty = TYPES[*ty as usize];
            let out = c.normalized_metadata_with_extra_fields(annotated(fields), annotated(matching), ty);
            if *fail == 1 || *fail == 2 {
              ensure!(out.is_err(), "metadata was produced although the provider failed");
              continue;
            }
            let out = out.map_err(|e| Fail::new(format!("metadata failed: {e}")))?;
            let to_matching = matches!(ty, LogType::Replay | LogType::Resource | LogType::InternalSDK);
            let empty = vec![];
            let (p, pm) = if to_matching { (&empty, pf) } else { (pf, &empty) };
            let g: Vec<_> = global.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let want = merge(&[pick(p, true), pick(fields, true), pick(fields, false), g, pick(p, false)]);
            let want_m = merge(&[pick(pm, true), pick(matching, true), pick(matching, false), pick(pm, false)]);
            same("captured fields", &out.fields, &want)?;
            same("matching fields", &out.matching_fields, &want_m)?;
            ensure_eq!(out.timestamp.unix_timestamp(), *secs, "timestamp");
            let total = pick(p, true).len() + pick(fields, true).len() + pick(fields, false).len() + global.len()
              + pick(p, false).len();
            obs.nontrivial(total > want.len());
            obs.label_if(to_matching, "provider fields become matching fields");
          },
        }
      }
      Ok(())
    },
  );
}

pub fn c12(run: &mut Run) {
  run.run(
    part(
      "lookup",
      60_000,
      1_000_000,
      "captured and matching field lists with duplicate keys and binary values, looked up by present and absent keys; non-trivial = \
       the key is in the matching fields more than once, or in both lists",
    ),
    || (fields(8), fields(8), key()),
    |(captured, matching, k), obs| {
      let c: Vec<_> = captured.iter().map(field).collect();
      let m: Vec<_> = matching.iter().map(field).collect();
      let r = FieldsRef::new(&c, &m);
      let want = matching.iter().find(|f| f.key == *k).and_then(|f| match &f.value {
        V::S(s) => Some(s.as_str()),
        V::B(_) => None,
      });
      ensure_eq!(r.matching_field_value(k), want, "matching value of {k:?}");
      let n = matching.iter().filter(|f| f.key == *k).count();
      obs.nontrivial(n > 1 || (n == 1 && captured.iter().any(|f| f.key == *k)));
      ensure!(r.captured_fields == &c, "captured fields changed");
      for f in captured {
        let a = annotated(std::slice::from_ref(f)).remove(0);
        ensure!(LogField::from(a) == field(f), "conversion of an annotated field");
        let v = f.value.value();
        match &f.value {
          V::S(s) => {
            ensure_eq!(v.as_str(), Some(s.as_str()), "string view");
            ensure_eq!(v.to_string(), *s, "display of a string");
            ensure!(v == bd_log_primitives::LogFieldValue::from(s.clone()), "from String");
            ensure!(v == bd_log_primitives::LogFieldValue::from(s.as_str()), "from &str");
            ensure!(v != StringOrBytes::Bytes(s.clone().into_bytes()), "string equals bytes");
          },
          V::B(b) => {
            ensure_eq!(v.as_str(), None, "string view of bytes");
            ensure!(v == bd_log_primitives::LogFieldValue::from(b.clone()), "from Vec");
            ensure!(v == bd_log_primitives::LogFieldValue::from(b.as_slice()), "from slice");
          },
        }
      }
      Ok(())
    },
  );
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Ver {
  version: String,
  extra: Extra,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Extra {
  Code(i64),
  Build(String),
}
impl Ver {
  fn real(&self) -> app_version::AppVersion {
    app_version::AppVersion {
      app_version: self.version.clone(),
      app_version_extra: match &self.extra {
        Extra::Code(c) => app_version::AppVersionExtra::AppVersionCode(*c),
        Extra::Build(b) => app_version::AppVersionExtra::BuildNumber(b.clone()),
      },
    }
  }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum VOp {
  HasChanged(Ver),
  Set(Ver),
  Restart,
  Malformed,
  FailSet(bool),
}
fn ver() -> impl Strategy<Value = Ver> {
  let extra = prop_oneof![
    (0i64 .. 3).prop_map(Extra::Code),
    any::<i64>().prop_map(Extra::Code),
    prop::sample::select(vec!["0", "1", "1.0", "", "1 ", "A", "a"]).prop_map(|s| Extra::Build(s.to_string())),
  ];
  (prop::sample::select(vec!["1.0", "1.0.0", "2", "", "1.0 ", " 2", "2-A", "2-a", "02"]), extra)
    .prop_map(|(v, extra)| Ver { version: v.to_string(), extra })
}

pub fn c05(run: &mut Run) {
  run.run(
    part(
      "history",
      40_000,
      800_000,
      "histories of asking for and recording versions from a small colliding pool, with restarts, failing writes and malformed storage; \
       non-trivial = a version change was reported",
    ),
    || {
      prop::collection::vec(
        prop_oneof![
          5 => ver().prop_map(VOp::HasChanged),
          5 => ver().prop_map(VOp::Set),
          2 => Just(VOp::Restart),
          1 => Just(VOp::Malformed),
          1 => any::<bool>().prop_map(VOp::FailSet),
        ],
        1 .. 20,
      )
    },
    |ops, obs| {
      let mem = crate::store::Mem::default();
      let mut repo = app_version::Repository::new(mem.store());
      let mut stored: Option<Ver> = None;
      let mut fail = false;
      for op in ops {
        match op {
          VOp::HasChanged(v) => {
            let want = stored.as_ref().is_some_and(|s| s != v);
            ensure_eq!(repo.has_changed(&v.real()), want, "has_changed({v:?}) with {stored:?} recorded");
            if stored.is_none() && !fail {
              stored = Some(v.clone());
            }
          },
          VOp::Set(v) => {
            let want = stored.clone().filter(|s| s != v);
            let got = repo.set(&v.real());
            ensure_eq!(got, want.as_ref().map(Ver::real), "previous version reported by set({v:?})");
            obs.nontrivial(want.is_some());
            if !fail {
              stored = Some(v.clone());
            }
            if let Some(g) = got {
              let (name, text) = match &want.unwrap().extra {
                Extra::Code(c) => ("app_version_code", c.to_string()),
                Extra::Build(b) => ("build_number", b.clone()),
              };
              ensure_eq!(g.app_version_extra.name(), name, "name of the extra version");
              ensure_eq!(g.app_version_extra.string_value(), text, "text of the extra version");
            }
          },
          VOp::Restart => repo = app_version::Repository::new(mem.store()),
          VOp::Malformed => {
            for v in mem.0.lock().map.values_mut() {
              *v = "!".to_string();
            }
            stored = None;
          },
          VOp::FailSet(f) => {
            fail = *f;
            mem.0.lock().fail_set = *f;
          },
        }
      }
      Ok(())
    },
  );
}
