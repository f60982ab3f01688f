//! C42: what the logger adds to logs on their way.
use bd_log_metadata::{AnnotatedLogFields, LogFieldKind};
use bd_log_primitives::{AnnotatedLogField, LogField, LogFieldValue, LogInterceptor, LogMessage, LogType};
use bd_network_quality::{NetworkQuality, NetworkQualityProvider};
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::ConfigLoader;
use open_logger::internal_report::Reporter;
use open_logger::network::{HTTPTrafficDataUsageTracker, NetworkQualityInterceptor, TimeProvider};
use parking_lot::Mutex;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::{Duration, Instant};
use vcommon::proptest::collection::vec as many;
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Obs, Res, Run};

const TYPES: [LogType; 9] = [
  LogType::Normal,
  LogType::Replay,
  LogType::Lifecycle,
  LogType::Resource,
  LogType::InternalSDK,
  LogType::View,
  LogType::Device,
  LogType::UX,
  LogType::Span,
];
const IN: [&str; 4] =
  ["_request_body_bytes_sent_count", "_request_headers_bytes_count", "_response_body_bytes_received_count", "_response_headers_bytes_count"];

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum V {
  Num(u64),
  Text(String),
  Raw(Vec<u8>),
  /// Twice.
  Two(u64, u64),
}
impl V {
  fn read(&self) -> Option<u64> {
    match self {
      Self::Num(n) | Self::Two(n, _) => Some(*n),
      Self::Text(_) | Self::Raw(_) => None,
    }
  }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Op {
  /// A type, a message, and fields.
  Log(u8, u8, Vec<(u8, V)>),
  /// An HTTP response with so many bytes, perhaps with a status.
  Response(BTreeMap<u8, V>, Option<V>),
  /// A resource report.
  Report,
  Pass(u32),
  Flag(bool),
  Quality(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  flag: bool,
  ops: Vec<Op>,
  /// All of it at once, from so many threads.
  threads: u8,
}

fn val() -> impl Strategy<Value = V> + Clone {
  let n = || prop_oneof![4 => 0u64 .. 5000, 1 => any::<u64>(), 1 => Just(u64::MAX), 1 => Just(u64::MAX - 1)];
  prop_oneof![
    8 => n().prop_map(V::Num),
    1 => prop_oneof![Just("-1".to_string()), Just("1.5".to_string()), Just(String::new()), Just("18446744073709551616".to_string()), Just("12 ".to_string())].prop_map(V::Text),
    1 => Just(V::Raw(b"17".to_vec())),
    1 => (n(), n()).prop_map(|(a, b)| V::Two(a, b)),
  ]
}
fn case(most: usize, threads: u8) -> impl Strategy<Value = Case> + Clone {
  let pass = prop_oneof![0u32 .. 20_000, Just(60_000u32), Just(60_001), Just(59_999), 20_000u32 .. 130_000, Just(6000), Just(30_000)];
  let op = prop_oneof![
    6 => (0u8 .. 9, 0u8 .. 5, many((0u8 .. 7, val()), 0 .. 4)).prop_map(|(t, m, f)| Op::Log(t, m, f)),
    8 => (vcommon::proptest::collection::btree_map(0u8 .. 4, val(), 0 .. 4), vcommon::proptest::option::weighted(0.3, val())).prop_map(|(f, s)| Op::Response(f, s)),
    6 => Just(Op::Report),
    6 => pass.prop_map(Op::Pass),
    1 => any::<bool>().prop_map(Op::Flag),
    2 => (0u8 .. 3).prop_map(Op::Quality),
  ];
  (any::<bool>(), many(op, 0 .. most)).prop_map(move |(flag, ops)| Case { flag, ops, threads })
}

struct Clock(Mutex<Instant>);
impl TimeProvider for Clock {
  fn now(&self) -> Instant {
    *self.0.lock()
  }
}
struct Quality(Mutex<NetworkQuality>);
impl NetworkQualityProvider for Quality {
  fn get_network_quality(&self) -> NetworkQuality {
    *self.0.lock()
  }
  fn set_network_quality(&self, quality: NetworkQuality) {
    *self.0.lock() = quality;
  }
}

fn field(key: &str, value: LogFieldValue) -> AnnotatedLogField {
  AnnotatedLogField { field: LogField { key: key.into(), value }, kind: LogFieldKind::Ootb }
}
fn push(fields: &mut AnnotatedLogFields, key: &str, v: &V) {
  match v {
    V::Num(n) => fields.push(field(key, n.to_string().into())),
    V::Two(a, b) => {
      fields.push(field(key, a.to_string().into()));
      fields.push(field(key, b.to_string().into()));
    },
    V::Text(t) => fields.push(field(key, t.clone().into())),
    V::Raw(b) => fields.push(field(key, LogFieldValue::Bytes(b.clone()))),
  }
}
fn set(loader: &ConfigLoader, on: bool) {
  loader.update_snapshot(&RuntimeUpdate {
    version_nonce: "1".into(),
    runtime: Some(Runtime {
      values: [(
        "internal_logging.periodic_logs.enabled".to_string(),
        Value { type_: Some(value::Type::BoolValue(on)), ..Default::default() },
      )]
      .into(),
      ..Default::default()
    })
    .into(),
    ..Default::default()
  });
}
/// The name under which logs of a type are counted, if it has one.
fn counted(t: LogType) -> Option<&'static str> {
  Some(match t {
    LogType::Device => "device_",
    LogType::InternalSDK => "internal_",
    LogType::Span => "network_",
    LogType::Normal => "normal_",
    LogType::Lifecycle => "lifecycle_",
    LogType::Replay => "replay_",
    LogType::Resource => "resource_",
    _ => return None,
  })
}
const COUNTED: [&str; 8] = ["", "device_", "internal_", "network_", "normal_", "lifecycle_", "replay_", "resource_"];

fn make(op: &Op) -> Option<(LogType, LogMessage, AnnotatedLogFields)> {
  let mut fields = vec![];
  Some(match op {
    Op::Log(t, m, f) => {
      for (k, v) in f {
        let key = IN.get(usize::from(*k)).copied().unwrap_or(["_status_code", "a", "b"][usize::from(*k) % 3]);
        push(&mut fields, key, v);
      }
      let message: LogMessage = match m {
        0 => String::new().into(),
        1 => "HTTPResponse".to_string().into(),
        2 => "HTTPRequest".to_string().into(),
        3 => LogMessage::Bytes(vec![]),
        _ => LogMessage::Bytes(b"HTTPResponse".to_vec()),
      };
      // Those that are what they look like are made by the others.
      let t = match (TYPES[usize::from(*t) % 9], m) {
        (LogType::Span, 1) | (LogType::Resource, 0) => LogType::View,
        (t, _) => t,
      };
      (t, message, fields)
    },
    Op::Response(f, s) => {
      for (k, v) in f {
        push(&mut fields, IN[usize::from(*k)], v);
      }
      if let Some(s) = s {
        push(&mut fields, "_status_code", s);
      }
      (LogType::Span, "HTTPResponse".to_string().into(), fields)
    },
    Op::Report => {
      fields.push(field("memory", "12".to_string().into()));
      (LogType::Resource, String::new().into(), fields)
    },
    _ => return None,
  })
}

struct Real {
  loader: Arc<ConfigLoader>,
  clock: Arc<Clock>,
  quality: Arc<Quality>,
  chain: Vec<Arc<dyn LogInterceptor>>,
}
fn real(dir: &std::path::Path, on: bool) -> Real {
  let loader = ConfigLoader::new(dir);
  let clock = Arc::new(Clock(Mutex::new(Instant::now() + Duration::from_secs(10_000))));
  let quality = Arc::new(Quality(Mutex::new(NetworkQuality::Unknown)));
  set(&loader, on);
  let chain: Vec<Arc<dyn LogInterceptor>> = vec![
    Arc::new(Reporter::new(&loader)),
    Arc::new(HTTPTrafficDataUsageTracker::new(clock.clone(), quality.clone())),
    Arc::new(NetworkQualityInterceptor::new(quality.clone())),
  ];
  Real { loader, clock, quality, chain }
}
/// What was added, per interceptor.
fn pass(r: &Real, t: LogType, message: &LogMessage, fields: &AnnotatedLogFields) -> Result<Vec<BTreeMap<String, String>>, vcommon::Fail> {
  let mut all = fields.clone();
  let mut added = vec![];
  for i in &r.chain {
    let before = all.clone();
    i.process(1, t, message, &mut all);
    ensure!(all.len() >= before.len() && all[.. before.len()] == before[..], "of {before:?} only {all:?} is left");
    let mut new = BTreeMap::new();
    for f in &all[before.len() ..] {
      ensure!(f.kind == LogFieldKind::Ootb, "{f:?} was added as if it were the app's own");
      let LogFieldValue::String(s) = &f.field.value else { return Err(vcommon::Fail::new(format!("{f:?} was added"))) };
      ensure!(new.insert(f.field.key.clone(), s.clone()).is_none(), "{} was added twice", f.field.key);
    }
    added.push(new);
  }
  Ok(added)
}

fn sequence(c: &Case, obs: &mut Obs) -> Res {
  let dir = tempfile::tempdir().unwrap();
  let r = real(dir.path(), c.flag);
  let mut on = c.flag;
  let mut quality = NetworkQuality::Unknown;
  let mut since: BTreeMap<&str, u64> = BTreeMap::new();
  let mut total: BTreeMap<&str, u64> = BTreeMap::new();
  // When each period began, and what came in it.
  let mut now = 0u64;
  let mut periods: Vec<(u64, [u64; 4])> = vec![(0, [0; 4])];
  let (mut counts, mut rates) = (0, 0);
  for op in &c.ops {
    let Some((t, message, fields)) = make(op) else {
      match op {
        Op::Pass(ms) => {
          now += u64::from(*ms);
          *r.clock.0.lock() += Duration::from_millis((*ms).into());
        },
        Op::Flag(v) => {
          set(&r.loader, *v);
          on = *v;
        },
        Op::Quality(q) => {
          quality = [NetworkQuality::Unknown, NetworkQuality::Offline, NetworkQuality::Online][usize::from(*q)];
          *r.quality.0.lock() = quality;
        },
        _ => {},
      }
      continue;
    };
    let added = pass(&r, t, &message, &fields)?;
    for name in std::iter::once("").chain(counted(t)) {
      *since.entry(name).or_default() += 1;
      *total.entry(name).or_default() += 1;
    }
    let mut want = BTreeMap::new();
    if matches!(op, Op::Report) && on {
      for name in COUNTED {
        want.insert(format!("_{name}logs_count"), since.get(name).copied().unwrap_or(0).to_string());
        want.insert(format!("_{name}logs_total_count"), total.get(name).copied().unwrap_or(0).to_string());
      }
      since.clear();
      counts += 1;
    }
    ensure_eq!(added[0], want, "how many logs there were, as noted on {op:?}");
    let mut want = BTreeMap::new();
    match op {
      Op::Response(f, s) => {
        let last = periods.last_mut().unwrap();
        for (k, v) in f {
          let i = usize::from(*k);
          let v = v.read().unwrap_or(0);
          obs.label_if(last.1[i].checked_add(v).is_none(), "more than can be counted");
          last.1[i] = last.1[i].saturating_add(v);
        }
        if s.as_ref().is_some_and(|s| s.read().is_some()) {
          obs.label_if(quality == NetworkQuality::Offline, "online after all");
          quality = NetworkQuality::Online;
        }
      },
      Op::Report => {
        let before = periods.len();
        periods.retain(|p| now - p.0 <= 60_000);
        if periods.len() < before {
          let sum = |i: usize| periods.iter().fold(0u64, |a, p| a.saturating_add(p.1[i]));
          let v = [sum(0), sum(1), sum(2), sum(3)];
          obs.label_if(v.iter().any(|v| *v > 0), "traffic");
          for (k, v) in [
            ("request_body", v[0]),
            ("request_headers", v[1]),
            ("response_body", v[2]),
            ("response_headers", v[3]),
            ("request", v[0].saturating_add(v[1])),
            ("response", v[2].saturating_add(v[3])),
          ] {
            want.insert(format!("_{k}_bytes_per_min_count"), v.to_string());
          }
          rates += 1;
        }
        periods.push((now, [0; 4]));
      },
      _ => {},
    }
    ensure_eq!(added[1], want, "what traffic there was, as noted on {op:?} at {now} ms");
    ensure_eq!(*r.quality.0.lock(), quality, "what the network is taken to be after {op:?}");
    let mut want = BTreeMap::new();
    if quality == NetworkQuality::Offline && ![LogType::Resource, LogType::Replay, LogType::InternalSDK].contains(&t) {
      want.insert("_network_quality".to_string(), "offline".to_string());
      obs.label("offline");
    }
    ensure_eq!(added[2], want, "how the network was, as noted on {op:?}");
  }
  obs.nontrivial(counts > 0 && rates > 0);
  obs.label_if(counts > 1, "counts");
  obs.label_if(rates > 1, "rates");
  Ok(())
}

/// However logs come at once, none is counted twice or not at all.
fn threads(c: &Case, obs: &mut Obs) -> Res {
  let dir = tempfile::tempdir().unwrap();
  let r = real(dir.path(), true);
  let n = usize::from(c.threads);
  let logs: Vec<_> = c.ops.iter().filter_map(|o| make(o).map(|l| (matches!(o, Op::Report), l))).collect();
  let mut reports: Vec<BTreeMap<String, String>> = vec![];
  std::thread::scope(|s| {
    let handles: Vec<_> = (0 .. n)
      .map(|i| {
        let (r, logs) = (&r, &logs);
        s.spawn(move || {
          let mut out = vec![];
          for (report, (t, m, f)) in logs.iter().skip(i).step_by(n) {
            let added = pass(r, *t, m, f)?;
            if *report {
              out.push(added[0].clone());
            }
          }
          Ok::<_, vcommon::Fail>(out)
        })
      })
      .collect();
    for h in handles {
      reports.extend(h.join().map_err(|_| vcommon::Fail::new("a thread panicked"))??);
    }
    Ok::<_, vcommon::Fail>(())
  })?;
  let last = pass(&r, LogType::Resource, &String::new().into(), &vec![])?.remove(0);
  reports.push(last.clone());
  for name in COUNTED {
    let want = 1 + logs.iter().filter(|(_, (t, ..))| name.is_empty() || counted(*t) == Some(name)).count() as u64
      - u64::from(!name.is_empty() && name != "resource_");
    let each: u64 = reports.iter().map(|r| r[&format!("_{name}logs_count")].parse::<u64>().unwrap()).sum();
    ensure_eq!(each, want, "how many {name}logs were counted, all reports taken together");
    ensure_eq!(last[&format!("_{name}logs_total_count")], want.to_string(), "how many {name}logs there were in all");
  }
  *r.clock.0.lock() += Duration::from_secs(60);
  pass(&r, LogType::Resource, &String::new().into(), &vec![])?;
  *r.clock.0.lock() += Duration::from_millis(1);
  let rate = pass(&r, LogType::Resource, &String::new().into(), &vec![])?.remove(1);
  ensure!(rate.get("_request_bytes_per_min_count").is_some_and(|v| v == "0"), "what is more than a minute old is still counted: {rate:?}");
  obs.nontrivial(n > 1 && reports.len() > 2);
  Ok(())
}

pub fn c42(run: &mut Run) {
  run.run(part("notes", 30_000, 300_000, "both the logs and the traffic were reported").shards(8), || case(60, 0), sequence);
  run.run(
    part("threads", 2_000, 20_000, "several threads, more than two reports").shards(4),
    || (case(120, 0), 1u8 .. 6).prop_map(|(c, threads)| Case { threads, ..c }),
    threads,
  );
}
