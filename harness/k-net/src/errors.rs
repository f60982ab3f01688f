//! C36: reporting of unexpected errors.
use bd_client_common::error::{
  handle_unexpected, handle_unexpected_error_with_details, handle_unexpected_or, with_handle_unexpected, with_handle_unexpected_or,
  MetadataErrorReporter, Reporter, SessionProvider, UnexpectedErrorHandler,
};
use bd_client_stats_store::Collector;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Obs, Res, Run};

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Op {
  /// way, what, with details, on another thread
  Error(u8, u8, bool, bool),
  Fine(u8),
  Reporter(u8, bool),
  /// errors reported to a reporter of this thread, or during a future
  Within(u8, u8, bool),
  Count,
  Disable,
  Threads(u8, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  ops: Vec<Op>,
  fields: Vec<(String, String)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[serde(crate = "vcommon::serde")]
struct Seen {
  reporter: u8,
  message: String,
  details: Option<String>,
  fields: BTreeMap<String, String>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
#[serde(crate = "vcommon::serde")]
struct Trace {
  seen: Vec<Seen>,
  asked: usize,
  dropped: u64,
  values: Vec<u32>,
}

fn case() -> impl Strategy<Value = Case> {
  let op = prop_oneof![
    6 => (0u8 .. 5, 0u8 .. 6, any::<bool>(), any::<bool>()).prop_map(|(a, b, c, d)| Op::Error(a, b, c, d)),
    2 => (0u8 .. 5).prop_map(Op::Fine),
    2 => (0u8 .. 3, any::<bool>()).prop_map(|(a, b)| Op::Reporter(a, b)),
    2 => (3u8 .. 5, 0u8 .. 3, any::<bool>()).prop_map(|(a, b, c)| Op::Within(a, b, c)),
    1 => Just(Op::Count),
    1 => Just(Op::Disable),
    1 => (1u8 .. 5, 1u8 .. 5).prop_map(|(a, b)| Op::Threads(a, b)),
  ];
  let fields = prop::collection::vec(("[a-z]{1,3}(_[a-z]{1,3}){0,2}", "[a-z_]{0,4}"), 0 .. 3);
  (prop::collection::vec(op, 1 .. 14), fields).prop_map(|(ops, fields)| Case { ops, fields })
}

struct Note(u8, Arc<Mutex<Trace>>);
impl Reporter for Note {
  fn report(&self, message: &str, details: &Option<String>, fields: &HashMap<Cow<'_, str>, Cow<'_, str>>) {
    let fields = fields.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    self.1.lock().unwrap().seen.push(Seen { reporter: self.0, message: message.to_string(), details: details.clone(), fields });
  }
}
struct Session;
impl SessionProvider for Session {
  fn session_id(&self) -> String {
    "s 1".to_string()
  }
}
struct Meta(bd_metadata::Platform, HashMap<String, String>);
impl bd_metadata::Metadata for Meta {
  fn sdk_version(&self) -> &'static str {
    "1.2.3"
  }
  fn platform(&self) -> &bd_metadata::Platform {
    &self.0
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    self.1.clone()
  }
}

fn raise(way: u8, what: u8, details: bool, asked: &Arc<AtomicUsize>) -> Option<u32> {
  let e = || anyhow::anyhow!("what {what}");
  match way {
    0 => {
      let asked = asked.clone();
      handle_unexpected_error_with_details(e(), "d", move || {
        asked.fetch_add(1, Ordering::SeqCst);
        details.then(|| format!("details {what}"))
      });
      None
    },
    1 => {
      handle_unexpected::<u32, anyhow::Error>(Err(e()), "d");
      None
    },
    2 => Some(handle_unexpected_or(Err(e()), 17, "d")),
    3 => {
      with_handle_unexpected::<u32, anyhow::Error>(|| Err(e()), "d");
      None
    },
    _ => Some(with_handle_unexpected_or(|| Err(e()), 17, "d")),
  }
}

pub fn child() {
  let mut text = String::new();
  std::io::stdin().read_to_string(&mut text).unwrap();
  let c: Case = serde_json::from_str(&text).unwrap();
  let trace = Arc::new(Mutex::new(Trace::default()));
  let asked = Arc::new(AtomicUsize::new(0));
  let collector = Collector::default();
  let counter = collector.scope("x").scope("error_reporter").counter("dropped_errors");
  let metadata = || Arc::new(MetadataShared(Meta(bd_metadata::Platform::Ios, c.fields.iter().cloned().collect())));
  UnexpectedErrorHandler::set_reporter(Arc::new(Note(0, trace.clone())));
  let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
  for op in &c.ops {
    match op {
      Op::Error(way, what, details, away) => {
        let v = if *away {
          let (asked, way, what, details) = (asked.clone(), *way, *what, *details);
          std::thread::spawn(move || raise(way, what, details, &asked)).join().unwrap()
        } else {
          raise(*way, *what, *details, &asked)
        };
        trace.lock().unwrap().values.extend(v);
      },
      Op::Fine(way) => {
        let v = match way {
          0 | 1 => {
            handle_unexpected::<u32, anyhow::Error>(Ok(5), "d");
            None
          },
          2 => Some(handle_unexpected_or(Ok(5), 17, "d")),
          3 => {
            with_handle_unexpected::<u32, anyhow::Error>(|| Ok(5), "d");
            None
          },
          _ => Some(with_handle_unexpected_or(|| Ok(5), 17, "d")),
        };
        trace.lock().unwrap().values.extend(v);
      },
      Op::Reporter(n, meta) => {
        let r: Arc<dyn Reporter> = Arc::new(Note(*n, trace.clone()));
        let r: Arc<dyn Reporter> = if *meta { Arc::new(MetadataErrorReporter::new(r, Arc::new(Session), metadata())) } else { r };
        UnexpectedErrorHandler::set_reporter(r);
      },
      Op::Within(n, times, future) => {
        let r = Arc::new(Note(*n, trace.clone()));
        let (asked, times) = (asked.clone(), *times);
        if *future {
          rt.block_on(UnexpectedErrorHandler::async_with_reporter(r, async move {
            for i in 0 .. times {
              tokio::task::yield_now().await;
              raise(0, i, true, &asked);
            }
          }));
        } else {
          UnexpectedErrorHandler::with_reporter(r, || {
            for i in 0 .. times {
              raise(0, i, true, &asked);
            }
          });
        }
      },
      Op::Count => UnexpectedErrorHandler::register_stats(&collector.scope("x")),
      Op::Disable => UnexpectedErrorHandler::disable(),
      Op::Threads(n, times) => {
        let (n, times) = (*n, *times);
        let threads: Vec<_> = (0 .. n)
          .map(|_| {
            let asked = asked.clone();
            std::thread::spawn(move || {
              for _ in 0 .. times {
                raise(0, 9, true, &asked);
              }
            })
          })
          .collect();
        threads.into_iter().for_each(|t| t.join().unwrap());
      },
    }
  }
  let mut t = trace.lock().unwrap().clone();
  t.asked = asked.load(Ordering::SeqCst);
  t.dropped = counter.get();
  println!("{}", serde_json::to_string(&t).unwrap());
}

struct MetadataShared(Meta);
// Nothing in it changes.
unsafe impl Sync for MetadataShared {}
impl bd_metadata::Metadata for MetadataShared {
  fn sdk_version(&self) -> &'static str {
    self.0.sdk_version()
  }
  fn platform(&self) -> &bd_metadata::Platform {
    self.0.platform()
  }
  fn collect_inner(&self) -> HashMap<String, String> {
    self.0.collect_inner()
  }
}

fn model(c: &Case, obs: &mut Obs) -> Trace {
  let (mut t, mut left, mut counted) = (Trace::default(), 5usize, false);
  let (mut reporter, mut meta) = (0u8, false);
  let mut fields: BTreeMap<String, String> = c.fields.iter().cloned().collect::<BTreeMap<_, _>>();
  let known = bd_metadata::Metadata::collect(&Meta(bd_metadata::Platform::Ios, HashMap::new()));
  fields.extend(known);
  let mut all = BTreeMap::from([("x-session-id".to_string(), "s 1".to_string())]);
  all.extend(fields.iter().map(|(k, v)| (format!("x-{}", k.replace('_', "-")), v.clone())));
  for op in &c.ops {
    let mut error = |way: u8, what: u8, details: bool, only: Option<u8>, t: &mut Trace| {
      if left == 0 {
        t.dropped += u64::from(counted);
        return;
      }
      left -= 1;
      t.asked += usize::from(way == 0);
      t.seen.push(Seen {
        reporter: only.unwrap_or(reporter),
        message: format!("d: what {what}"),
        details: (way == 0 && details).then(|| format!("details {what}")),
        fields: if meta && only.is_none() { all.clone() } else { BTreeMap::new() },
      });
    };
    match op {
      Op::Error(way, what, details, _) => {
        error(*way, *what, *details, None, &mut t);
        if matches!(way, 2 | 4) {
          t.values.push(17);
        }
      },
      Op::Fine(way) => {
        if matches!(way, 2 | 4) {
          t.values.push(5);
        }
      },
      Op::Reporter(n, m) => (reporter, meta) = (*n, *m),
      Op::Within(n, times, _) => (0 .. *times).for_each(|i| error(0, i, true, Some(*n), &mut t)),
      Op::Count => counted = true,
      Op::Disable => left = 0,
      Op::Threads(n, times) => (0 .. n * times).for_each(|_| error(0, 9, true, None, &mut t)),
    }
  }
  obs.label_if(left == 0, "limit reached");
  obs.nontrivial(t.seen.len() > 2);
  t
}

fn play(c: &Case, obs: &mut Obs) -> Res {
  let mut p = std::process::Command::new(std::env::current_exe().unwrap())
    .arg("child")
    .stdin(std::process::Stdio::piped())
    .stdout(std::process::Stdio::piped())
    .stderr(std::process::Stdio::piped())
    .spawn()
    .map_err(|e| vcommon::Fail::new(e.to_string()))?;
  p.stdin.take().unwrap().write_all(serde_json::to_string(c).unwrap().as_bytes()).unwrap();
  let out = p.wait_with_output().unwrap();
  ensure!(out.status.success(), "the process ends with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr));
  let got: Trace = serde_json::from_slice(&out.stdout).map_err(|e| vcommon::Fail::new(e.to_string()))?;
  let want = model(c, obs);
  ensure_eq!(got.seen, want.seen, "reports");
  ensure_eq!(got.asked, want.asked, "times details were asked for");
  ensure_eq!(got.dropped, want.dropped, "errors counted as dropped");
  ensure_eq!(got.values, want.values, "values");
  Ok(())
}

pub fn c36(run: &mut Run) {
  run.run(part("histories", 4_000, 120_000, "more than two errors were reported").shards(8).max_shrink(200), case, play);
}
