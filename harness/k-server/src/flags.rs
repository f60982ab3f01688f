//! C07: reading feature flags. C08: reloading watched configuration files.
use bd_runtime_config::feature_flags::{new_memory_feature_flags_loader, FeatureFlags};
use bd_runtime_config::loader::{ConfigPtr, Loader, Stats, WatchedFileLoader};
use bd_server_stats::stats::Collector;
use notify::Watcher;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Run};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Val {
  B(bool),
  I(u64),
  S(String),
  /// Not a value a flag can have: the whole file is rejected.
  Bad(u8),
}
fn yaml(m: &BTreeMap<String, Val>) -> String {
  let mut out = String::from("values:");
  if m.is_empty() {
    return "values: {}\n".to_string();
  }
  out.push('\n');
  for (k, v) in m {
    let v = match v {
      Val::B(b) => b.to_string(),
      Val::I(i) => i.to_string(),
      Val::S(s) => serde_json::to_string(s).unwrap(),
      Val::Bad(i) => ["[1, 2]", "-4", "1.5", "null", "{a: 1}"][*i as usize].to_string(),
    };
    out.push_str(&format!("  {}: {v}\n", serde_json::to_string(k).unwrap()));
  }
  out
}
fn val() -> impl Strategy<Value = Val> {
  prop_oneof![
    4 => any::<bool>().prop_map(Val::B),
    5 => prop_oneof![Just(0u64), 1u64 .. 10_000, Just(1), Just(9_999), Just(10_000), Just(10_001), any::<u64>()].prop_map(Val::I),
    4 => prop_oneof!["[ -~]{0,8}", Just("true".to_string()), Just("12".to_string()), Just(String::new())].prop_map(Val::S),
  ]
}
fn flags(bad: bool) -> impl Strategy<Value = BTreeMap<String, Val>> {
  let v = if bad { prop_oneof![12 => val(), 1 => (0u8 .. 5).prop_map(Val::Bad)].boxed() } else { val().boxed() };
  prop::collection::btree_map(prop_oneof![4 => "[ab]{1,2}", 1 => "[ -~]{0,6}"], v, 0 .. 8)
}

fn check_flags(f: &dyn FeatureFlags, m: &BTreeMap<String, Val>, extra: &str) -> Result<(), Fail> {
  let empty = BTreeMap::new();
  let m = if m.values().any(|v| matches!(v, Val::Bad(_))) { &empty } else { m };
  for name in m.keys().map(String::as_str).chain([extra, "absent"]) {
    for default in [false, true] {
      let got = f.get_bool(name, default);
      let want = match m.get(name) {
        Some(Val::B(b)) => *b,
        _ => default,
      };
      ensure_eq!(got, want, "boolean {name:?} (default {default}) in {m:?}");
      let got = f.feature_enabled(name, default);
      match m.get(name) {
        Some(Val::I(0)) => ensure!(!got, "{name:?} is 0 and enabled"),
        Some(Val::I(i)) if *i >= 10_000 => ensure!(got, "{name:?} is {i} and not enabled"),
        Some(Val::I(_)) => {},
        _ => ensure_eq!(got, default, "enabled {name:?} (default {default}) in {m:?}"),
      }
    }
    for default in [0u64, 77] {
      let want = match m.get(name) {
        Some(Val::I(i)) => *i,
        _ => default,
      };
      ensure_eq!(f.get_integer(name, default), want, "integer {name:?} in {m:?}");
    }
    let default = Arc::new("dflt".to_string());
    let want = match m.get(name) {
      Some(Val::S(s)) => s.clone(),
      _ => "dflt".to_string(),
    };
    ensure_eq!(*f.get_string(name, &default), want, "string {name:?} in {m:?}");
  }
  Ok(())
}

fn rt() -> tokio::runtime::Runtime {
  tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

pub fn c07(run: &mut Run) {
  run.run(
    part(
      "read",
      6_000,
      60_000,
      "flag files with all value types and names, read through every typed accessor with both defaults, directly and through the watch; \
       non-trivial = at least two value types in a valid file",
    )
    .max_shrink(400),
    || (flags(true), "[ab]{0,3}"),
    |(m, extra), obs| {
      let types: std::collections::HashSet<_> = m.values().map(std::mem::discriminant).collect();
      obs.nontrivial(types.len() > 1 && !m.values().any(|v| matches!(v, Val::Bad(_))));
      let dir = tempfile::tempdir().unwrap();
      let file = dir.path().join("flags.yaml");
      std::fs::write(&file, yaml(m)).unwrap();
      rt().block_on(async {
        let collector = Collector::default();
        let stats = Stats::new(&collector.scope("l"));
        let loader = new_memory_feature_flags_loader(dir.path(), &file, stats.clone())
          .map_err(|e| Fail::new(format!("loader: {e}")))?;
        let watch = loader.snapshot_watch();
        let snap = watch.borrow().clone().ok_or_else(|| Fail::new("no flags object"))?;
        let bad = m.values().any(|v| matches!(v, Val::Bad(_)));
        check_flags(snap.as_ref(), m, extra)?;
        check_flags(&watch, m, extra)?;
        ensure_eq!(
          (stats.deserialize_success.get(), stats.deserialize_failure.get(), stats.io_failure.get()),
          (u64::from(!bad), u64::from(bad), 0),
          "load statistics"
        );
        loader.shutdown().await;
        Ok(())
      })
    },
  );
  run.run(
    part(
      "fraction",
      14,
      60,
      "one flag with a fraction in ten-thousandths, evaluated millions of times; the share of true answers must be within nine standard \
       deviations of the fraction (the boundary values 1 and 9999 are over-represented); non-trivial = strictly between 0 and 10000",
    )
    .shards(7)
    .max_shrink(0),
    || prop_oneof![Just(1u64), Just(9_999u64), Just(5_000u64), 1u64 .. 10_000],
    |v, obs| {
      obs.nontrivial(true);
      let dir = tempfile::tempdir().unwrap();
      let file = dir.path().join("flags.yaml");
      std::fs::write(&file, format!("values:\n  f: {v}\n")).unwrap();
      rt().block_on(async {
        let collector = Collector::default();
        let loader = new_memory_feature_flags_loader(dir.path(), &file, Stats::new(&collector.scope("l")))
          .map_err(|e| Fail::new(format!("loader: {e}")))?;
        let snap = loader.snapshot_watch().borrow().clone().unwrap();
        let n = 4_000_000u64;
        let hits = (0 .. n).filter(|_| snap.feature_enabled("f", false)).count() as f64;
        let p = *v as f64 / 10_000.0;
        let (mean, sd) = (n as f64 * p, (n as f64 * p * (1.0 - p)).sqrt());
        ensure!((hits - mean).abs() <= 9.0 * sd, "{hits} of {n} evaluations true for fraction {v}/10000 (expected {mean} +- {sd})");
        loader.shutdown().await;
        Ok(())
      })
    },
  );
}

// ---------------------------------------------------------------------------------------------

#[derive(Deserialize, Debug, PartialEq, Clone)]
struct Doc {
  version: u64,
  body: String,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Content {
  Good(u16),
  /// Wrong shape, not YAML, or not text at all.
  Bad(u8),
  Missing,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
  /// Put new content in place by renaming over the file.
  Replace(Content),
  /// Put new content in place by renaming the symlink the file is reached through.
  Swap(Content),
  /// Write the file in place; takes effect at the next rename.
  InPlace(Content),
  /// Rename some other file in the directory.
  Unrelated,
  /// Several replacements without waiting in between.
  Burst(Vec<Content>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  initial: Content,
  symlinked: bool,
  during_load: Option<Content>,
  ops: Vec<Op>,
  shutdowns: u8,
}

fn content() -> impl Strategy<Value = Content> {
  prop_oneof![6 => (0u16 .. 2000).prop_map(Content::Good), 2 => (0u8 .. 5).prop_map(Content::Bad)]
}
fn initial() -> impl Strategy<Value = Content> {
  prop_oneof![6 => content(), 1 => Just(Content::Missing)]
}
fn op() -> impl Strategy<Value = Op> {
  prop_oneof![
    4 => content().prop_map(Op::Replace),
    3 => content().prop_map(Op::Swap),
    1 => initial().prop_map(Op::InPlace),
    1 => Just(Op::Unrelated),
    2 => prop::collection::vec(content(), 2 .. 40).prop_map(Op::Burst),
  ]
}

struct Dir {
  dir: tempfile::TempDir,
  symlinked: bool,
  n: AtomicU64,
}
impl Dir {
  fn text(c: &Content, version: u64) -> Option<Vec<u8>> {
    let text = match c {
      Content::Good(size) => format!("version: {version}\nbody: \"{}\"\n", "x".repeat(*size as usize)),
      Content::Bad(0) => String::new(),
      Content::Bad(1) => format!("version: {version}\n"),
      Content::Bad(2) => "version: [\nbody".to_string(),
      Content::Bad(3) => "version: -1\nbody: x\n".to_string(),
      // Good but for a byte that no text has.
      Content::Bad(_) => return Some([format!("version: {version}\nbody: \"x").as_bytes(), b"\xffx\"\n"].concat()),
      Content::Missing => return None,
    };
    Some(text.into_bytes())
  }
  fn want(c: &Content, version: u64) -> Option<Doc> {
    match c {
      Content::Good(size) => Some(Doc { version, body: "x".repeat(*size as usize) }),
      _ => None,
    }
  }
  fn path(&self) -> std::path::PathBuf {
    self.dir.path().join("c.yaml")
  }
  fn write(&self, p: &Path, c: &Content, version: u64) {
    match Self::text(c, version) {
      Some(t) => {
        std::fs::write(p, t).unwrap();
        // A replacement (a rollback, a copy that keeps the times) may well be older than what it
        // replaces, or as old.
        let age = [0, 0, 3600, 86_400, 1, 3600, 0][(version.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 33) as usize % 7];
        let at = std::time::SystemTime::now() - Duration::from_secs(age);
        let at = if age == 0 { at } else { std::time::UNIX_EPOCH + Duration::from_secs(1_700_000_000 - age) };
        std::fs::File::options().write(true).open(p).unwrap().set_modified(at).unwrap();
      },
      None => {
        let _ = std::fs::remove_file(p);
      },
    }
  }
  fn data_dir(&self, c: &Content, version: u64) -> std::path::PathBuf {
    let d = self.dir.path().join(format!("data{version}"));
    std::fs::create_dir(&d).unwrap();
    self.write(&d.join("c.yaml"), c, version);
    d
  }
  fn put(&self, c: &Content, version: u64) {
    if self.symlinked {
      let d = self.data_dir(c, version);
      let link = self.dir.path().join(format!("..new{version}"));
      std::os::unix::fs::symlink(d, &link).unwrap();
      std::fs::rename(link, self.dir.path().join("..data")).unwrap();
    } else {
      let tmp = self.dir.path().join(format!("tmp{version}"));
      self.write(&tmp, c, version);
      std::fs::rename(tmp, self.path()).unwrap();
    }
  }
  fn unrelated(&self) {
    let i = self.n.fetch_add(1, Ordering::SeqCst);
    let a = self.dir.path().join(format!("other{i}"));
    std::fs::write(&a, "z").unwrap();
    std::fs::rename(&a, self.dir.path().join(format!("moved{i}"))).unwrap();
  }
}

/// Sees the same notifications as the loader does, through a watcher of its own.
struct Reference {
  _watcher: notify::RecommendedWatcher,
  renames: Arc<AtomicU64>,
}
impl Reference {
  fn new(dir: &Path) -> Self {
    use notify::event::{EventKind, ModifyKind, RenameMode};
    let renames = Arc::new(AtomicU64::new(0));
    let r = renames.clone();
    let mut w = notify::recommended_watcher(move |e: notify::Result<notify::Event>| {
      if let Ok(e) = e {
        if matches!(e.kind, EventKind::Modify(ModifyKind::Name(RenameMode::Both))) {
          r.fetch_add(1, Ordering::SeqCst);
        }
      }
    })
    .unwrap();
    w.watch(dir, notify::RecursiveMode::NonRecursive).unwrap();
    Self { _watcher: w, renames }
  }
}

/// Waits until `done`. Gives up (as a violation) only long after the operating system has
/// delivered all `renames` notifications to another watcher.
async fn settle(r: &Reference, renames: u64, what: &str, done: impl Fn() -> bool) -> Result<(), Fail> {
  let started = Instant::now();
  let mut delivered: Option<Instant> = None;
  loop {
    if done() {
      return Ok(());
    }
    if delivered.is_none() && r.renames.load(Ordering::SeqCst) >= renames {
      delivered = Some(Instant::now());
    }
    if delivered.is_some_and(|d| d.elapsed() > Duration::from_secs(10)) {
      return Err(Fail::new(what.to_string()));
    }
    if started.elapsed() > Duration::from_secs(120) {
      eprintln!("file notifications are not delivered here: giving up");
      std::process::exit(3);
    }
    tokio::time::sleep(Duration::from_micros(300)).await;
  }
}

pub fn c08(run: &mut Run) {
  run.assume("The operating system delivers rename notifications (a second watcher confirms this before a missing reload is reported).");
  run.run(
    part(
      "watch",
      1_600,
      16_000,
      "watched files replaced by rename, by symlink swap, in bursts, in place, and while the first load is still running, with valid, \
       malformed and missing contents, then shut down; non-trivial = at least one replacement by rename",
    )
    .max_shrink(12),
    || {
      (initial(), any::<bool>(), prop::option::weighted(0.2, content()), prop::collection::vec(op(), 0 .. 7), 1u8 .. 4).prop_map(
        |(initial, symlinked, during_load, ops, shutdowns)| Case { initial, symlinked, during_load, ops, shutdowns },
      )
    },
    |case, obs| {
      let d = Arc::new(Dir { dir: tempfile::tempdir().unwrap(), symlinked: case.symlinked, n: AtomicU64::new(0) });
      let mut version = 1u64;
      if case.symlinked {
        let data = d.data_dir(&case.initial, version);
        std::os::unix::fs::symlink(data, d.dir.path().join("..data")).unwrap();
        std::os::unix::fs::symlink(Path::new("..data").join("c.yaml"), d.path()).unwrap();
      } else {
        d.write(&d.path(), &case.initial, version);
      }
      let result: Result<(), Fail> = rt().block_on(async {
        let reference = Reference::new(d.dir.path());
        let collector = Collector::default();
        let stats = Stats::new(&collector.scope("l"));
        let loads = {
          let s = stats.clone();
          move || (s.deserialize_success.get(), s.deserialize_failure.get(), s.io_failure.get())
        };
        let tally = |t: &mut (u64, u64, u64), c: &Content| match c {
          Content::Good(_) => t.0 += 1,
          Content::Bad(0 ..= 3) => t.1 += 1,
          Content::Bad(_) | Content::Missing => t.2 += 1,
        };
        let mut want_loads = (0, 0, 0);
        let seen: Arc<parking_lot::Mutex<Vec<Option<Doc>>>> = Arc::default();
        let hook = {
          let (seen, d, pending) = (seen.clone(), d.clone(), parking_lot::Mutex::new(case.during_load.clone()));
          move |doc: Option<Doc>| -> ConfigPtr<Doc> {
            if let Some(c) = pending.lock().take() {
              // Somebody replaces the file between the first read and the end of construction.
              d.put(&c, 2);
            }
            seen.lock().push(doc.clone());
            doc.map(Arc::new)
          }
        };
        let loader: Arc<dyn Loader<Doc>> =
          WatchedFileLoader::new_loader(d.dir.path(), d.path(), hook, stats).map_err(|e| Fail::new(format!("loader: {e}")))?;
        let watch = loader.snapshot_watch();
        let current = || watch.borrow().as_ref().map(|d| (**d).clone());
        let mut now = case.initial.clone();
        let mut now_version = version;
        tally(&mut want_loads, &now);
        let mut renames = 0;
        if let Some(c) = &case.during_load {
          obs.label("replaced during first load");
          version += 1;
          renames += 1;
          now = c.clone();
          now_version = version;
          tally(&mut want_loads, &now);
          settle(&reference, renames, "a replacement during the first load was never picked up", || loads() == want_loads && current() == Dir::want(&now, now_version)).await?;
        }
        ensure_eq!(current(), Dir::want(&now, now_version), "first snapshot");
        ensure_eq!(loads(), want_loads, "loads after construction");
        for op in &case.ops {
          match op {
            Op::Replace(c) | Op::Swap(c) => {
              obs.nontrivial(true);
              version += 1;
              renames += 1;
              d.put(c, version);
              now = c.clone();
              now_version = version;
              tally(&mut want_loads, c);
            },
            Op::InPlace(c) => {
              version += 1;
              d.write(&std::fs::canonicalize(d.path()).unwrap_or_else(|_| {
                // The file is missing: write where the path (or its link) leads.
                if d.symlinked { d.dir.path().join("..data").join("c.yaml") } else { d.path() }
              }), c, version);
              now = c.clone();
              now_version = version;
              continue;
            },
            Op::Unrelated => {
              d.unrelated();
              renames += 1;
              tally(&mut want_loads, &now);
            },
            Op::Burst(cs) => {
              obs.label("burst");
              let from = seen.lock().len();
              let mut allowed = vec![];
              for c in cs {
                version += 1;
                renames += 1;
                d.put(c, version);
                allowed.push(Dir::want(c, version));
                now = c.clone();
                now_version = version;
              }
              let n = cs.len();
              settle(&reference, renames, "the loader did not reload once per replacement of a burst", || seen.lock().len() - from >= n).await?;
              settle(&reference, renames, "the last content of a burst is not the snapshot", || current() == Dir::want(&now, now_version)).await?;
              // Everything seen was really there, oldest first.
              let mut at = 0;
              for s in &seen.lock()[from ..] {
                match allowed[at ..].iter().position(|a| a == s) {
                  Some(p) => at += p,
                  None => return Err(Fail::new(format!("loaded {s:?}, which was not in place at that time"))),
                }
              }
              want_loads = loads();
              ensure_eq!(want_loads.0 + want_loads.1 + want_loads.2, seen.lock().len() as u64, "loads counted");
              continue;
            },
          }
          settle(&reference, renames, "a rename in the watched directory did not lead to a reload", || loads() == want_loads).await.map_err(|f| {
            Fail::new(format!("{}: loads {:?}, expected {want_loads:?}", f.msg, loads()))
          })?;
          settle(&reference, renames, "the snapshot is not the file's content after a rename", || current() == Dir::want(&now, now_version)).await.map_err(
            |f| Fail::new(format!("{}: {:?}, expected {:?}", f.msg, current().map(|d| d.version), Dir::want(&now, now_version).map(|d| d.version))),
          )?;
        }
        // Shutdown stops reloading, can be repeated, and leaves the last snapshot readable.
        let last = current();
        for _ in 0 .. case.shutdowns {
          loader.shutdown().await;
        }
        version += 1;
        d.put(&Content::Good(3), version);
        for _ in 0 .. 20 {
          tokio::task::yield_now().await;
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
        ensure_eq!(current(), last, "snapshot after shutdown");
        ensure_eq!(loads(), want_loads, "loads after shutdown");
        Ok(())
      });
      result
    },
  );

  run.run(
    part(
      "flood",
      6,
      40,
      "while a load is slow, so much else happens in the directory that the operating system drops notifications, and then the file is \
       replaced (perhaps repeatedly): once the load is over, the snapshot must still become the newest content; non-trivial = more \
       happened than the operating system queues",
    )
    .max_shrink(4),
    || (any::<bool>(), prop_oneof![Just(9_000u32), 0u32 .. 12_000], 0u32 .. 40, content(), 1u8 .. 3),
    |(symlinked, files, after, last, replacements), obs| {
      obs.nontrivial(*files > 8_500);
      let d = Dir { dir: tempfile::tempdir().unwrap(), symlinked: *symlinked, n: AtomicU64::new(0) };
      if *symlinked {
        let data = d.data_dir(&Content::Good(1), 1);
        std::os::unix::fs::symlink(data, d.dir.path().join("..data")).unwrap();
        std::os::unix::fs::symlink(Path::new("..data").join("c.yaml"), d.path()).unwrap();
      } else {
        d.write(&d.path(), &Content::Good(1), 1);
      }
      let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
      rt.block_on(async {
        let (release, gate) = std::sync::mpsc::channel::<()>();
        let (entered, inside) = std::sync::mpsc::channel::<()>();
        let gate = parking_lot::Mutex::new((gate, 0));
        let hook = move |doc: Option<Doc>| -> ConfigPtr<Doc> {
          let mut g = gate.lock();
          g.1 += 1;
          if g.1 == 2 {
            let _ = entered.send(());
            let _ = g.0.recv_timeout(Duration::from_secs(60));
          }
          doc.map(Arc::new)
        };
        let stats = Stats::new(&Collector::default().scope("l"));
        let loader: Arc<dyn Loader<Doc>> =
          WatchedFileLoader::new_loader(d.dir.path(), d.path(), hook, stats).map_err(|e| Fail::new(format!("loader: {e}")))?;
        let watch = loader.snapshot_watch();
        d.put(&Content::Good(2), 2);
        if inside.recv_timeout(Duration::from_secs(30)).is_err() {
          return Err(Fail::new("a replacement was never picked up"));
        }
        let noise = |n: u32| {
          for i in 0 .. n {
            let p = d.dir.path().join(format!("noise{i}"));
            std::fs::write(&p, "").unwrap();
            std::fs::remove_file(&p).unwrap();
          }
        };
        noise(*files);
        let mut version = 2;
        for i in 0 .. *replacements {
          version += 1;
          d.put(if i + 1 == *replacements { last } else { &Content::Good(7) }, version);
        }
        noise(*after);
        release.send(()).unwrap();
        let want = Dir::want(last, version);
        let started = Instant::now();
        while watch.borrow().as_ref().map(|d| (**d).clone()) != want {
          ensure!(
            started.elapsed() < Duration::from_secs(20),
            "the snapshot never became the newest content (version {version}) after {files} other files had come and gone"
          );
          tokio::time::sleep(Duration::from_millis(1)).await;
        }
        loader.shutdown().await;
        Ok(())
      })
    },
  );
}
