//! C31: the client's metric store.
use bd_client_stats_store::{make_sketch, BoundedCollector, BoundedScope, Collector, Counter, Error, Histogram, MetricData};
use bd_proto::protos::client::metric::metric::Data;
use std::collections::BTreeMap;
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

pub type Key = (String, BTreeMap<String, String>);

/// What a metric holds.
#[derive(Clone, Debug, PartialEq)]
pub enum Held {
  Count(u64),
  Values(Vec<f64>),
}
impl Held {
  pub fn add(&mut self, o: &Held) -> bool {
    match (self, o) {
      (Held::Count(a), Held::Count(b)) => *a += b,
      (Held::Values(a), Held::Values(b)) => a.extend(b),
      _ => return false,
    }
    true
  }
}

/// Compares what the code holds with the exact contents. Few values are kept as they are; of many only a sketch, which must have the
/// exact number of them and all quantiles within two percent.
pub fn same(data: &Data, want: &Held, what: &str) -> Res {
  match (data, want) {
    (Data::Counter(c), Held::Count(n)) => {
      ensure_eq!(c.value + u64::from(c.value_deprecated), *n, "{what}: counter");
    },
    (Data::InlineHistogramValues(h), Held::Values(v)) => {
      let (mut a, mut b) = (h.values.clone(), v.clone());
      a.sort_by(f64::total_cmp);
      b.sort_by(f64::total_cmp);
      ensure_eq!(a, b, "{what}: values");
    },
    (Data::DdsketchHistogram(h), Held::Values(v)) => {
      let mut s = make_sketch();
      s.decode_and_merge_with(&h.serialized).map_err(|e| Fail::new(format!("{what}: {e}")))?;
      ensure_eq!(s.get_count() as usize, v.len(), "{what}: number of values");
      let mut v = v.clone();
      v.sort_by(f64::total_cmp);
      for (i, x) in v.iter().enumerate() {
        let q = if v.len() == 1 { 0.0 } else { i as f64 / (v.len() - 1) as f64 };
        // The quantile falls on the value or, by rounding, on a neighbour.
        let near = [v[i.saturating_sub(1)], *x, v[(i + 1).min(v.len() - 1)]];
        let got = s.get_value_at_quantile(q).ok_or_else(|| Fail::new(format!("{what}: no quantile")))?;
        ensure!(near.iter().any(|x| (got - x).abs() <= x.abs() * 0.0201 + 1e-9), "{what}: value at {q} is {got} instead of {x}");
      }
    },
    _ => return Err(Fail::new(format!("{what}: {data:?} instead of {want:?}"))),
  }
  Ok(())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Op {
  /// slot, way the full name is spelled, labels, histogram or counter
  Get(u8, u8, u8, bool),
  Record(u8, Vec<u16>),
  Drop(u8),
  Limit(u8),
  Snap,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  limit: Option<u8>,
  ops: Vec<Op>,
}

fn case() -> impl Strategy<Value = Case> {
  let op = prop_oneof![
    4 => (0u8 .. 4, 0u8 .. 9, 0u8 .. 4, any::<bool>()).prop_map(|(a, b, c, d)| Op::Get(a, b, c, d)),
    5 => (0u8 .. 4, prop::collection::vec(1u16 .. 2000, 0 .. 9)).prop_map(|(a, b)| Op::Record(a, b)),
    2 => (0u8 .. 4).prop_map(Op::Drop),
    1 => (0u8 .. 8).prop_map(Op::Limit),
    3 => Just(Op::Snap),
  ];
  (prop_oneof![1 => Just(None), 2 => (0u8 .. 6).prop_map(Some)], prop::collection::vec(op, 1 .. 40)).prop_map(|(limit, ops)| Case { limit, ops })
}

pub fn value(v: u16) -> f64 {
  // Some of what is measured takes no time at all.
  if v % 8 == 0 { 0.0 } else { f64::from(v) / 16.0 + 1.0 }
}

/// Different spellings, some of which are the same name.
fn spell(root: &BoundedScope, i: u8) -> (BoundedScope, &'static str, &'static str) {
  match i {
    0 => (root.clone(), "x", "x"),
    1 => (root.scope("a"), "x", "a:x"),
    2 => (root.clone(), "a:x", "a:x"),
    3 => (root.scope("a").scope("b"), "x", "a:b:x"),
    4 => (root.scope("a:b"), "x", "a:b:x"),
    5 => (root.scope("a"), "b:x", "a:b:x"),
    6 => (root.scope("b"), "x", "b:x"),
    7 => (root.clone(), "y", "y"),
    _ => (root.scope("ab"), "x", "ab:x"),
  }
}

fn labels(i: u8) -> BTreeMap<String, String> {
  let l = |p: &[(&str, &str)]| p.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
  match i {
    0 => l(&[]),
    1 => l(&[("k", "v")]),
    2 => l(&[("k", "v"), ("l", "v")]),
    _ => l(&[("k", "w")]),
  }
}

enum Handle {
  C(Counter),
  H(Histogram),
}

fn play(c: &Case, obs: &mut Obs) -> Res {
  let unbounded = Collector::default();
  let mut limit = None;
  let collector = match c.limit {
    Some(n) => {
      let (tx, rx) = tokio::sync::watch::channel(u32::from(n));
      limit = Some((tx, usize::from(n)));
      BoundedCollector::new(Some(rx))
    },
    None => unbounded.inner().clone(),
  };
  let root = collector.scope("");
  let mut model: BTreeMap<Key, Held> = BTreeMap::new();
  let mut slots: [Option<(Key, Handle)>; 4] = [const { None }; 4];
  let mut snaps = 0;
  for op in &c.ops {
    match op {
      Op::Get(slot, name, l, hist) => {
        let (scope, name, full) = spell(&root, *name);
        let (l, key) = (labels(*l), (full.to_string(), labels(*l)));
        let got = match (*hist, l.is_empty()) {
          (true, true) => scope.histogram(name).map(Handle::H),
          (true, false) => scope.histogram_with_labels(name, l).map(Handle::H),
          (false, true) => scope.counter(name).map(Handle::C),
          (false, false) => scope.counter_with_labels(name, l).map(Handle::C),
        };
        let len = model.len();
        match model.get(&key) {
          Some(held) if matches!(held, Held::Values(_)) != *hist => {
            obs.label("changed type");
            ensure!(matches!(got, Err(Error::ChangedType)), "{key:?} given out as the other type");
          },
          None if limit.as_ref().is_some_and(|(_, n)| len >= *n) => {
            obs.label("overflow");
            ensure!(matches!(got, Err(Error::Overflow)), "{key:?} given out beyond the limit");
          },
          _ => {
            let h = got.map_err(|e| Fail::new(format!("{key:?} refused: {e}")))?;
            obs.label_if(slots.iter().flatten().any(|(k, _)| *k == key), "shared");
            model.entry(key.clone()).or_insert(if *hist { Held::Values(vec![]) } else { Held::Count(0) });
            slots[usize::from(*slot)] = Some((key, h));
          },
        }
      },
      Op::Record(slot, values) => {
        if let Some((key, h)) = &slots[usize::from(*slot)] {
          match (h, model.get_mut(key).unwrap()) {
            (Handle::C(c), Held::Count(n)) => {
              for v in values {
                if *v == 1 { c.inc() } else { c.inc_by(u64::from(*v)) }
                *n += u64::from(*v);
              }
              ensure_eq!(c.get(), *n, "value of {key:?}");
            },
            (Handle::H(h), Held::Values(all)) => {
              for v in values {
                h.observe(value(*v));
                all.push(value(*v));
              }
            },
            _ => unreachable!(),
          }
        }
      },
      Op::Drop(slot) => slots[usize::from(*slot)] = None,
      Op::Limit(n) => {
        if let Some((tx, limit)) = &mut limit {
          tx.send(u32::from(*n)).unwrap();
          *limit = usize::from(*n);
        }
      },
      Op::Snap => {
        let mut got: BTreeMap<Key, MetricData> = BTreeMap::new();
        let (mut twice, mut wrong) = (false, None);
        collector.retain(|id, m| {
          let key = (id.name.clone(), id.labels.clone());
          let used = m.multiple_references();
          if used != slots.iter().flatten().any(|(k, _)| *k == key) {
            wrong = Some(key.clone());
          }
          match m.snap() {
            Some(d) => {
              twice |= got.insert(key, d).is_some();
              true
            },
            None => used,
          }
        });
        ensure!(!twice, "two metrics with one identity");
        ensure!(wrong.is_none(), "{wrong:?} has handles, or has none, against what the store says");
        let mut keep = BTreeMap::new();
        for (key, held) in std::mem::take(&mut model) {
          let empty = match &held {
            Held::Count(n) => *n == 0,
            Held::Values(v) => v.is_empty(),
          };
          let used = slots.iter().flatten().any(|(k, _)| *k == key);
          match (got.remove(&key), empty) {
            (None, true) => (),
            (Some(d), false) => {
              snaps += 1;
              let proto = d.to_proto();
              same(&proto, &held, "taken out")?;
              let again = MetricData::from_proto(proto).ok_or("what was written cannot be read")?;
              same(&again.to_proto(), &held, "written and read back")?;
            },
            (d, _) => return Err(Fail::new(format!("{key:?} holding {held:?} was taken out as {:?}", d.map(|d| d.to_proto())))),
          }
          if !empty || used {
            keep.insert(key, if matches!(held, Held::Count(_)) { Held::Count(0) } else { Held::Values(vec![]) });
          }
        }
        ensure!(got.is_empty(), "metrics nobody recorded: {:?}", got.keys().collect::<Vec<_>>());
        model = keep;
      },
    }
    for (key, held) in &model {
      let (c, h) = (collector.find_counter(&key.0, key.1.clone()), collector.find_histogram(&key.0, key.1.clone()));
      match held {
        Held::Count(n) => ensure!(c.is_some_and(|c| c.get() == *n) && h.is_none(), "{key:?} is not found as it is"),
        Held::Values(_) => ensure!(c.is_none() && h.is_some(), "{key:?} is not found as it is"),
      }
    }
  }
  obs.nontrivial(snaps > 1);
  Ok(())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Merge {
  batches: Vec<Vec<u16>>,
  /// which of them went through their stored form
  stored: Vec<bool>,
}

fn merge(c: &Merge, obs: &mut Obs) -> Res {
  let collector = Collector::default();
  let total = collector.scope("t").histogram("t");
  let mut all = vec![];
  for (i, b) in c.batches.iter().enumerate() {
    let h = collector.scope("b").histogram(&i.to_string());
    for v in b {
      h.observe(value(*v));
      all.push(value(*v));
    }
    let mut part = None;
    collector.inner().retain(|id, m| {
      if id.name == format!("b:{i}") {
        part = m.snap();
      }
      true
    });
    let Some(mut part) = part else {
      ensure!(b.is_empty(), "values lost");
      continue;
    };
    if c.stored[i] {
      part = MetricData::from_proto(part.to_proto()).ok_or("what was written cannot be read")?;
    }
    let MetricData::Histogram(part) = part else { return Err("a histogram became a counter".into()) };
    total.merge_from(&part);
    same(&MetricData::Histogram(part.clone()).to_proto(), &Held::Values(b.iter().map(|v| value(*v)).collect()), "what was merged")?;
    same(&MetricData::Histogram(total.clone()).to_proto(), &Held::Values(all.clone()), "merged")?;
  }
  obs.nontrivial(c.batches.iter().any(|b| b.len() > 5) && c.batches.len() > 1);
  Ok(())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Threads {
  writers: u8,
  rounds: u16,
  hold: bool,
  snap_every_us: u16,
}

fn threads(c: &Threads, obs: &mut Obs) -> Res {
  let collector = BoundedCollector::new(None);
  let done = std::sync::atomic::AtomicUsize::new(0);
  let (mut count, mut values, mut snaps) = (0u64, 0u64, 0);
  std::thread::scope(|s| {
    for w in 0 .. c.writers {
      let (scope, done) = (collector.scope("s"), &done);
      s.spawn(move || {
        let mut kept = vec![];
        for r in 0 .. c.rounds {
          let l = labels((r % 4) as u8);
          let a = scope.counter_with_labels("c", l.clone()).unwrap();
          a.inc_by(u64::from(w) + 1);
          let h = scope.histogram_with_labels("h", l).unwrap();
          h.observe(2.0);
          if c.hold && r % 7 == 0 {
            kept.push((a, h));
          }
        }
        done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
      });
    }
    let mut last = false;
    loop {
      collector.retain(|_, m| {
        let used = m.multiple_references();
        match m.snap() {
          Some(MetricData::Counter(n)) => count += n.get(),
          Some(h) => match h.to_proto() {
            Data::InlineHistogramValues(v) => values += v.values.len() as u64,
            Data::DdsketchHistogram(h) => {
              let mut s = make_sketch();
              s.decode_and_merge_with(&h.serialized).unwrap();
              values += s.get_count() as u64;
            },
            _ => (),
          },
          None => return used,
        }
        true
      });
      snaps += 1;
      if last {
        break;
      }
      last = done.load(std::sync::atomic::Ordering::SeqCst) == usize::from(c.writers);
      std::thread::sleep(std::time::Duration::from_micros(u64::from(c.snap_every_us)));
    }
  });
  obs.nontrivial(c.writers > 1 && snaps > 3);
  let want: u64 = (1 ..= u64::from(c.writers)).map(|w| w * u64::from(c.rounds)).sum();
  ensure_eq!(count, want, "counted by {} threads", c.writers);
  ensure_eq!(values, u64::from(c.writers) * u64::from(c.rounds), "values observed by {} threads", c.writers);
  Ok(())
}

pub fn c31(run: &mut Run) {
  run.run(part("histories", 40_000, 2_000_000, "metrics with contents were taken out more than once").shards(8), case, play);
  run.run(
    part("merge", 20_000, 800_000, "several batches, one of them of more than five values").shards(8),
    || {
      prop::collection::vec((prop::collection::vec(1u16 .. 2000, 0 .. 12), any::<bool>()), 1 .. 6)
        .prop_map(|v| { let (batches, stored) = v.into_iter().unzip(); Merge { batches, stored } })
    },
    merge,
  );
  run.run(
    part("threads", 300, 8_000, "several threads, and metrics taken out more than three times meanwhile").shards(2).max_shrink(40),
    || (1u8 .. 5, 1u16 .. 2500, any::<bool>(), 0u16 .. 60).prop_map(|(writers, rounds, hold, snap_every_us)| Threads { writers, rounds, hold, snap_every_us }),
    threads,
  );
}
