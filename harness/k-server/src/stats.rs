//! C06: server metrics.
use bd_server_stats::stats::{AutoGauge, Collector, CounterWrapper, LateInitializedCounter, LateInitializedGauge, LateInitializedHistogram, Scope, StackAutoGauge};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Run};

type Labels = BTreeMap<String, String>;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
  Sub { of: u8, extend: String, labels: Vec<(u8, u8)> },
  Counter { scope: u8, name: u8, labels: Vec<(u8, u8)>, add: u8, dynamic: bool },
  Gauge { scope: u8, name: u8, add: i8 },
  Histogram { scope: u8, name: u8, buckets: Option<u8>, value: u8 },
  AutoNew { scope: u8, name: u8 },
  AutoDrop(u8),
  /// Held while a panic unwinds.
  Unwind { scope: u8, name: u8, stack: bool },
  StackAuto { scope: u8, name: u8 },
  /// A family with labels of its own, in a scope without fixed labels.
  Vec { scope: u8, kind: u8, value: u8, add: u8 },
  Gather,
}

#[derive(Default, Debug, Clone, PartialEq)]
struct Hist {
  count: u64,
  sum: f64,
  cumulative: Vec<(f64, u64)>,
}

impl Hist {
  fn observe(&mut self, value: f64) {
    self.count += 1;
    self.sum += value;
    for (bound, n) in &mut self.cumulative {
      if value <= *bound {
        *n += 1;
      }
    }
  }
}
enum Family {
  C(prometheus::IntCounterVec),
  G(prometheus::IntGaugeVec),
  H(prometheus::HistogramVec),
}

#[derive(Clone, Debug, PartialEq)]
enum M {
  C(u64),
  G(i64),
  H(Hist),
}

fn gathered(c: &Collector) -> Result<BTreeMap<(String, Labels), M>, vcommon::Fail> {
  let mut out = BTreeMap::new();
  for f in c.gather() {
    for m in f.get_metric() {
      let labels: Labels = m.get_label().iter().map(|l| (l.get_name().to_string(), l.get_value().to_string())).collect();
      let v = match f.get_field_type() {
        prometheus::proto::MetricType::COUNTER => M::C(m.get_counter().get_value() as u64),
        prometheus::proto::MetricType::GAUGE => M::G(m.get_gauge().get_value() as i64),
        _ => {
          let h = m.get_histogram();
          M::H(Hist {
            count: h.get_sample_count(),
            sum: h.get_sample_sum(),
            cumulative: h.get_bucket().iter().map(|b| (b.get_upper_bound(), b.get_cumulative_count())).collect(),
          })
        },
      };
      ensure!(out.insert((f.get_name().to_string(), labels.clone()), v).is_none(), "{} {labels:?} reported twice", f.get_name());
    }
  }
  Ok(out)
}

fn labels(l: &[(u8, u8)]) -> HashMap<String, String> {
  l.iter().map(|(k, v)| (format!("k{k}"), if *v == 2 { String::new() } else { format!("v{v}") })).collect()
}

const BUCKETS: [&[f64]; 4] = [
  &[7.0],
  &[1.0, 5.0, 20.0],
  &[0.5, 100.0],
  &[1.0, 2.0, 3.0, 4.0, 6.0, 8.0, 12.0, 16.0, 24.0, 32.0, 48.0, 64.0, 96.0, 128.0, 192.0],
];
/// Now and then far more than fits into 32 bits.
fn many(add: u8) -> u64 {
  if add > 240 {
    (1 << 33) + u64::from(add)
  } else {
    add.into()
  }
}
const DEFAULT_BUCKETS: &[f64] = &[0.005, 0.01, 0.025, 0.05, 0.1, 0.25, 0.5, 1.0, 2.5, 5.0, 10.0];

struct S {
  real: Scope,
  path: String,
  labels: Labels,
}
impl S {
  fn name(&self, n: u8) -> String {
    if self.path.is_empty() { format!("m{n}") } else { format!("{}:m{n}", self.path) }
  }
}

fn l() -> impl Strategy<Value = Vec<(u8, u8)>> {
  prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec((0u8 .. 3, 0u8 .. 3), 1 .. 3)]
}
fn op() -> impl Strategy<Value = Op> {
  prop_oneof![
    4 => (any::<u8>(), prop::sample::select(vec!["", "a", "b", "a:b", "aa"]), l())
      .prop_map(|(of, e, labels)| Op::Sub { of, extend: e.to_string(), labels }),
    6 => (any::<u8>(), 0u8 .. 3, l(), prop_oneof![8 => 0u8 .. 9, 1 => 241u8 ..= 255], any::<bool>())
      .prop_map(|(scope, name, labels, add, dynamic)| Op::Counter { scope, name, labels, add, dynamic }),
    4 => (any::<u8>(), 3u8 .. 5, -5i8 .. 9).prop_map(|(scope, name, add)| Op::Gauge { scope, name, add }),
    4 => (any::<u8>(), 5u8 .. 7, prop::option::of(0u8 .. 4), 0u8 .. 200)
      .prop_map(|(scope, name, buckets, value)| Op::Histogram { scope, name, buckets, value }),
    2 => (any::<u8>(), 7u8 .. 9).prop_map(|(scope, name)| Op::AutoNew { scope, name }),
    2 => any::<u8>().prop_map(Op::AutoDrop),
    1 => (any::<u8>(), 7u8 .. 9).prop_map(|(scope, name)| Op::StackAuto { scope, name }),
    1 => (any::<u8>(), 7u8 .. 9, any::<bool>()).prop_map(|(scope, name, stack)| Op::Unwind { scope, name, stack }),
    2 => (any::<u8>(), 0u8 .. 3, 0u8 .. 3, 0u8 .. 9).prop_map(|(scope, kind, value, add)| Op::Vec { scope, kind, value, add }),
    1 => Just(Op::Gather),
  ]
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  root: String,
  ops: Vec<Op>,
  chained: bool,
}

pub fn c06(run: &mut Run) {
  run.run(
    part(
      "registry",
      60_000,
      1_000_000,
      "histories of nested labelled scopes and get-or-create of counters, gauges, histograms and auto gauges from them, gathered and \
       compared with a map; same fully qualified name is only used with one label-key set and kind (the registry's precondition); \
       non-trivial = a metric reached through two different handles",
    ),
    || {
      (prop::sample::select(vec!["", "root"]), prop::collection::vec(op(), 1 .. 40), any::<bool>())
        .prop_map(|(r, ops, chained)| Case { root: r.to_string(), ops, chained })
    },
    |case, obs| {
      let collector = Collector::default();
      let mut scopes = vec![S { real: collector.scope(&case.root), path: case.root.clone(), labels: Labels::new() }];
      let mut model: BTreeMap<(String, Labels), M> = BTreeMap::new();
      let mut keys: HashMap<String, (u8, BTreeSet<String>)> = HashMap::new();
      let mut autos: Vec<(AutoGauge, (String, Labels))> = vec![];
      let mut vecs: HashMap<String, Family> = HashMap::new();
      let callbacks = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
      let seen = callbacks.clone();
      // What a callback notes is in what is gathered.
      let noted = collector.scope("noted").gauge("gathers");
      let noted_as = || ("noted:gathers".to_string(), Labels::new());
      collector.add_gather_callback(move || {
        noted.set(seen.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as i64 + 1);
      });
      let mut gathers = 0;
      let fits = |keys: &mut HashMap<String, (u8, BTreeSet<String>)>, kind: u8, name: &str, l: &Labels| {
        let set: BTreeSet<String> = l.keys().cloned().collect();
        let e = keys.entry(name.to_string()).or_insert_with(|| (kind, set.clone()));
        *e == (kind, set)
      };
      for op in &case.ops {
        match op {
          Op::Sub { of, extend, labels: l } => {
            let of = &scopes[*of as usize % scopes.len()];
            let real = if l.is_empty() { of.real.scope(extend) } else { of.real.scope_with_labels(extend, labels(l)) };
            let path = if extend.is_empty() {
              of.path.clone()
            } else if of.path.is_empty() {
              extend.clone()
            } else {
              format!("{}:{extend}", of.path)
            };
            let mut all = of.labels.clone();
            all.extend(labels(l));
            scopes.push(S { real, path, labels: all });
          },
          Op::Counter { scope, name, labels: l, add, dynamic } => {
            let s = &scopes[*scope as usize % scopes.len()];
            let fq = s.name(*name);
            let mut all = s.labels.clone();
            all.extend(labels(l));
            if !fits(&mut keys, 0, &fq, &all) {
              continue;
            }
            let short = format!("m{name}");
            let c = if l.is_empty() { s.real.counter(&short) } else { s.real.counter_with_labels(&short, labels(l)) };
            let known = model.contains_key(&(fq.clone(), all.clone()));
            obs.nontrivial(known && *add > 0);
            let M::C(v) = model.entry((fq.clone(), all.clone())).or_insert(M::C(0)) else { unreachable!() };
            ensure_eq!(c.get(), *v, "counter {fq} {all:?} when obtained");
            if *dynamic {
              let d = CounterWrapper::make_dyn(c);
              d.inc_by(many(*add));
              d.inc();
              *v += 1;
            } else {
              c.inc_by(many(*add));
            }
            *v += many(*add);
          },
          Op::Gauge { scope, name, add } => {
            let s = &scopes[*scope as usize % scopes.len()];
            let fq = s.name(*name);
            if !fits(&mut keys, 1, &fq, &s.labels) {
              continue;
            }
            let g = s.real.gauge(&format!("m{name}"));
            let M::G(v) = model.entry((fq.clone(), s.labels.clone())).or_insert(M::G(0)) else { unreachable!() };
            ensure_eq!(g.get(), *v, "gauge {fq} when obtained");
            g.add(i64::from(*add));
            *v += i64::from(*add);
          },
          Op::Histogram { scope, name, buckets, value } => {
            let s = &scopes[*scope as usize % scopes.len()];
            let fq = s.name(*name);
            if !fits(&mut keys, 2, &fq, &s.labels) {
              continue;
            }
            let short = format!("m{name}");
            let h = match buckets {
              Some(b) => s.real.histogram_with_buckets(&short, BUCKETS[*b as usize]),
              None => s.real.histogram(&short),
            };
            // The first to ask decides the buckets.
            let M::H(v) = model.entry((fq.clone(), s.labels.clone())).or_insert_with(|| {
              let b = buckets.map_or(DEFAULT_BUCKETS, |b| BUCKETS[b as usize]);
              M::H(Hist { cumulative: b.iter().map(|b| (*b, 0)).collect(), ..Hist::default() })
            }) else {
              unreachable!()
            };
            ensure_eq!(h.get_sample_count(), v.count, "histogram {fq} when obtained");
            h.observe(f64::from(*value));
            v.observe(f64::from(*value));
          },
          Op::AutoNew { scope, name } | Op::StackAuto { scope, name } => {
            let s = &scopes[*scope as usize % scopes.len()];
            let fq = s.name(*name);
            if !fits(&mut keys, 1, &fq, &s.labels) {
              continue;
            }
            let g = s.real.gauge(&format!("m{name}"));
            let id = (fq.clone(), s.labels.clone());
            let M::G(v) = model.entry(id.clone()).or_insert(M::G(0)) else { unreachable!() };
            if matches!(op, Op::StackAuto { .. }) {
              let auto = StackAutoGauge::new(&g);
              ensure_eq!(g.get(), *v + 1, "gauge while held on the stack");
              drop(auto);
              ensure_eq!(g.get(), *v, "gauge after the stack holder is gone");
            } else {
              autos.push((AutoGauge::new(g.clone()), id));
              *v += 1;
              ensure_eq!(g.get(), *v, "gauge while held");
            }
          },
          Op::Unwind { scope, name, stack } => {
            let s = &scopes[*scope as usize % scopes.len()];
            let fq = s.name(*name);
            if !fits(&mut keys, 1, &fq, &s.labels) {
              continue;
            }
            let g = s.real.gauge(&format!("m{name}"));
            let M::G(v) = model.entry((fq.clone(), s.labels.clone())).or_insert(M::G(0)) else { unreachable!() };
            let unwound = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
              let _held: Box<dyn std::any::Any>;
              let _on_stack;
              if *stack {
                _on_stack = StackAutoGauge::new(&g);
              } else {
                _held = Box::new(AutoGauge::new(g.clone()));
              }
              std::panic::resume_unwind(Box::new("unwind"));
            }));
            ensure!(unwound.is_err(), "did not unwind");
            ensure_eq!(g.get(), *v, "gauge {fq} after its holder was unwound");
          },
          Op::Vec { scope, kind, value, add } => {
            let s = &scopes[*scope as usize % scopes.len()];
            if !s.labels.is_empty() {
              continue;
            }
            let short = format!("vec{kind}");
            let fq = if s.path.is_empty() { short.clone() } else { format!("{}:{short}", s.path) };
            let family = vecs.entry(fq.clone()).or_insert_with(|| match kind {
              0 => Family::C(s.real.counter_vec(&short, &["own"])),
              1 => Family::G(s.real.gauge_vec(&short, &["own"])),
              _ => Family::H(s.real.histogram_vec(&short, &["own"])),
            });
            let value = format!("x{value}");
            let id = (fq, Labels::from([("own".to_string(), value.clone())]));
            match family {
              Family::C(f) => {
                f.with_label_values(&[&value]).inc_by(u64::from(*add));
                let M::C(v) = model.entry(id).or_insert(M::C(0)) else { unreachable!() };
                *v += u64::from(*add);
              },
              Family::G(f) => {
                f.with_label_values(&[&value]).sub(i64::from(*add));
                let M::G(v) = model.entry(id).or_insert(M::G(0)) else { unreachable!() };
                *v -= i64::from(*add);
              },
              Family::H(f) => {
                f.with_label_values(&[&value]).observe(f64::from(*add));
                let M::H(v) = model.entry(id).or_insert_with(|| {
                  M::H(Hist { cumulative: DEFAULT_BUCKETS.iter().map(|b| (*b, 0)).collect(), ..Hist::default() })
                }) else {
                  unreachable!()
                };
                v.observe(f64::from(*add));
              },
            }
          },
          Op::AutoDrop(i) => {
            if !autos.is_empty() {
              let (g, id) = autos.swap_remove(*i as usize % autos.len());
              drop(g);
              let Some(M::G(v)) = model.get_mut(&id) else { unreachable!() };
              *v -= 1;
            }
          },
          Op::Gather => {
            let got = gathered(&collector)?;
            gathers += 1;
            let mut want = model.clone();
            want.insert(("stats:label_tracker:label_overflow".into(), Labels::new()), M::C(0));
            want.insert(noted_as(), M::G(gathers as i64));
            ensure_eq!(got, want, "gathered metrics");
          },
        }
      }
      let mut want = model.clone();
      want.insert(("stats:label_tracker:label_overflow".into(), Labels::new()), M::C(0));
      if case.chained {
        struct Other(Collector);
        impl bd_server_stats::stats::GatherMetrics for Other {
          fn gather(&self) -> Vec<prometheus::proto::MetricFamily> {
            self.0.gather().into_iter().filter(|f| f.get_name().starts_with("chained:")).collect()
          }
        }
        for (i, x) in ["x", "y", "z"].into_iter().enumerate() {
          let other = Collector::default();
          other.scope("chained").counter(x).inc_by(3 + i as u64);
          collector.chain(std::sync::Arc::new(Other(other)));
          want.insert((format!("chained:{x}"), Labels::new()), M::C(3 + i as u64));
        }
      }
      let got = gathered(&collector)?;
      gathers += 1;
      want.insert(noted_as(), M::G(gathers as i64));
      ensure_eq!(got, want, "gathered metrics");
      ensure_eq!(callbacks.load(std::sync::atomic::Ordering::SeqCst), gathers, "gather callbacks run");
      // The text form names the same counters and gauges.
      want.insert(noted_as(), M::G(gathers as i64 + 1));
      let text = String::from_utf8(collector.prometheus_output()).unwrap();
      for ((name, l), m) in &want {
        let v = match m {
          M::C(v) => v.to_string(),
          M::G(v) => v.to_string(),
          M::H(_) => continue,
        };
        let l: Vec<String> = l.iter().map(|(k, v)| format!("{k}=\"{v}\"")).collect();
        let line = if l.is_empty() { format!("{name} {v}") } else { format!("{name}{{{}}} {v}", l.join(",")) };
        ensure!(text.lines().any(|t| t == line), "no line {line:?} in the text form\n{text}");
      }
      Ok(())
    },
  );

  run.run(
    part(
      "label-limit",
      60_000,
      1_000_000,
      "late-labelled counters, gauges and histograms with one to four label names under a small limit on distinct label values; non-trivial = \
       the limit was reached",
    ),
    || {
      (
        0u64 .. 9,
        prop_oneof![2 => 1usize .. 5, 2 => Just(2usize)],
        prop::collection::vec((0u8 .. 3, prop::array::uniform4(0usize .. 6), 1u8 .. 5), 1 .. 24),
      )
    },
    |(limit, labels, uses), obs| {
      let names = &["bar", "baz", "q", "Bar"][.. *labels];
      let collector = Collector::new_with_label_limit(*limit);
      let scope = collector.scope("s");
      let b = scope.labeled_metric_builder(names);
      let (c, g, h) = (b.build_counter("c"), b.build_gauge("g"), b.build_histogram_with_buckets("h", &[2.0, 4.0]));
      let mut tracked: BTreeSet<String> = BTreeSet::new();
      let mut model: BTreeMap<(String, Labels), (u64, u64)> = BTreeMap::new();
      let mut overflow = 0u64;
      for (kind, values, n) in uses {
        // All of one length: the metrics library tells label values apart by their concatenation.
        let values: Vec<&str> = values[.. *labels].iter().map(|v| ["v0", "v1", "v2", "V1", "v ", " v"][*v]).collect();
        let mut over = false;
        for l in names.iter().zip(&values).map(|(n, v)| format!("{n} {v}")) {
          if !tracked.contains(&l) {
            if (tracked.len() as u64) < *limit {
              tracked.insert(l);
            } else {
              over = true;
              break;
            }
          }
        }
        overflow += u64::from(over);
        obs.nontrivial(over);
        let name = match kind {
          0 => {
            let mut m: LateInitializedCounter = c.new_metric();
            match values[..] {
              // One label can be given as a plain string.
              [v] => m.get(&v.to_string()).inc_by(u64::from(*n) - 1),
              _ => m.get(&values).inc_by(u64::from(*n) - 1),
            }
            // Asking again does not count labels again, nor change them.
            m.get(&vec!["other"; *labels]).inc();
            "s:c"
          },
          1 => {
            let mut m: LateInitializedGauge = g.new_metric();
            m.get(&values).add(i64::from(*n));
            "s:g"
          },
          _ => {
            let mut m: LateInitializedHistogram = h.new_metric();
            m.get(&values).observe(f64::from(*n));
            "s:h"
          },
        };
        let used = if over { vec!["label_overflow"; *labels] } else { values.clone() };
        let l: Labels = names.iter().zip(used).map(|(n, v)| (n.to_string(), v.to_string())).collect();
        let e = model.entry((name.to_string(), l)).or_default();
        e.0 += u64::from(*n);
        e.1 += 1;
      }
      let got = gathered(&collector)?;
      let mut want: BTreeMap<(String, Labels), M> = BTreeMap::new();
      want.insert(("stats:label_tracker:label_overflow".into(), Labels::new()), M::C(overflow));
      for ((name, l), (sum, count)) in model {
        let v = match name.as_str() {
          "s:c" => M::C(sum),
          "s:g" => M::G(sum as i64),
          _ => {
            let Some(M::H(h)) = got.get(&(name.clone(), l.clone())) else {
              return Err(format!("no histogram {l:?} in {got:?}").into());
            };
            ensure_eq!((h.count, h.sum), (count, sum as f64), "histogram {l:?}");
            continue;
          },
        };
        want.insert((name, l), v);
      }
      let flat: BTreeMap<_, _> = got.into_iter().filter(|(_, v)| !matches!(v, M::H(_))).collect();
      ensure_eq!(flat, want, "metrics with limited labels");
      Ok(())
    },
  );

  run.run(
    part(
      "threads",
      4_000,
      40_000,
      "several threads obtain and increment metrics from a small colliding set at once; totals must add up; non-trivial = two threads \
       share a metric",
    )
    .max_shrink(100),
    || prop::collection::vec(prop::collection::vec((0u8 .. 3, 0u8 .. 3), 1 .. 40), 2 .. 5),
    |threads, obs| {
      let collector = Collector::new_with_label_limit(2);
      let scope = collector.scope("t");
      let late = scope.labeled_metric_builder(&["n", "l"]).build_counter("late");
      let mut total: HashMap<(u8, u8), u64> = HashMap::new();
      let mut by: HashMap<(u8, u8), BTreeSet<usize>> = HashMap::new();
      for (i, t) in threads.iter().enumerate() {
        for k in t {
          *total.entry(*k).or_default() += 1;
          by.entry(*k).or_default().insert(i);
        }
      }
      obs.nontrivial(by.values().any(|s| s.len() > 1));
      let barrier = std::sync::Barrier::new(threads.len());
      std::thread::scope(|s| {
        let hs: Vec<_> = threads
          .iter()
          .map(|t| {
            let (scope, barrier, late) = (scope.clone(), &barrier, late.clone());
            s.spawn(move || {
              barrier.wait();
              for (n, l) in t {
                scope.counter_with_labels(&format!("m{n}"), labels(&[(0, *l)])).inc();
                let mut late: LateInitializedCounter = late.new_metric();
                late.get(&vec![["a", "b", "c"][*n as usize], ["x", "y", "z"][*l as usize]]).inc();
                let _held = AutoGauge::new(scope.gauge(&format!("g{n}")));
                scope.histogram_with_buckets(&format!("h{n}"), BUCKETS[1]).observe(1.0);
              }
            })
          })
          .collect();
        for h in hs {
          if h.join().is_err() {
            return Err(vcommon::Fail::new("a thread panicked"));
          }
        }
        Ok(())
      })?;
      let mut of: BTreeMap<u8, u64> = BTreeMap::new();
      for ((n, l), v) in total {
        let c = scope.counter_with_labels(&format!("m{n}"), labels(&[(0, l)]));
        ensure_eq!(c.get(), v, "total of m{n} v{l}");
        *of.entry(n).or_insert(0) += v;
      }
      let late: u64 = gathered(&collector)?.into_iter().filter(|((n, _), _)| n == "t:late").map(|(_, v)| if let M::C(v) = v { v } else { 0 }).sum();
      ensure_eq!(late, of.values().sum::<u64>(), "total of the late-labelled counter");
      for (n, v) in of {
        ensure_eq!(scope.gauge(&format!("g{n}")).get(), 0, "g{n} after all its holders are gone");
        ensure_eq!(scope.histogram(&format!("h{n}")).get_sample_count(), v, "observations of h{n}");
      }
      Ok(())
    },
  );
}
