use crate::play::play;
use crate::spec::*;
use vcommon::proptest::prelude::*;
use vcommon::proptest::collection::vec as many;
use vcommon::proptest::option;
use vcommon::{part, Run};

fn pred() -> impl Strategy<Value = Pred> {
  prop_oneof![6 => (1u8 .. 16).prop_map(Pred::Letters), 1 => (1u8 .. 16).prop_map(Pred::NotLetters), 2 => (0u8 .. 6).prop_map(Pred::Field)]
}
fn value() -> impl Strategy<Value = Value> {
  prop_oneof![2 => (0u8 .. 3).prop_map(Value::Fixed), 2 => Just(Value::Field), 1 => Just(Value::Level), 1 => Just(Value::Type)]
}
fn act(flush: u32) -> impl Strategy<Value = Act> {
  let metric = (0u8 .. 4, any::<bool>(), option::of(0u32 .. 5), many(value(), 0 .. 3))
    .prop_map(|(id, counter, fixed, tags)| Act::Metric(Metric { id, counter, fixed, tags }));
  prop_oneof![
    4 => metric,
    3 => (0u8 .. 2, many(value(), 0 .. 2)).prop_map(|(s, t)| Act::Sankey(s, t)),
    1 => (0u8 .. 2).prop_map(Act::Screenshot),
    flush => (0usize .. 4).prop_map(Act::Flush),
  ]
}
fn tr(flush: u32) -> impl Strategy<Value = Tr> {
  (
    0usize .. 8,
    pred(),
    prop_oneof![4 => Just(1u32), 1 => Just(2), 1 => Just(3)],
    many(act(flush), 0 .. 3),
    many((0u8 .. 2, value(), prop::bool::weighted(0.7)), 0 .. 3),
  )
    .prop_map(|(target, pred, count, acts, nodes)| Tr { target, pred, count, acts, nodes })
}
fn wf(flush: u32, bad: bool) -> impl Strategy<Value = Wf> {
  (
    0u8 .. 3,
    any::<bool>(),
    (many(tr(flush), 1 .. 4), many(many(tr(flush), 0 .. 4), 1 .. 4)),
    option::weighted(0.3, 1u32 .. 8),
    option::weighted(0.3, 1u64 .. 300),
    [0u32 .. 4, 0u32 .. 4],
    option::weighted(0.1, 0u8 .. 7),
  )
    .prop_map(move |(id, exclusive, (first, rest), logs_limit, ms_limit, sankey_limits, broken)| Wf {
      id,
      exclusive,
      states: std::iter::once(first).chain(rest).collect(),
      logs_limit,
      ms_limit,
      sankey_limits,
      bad: broken.filter(|_| bad),
    })
}
fn log(sessions: u8) -> impl Strategy<Value = LogSpec> {
  (
    0u8 .. 4,
    option::weighted(0.6, 0u8 .. 6),
    prop_oneof![12 => Just(0u8), 1 => 0 .. sessions],
    prop_oneof![6 => 0i16 .. 60, 1 => -100i16 .. 400],
    prop_oneof![3 => Just(1u8), 3 => Just(9), 4 => 0u8 .. 64],
  )
    .prop_map(|(letter, field, session, ms, dest)| LogSpec { letter, field, session, ms, dest })
}
fn flushes() -> impl Strategy<Value = Vec<FlushSpec>> {
  many(
    (0u8 .. 8, option::weighted(0.7, (prop_oneof![Just(0u8), (1u8 .. 8).prop_map(|c| c << 3)], option::weighted(0.7, 1u64 .. 6))))
      .prop_map(|(buffers, streaming)| FlushSpec { buffers, streaming }),
    1 .. 4,
  )
}
fn which() -> impl Strategy<Value = Vec<usize>> {
  many(0usize .. 5, 0 .. 5)
}

fn matching() -> impl Strategy<Value = Case> {
  let op = prop_oneof![30 => log(3).prop_map(Op::Log), 1 => which().prop_map(|w| Op::Update(w, 0))];
  (
    many(wf(0, true), 1 .. 5),
    prop_oneof![3 => Just(200u32), 2 => 1u32 .. 8],
    many(0u8 .. 6, 0 .. 4),
    many(op, 1 .. 60),
  )
    .prop_map(|(wfs, limit, sankey_answers, ops)| Case {
      wfs,
      flushes: vec![FlushSpec { buffers: 1, streaming: None }],
      limit,
      buffers: 0o77,
      sankey_answers,
      ops,
    })
}
fn along(exclusive: bool, values: Vec<u8>) -> Case {
  let steps = if exclusive { 2 } else { 3 };
  let tr = |target, acts| Tr { target, pred: Pred::Letters(15), count: 1, acts, nodes: vec![(0, Value::Field, true)] };
  Case {
    wfs: vec![Wf {
      id: 0,
      exclusive,
      states: (1 ..= steps).map(|n| vec![tr(n - 1, if n == steps { vec![Act::Sankey(0, vec![])] } else { vec![] })]).chain([vec![]]).collect(),
      logs_limit: None,
      ms_limit: None,
      sankey_limits: [3, 3],
      bad: None,
    }],
    flushes: vec![FlushSpec { buffers: 1, streaming: None }],
    limit: 200,
    buffers: 0o77,
    sankey_answers: vec![],
    ops: values.into_iter().map(|v| Op::Log(LogSpec { letter: 0, field: Some(v), session: 0, ms: 1, dest: 1 })).collect(),
  }
}
/// Paths of two values.
fn paths() -> impl Strategy<Value = Case> {
  many(0u8 .. 6, 6 ..= 6).prop_map(|pieces| along(true, pieces.into_iter().map(|p| PIECE + p).collect()))
}
/// With every log a path of the last three values; some of which are rarer.
fn lots() -> impl Strategy<Value = Case> {
  many(prop_oneof![1 => 0u8 .. 6, 1 => 0u8 .. 5], 20 .. 400).prop_map(|v| along(false, v))
}
fn flushing() -> impl Strategy<Value = Case> {
  let op = prop_oneof![
    24 => log(3).prop_map(Op::Log),
    2 => (which(), prop_oneof![Just(0u8), 0u8 .. 64]).prop_map(|(w, b)| Op::Update(w, b)),
    8 => prop_oneof![6 => Just(Some(true)), 2 => Just(Some(false)), 1 => Just(None)].prop_map(Op::Answer),
    5 => (0usize .. 3, any::<bool>()).prop_map(|(k, ok)| Op::Flushed(k, ok)),
    1 => option::of(prop_oneof![2 => 0u16 .. 1000, 1 => 1000u16 .. 2500]).prop_map(Op::Persist),
    1 => any::<bool>().prop_map(Op::Restart),
  ];
  (many(wf(12, false), 1 .. 4), flushes(), 1u8 .. 64, many(op, 1 .. 60)).prop_map(|(wfs, flushes, buffers, ops)| Case {
    wfs,
    flushes,
    limit: 200,
    buffers,
    sankey_answers: vec![],
    ops,
  })
}
fn restarts() -> impl Strategy<Value = Case> {
  let op = prop_oneof![
    24 => log(2).prop_map(Op::Log),
    1 => which().prop_map(|w| Op::Update(w, 0)),
    4 => prop_oneof![3 => Just(Some(true)), 1 => Just(Some(false))].prop_map(Op::Answer),
    2 => (0usize .. 3, any::<bool>()).prop_map(|(k, ok)| Op::Flushed(k, ok)),
    2 => option::of(prop_oneof![2 => 0u16 .. 1000, 1 => 1000u16 .. 2500]).prop_map(Op::Persist),
    3 => prop::bool::weighted(0.7).prop_map(Op::Restart),
    1 => prop_oneof![1 => Just(200u32), 3 => 0u32 .. 8].prop_map(Op::Limit),
  ];
  (
    many(wf(4, false), 1 .. 4),
    flushes(),
    prop_oneof![3 => Just(200u32), 1 => 1u32 .. 8],
    1u8 .. 64,
    many(op, 1 .. 60),
  )
    .prop_map(|(wfs, flushes, limit, buffers, ops)| Case { wfs, flushes, limit, buffers, sankey_answers: vec![], ops })
}

fn wound() -> impl Strategy<Value = Wound> {
  let big = prop_oneof![Just(u64::MAX), Just(1 << 45), Just(1 << 33), Just(1 << 62), 0u64 .. 50, Just(u64::from(u32::MAX))];
  prop_oneof![
    4 => (0u16 .. 1000, any::<u8>()).prop_map(|(p, v)| Wound::Byte(p, v)),
    4 => (0u16 .. 1000, 0u8 .. 9).prop_map(|(p, v)| Wound::Byte(p, v)),
    4 => (0u16 .. 1000, big).prop_map(|(p, v)| Wound::Word(p, v)),
    1 => (0u16 .. 1000).prop_map(Wound::Cut),
    1 => (0u16 .. 1000, many(any::<u8>(), 1 .. 9)).prop_map(|(p, v)| Wound::Insert(p, v)),
  ]
}
fn hurt() -> impl Strategy<Value = Hurt> {
  let op = prop_oneof![
    12 => log(1).prop_map(Op::Log),
    1 => prop_oneof![2 => Just(Some(true)), 1 => Just(Some(false))].prop_map(Op::Answer),
  ];
  (
    (many(wf(4, false), 1 .. 4), flushes(), 1u8 .. 64, many(op, 1 .. 20)),
    many(wound(), 0 .. 4),
    option::weighted(0.4, many(wf(4, false), 1 .. 4)),
    many(log(1), 0 .. 12),
    many(log(1), 1 .. 12),
    prop_oneof![2 => Just(200u32), 1 => 1u32 .. 8],
  )
    .prop_map(|((wfs, flushes, buffers, ops), wounds, others, after, fresh, limit)| Hurt {
      limit,
      before: Case { wfs, flushes, limit: 200, buffers, sankey_answers: vec![], ops },
      wounds,
      others,
      after,
      fresh,
    })
}

pub fn c28(run: &mut Run) {
  run.run(part("paths", 3_000, 30_000, "two different paths").shards(4), paths, play);
  run.run(part("many", 400, 4_000, "more than two traversals advanced").shards(8), lots, play);
  run.run(part("logs", 30_000, 1_200_000, "more than two traversals advanced").shards(8), matching, play);
}
pub fn c29(run: &mut Run) {
  run.run(part("flushes", 20_000, 1_000_000, "more than two traversals advanced").shards(8), flushing, play);
}
pub fn c30(run: &mut Run) {
  run.run(part("restarts", 12_000, 500_000, "more than two traversals advanced").shards(8), restarts, play);
  run.run(part("damage", 8_000, 150_000, "the stored state or what is configured changed and a state was stored").shards(8), hurt, crate::hurt::play);
}
