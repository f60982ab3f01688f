//! C41: what waits to be processed, in the hand-over queue and before there is a configuration.
use bd_client_stats_store::Collector;
use bd_log_metadata::{AnnotatedLogFields, LogFieldKind};
use bd_log_primitives::{AnnotatedLogField, LogField, LogFieldValue, LogFields};
use open_logger::async_log_buffer::LogLine;
use open_logger::memory_bound::{channel, MemorySized, Receiver, SendCounters, Sender, TrySendError};
use open_logger::pre_config_buffer::{Error, PreConfigBuffer, PushCounters};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

#[derive(Debug, Clone, PartialEq, Eq)]
struct Msg {
  n: u64,
  from: usize,
  size: usize,
}
impl MemorySized for Msg {
  fn size(&self) -> usize {
    self.size
  }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Op {
  Send(u8, u8),
  /// As large as still fits, off by so much.
  Fit(u8, i8),
  Recv,
  /// Wait for a message that is sent only then.
  Wait(u8, u8),
  Clone(u8),
  Drop(u8),
  Close,
  Drain,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  count: u8,
  bytes: u16,
  ops: Vec<Op>,
}

fn case() -> impl Strategy<Value = Case> + Clone {
  let op = prop_oneof![
    8 => (any::<u8>(), any::<u8>()).prop_map(|(s, n)| Op::Send(s, n)),
    3 => (any::<u8>(), -1i8 .. 2).prop_map(|(s, n)| Op::Fit(s, n)),
    6 => Just(Op::Recv),
    2 => (any::<u8>(), any::<u8>()).prop_map(|(s, n)| Op::Wait(s, n)),
    1 => any::<u8>().prop_map(Op::Clone),
    1 => any::<u8>().prop_map(Op::Drop),
    1 => Just(Op::Drain),
  ];
  let end = prop_oneof![3 => Just(None), 1 => Just(Some(Op::Close))];
  (1u8 .. 8, prop_oneof![0u16 .. 40, 40u16 .. 900], proptest_vec(op, 0 .. 60), end, 0usize .. 60).prop_map(|(count, bytes, mut ops, end, at)| {
    if let Some(end) = end {
      let at = at.min(ops.len());
      ops.insert(at, end);
    }
    Case { count, bytes, ops }
  })
}
use vcommon::proptest::collection::vec as proptest_vec;

struct Queue {
  real: Vec<Sender<Msg>>,
  rx: Option<Receiver<Msg>>,
  /// What it should hold.
  held: VecDeque<Msg>,
  count: usize,
  bytes: usize,
  next: u64,
  counters: SendCounters,
  expected: BTreeMap<&'static str, u64>,
}
impl Queue {
  fn used(&self) -> usize {
    self.held.iter().map(|m| m.size).sum()
  }
  fn send(&mut self, which: u8, size: usize, obs: &mut Obs) -> Res {
    if self.real.is_empty() {
      return Ok(());
    }
    let from = usize::from(which) % self.real.len();
    let msg = Msg { n: self.next, from, size };
    self.next += 1;
    let got = self.real[from].try_send(msg.clone());
    self.counters.record(&got);
    let want = if size + self.used() > self.bytes {
      "failure_size_overflow"
    } else if self.rx.is_none() {
      "failure_closed"
    } else if self.held.len() >= self.count {
      "failure_count_overflow"
    } else {
      "success"
    };
    let (label, back) = match got {
      Ok(()) => ("success", None),
      Err(TrySendError::FullSizeOverflow(m)) => ("failure_size_overflow", Some(m)),
      Err(TrySendError::FullCountOverflow(m)) => ("failure_count_overflow", Some(m)),
      Err(TrySendError::Closed(m)) => ("failure_closed", Some(m)),
    };
    if self.rx.is_none() {
      // What was left in the queue went with its reader: whether its room is still counted is nobody's concern.
      ensure!(label != "success", "{msg:?} was accepted by a queue that nobody reads");
    } else {
      // What is refused for two reasons may be answered with either.
      let both = size + self.used() > self.bytes && self.held.len() >= self.count && label.ends_with("_overflow");
      ensure!(
        label == want || both,
        "{msg:?} was answered {label}, not {want}: {} messages of {} bytes wait, up to {} of {} may",
        self.held.len(),
        self.used(),
        self.count,
        self.bytes
      );
    }
    *self.expected.entry(label).or_default() += 1;
    obs.label(label);
    match back {
      None => self.held.push_back(msg),
      Some(m) => ensure_eq!(m, msg, "a refused message is given back"),
    }
    Ok(())
  }
  fn recv(&mut self, rt: &tokio::runtime::Runtime) -> Result<bool, Fail> {
    let Some(rx) = &mut self.rx else { return Ok(false) };
    let got = rt.block_on(async {
      tokio::select! {
        biased;
        m = rx.recv() => Some(m),
        () = async { for _ in 0 .. 5 { tokio::task::yield_now().await } } => None,
      }
    });
    let want = self.held.pop_front();
    match got {
      Some(Some(m)) => {
        ensure!(Some(&m) == want.as_ref(), "{m:?} came out of the queue, {want:?} was next");
        Ok(true)
      },
      Some(None) => {
        ensure!(want.is_none() && self.real.is_empty(), "the queue ended, {want:?} was next, {} may still send", self.real.len());
        Ok(false)
      },
      None => {
        ensure!(want.is_none(), "nothing came out of the queue, {want:?} was next");
        ensure!(!self.real.is_empty(), "the queue did not end although nobody can send");
        Ok(false)
      },
    }
  }
}

fn sequence(c: &Case, obs: &mut Obs) -> Res {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let (tx, rx) = channel::<Msg>(usize::from(c.count), usize::from(c.bytes));
  let collector = Collector::default();
  let counters = SendCounters::new(&collector.scope("q"), "op");
  let mut q =
    Queue { real: vec![tx], rx: Some(rx), held: VecDeque::new(), count: c.count.into(), bytes: c.bytes.into(), next: 0, counters, expected: BTreeMap::new() };
  for op in &c.ops {
    match op {
      Op::Send(which, n) => {
        // From nothing to a little more than all the room.
        let size = usize::from(*n) * (usize::from(c.bytes) + 2) / 512;
        q.send(*which, size, obs)?;
      },
      Op::Fit(which, off) => {
        let room = q.bytes - q.used().min(q.bytes);
        q.send(*which, room.saturating_add_signed(isize::from(*off)), obs)?;
      },
      Op::Recv => {
        q.recv(&rt)?;
      },
      Op::Drain => {
        while q.recv(&rt)? {}
        if q.rx.is_some() && !q.real.is_empty() {
          // All the room is there again.
          q.send(0, q.bytes, obs)?;
          q.recv(&rt)?;
        }
      },
      Op::Wait(which, n) => {
        while q.recv(&rt)? {}
        if q.real.is_empty() {
          continue;
        }
        let Some(mut rx) = q.rx.take() else { continue };
        let msg = Msg { n: q.next, from: usize::from(*which) % q.real.len(), size: usize::from(*n) * usize::from(c.bytes) / 255 };
        q.next += 1;
        let tx = q.real[msg.from].clone();
        let (m, sent, got) = rt.block_on(async move {
          let wait = tokio::spawn(async move {
            let m = rx.recv().await;
            (m, rx)
          });
          tokio::task::yield_now().await;
          let sent = tx.try_send(msg.clone()).is_ok();
          (msg, sent, tokio::time::timeout(Duration::from_secs(20), wait).await)
        });
        let Ok(Ok((got, rx))) = got else { return Err(Fail::new(format!("whoever waits for messages is not given {m:?}"))) };
        ensure!(sent, "{m:?} is refused by an empty queue of {} messages and {} bytes", q.count, q.bytes);
        ensure!(got.as_ref() == Some(&m), "{got:?} came out of the queue, {m:?} was next");
        q.rx = Some(rx);
        obs.label("waited");
      },
      Op::Clone(which) => {
        if !q.real.is_empty() {
          let s = q.real[usize::from(*which) % q.real.len()].clone();
          q.real.push(s);
        }
      },
      Op::Drop(which) => {
        if !q.real.is_empty() {
          let i = usize::from(*which) % q.real.len();
          q.real.remove(i);
          obs.label_if(q.real.is_empty(), "no senders left");
        }
      },
      Op::Close => {
        q.rx = None;
        obs.label("no reader left");
      },
    }
  }
  while q.recv(&rt)? {}
  for (label, n) in &q.expected {
    let got = collector.scope("q").counter_with_labels("op", [("result".to_string(), (*label).to_string())].into()).get();
    ensure_eq!(got, *n, "how often {label} was counted");
  }
  obs.nontrivial(q.expected.len() > 1);
  Ok(())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Race {
  count: u8,
  bytes: u16,
  /// What each thread sends.
  threads: Vec<Vec<u16>>,
  /// How often the reader pauses.
  pause: u8,
}
fn race() -> impl Strategy<Value = Race> + Clone {
  (1u8 .. 20, 1u16 .. 600, proptest_vec(proptest_vec(0u16 .. 300, 0 .. 60), 1 .. 5), 0u8 .. 5)
    .prop_map(|(count, bytes, threads, pause)| Race { count, bytes, threads, pause })
}

/// What is accepted, at once, by many; read by one.
fn threads(c: &Race, obs: &mut Obs) -> Res {
  let (tx, mut rx) = channel::<Msg>(c.count.into(), c.bytes.into());
  // What certainly waits: counted after it was accepted, and discounted before it is read.
  let accepted = Arc::new(AtomicU64::new(0));
  let done = Arc::new(AtomicBool::new(false));
  let senders: Vec<_> = c
    .threads
    .iter()
    .cloned()
    .enumerate()
    .map(|(from, sizes)| {
      let tx = tx.clone();
      let accepted = accepted.clone();
      std::thread::spawn(move || {
        let mut kept = vec![];
        let mut refused = [0u64; 3];
        for (n, size) in sizes.into_iter().enumerate() {
          let m = Msg { n: n as u64, from, size: size.into() };
          match tx.try_send(m.clone()) {
            Ok(()) => {
              accepted.fetch_add(1, Ordering::SeqCst);
              kept.push(m);
            },
            Err(TrySendError::FullSizeOverflow(_)) => refused[0] += 1,
            Err(TrySendError::FullCountOverflow(_)) => refused[1] += 1,
            Err(TrySendError::Closed(_)) => refused[2] += 1,
          }
          if n % 7 == 3 {
            std::thread::yield_now();
          }
        }
        (kept, refused)
      })
    })
    .collect();
  let pause = c.pause;
  let end = done.clone();
  let reader = std::thread::spawn(move || {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let got = rt.block_on(async {
      let mut got = vec![];
      loop {
        if pause > 0 && got.len() % usize::from(pause) == 0 {
          std::thread::yield_now();
        }
        match tokio::time::timeout(Duration::from_millis(2), rx.recv()).await {
          Ok(Some(m)) => got.push(m),
          Ok(None) => break,
          Err(_) => {
            if end.load(Ordering::SeqCst) {
              // Nobody sends any more: what is there now is all there is.
              while let Ok(Some(m)) = tokio::time::timeout(Duration::from_millis(1), rx.recv()).await {
                got.push(m);
              }
              break;
            }
          },
        }
      }
      got
    });
    (got, rx, rt)
  });
  let mut kept = vec![];
  let mut refused = [0u64; 3];
  for s in senders {
    let (k, r) = s.join().map_err(|_| Fail::new("a sender panicked"))?;
    kept.push(k);
    for i in 0 .. 3 {
      refused[i] += r[i];
    }
  }
  done.store(true, Ordering::SeqCst);
  let (got, mut rx, rt) = reader.join().map_err(|_| Fail::new("the reader panicked"))?;
  for (from, kept) in kept.iter().enumerate() {
    let came: Vec<_> = got.iter().filter(|m| m.from == from).cloned().collect();
    ensure_eq!(&came, kept, "what came out, of what was accepted from sender {from}");
  }
  ensure_eq!(accepted.load(Ordering::SeqCst), got.len() as u64, "as many came out as went in");
  ensure_eq!(refused[2], 0, "none is told that nobody reads");
  ensure!(got.iter().all(|m| m.size <= usize::from(c.bytes)), "a message larger than all the room was accepted");
  // Afterwards all the room is there again, and no more.
  let whole = Msg { n: 0, from: 99, size: c.bytes.into() };
  ensure!(tx.try_send(whole.clone()).is_ok(), "after all was read, {} bytes do not fit", c.bytes);
  ensure!(
    matches!(tx.try_send(Msg { n: 1, from: 99, size: 1 }), Err(TrySendError::FullSizeOverflow(_))),
    "after all was read, more than {} bytes fit",
    c.bytes
  );
  ensure_eq!(rt.block_on(rx.recv()), Some(whole), "the last message");
  for i in 0 .. c.count {
    ensure!(tx.try_send(Msg { n: i.into(), from: 98, size: 0 }).is_ok(), "after all was read, {i} messages fit, not {}", c.count);
  }
  ensure!(
    matches!(tx.try_send(Msg { n: 0, from: 98, size: 0 }), Err(TrySendError::FullCountOverflow(_))),
    "after all was read, more than {} messages fit",
    c.count
  );
  obs.nontrivial(refused[0] + refused[1] > 0 && got.len() > 3);
  obs.label_if(refused[0] > 0, "failure_size_overflow");
  obs.label_if(refused[1] > 0, "failure_count_overflow");
  Ok(())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Early {
  count: u8,
  bytes: u16,
  sizes: Vec<u16>,
}

fn early(c: &Early, obs: &mut Obs) -> Res {
  let collector = Collector::default();
  let counters = PushCounters::new(&collector.scope("p"));
  let mut real = PreConfigBuffer::<Msg>::new(c.count.into(), c.bytes.into());
  ensure_eq!((real.max_count(), real.max_size()), (usize::from(c.count), usize::from(c.bytes)), "its limits");
  let mut model: Vec<Msg> = vec![];
  let mut expected: BTreeMap<&str, u64> = BTreeMap::new();
  for (n, size) in c.sizes.iter().enumerate() {
    let m = Msg { n: n as u64, from: 0, size: usize::from(*size) };
    let used: usize = model.iter().map(|m| m.size).sum();
    let want = if model.len() >= usize::from(c.count) {
      Err(Error::FullCountOverflow)
    } else if used + m.size > usize::from(c.bytes) {
      Err(Error::FullSizeOverflow)
    } else {
      Ok(())
    };
    let got = real.push(m.clone());
    counters.record(&got);
    let both = model.len() >= usize::from(c.count) && used + m.size > usize::from(c.bytes);
    ensure_eq!(got.is_ok(), want.is_ok(), "whether {m:?} is kept, when {} of {used} bytes are kept, of {} and {}", model.len(), c.count, c.bytes);
    ensure!(both || got == want, "{got:?} is said to {m:?}, not {want:?}, when {} of {used} bytes are kept, of {} and {}", model.len(), c.count, c.bytes);
    let label = match got {
      Ok(()) => {
        model.push(m);
        "success"
      },
      Err(Error::FullCountOverflow) => "failure_count_overflow",
      Err(Error::FullSizeOverflow) => "failure_size_overflow",
    };
    *expected.entry(label).or_default() += 1;
    obs.label(label);
  }
  ensure_eq!(real.pop_all().collect::<Vec<_>>(), model, "what was kept");
  for label in ["success", "failure_count_overflow", "failure_size_overflow"] {
    let got = collector.scope("p").counter_with_labels("log_enqueueing", [("result".to_string(), label.to_string())].into()).get();
    ensure_eq!(got, expected.get(label).copied().unwrap_or(0), "how often {label} was counted");
  }
  obs.nontrivial(expected.len() > 1);
  Ok(())
}

type Pairs = Vec<(u16, u16, bool)>;
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Line {
  message: (u32, bool),
  fields: Pairs,
  matching: Pairs,
  spare: u8,
  grow: u16,
  at: u8,
}
fn text(n: usize, bytes: bool) -> LogFieldValue {
  if bytes {
    LogFieldValue::Bytes(vec![7; n])
  } else {
    LogFieldValue::String("x".repeat(n))
  }
}
fn annotated(p: &Pairs, spare: u8) -> AnnotatedLogFields {
  let mut v = Vec::with_capacity(p.len() + usize::from(spare));
  for (k, n, b) in p {
    v.push(AnnotatedLogField {
      field: LogField { key: "k".repeat(usize::from(*k)), value: text(usize::from(*n), *b) },
      kind: if *b { LogFieldKind::Custom } else { LogFieldKind::Ootb },
    });
  }
  v
}
fn content(p: &Pairs) -> usize {
  p.iter().map(|(k, n, _)| usize::from(*k) + usize::from(*n)).sum()
}
fn line(l: &Line) -> LogLine {
  LogLine {
    log_level: 1,
    log_type: bd_log_primitives::LogType::Normal,
    message: text(l.message.0 as usize, l.message.1),
    fields: annotated(&l.fields, l.spare),
    matching_fields: annotated(&l.matching, 0),
    attributes_overrides: None,
    log_processing_completed_tx: None,
  }
}
fn log(l: &Line) -> bd_log_primitives::Log {
  let fields = |p: &Pairs| annotated(p, 0).into_iter().map(|f| f.field).collect::<LogFields>();
  bd_log_primitives::Log {
    log_level: 1,
    log_type: bd_log_primitives::LogType::Normal,
    message: text(l.message.0 as usize, l.message.1),
    fields: fields(&l.fields),
    matching_fields: fields(&l.matching),
    session_id: "s".repeat(l.spare.into()),
    occurred_at: time::OffsetDateTime::UNIX_EPOCH,
  }
}

/// What is counted for a log is at least what it carries, and what is added to it is added to that.
fn sizes(l: &Line, obs: &mut Obs) -> Res {
  let carried = l.message.0 as usize + content(&l.fields) + content(&l.matching);
  let (a, b) = (line(l).size(), log(l).size());
  ensure!(a >= carried, "{a} bytes are counted for a log that carries {carried}");
  ensure!(b >= carried + usize::from(l.spare), "{b} bytes are counted for a log with its session that carries {}", carried + usize::from(l.spare));
  // A bound on the other side, so that limits are not reached by what is not there.
  let n = l.fields.len() + l.matching.len() + usize::from(l.spare);
  ensure!(a <= carried + 1024 + 512 * n, "{a} bytes are counted for a log that carries {carried} in {n} fields");
  ensure!(b <= carried + 1024 + 512 * n, "{b} bytes are counted for a log with its session that carries {carried} in {n} fields");
  for place in 0 .. 3 {
    let mut more = l.clone();
    let add = usize::from(l.grow);
    let to = match place {
      0 => {
        more.message.0 += u32::from(l.grow);
        None
      },
      1 => Some(&mut more.fields),
      _ => Some(&mut more.matching),
    };
    if let Some(p) = to {
      if p.is_empty() {
        continue;
      }
      let i = usize::from(l.at) % p.len();
      if l.at % 2 == 0 {
        p[i].0 += l.grow;
      } else {
        p[i].1 += l.grow;
      }
    }
    ensure!(line(&more).size() >= a + add, "{a} bytes are counted for a log, and {} with {add} more (in {place})", line(&more).size());
    ensure!(log(&more).size() >= b + add, "{b} bytes are counted for a log with its session, and {} with {add} more (in {place})", log(&more).size());
  }
  let mut more = l.clone();
  more.fields.push((3, 5, false));
  ensure!(line(&more).size() >= a + 8 || l.spare > 0, "a field more is not counted");
  ensure!(log(&more).size() >= b + 8, "a field more is not counted in a log with its session");
  obs.nontrivial(!l.fields.is_empty() && !l.matching.is_empty());
  obs.label_if(l.spare > 0, "spare room");
  Ok(())
}

pub fn c41(run: &mut Run) {
  run.run(part("queue", 60_000, 600_000, "messages were accepted and refused, or refused for different reasons").shards(8), case, sequence);
  run.run(part("threads", 4_000, 40_000, "some were refused, and more than three accepted").shards(4), race, threads);
  run.run(
    part("early", 60_000, 600_000, "some were kept, and some not").shards(8),
    || {
      (0u8 .. 12, prop_oneof![0u16 .. 60, 60u16 .. 2000], proptest_vec(prop_oneof![0u16 .. 30, 0u16 .. 700], 0 .. 30))
        .prop_map(|(count, bytes, sizes)| Early { count, bytes, sizes })
    },
    early,
  );
  let pairs = || proptest_vec((0u16 .. 300, 0u16 .. 900, any::<bool>()), 0 .. 8);
  run.run(
    part("sizes", 40_000, 400_000, "the log has fields of both kinds").shards(8),
    || {
      ((0u32 .. 5000, any::<bool>()), pairs(), pairs(), 0u8 .. 5, 0u16 .. 600, any::<u8>())
        .prop_map(|(message, fields, matching, spare, grow, at)| Line { message, fields, matching, spare, grow, at })
    },
    sizes,
  );
}
