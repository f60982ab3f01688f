//! C23, C24: single buffers against the reference model.
use crate::model::{Counts, Model, No, St};
use bd_buffer::buffer::{
  BlockWhenReservingIntoConcurrentRead,
  LockHandle,
  NonVolatileRingBuffer,
  RingBufferCursorConsumer,
  RingBufferProducer,
  VolatileRingBuffer,
};
use bd_buffer::{AbslCode, AllowOverwrite, Error, PerRecordCrc32Check, RingBuffer, RingBufferConsumer, StatsHelper};
use bd_client_stats_store::Collector;
use futures::task::{ArcWake, Context};
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::task::Poll;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Run};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
  Reserve(usize, u32),
  Commit(usize),
  Write(usize, u32),
  Read,
  /// Wait for a record; while there is none, have this much written.
  Wait(usize, u32),
  Finish,
  Lock,
  Unlock,
  Drain,
  Reattach,
  Reopen,
  /// Damage the content of an unread record.
  Damage(usize, u32, u8),
  OpenTwice,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
  pub size: u32,
  pub crc: bool,
  pub block: bool,
  pub cursor: bool,
  pub ops: Vec<Op>,
}

pub fn code(e: &Error) -> Option<No> {
  let Error::AbslStatus(c, _) = e else { return None };
  Some(match c {
    AbslCode::InvalidArgument => No::InvalidArgument,
    AbslCode::FailedPrecondition => No::FailedPrecondition,
    AbslCode::ResourceExhausted => No::ResourceExhausted,
    AbslCode::Unavailable => No::Unavailable,
    _ => return None,
  })
}
pub struct Stats(pub StatsHelper, #[allow(dead_code)] Collector);
impl Stats {
  pub fn new() -> Self {
    let c = Collector::default();
    Self(StatsHelper::new(&c.scope("ring")), c)
  }
  pub fn counts(&self) -> Counts {
    let s = &self.0.stats;
    let g = |c: &Option<bd_client_stats_store::Counter>| c.as_ref().unwrap().get();
    Counts {
      written: g(&s.records_written),
      read: g(&s.records_read),
      overwritten: g(&s.records_overwritten),
      refused: g(&s.records_refused),
      corrupted: g(&s.records_corrupted),
      bytes_written: g(&s.bytes_written),
      bytes_read: g(&s.bytes_read),
      total_written: g(&s.total_bytes_written),
      total_read: g(&s.total_bytes_read),
      bytes_overwritten: g(&s.bytes_overwritten),
      bytes_refused: g(&s.bytes_refused),
    }
  }
  pub fn lost(&self) -> u64 {
    self.0.stats.total_data_loss.as_ref().unwrap().get()
  }
}
pub enum Reader {
  Plain(Box<dyn RingBufferConsumer>),
  Cursor(Box<dyn RingBufferCursorConsumer>),
}
#[derive(Default)]
struct Woken(AtomicU32);
impl ArcWake for Woken {
  fn wake_by_ref(s: &Arc<Self>) {
    s.0.fetch_add(1, Ordering::SeqCst);
  }
}
pub fn payload(id: u64, n: u32) -> Vec<u8> {
  let mut x = id.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
  let mut v: Vec<u8> = id.to_le_bytes().to_vec();
  while v.len() < n as usize {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    v.extend(x.to_le_bytes());
  }
  v.truncate(n as usize);
  v
}
pub fn open(path: &std::path::Path, c: &Case, stats: &Stats) -> Result<Arc<dyn RingBuffer>, Error> {
  Ok(NonVolatileRingBuffer::new(
    "nv".into(),
    path,
    c.size + 40,
    if c.block { AllowOverwrite::Block } else { AllowOverwrite::Yes },
    BlockWhenReservingIntoConcurrentRead::No,
    if c.crc { PerRecordCrc32Check::Yes } else { PerRecordCrc32Check::No },
    stats.0.stats.clone(),
  )?)
}
pub fn reader(b: &Arc<dyn RingBuffer>, cursor: bool) -> Result<Reader, Error> {
  Ok(if cursor { Reader::Cursor(b.clone().register_cursor_consumer()?) } else { Reader::Plain(b.clone().register_consumer()?) })
}

/// The real buffer and what the harness holds of it.
struct Live {
  dir: Option<tempfile::TempDir>,
  files: u32,
  path: PathBuf,
  stats: Stats,
  locks: Vec<Box<dyn LockHandle>>,
  producers: Vec<(Box<dyn RingBufferProducer>, Option<(*mut u8, Vec<u8>)>)>,
  reader: Option<Reader>,
  /// What the reader was handed and has not given back.
  held: std::collections::VecDeque<(*const u8, Vec<u8>)>,
  buffer: Option<Arc<dyn RingBuffer>>,
}
fn err(e: Error) -> Fail {
  Fail::new(format!("unexpected error: {e}"))
}
impl Live {
  fn attach(&mut self, c: &Case, n: usize) -> Result<(), Fail> {
    let b = self.buffer.clone().unwrap();
    for _ in 0 .. n {
      self.producers.push((b.clone().register_producer().map_err(err)?, None));
    }
    self.reader = Some(reader(&b, c.cursor).map_err(err)?);
    Ok(())
  }
  fn reserve(&mut self, p: usize, n: u32, block: bool, data: Vec<u8>) -> Result<(), Error> {
    let s = self.producers[p].0.reserve(n, block)?;
    assert_eq!(s.len(), n as usize);
    // A first draft of the content, as a producer that is not done would leave.
    s.fill(0xaa);
    let at = s.as_mut_ptr();
    self.producers[p].1 = Some((at, data));
    Ok(())
  }
  fn commit(&mut self, p: usize) -> Result<(), Error> {
    if let Some((at, data)) = self.producers[p].1.take() {
      unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), at, data.len()) };
    }
    self.producers[p].0.commit()
  }
  fn start(&mut self) -> Result<Vec<u8>, Error> {
    let r = match self.reader.as_mut().unwrap() {
      Reader::Plain(r) => r.start_read(false)?,
      Reader::Cursor(r) => r.start_read(false)?,
    };
    self.held.push_back((r.as_ptr(), r.to_vec()));
    Ok(r.to_vec())
  }
  fn finish(&mut self) -> Result<(), Error> {
    match self.reader.as_mut().unwrap() {
      Reader::Plain(r) => r.finish_read(),
      Reader::Cursor(r) => r.advance_read_pointer(),
    }
  }
}

pub fn play(case: &Case, volatile: bool, producers: usize, obs: &mut Obs) -> Result<(), Fail> {
  let cursor = case.cursor && !volatile;
  let checked = case.crc && !volatile;
  let mut m = Model::new(case.size, if checked { 8 } else { 4 }, case.block && !volatile, cursor);
  let dir = (!volatile).then(|| tempfile::tempdir().unwrap());
  let path = dir.as_ref().map_or(PathBuf::new(), |d| d.path().join("0"));
  let stats = Stats::new();
  let buffer: Arc<dyn RingBuffer> = if volatile {
    VolatileRingBuffer::new("v".into(), case.size, stats.0.stats.clone())
  } else {
    open(&path, case, &stats).map_err(err)?
  };
  let mut l = Live {
    dir,
    files: 0,
    path,
    stats,
    locks: vec![],
    producers: vec![],
    reader: None,
    held: Default::default(),
    buffer: Some(buffer),
  };
  let case = &Case { cursor, ..case.clone() };
  l.attach(case, producers)?;
  let mut id = 0u64;
  let (mut wrapped, mut skipped) = (false, false);
  let mut step = |m: &mut Model, l: &mut Live, op: &Op, i: usize, obs: &mut Obs| -> Result<(), Fail> {
    macro_rules! same {
      ($got:expr, $want:expr, $what:expr) => {{
        let (got, want) = ($got, $want);
        match (&got, &want) {
          (Ok(a), Ok(b)) => ensure!(a == b, "step {i} {}: got {a:?}, expected {b:?}", $what),
          (Err(e), Err(w)) => ensure!(code(e) == Some(*w), "step {i} {}: failed with {e}, expected {w:?}", $what),
          _ => ensure!(false, "step {i} {}: got {:?}, expected {want:?}", $what, got.map_err(|e| e.to_string())),
        }
        want
      }};
    }
    match op {
      Op::Reserve(p, n) | Op::Write(p, n) => {
        let p = p % producers;
        id += 1;
        let data = payload(id, (*n).min(4096));
        let before = m.next;
        let want = m.reserve(p, *n, data.clone());
        // A wait is only tried where none is expected.
        let block = id % 2 == 0 && want != Err(No::Unavailable);
        let want = same!(l.reserve(p, *n, block, data), want, "reserve");
        wrapped |= want.is_ok() && m.next <= before;
        if want.is_ok() && matches!(op, Op::Write(..)) {
          let want = m.commit(p);
          same!(l.commit(p), want, "commit");
        }
      },
      Op::Commit(p) => {
        let p = p % producers;
        let want = m.commit(p);
        same!(l.commit(p), want, "commit");
      },
      Op::Read => {
        let want = m.start_read();
        same!(l.start(), want, "read");
      },
      Op::Wait(p, n) => {
        let p = p % producers;
        let want = m.start_read();
        let woken = Arc::new(Woken::default());
        let waker = futures::task::waker(woken.clone());
        let mut cx = Context::from_waker(&waker);
        let Live { reader, producers, held, .. } = l;
        let mut fut = match reader.as_mut().unwrap() {
          Reader::Plain(r) => r.read(),
          Reader::Cursor(r) => r.read(),
        };
        let got = fut.as_mut().poll(&mut cx);
        let got = match (got, &want) {
          (Poll::Pending, Err(No::Unavailable)) => {
            obs.label("waited for a record");
            // The wait ends as soon as there is something.
            id += 1;
            let data = payload(id, (*n).min(4096));
            let w = m.reserve(p, *n, data.clone());
            same!(producers[p].0.reserve(*n, false).map(|s| s.copy_from_slice(&data)), w, "reserve during a wait");
            if w.is_err() {
              drop(fut);
              return Ok(());
            }
            let w = m.commit(p);
            same!(producers[p].0.commit(), w, "commit during a wait");
            match m.start_read() {
              Err(e) => {
                ensure_eq!(e, No::Unavailable, "model");
                ensure!(fut.as_mut().poll(&mut cx).is_pending(), "step {i}: a wait ended without a record");
                return Ok(());
              },
              Ok(data) => {
                ensure!(woken.0.load(Ordering::SeqCst) > 0, "step {i}: a waiting reader was not woken");
                match fut.as_mut().poll(&mut cx) {
                  Poll::Ready(Ok(r)) => {
                    ensure_eq!(r, &data[..], "step {i}: record read after a wait");
                    (r.as_ptr(), r.to_vec())
                  },
                  Poll::Ready(Err(e)) => return Err(err(e)),
                  Poll::Pending => return Err(Fail::new(format!("step {i}: a wait did not end though there is a record"))),
                }
              },
            }
          },
          (Poll::Pending, w) => return Err(Fail::new(format!("step {i}: a read waits, expected {w:?}"))),
          (Poll::Ready(r), _) => {
            let held = r.as_ref().ok().map(|r| (r.as_ptr(), r.to_vec()));
            same!(r.map(<[u8]>::to_vec), want, "read with wait");
            match held {
              Some(h) => h,
              None => return Ok(()),
            }
          },
        };
        held.push_back(got);
      },
      Op::Finish => {
        if let Some((at, data)) = l.held.pop_front() {
          let now = unsafe { std::slice::from_raw_parts(at, data.len()) };
          ensure_eq!(now, &data[..], "step {i}: a record changed while it was being read");
        }
        let want = m.finish_read();
        same!(l.finish(), want, "finish");
      },
      Op::Lock => {
        m.locks += 1;
        l.locks.push(l.buffer.clone().unwrap().lock());
      },
      Op::Unlock => {
        if l.locks.pop().is_some() {
          m.locks -= 1;
        }
      },
      Op::Drain => {
        // Returns at once where there is nothing left to wait for.
        if m.segs.is_empty() && m.passed == 0 {
          l.buffer.as_ref().unwrap().wait_for_drain();
        }
        if !m.segs.iter().any(|s| matches!(s.st, St::Reserved(_) | St::Committed)) {
          if let Some(k) = l.locks.last() {
            k.await_reservations_drained();
          }
        }
        l.buffer.as_ref().unwrap().flush();
      },
      Op::Reattach => {
        if !cursor {
          if m.passed > 0 {
            obs.label("reader gone during a read");
          }
          m.detach(checked);
          l.held.clear();
          l.reader = None;
          ensure!(
            l.buffer.clone().unwrap().register_cursor_consumer().is_err() || !volatile && case.block,
            "a cursor where there can be none"
          );
          l.reader = Some(reader(l.buffer.as_ref().unwrap(), false).map_err(err)?);
          ensure!(l.buffer.clone().unwrap().register_consumer().is_err(), "a second reader was accepted");
        }
      },
      Op::Reopen => {
        if volatile || !checked && m.segs.iter().any(|s| matches!(s.st, St::Reserved(_))) {
          return Ok(());
        }
        obs.label("opened again");
        if m.segs.iter().any(|s| matches!(s.st, St::Reserved(_))) {
          obs.label("gone with a reservation");
        }
        m.reopen(checked);
        // The process is gone as it stood.
        l.files += 1;
        let to = l.dir.as_ref().unwrap().path().join(l.files.to_string());
        std::fs::copy(&l.path, &to).unwrap();
        l.held.clear();
        l.locks.clear();
        l.producers.clear();
        l.reader = None;
        l.buffer = None;
        std::fs::remove_file(&l.path).unwrap();
        l.path = to;
        l.buffer = Some(open(&l.path, case, &l.stats).map_err(err)?);
        l.attach(case, 1)?;
      },
      Op::Damage(k, off, x) => {
        let walk = m.walk();
        if checked && walk > m.passed {
          let k = m.passed + k % (walk - m.passed);
          let extra = m.extra;
          let s = &mut m.segs[k];
          if s.st == St::Published {
            let at = u64::from(40 + s.start + extra + off % (s.size - extra));
            let f = std::fs::File::options().read(true).write(true).open(&l.path).unwrap();
            let mut b = [0u8];
            f.read_exact_at(&mut b, at).unwrap();
            b[0] ^= x | 1;
            f.write_all_at(&b, at).unwrap();
            s.st = St::Dropped;
            obs.label("damaged record");
          }
        }
      },
      Op::OpenTwice => {
        if !volatile {
          ensure!(open(&l.path, case, &Stats::new()).is_err(), "step {i}: a file in use was opened twice");
        }
      },
    }
    ensure_eq!(l.stats.counts(), m.c, "step {i} {op:?}: counters");
    ensure_eq!(l.stats.lost(), 0, "step {i} {op:?}: losses");
    skipped |= m.c.overwritten > 0;
    Ok(())
  };
  let mut i = 0;
  for op in &case.ops {
    step(&mut m, &mut l, op, i, obs)?;
    i += 1;
  }
  // At the end everything that was not overwritten can be read.
  while l.locks.pop().is_some() {
    m.locks -= 1;
  }
  for p in 0 .. l.producers.len() {
    if m.reserved(p).is_some() {
      step(&mut m, &mut l, &Op::Commit(p), i, obs)?;
    }
  }
  while m.passed > 0 {
    step(&mut m, &mut l, &Op::Finish, i, obs)?;
  }
  while m.walk() > 0 {
    step(&mut m, &mut l, &Op::Read, i, obs)?;
    if m.passed > 0 {
      step(&mut m, &mut l, &Op::Finish, i, obs)?;
    }
  }
  step(&mut m, &mut l, &Op::Read, i, obs)?;
  step(&mut m, &mut l, &Op::Drain, i, obs)?;
  ensure_eq!(m.c.written + m.never, m.c.read + m.c.overwritten, "records accounted for");
  obs.nontrivial(wrapped && m.c.read > 0);
  obs.label_if(skipped, "overwritten");
  obs.label_if(m.c.corrupted > 0, "dropped record");
  Ok(())
}

pub fn op(size: u32, producers: usize) -> BoxedStrategy<Op> {
  let n = prop_oneof![12 => 1u32 .. size / 4 + 1, 4 => 1u32 .. size, 1 => size - 10 .. size + 2, 1 => Just(0), 1 => Just(u32::MAX - 3)];
  let p = 0 .. producers;
  prop_oneof![
    6 => (p.clone(), n.clone()).prop_map(|(p, n)| Op::Reserve(p, n)),
    6 => p.clone().prop_map(Op::Commit),
    14 => (p.clone(), n.clone()).prop_map(|(p, n)| Op::Write(p, n)),
    10 => Just(Op::Read),
    10 => Just(Op::Finish),
    3 => (p, n).prop_map(|(p, n)| Op::Wait(p, n)),
    1 => Just(Op::Lock),
    2 => Just(Op::Unlock),
    1 => Just(Op::Drain),
    1 => Just(Op::Reattach),
    2 => Just(Op::Reopen),
    2 => (0usize .. 4, 0u32 .. 200, any::<u8>()).prop_map(|(k, o, x)| Op::Damage(k, o, x)),
    1 => Just(Op::OpenTwice),
  ]
  .boxed()
}
fn case(producers: usize, longest: usize) -> impl Strategy<Value = Case> + Clone {
  (prop_oneof![20u32 .. 60, 60u32 .. 240], any::<bool>(), any::<bool>(), any::<bool>()).prop_flat_map(move |(size, crc, block, cursor)| {
    prop::collection::vec(op(size, producers), 1 .. longest).prop_map(move |ops| Case { size, crc, block, cursor: cursor && block, ops })
  })
}
pub fn c23(run: &mut Run) {
  run.run(
    part("histories", 12_000, 600_000, "the ring wrapped and something was read").shards(8),
    || case(3, 60),
    |c, obs| play(c, true, 3, obs),
  );
}
pub fn c24(run: &mut Run) {
  run.run(
    part("histories", 8_000, 400_000, "the ring wrapped and something was read").shards(8),
    || case(1, 60),
    |c, obs| play(c, false, 1, obs),
  );
}
