//! C26: a memory buffer in front of a file, with real threads.
use crate::ring::{payload, Stats};
use bd_buffer::buffer::RingBufferCursorConsumer;
use bd_buffer::{AbslCode, AggregateRingBuffer, AllowOverwrite, Error, PerRecordCrc32Check, RingBuffer};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Run};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
  /// The memory part, and by how much the file has more room.
  pub vol: u32,
  pub more: u32,
  /// Whether what was not read is overwritten.
  pub trigger: bool,
  /// Record sizes per producer, and how long it rests before each.
  pub producers: Vec<Vec<(u32, u8)>>,
  /// How many records are read at a time, and a rest before.
  pub reads: Vec<(u8, u8)>,
  /// The reader starts when everything is written.
  pub late: bool,
  /// How many others ask for a flush meanwhile.
  pub flushes: u8,
  pub reopen: bool,
}
fn rest(n: u8) {
  match n {
    0 => (),
    1 ..= 3 => std::thread::yield_now(),
    _ => std::thread::sleep(Duration::from_micros(u64::from(n) * 3)),
  }
}
struct Shared {
  /// What was accepted.
  accepted: AtomicU64,
  refused: AtomicU64,
  known: Mutex<HashMap<Vec<u8>, (usize, usize)>>,
  seen: Mutex<Vec<(usize, usize)>>,
  fault: Mutex<Option<String>>,
  written: AtomicBool,
  stop: AtomicBool,
}
impl Shared {
  fn fail(&self, s: String) {
    self.fault.lock().unwrap().get_or_insert(s);
  }
  fn got(&self, r: &[u8]) {
    match self.known.lock().unwrap().get(r) {
      None => self.fail(format!("a record that was never written: {r:?}")),
      Some(k) => self.seen.lock().unwrap().push(*k),
    }
  }
}
type Made = (Arc<AggregateRingBuffer>, Stats, Stats);
fn make(c: &Case, path: &std::path::Path) -> Result<Made, Fail> {
  let (v, n) = (Stats::new(), Stats::new());
  let a = AggregateRingBuffer::new(
    "b",
    c.vol,
    path,
    c.vol + c.more + 40,
    PerRecordCrc32Check::Yes,
    if c.trigger { AllowOverwrite::Yes } else { AllowOverwrite::Block },
    v.0.stats.clone(),
    n.0.stats.clone(),
  )
  .map_err(|e| Fail::new(format!("opening: {e}")))?;
  Ok((a, v, n))
}
fn unavailable(e: &Error) -> bool {
  matches!(e, Error::AbslStatus(AbslCode::Unavailable, _))
}
/// What the file holds, all of it.
fn drain(a: &Arc<AggregateRingBuffer>, s: &Shared) -> Result<u64, Fail> {
  let mut r = a.clone().register_consumer().map_err(|e| Fail::new(e.to_string()))?;
  let mut n = 0;
  loop {
    match r.start_read(false) {
      Ok(x) => s.got(x),
      Err(e) if unavailable(&e) => return Ok(n),
      Err(e) => return Err(Fail::new(format!("reading what is left: {e}"))),
    }
    r.finish_read().map_err(|e| Fail::new(e.to_string()))?;
    n += 1;
  }
}
/// In order for every producer, and each once.
fn order(seen: &[(usize, usize)], again: usize) -> Result<(), Fail> {
  let mut last: HashMap<usize, usize> = HashMap::new();
  for (i, (p, k)) in seen.iter().enumerate() {
    if i == again {
      last.clear();
    }
    if let Some(l) = last.insert(*p, *k) {
      ensure!(l < *k, "producer {p}: record {k} came after record {l}");
    }
  }
  Ok(())
}

fn play(case: &Case, obs: &mut Obs) -> Result<(), Fail> {
  let dir = tempfile::tempdir().unwrap();
  let path = dir.path().join("b");
  let (a, v, n) = make(case, &path)?;
  let mut known = HashMap::new();
  let mut plans = vec![];
  for (p, l) in case.producers.iter().enumerate() {
    let mut plan = vec![];
    for (k, (size, pause)) in l.iter().enumerate() {
      let size = (*size).clamp(8, case.vol.saturating_sub(4).max(8));
      let d = payload((p as u64 + 1) << 32 | k as u64, size);
      known.insert(d.clone(), (p, k));
      plan.push((d, *pause));
    }
    plans.push(plan);
  }
  let total: usize = case.producers.iter().map(Vec::len).sum();
  let s = Arc::new(Shared {
    accepted: AtomicU64::new(0),
    refused: AtomicU64::new(0),
    known: Mutex::new(known),
    seen: Mutex::new(vec![]),
    fault: Mutex::new(None),
    written: AtomicBool::new(false),
    stop: AtomicBool::new(false),
  });
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
  let mut unread = 0;
  let fault: Result<(), Fail> = std::thread::scope(|sc| {
    let mut threads = vec![];
    for plan in plans {
      let (a, s) = (a.clone(), s.clone());
      let mut w = a.clone().register_producer().unwrap();
      threads.push(sc.spawn(move || {
        for (d, pause) in plan {
          rest(pause);
          match w.reserve(d.len() as u32, false) {
            Ok(m) => {
              if pause == 7 {
                rest(9);
              }
              m.copy_from_slice(&d);
              if let Err(e) = w.commit() {
                s.fail(format!("commit: {e}"));
              }
              s.accepted.fetch_add(1, Ordering::SeqCst);
            },
            Err(Error::AbslStatus(AbslCode::ResourceExhausted | AbslCode::FailedPrecondition | AbslCode::InvalidArgument, _)) => {
              s.refused.fetch_add(1, Ordering::SeqCst);
            },
            Err(e) => s.fail(format!("reserve: {e}")),
          }
        }
      }));
    }
    let (reader_a, reader_s, rn) = (a.clone(), s.clone(), &n);
    let rv = &v;
    let reader = sc.spawn(move || {
      let (a, s) = (reader_a, reader_s);
      let wait = || {
        while case.late && !s.written.load(Ordering::SeqCst) {
          std::thread::yield_now();
        }
      };
      if case.trigger {
        wait();
        for (k, pause) in &case.reads {
          rest(*pause);
          let lock = a.clone().lock();
          lock.await_reservations_drained();
          a.flush();
          // Locked and flushed: everything is in the file, and stays.
          let (cv, cn) = (rv.counts(), rn.counts());
          if cv.written != cv.read + cv.overwritten {
            s.fail(format!("after a flush of a locked buffer there is something left in memory: {cv:?}"));
          }
          let mut r = a.clone().register_consumer().unwrap();
          let mut got = 0;
          loop {
            if got == u64::from(*k) && *k < 12 {
              break;
            }
            match r.start_read(false) {
              Ok(x) => s.got(x),
              Err(e) => {
                if !unavailable(&e) {
                  s.fail(format!("read: {e}"));
                }
                // All that was there was read.
                if cn.written != cn.read + cn.overwritten + got {
                  s.fail(format!("{got} were read of a locked buffer of {cn:?}"));
                }
                break;
              },
            }
            if let Err(e) = r.finish_read() {
              s.fail(format!("finish: {e}"));
            }
            got += 1;
          }
        }
        return 0;
      }
      let mut r = a.clone().register_cursor_consumer().unwrap();
      wait();
      let mut i = 0;
      loop {
        let (k, pause) = case.reads.get(i % case.reads.len().max(1)).copied().unwrap_or((3, 0));
        i += 1;
        rest(pause);
        let mut got = 0;
        while got < k.max(1) {
          let one = async {
            tokio::time::timeout(Duration::from_millis(2), r.read()).await.map(|x| x.map(<[u8]>::to_vec))
          };
          let x = { let _g = (); rt_block(one) };
          match x {
            Ok(Ok(x)) => s.got(&x),
            Ok(Err(e)) => s.fail(format!("cursor read: {e}")),
            Err(_) => break,
          }
          got += 1;
        }
        for _ in 0 .. got {
          if let Err(e) = r.advance_read_pointer() {
            s.fail(format!("advance: {e}"));
          }
        }
        if got == 0 && s.stop.load(Ordering::SeqCst) {
          return finish(&mut *r, &s, case);
        }
      }
    });
    let others: Vec<_> = (0 .. case.flushes)
      .map(|i| {
        let (a, s) = (a.clone(), s.clone());
        let (v, n) = (&v, &n);
        sc.spawn(move || {
          rest(i * 9);
          let before = v.counts().written;
          a.flush();
          let (cv, cn) = (v.counts(), n.counts());
          // What was accepted before is in the file, or has been pushed out of memory.
          if cn.written + cn.refused + cv.overwritten < before {
            s.fail(format!("{before} were written before a flush, after it: {cv:?} {cn:?}"));
          }
        })
      })
      .collect();
    for t in threads {
      t.join().unwrap();
    }
    s.written.store(true, Ordering::SeqCst);
    for t in others {
      t.join().unwrap();
    }
    a.flush();
    s.stop.store(true, Ordering::SeqCst);
    unread = reader.join().unwrap();
    Ok(())
  });
  fault?;
  drop(rt);
  if let Some(f) = s.fault.lock().unwrap().take() {
    return Err(Fail::new(f));
  }
  let (cv, cn) = (v.counts(), n.counts());
  ensure_eq!(cv.written, s.accepted.load(Ordering::SeqCst), "records accepted");
  ensure_eq!(cv.refused, s.refused.load(Ordering::SeqCst), "records refused");
  ensure_eq!(cv.written + cv.refused, total as u64, "records accepted or refused");
  ensure_eq!(cv.written, cv.read + cv.overwritten, "records that went through memory");
  ensure_eq!(cv.read, cn.written + cn.refused, "records handed to the file");
  ensure!(cn.refused == 0 || case.more < 4, "the file refused records: {cn:?}");
  ensure_eq!(n.lost() + cn.corrupted, 0, "losses");
  ensure!(case.trigger || cn.overwritten == 0, "records that were not read were overwritten: {cn:?}");
  let again = s.seen.lock().unwrap().len();
  let left = cn.written - cn.read - cn.overwritten;
  let got = if case.reopen {
    drop(a);
    let (b, _, n) = make(case, &path)?;
    let got = drain(&b, &s)?;
    ensure_eq!(n.lost() + n.counts().corrupted, 0, "losses after opening again");
    got
  } else {
    drain(&a, &s)?
  };
  ensure_eq!(got, left, "records left of {cn:?}");
  if let Some(f) = s.fault.lock().unwrap().take() {
    return Err(Fail::new(f));
  }
  order(&s.seen.lock().unwrap(), if unread > 0 { again } else { usize::MAX })?;
  obs.nontrivial(cv.written > 0 && (cn.overwritten > 0 || cv.overwritten > 0 || cn.total_written > u64::from(case.vol + case.more)));
  obs.label_if(cn.overwritten > 0, "file overwritten");
  obs.label_if(cv.overwritten > 0, "memory overwritten");
  obs.label_if(cv.refused > 0, "refused");
  obs.label_if(case.reopen && left > 0, "found again");
  obs.label_if(unread > 0, "read and not given back");
  Ok(())
}
fn rt_block<F: std::future::Future>(f: F) -> F::Output {
  thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
  }
  RT.with(|r| r.block_on(f))
}
/// The last ones are read, and not all given back.
fn finish(r: &mut dyn RingBufferCursorConsumer, s: &Shared, case: &Case) -> u64 {
  let mut n = 0;
  loop {
    match r.start_read(false) {
      Ok(x) => s.got(x),
      Err(e) => {
        if !unavailable(&e) {
          s.fail(format!("cursor read: {e}"));
        }
        break;
      },
    }
    n += 1;
  }
  let keep = if case.reopen { n / 2 } else { 0 };
  for _ in keep .. n {
    if let Err(e) = r.advance_read_pointer() {
      s.fail(format!("advance: {e}"));
    }
  }
  keep
}

pub fn case() -> impl Strategy<Value = Case> + Clone {
  (24u32 .. 200, prop_oneof![0u32 .. 8, 0u32 .. 200, 200u32 .. 1000]).prop_flat_map(|(vol, more)| {
    let size = prop_oneof![8 => 8u32 .. 40, 2 => 8u32 .. vol, 1 => vol - 8 .. vol + 2];
    let pause = prop_oneof![6 => Just(0u8), 2 => 1u8 .. 4, 2 => 4u8 .. 12];
    let plan = prop::collection::vec((size, pause.clone()), 1 .. 30);
    (
      any::<bool>(),
      prop::collection::vec(plan, 1 .. 4),
      prop::collection::vec((0u8 .. 14, pause), 0 .. 6),
      any::<bool>(),
      0u8 .. 3,
      any::<bool>(),
    )
      .prop_map(move |(trigger, producers, reads, late, flushes, reopen)| Case { vol, more, trigger, producers, reads, late, flushes, reopen })
  })
}
/// The end comes while the file is full and nobody reads.
fn ending(case: &Case, obs: &mut Obs) -> Result<(), Fail> {
  let dir = tempfile::tempdir().unwrap();
  let path = dir.path().join("b");
  let case = Case { trigger: false, ..case.clone() };
  let (a, v, n) = make(&case, &path)?;
  let mut known = HashMap::new();
  let mut w = a.clone().register_producer().unwrap();
  for (k, (size, pause)) in case.producers.concat().iter().enumerate() {
    let d = payload(k as u64, (*size).clamp(8, case.vol.saturating_sub(4).max(8)));
    known.insert(d.clone(), (0, k));
    rest(*pause);
    if let Ok(m) = w.reserve(d.len() as u32, false) {
      m.copy_from_slice(&d);
      w.commit().map_err(|e| Fail::new(format!("commit: {e}")))?;
    }
  }
  rest(case.flushes * 12);
  drop(w);
  let (tx, rx) = std::sync::mpsc::channel();
  let at_end = v.counts();
  std::thread::spawn(move || {
    drop(a);
    let _ = tx.send(());
  });
  ensure!(rx.recv_timeout(Duration::from_secs(10)).is_ok(), "the buffer does not end while its file is full");
  let (cv, cn) = (v.counts(), n.counts());
  ensure_eq!(cn.overwritten, 0, "records overwritten in the file");
  let s = Shared {
    accepted: AtomicU64::new(0),
    refused: AtomicU64::new(0),
    known: Mutex::new(known),
    seen: Mutex::new(vec![]),
    fault: Mutex::new(None),
    written: AtomicBool::new(false),
    stop: AtomicBool::new(false),
  };
  let (b, _, n) = make(&case, &path)?;
  let got = drain(&b, &s)?;
  ensure_eq!(got, cn.written, "records found again");
  ensure_eq!(n.lost() + n.counts().corrupted, 0, "losses after opening again");
  if let Some(f) = s.fault.lock().unwrap().take() {
    return Err(Fail::new(f));
  }
  order(&s.seen.lock().unwrap(), usize::MAX)?;
  ensure!(cv.written == at_end.written, "records accepted after the end");
  obs.nontrivial(cv.written > cn.written);
  obs.label_if(cv.overwritten > 0, "memory overwritten");
  Ok(())
}

pub fn c26(run: &mut Run) {
  run.run(
    part("ending", 12_000, 100_000, "something was not in the file at the end").shards(8).max_shrink(20),
    case,
    |c, obs| crate::damage::guarded(c, obs, ending),
  );
  run.run(
    part("threads", 4_000, 150_000, "something was overwritten, or more written than the file holds").shards(8).max_shrink(60),
    case,
    |c, obs| crate::damage::guarded(c, obs, play),
  );
}
