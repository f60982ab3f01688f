//! C25: damaged and half-written buffer files.
use crate::model::No;
use crate::ring::{code, open, payload, reader, Case as RingCase, Reader, Stats};
use bd_buffer::buffer::RingBufferProducer;
use bd_buffer::{AbslCode, Error, RingBuffer};
use futures::task::{noop_waker, Context};
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, VecDeque};
use std::os::unix::fs::FileExt;
use std::path::PathBuf;
use std::sync::mpsc;
use std::sync::Arc;
use std::task::Poll;
use std::time::Duration;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Run};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
  Reserve(u32),
  Commit,
  Write(u32),
  Read,
  /// Poll for a record once.
  Poll,
  Finish,
  /// Change a byte of the records: where (of 1000), to what.
  Flip(u32, u8),
  /// Change a word of the records to a small number, as a size would be.
  Word(u32, u32),
  /// The process goes away; bytes anywhere in the file change meanwhile.
  Reopen(Vec<(u32, u8)>),
  /// The process goes away in the middle of something: each word is as it was before or after.
  Torn(Box<Op>, u64),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
  pub size: u32,
  pub block: bool,
  pub cursor: bool,
  pub ops: Vec<Op>,
}

struct Live {
  dir: tempfile::TempDir,
  files: u32,
  path: PathBuf,
  conf: RingCase,
  stats: Stats,
  held: VecDeque<Vec<u8>>,
  producer: Option<Box<dyn RingBufferProducer>>,
  reader: Option<Reader>,
  buffer: Option<Arc<dyn RingBuffer>>,
  pending: Option<(*mut u8, Vec<u8>)>,
  /// What was ever to be written, and whether it may still come.
  known: HashMap<Vec<u8>, bool>,
  id: u64,
  reads: u64,
}
impl Live {
  fn fresh(conf: RingCase) -> Result<Self, Fail> {
    let dir = tempfile::tempdir().unwrap();
    let mut l = Self {
      path: dir.path().join("0"),
      dir,
      files: 0,
      conf,
      stats: Stats::new(),
      held: VecDeque::new(),
      producer: None,
      reader: None,
      buffer: None,
      pending: None,
      known: HashMap::new(),
      id: 0,
      reads: 0,
    };
    l.attach()?;
    Ok(l)
  }
  /// Opens the file. One that cannot be is put aside and a new one made.
  fn attach(&mut self) -> Result<bool, Fail> {
    let mut lost = false;
    let b = match open(&self.path, &self.conf, &self.stats) {
      Err(Error::AbslStatus(AbslCode::DataLoss, _)) => {
        lost = true;
        std::fs::remove_file(&self.path).unwrap();
        open(&self.path, &self.conf, &self.stats)
      },
      b => b,
    }
    .map_err(|e| Fail::new(format!("a damaged file was refused with something else than data loss: {e}")))?;
    self.producer = Some(b.clone().register_producer().map_err(|e| Fail::new(e.to_string()))?);
    self.reader = Some(reader(&b, self.conf.cursor).map_err(|e| Fail::new(e.to_string()))?);
    self.buffer = Some(b);
    Ok(lost)
  }
  fn detach(&mut self) -> PathBuf {
    self.files += 1;
    let to = self.dir.path().join(self.files.to_string());
    self.held.clear();
    self.pending = None;
    self.producer = None;
    self.reader = None;
    self.buffer = None;
    to
  }
  fn reserve(&mut self, n: u32) -> Result<(), Fail> {
    self.id += 1;
    let data = payload(self.id, n);
    if self.pending.is_some() {
      return Ok(());
    }
    match self.producer.as_mut().unwrap().reserve(n, false) {
      Ok(s) => {
        ensure_eq!(s.len(), n as usize, "size of a reservation");
        self.pending = Some((s.as_mut_ptr(), data));
        Ok(())
      },
      Err(e) => {
        ensure!(code(&e).is_some(), "reserve failed with {e}");
        Ok(())
      },
    }
  }
  fn commit(&mut self) -> Result<(), Fail> {
    if let Some((at, data)) = self.pending.take() {
      unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), at, data.len()) };
      self.producer.as_mut().unwrap().commit().map_err(|e| Fail::new(format!("commit: {e}")))?;
      self.known.insert(data, true);
    }
    Ok(())
  }
  fn got(&mut self, r: &[u8]) -> Result<(), Fail> {
    self.reads += 1;
    ensure!(self.reads < 5000, "records come without end");
    match self.known.get_mut(r) {
      None => ensure!(false, "a record that was never written: {r:?}"),
      Some(may) => {
        ensure!(*may || self.conf.cursor, "a record came twice: {r:?}");
        *may = false;
      },
    }
    self.held.push_back(r.to_vec());
    Ok(())
  }
  fn read(&mut self, wait: bool) -> Result<bool, Fail> {
    if !self.conf.cursor && !self.held.is_empty() {
      return Ok(true);
    }
    let r = match (self.reader.as_mut().unwrap(), wait) {
      (Reader::Plain(r), false) => r.start_read(false).map(<[u8]>::to_vec),
      (Reader::Cursor(r), false) => r.start_read(false).map(<[u8]>::to_vec),
      (r, true) => {
        let waker = noop_waker();
        let mut cx = Context::from_waker(&waker);
        let mut f = match r {
          Reader::Plain(r) => r.read(),
          Reader::Cursor(r) => r.read(),
        };
        match f.as_mut().poll(&mut cx) {
          Poll::Ready(r) => r.map(<[u8]>::to_vec),
          Poll::Pending => return Ok(false),
        }
      },
    };
    match r {
      Ok(r) => self.got(&r).map(|()| true),
      Err(e) => {
        ensure!(code(&e) == Some(No::Unavailable), "read failed with {e}");
        Ok(false)
      },
    }
  }
  fn finish(&mut self) -> Result<(), Fail> {
    if self.held.pop_front().is_some() {
      match self.reader.as_mut().unwrap() {
        Reader::Plain(r) => r.finish_read(),
        Reader::Cursor(r) => r.advance_read_pointer(),
      }
      .map_err(|e| Fail::new(format!("finish: {e}")))?;
    }
    Ok(())
  }
  fn step(&mut self, op: &Op, obs: &mut Obs) -> Result<(), Fail> {
    let end = self.conf.size + 40;
    match op {
      Op::Reserve(n) => self.reserve(*n)?,
      Op::Commit => self.commit()?,
      Op::Write(n) => {
        self.commit()?;
        self.reserve(*n)?;
        self.commit()?;
      },
      Op::Read => {
        self.read(false)?;
      },
      Op::Poll => {
        self.read(true)?;
      },
      Op::Finish => self.finish()?,
      Op::Flip(at, b) => {
        let f = std::fs::File::options().write(true).open(&self.path).unwrap();
        f.write_all_at(&[*b], u64::from(40 + at % self.conf.size)).unwrap();
        // What is being filled in or looked at is no longer what it was meant to be.
        obs.label("changed while open");
      },
      Op::Word(at, w) => {
        let f = std::fs::File::options().write(true).open(&self.path).unwrap();
        let at = 40 + (at % self.conf.size).min(self.conf.size - 4);
        f.write_all_at(&w.to_ne_bytes(), u64::from(at)).unwrap();
        obs.label("changed while open");
      },
      Op::Reopen(changes) => {
        let mut v = std::fs::read(&self.path).unwrap();
        let to = self.detach();
        for (at, b) in changes {
          v[(at % end) as usize] = *b;
        }
        std::fs::remove_file(&self.path).unwrap();
        self.path = to;
        std::fs::write(&self.path, &v).unwrap();
        let lost = self.attach()?;
        obs.label(if lost { "lost at the start" } else { "opened again" });
      },
      Op::Torn(op, mix) => {
        let before = std::fs::read(&self.path).unwrap();
        let held = self.held.clone();
        self.step(op, obs)?;
        let after = std::fs::read(&self.path).unwrap();
        // What was being handed out or given back may come again.
        for r in held.iter().chain(&self.held) {
          self.known.insert(r.clone(), true);
        }
        let to = self.detach();
        let mut x = *mix | 1;
        let v: Vec<u8> = before
          .chunks(4)
          .zip(after.chunks(4))
          .flat_map(|(b, a)| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            if x >> 60 < mix >> 60 { a } else { b }
          })
          .copied()
          .collect();
        std::fs::remove_file(&self.path).unwrap();
        self.path = to;
        std::fs::write(&self.path, &v).unwrap();
        let lost = self.attach()?;
        obs.label(if lost { "torn: lost" } else { "torn: opened" });
      },
    }
    Ok(())
  }
}

fn play(case: &Case, obs: &mut Obs) -> Result<(), Fail> {
  let conf = RingCase { size: case.size, crc: true, block: case.block || case.cursor, cursor: case.cursor, ops: vec![] };
  let mut l = Live::fresh(conf)?;
  for op in &case.ops {
    l.step(op, obs)?;
  }
  // However it stands, it becomes empty and then works.
  l.commit()?;
  let mut rounds = 0;
  loop {
    while l.read(false)? && l.conf.cursor {}
    if l.held.is_empty() {
      break;
    }
    while !l.held.is_empty() {
      l.finish()?;
    }
    rounds += 1;
    ensure!(rounds < 2000, "reading never ends");
  }
  for n in [8, case.size / 3, case.size - 8] {
    l.id += 1;
    let data = payload(l.id, n);
    let s = l.producer.as_mut().unwrap().reserve(n, false).map_err(|e| Fail::new(format!("an emptied buffer takes nothing: {e}")))?;
    s.copy_from_slice(&data);
    l.producer.as_mut().unwrap().commit().map_err(|e| Fail::new(e.to_string()))?;
    l.known.insert(data.clone(), true);
    ensure!(l.read(true)?, "a record written to an emptied buffer cannot be read");
    ensure_eq!(l.held.front(), Some(&data), "record of an emptied buffer");
    l.finish()?;
  }
  let c = l.stats.counts();
  obs.nontrivial(c.corrupted > 0 || l.stats.lost() > 0);
  obs.label_if(c.corrupted > 0, "dropped record");
  obs.label_if(l.stats.lost() > 0, "emptied");
  Ok(())
}
static STUCK: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
/// In a thread of its own, so that something that never ends is noticed.
pub fn guarded<C: Clone + std::fmt::Debug + Send + 'static>(
  case: &C,
  obs: &mut Obs,
  play: fn(&C, &mut Obs) -> Result<(), Fail>,
) -> Result<(), Fail> {
  let stuck = STUCK.lock().unwrap().len();
  if stuck > 0 && STUCK.lock().unwrap().contains(&format!("{case:?}")) {
    return Err(Fail::new("never ends"));
  }
  // Each one that is stuck goes on using up a processor.
  if stuck >= 6 {
    return Ok(());
  }
  let (tx, rx) = mpsc::channel();
  let (c, mut o) = (case.clone(), obs.clone());
  std::thread::spawn(move || {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| play(&c, &mut o)));
    let _ = tx.send((r, o));
  });
  match rx.recv_timeout(Duration::from_secs(if stuck == 0 { 30 } else { 5 })) {
    Ok((Ok(r), o)) => {
      *obs = o;
      r
    },
    Ok((Err(p), _)) => std::panic::resume_unwind(p),
    Err(_) => {
      STUCK.lock().unwrap().push(format!("{case:?}"));
      Err(Fail::new("never ends"))
    },
  }
}

fn case() -> impl Strategy<Value = Case> + Clone {
  (prop_oneof![24u32 .. 60, 60u32 .. 240], any::<bool>(), any::<bool>(), any::<bool>()).prop_flat_map(|(size, block, cursor, small)| {
    let n = prop_oneof![12 => 8u32 .. (size / 4 + 1).max(9), 3 => 8u32 .. size - 7];
    let plain = prop_oneof![
      3 => n.clone().prop_map(Op::Reserve),
      4 => Just(Op::Commit),
      14 => n.prop_map(Op::Write),
      8 => Just(Op::Read),
      2 => Just(Op::Poll),
      8 => Just(Op::Finish),
    ];
    let at = if small { 0u32 .. 2000 } else { 0 .. 100_000 };
    let op = prop_oneof![
      20 => plain.clone(),
      1 => (at.clone(), any::<u8>()).prop_map(|(a, b)| Op::Flip(a, b)),
      2 => (at.clone(), prop_oneof![Just(0), 1u32 .. 64, 1u32 .. 400, any::<u32>()]).prop_map(|(a, w)| Op::Word(a, w)),
      2 => prop::collection::vec((at, prop_oneof![any::<u8>(), 0u8 .. 40]), 0 .. 4).prop_map(Op::Reopen),
      2 => (plain, any::<u64>()).prop_map(|(o, x)| Op::Torn(Box::new(o), x)),
    ];
    prop::collection::vec(op, 1 .. 60).prop_map(move |ops| Case { size, block, cursor, ops })
  })
}
pub fn c25(run: &mut Run) {
  // What was found once.
  let known: Vec<Case> = serde_json::from_str(include_str!("../corpus/C25.json")).unwrap();
  run.run(
    part("corpus", 16, 16, "a record was dropped or the buffer emptied").shards(2).max_shrink(4),
    move || prop::sample::select(known.clone()),
    |c, obs| guarded(c, obs, play),
  );
  run.run(part("damage", 20_000, 800_000, "a record was dropped or the buffer emptied").shards(8).max_shrink(2000), case, |c, obs| guarded(c, obs, play));
}
