//! The reference: a ring as a list of records with the places they occupy.
use std::collections::VecDeque;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
  /// Handed out to a producer.
  Reserved(usize),
  /// Committed while an earlier one is still reserved.
  Committed,
  /// Readable.
  Published,
  /// In the chain, but a reader drops it.
  Dropped,
  /// Reserved by a process that went away; a reader drops it if it comes across it.
  Abandoned,
}
#[derive(Clone, Debug)]
pub struct Seg {
  pub start: u32,
  pub size: u32,
  pub data: Vec<u8>,
  pub st: St,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Counts {
  pub written: u64,
  pub read: u64,
  pub overwritten: u64,
  pub refused: u64,
  pub corrupted: u64,
  pub bytes_written: u64,
  pub bytes_read: u64,
  pub total_written: u64,
  pub total_read: u64,
  pub bytes_overwritten: u64,
  pub bytes_refused: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum No {
  InvalidArgument,
  FailedPrecondition,
  ResourceExhausted,
  Unavailable,
}
#[derive(Clone, Debug)]
pub struct Model {
  pub len: u32,
  pub extra: u32,
  pub block: bool,
  pub cursor: bool,
  pub next: u32,
  pub segs: VecDeque<Seg>,
  /// How many at the front the reader has gone past without giving them back.
  pub passed: usize,
  pub locks: u32,
  pub c: Counts,
  /// How many that were never committed are among those read or overwritten.
  pub never: u64,
}
impl Model {
  pub fn new(len: u32, extra: u32, block: bool, cursor: bool) -> Self {
    Self { len, extra, block, cursor, next: 0, segs: VecDeque::new(), passed: 0, locks: 0, c: Counts::default(), never: 0 }
  }
  /// How many records a reader can walk through.
  pub fn walk(&self) -> usize {
    let n = self.segs.iter().take_while(|s| !matches!(s.st, St::Reserved(_) | St::Committed)).count();
    self.segs.iter().take(n).rposition(|s| s.st != St::Abandoned).map_or(0, |i| i + 1)
  }
  fn tidy(&mut self) {
    if self.walk() == 0 {
      while self.segs.front().is_some_and(|s| s.st == St::Abandoned) {
        self.segs.pop_front();
      }
    }
  }
  fn hits(&self, s: &Seg, start: u32, size: u32, gap: u32) -> bool {
    let apart = |a: u32, an: u32, b: u32, bn: u32| a + an <= b || b + bn <= a;
    !apart(s.start, s.size, start, size) || gap < self.len && !apart(s.start, s.size, gap, self.len - gap)
  }
  pub fn reserved(&self, p: usize) -> Option<usize> {
    self.segs.iter().position(|s| s.st == St::Reserved(p))
  }
  pub fn reserve(&mut self, p: usize, n: u32, data: Vec<u8>) -> Result<(), No> {
    if self.reserved(p).is_some() {
      return Err(No::InvalidArgument);
    }
    if self.locks > 0 {
      self.c.refused += 1;
      self.c.bytes_refused += u64::from(n);
      return Err(No::FailedPrecondition);
    }
    let Some(size) = n.checked_add(self.extra).filter(|s| n > 0 && *s <= self.len) else {
      self.c.refused += 1;
      return Err(No::InvalidArgument);
    };
    let (start, gap) = if self.next + size <= self.len { (self.next, self.len) } else { (0, self.next) };
    let walk = self.walk();
    let taken = (0 .. self.segs.len()).any(|i| {
      (i < self.passed || i >= walk && self.segs[i].st != St::Abandoned) && self.hits(&self.segs[i], start, size, gap)
    });
    if taken {
      self.c.refused += 1;
      self.c.bytes_refused += u64::from(n);
      return Err(No::ResourceExhausted);
    }
    while self.passed == 0 && self.walk() > 0 && self.hits(&self.segs[0], start, size, gap) {
      if self.block {
        return Err(No::Unavailable);
      }
      let s = self.segs.pop_front().unwrap();
      self.c.overwritten += 1;
      self.never += u64::from(s.st == St::Abandoned);
      self.c.bytes_overwritten += u64::from(s.size - self.extra);
      self.tidy();
    }
    // Nothing that is still to be read is in the way.
    for s in self.segs.iter().filter(|s| s.st != St::Abandoned) {
      assert!(!self.hits(s, start, size, gap), "the reference overlaps itself");
    }
    self.next = start + size;
    self.segs.push_back(Seg { start, size, data, st: St::Reserved(p) });
    Ok(())
  }
  pub fn commit(&mut self, p: usize) -> Result<(), No> {
    let i = self.reserved(p).ok_or(No::InvalidArgument)?;
    self.segs[i].st = St::Committed;
    // A cursor that is through goes on with what comes next.
    let through = self.cursor && self.passed > 0 && self.passed == self.walk();
    while through && self.segs[self.passed].st == St::Abandoned {
      self.passed += 1;
    }
    for s in &mut self.segs {
      match s.st {
        St::Reserved(_) => break,
        St::Committed => {
          s.st = St::Published;
          self.c.written += 1;
          self.c.bytes_written += u64::from(s.size - self.extra);
          self.c.total_written += u64::from(s.size);
        },
        _ => (),
      }
    }
    Ok(())
  }
  fn give_back(&mut self) {
    let s = self.segs.pop_front().unwrap();
    self.c.read += 1;
    self.never += u64::from(s.st == St::Abandoned);
    self.c.bytes_read += u64::from(s.size - self.extra);
    self.c.total_read += u64::from(s.size);
    self.tidy();
  }
  pub fn start_read(&mut self) -> Result<Vec<u8>, No> {
    if !self.cursor && self.passed > 0 {
      return Err(No::InvalidArgument);
    }
    while self.passed < self.walk() {
      if self.segs[self.passed].st == St::Published {
        self.passed += 1;
        return Ok(self.segs[self.passed - 1].data.clone());
      }
      self.c.corrupted += 1;
      if self.passed == 0 {
        self.give_back();
      } else {
        self.passed += 1;
      }
    }
    Err(No::Unavailable)
  }
  pub fn finish_read(&mut self) -> Result<(), No> {
    if self.passed == 0 {
      return Err(if self.cursor { No::FailedPrecondition } else { No::InvalidArgument });
    }
    self.passed -= 1;
    self.give_back();
    while self.passed > 0 && self.segs[0].st != St::Published {
      self.passed -= 1;
      self.give_back();
    }
    Ok(())
  }
  /// A reader went away. A plain reader of checked records has used up the one it was at.
  pub fn detach(&mut self, checked: bool) {
    if self.passed > 0 && !self.cursor && checked {
      self.segs[0].st = St::Dropped;
    }
    self.passed = 0;
  }
  /// The process went away and the file was opened again.
  pub fn reopen(&mut self, checked: bool) {
    self.detach(checked);
    self.locks = 0;
    for s in &mut self.segs {
      if matches!(s.st, St::Reserved(_)) {
        s.st = St::Abandoned;
      }
    }
    self.tidy();
  }
}
