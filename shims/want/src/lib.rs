//! Demand signalling between a sender (Giver) and a receiver (Taker).
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
#[derive(PartialEq, Clone, Copy, Debug)]
enum State { Idle, Want, Give, Closed }
#[derive(Debug)]
struct Inner { state: State, task: Option<Waker> }
type Shared = Arc<Mutex<Inner>>;
#[derive(Debug)]
pub struct Giver(Shared);
#[derive(Debug)]
pub struct Taker(Shared);
#[derive(Debug, Clone)]
pub struct SharedGiver(Shared);
#[derive(Debug)]
pub struct Closed(());
impl std::fmt::Display for Closed {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("closed") }
}
impl std::error::Error for Closed {}
pub fn new() -> (Giver, Taker) {
  let i = Arc::new(Mutex::new(Inner { state: State::Idle, task: None }));
  (Giver(i.clone()), Taker(i))
}
fn wake(i: &Shared, s: State) {
  let t = { let mut i = i.lock().unwrap(); i.state = s; i.task.take() };
  if let Some(t) = t { t.wake(); }
}
impl Giver {
  pub fn poll_want(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Closed>> {
    let mut i = self.0.lock().unwrap();
    match i.state {
      State::Want => Poll::Ready(Ok(())),
      State::Closed => Poll::Ready(Err(Closed(()))),
      State::Idle | State::Give => { i.state = State::Give; i.task = Some(cx.waker().clone()); Poll::Pending },
    }
  }
  pub fn give(&self) -> bool {
    let mut i = self.0.lock().unwrap();
    if i.state == State::Want { i.state = State::Idle; true } else { false }
  }
  pub fn is_wanting(&self) -> bool { self.0.lock().unwrap().state == State::Want }
  pub fn is_canceled(&self) -> bool { self.0.lock().unwrap().state == State::Closed }
  pub fn shared(&self) -> SharedGiver { SharedGiver(self.0.clone()) }
}
impl SharedGiver {
  pub fn is_wanting(&self) -> bool { self.0.lock().unwrap().state == State::Want }
  pub fn is_canceled(&self) -> bool { self.0.lock().unwrap().state == State::Closed }
}
impl Taker {
  pub fn want(&mut self) { wake(&self.0, State::Want); }
  pub fn cancel(&mut self) { wake(&self.0, State::Closed); }
}
impl Drop for Taker {
  fn drop(&mut self) { wake(&self.0, State::Closed); }
}
