//! API subset of intrusive-collections backed by a deque of owning pointers.
use std::collections::VecDeque;
pub use std::mem::offset_of;

#[derive(Default)]
pub struct LinkedListLink(std::cell::Cell<Option<std::ptr::NonNull<()>>>);
unsafe impl Send for LinkedListLink {}
impl LinkedListLink {
  pub const fn new() -> Self { Self(std::cell::Cell::new(None)) }
}
pub trait Adapter { type Value; }
pub struct LinkedList<A: Adapter> { q: VecDeque<Box<A::Value>> }
impl<A: Adapter> Default for LinkedList<A> {
  fn default() -> Self { Self { q: VecDeque::new() } }
}
pub struct Cursor<'a, T>(Option<&'a T>);
impl<'a, T> Cursor<'a, T> {
  pub fn get(&self) -> Option<&'a T> { self.0 }
}
impl<A: Adapter> LinkedList<A> {
  pub fn is_empty(&self) -> bool { self.q.is_empty() }
  pub fn front(&self) -> Cursor<'_, A::Value> { Cursor(self.q.front().map(|b| &**b)) }
  pub fn pop_front(&mut self) -> Option<Box<A::Value>> { self.q.pop_front() }
  pub fn pop_back(&mut self) -> Option<Box<A::Value>> { self.q.pop_back() }
  pub fn push_front(&mut self, b: Box<A::Value>) { self.q.push_front(b); }
  pub fn push_back(&mut self, b: Box<A::Value>) { self.q.push_back(b); }
}
#[macro_export]
macro_rules! intrusive_adapter {
  ($name:ident<$t:ident> = $ptr:ty: $v:ty { $link:ident: LinkedListLink }) => {
    struct $name<$t>(std::marker::PhantomData<$t>);
    impl<$t> $crate::Adapter for $name<$t> { type Value = $v; }
  };
}
