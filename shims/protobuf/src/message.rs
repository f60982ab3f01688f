use crate::reflect::{EnumDescriptor, EnumValueDescriptor, MessageDescriptor, OneofDescriptor, ProtobufValue};
use crate::{CodedInputStream, CodedOutputStream, Error, Result, SpecialFields};
use bytes::Bytes;
use std::any::Any;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::{Deref, DerefMut};

pub trait Message: Default + Clone + Send + Sync + Sized + PartialEq + Debug + 'static {
  const NAME: &'static str;
  fn new() -> Self;
  fn clear(&mut self) {
    *self = Self::new();
  }
  fn is_initialized(&self) -> bool;
  fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()>;
  fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()>;
  fn compute_size(&self) -> u64;
  fn special_fields(&self) -> &SpecialFields;
  fn mut_special_fields(&mut self) -> &mut SpecialFields;
  fn default_instance() -> &'static Self;
  fn cached_size(&self) -> u32 {
    self.special_fields().cached_size().get()
  }

  fn check_initialized(&self) -> Result<()> {
    if self.is_initialized() {
      Ok(())
    } else {
      Err(Error::Wire("message not initialized"))
    }
  }
  fn parse_from(is: &mut CodedInputStream<'_>) -> Result<Self> {
    let mut m = Self::new();
    m.merge_from(is)?;
    is.take_err()?;
    m.check_initialized()?;
    Ok(m)
  }
  fn parse_from_bytes(b: &[u8]) -> Result<Self> {
    Self::parse_from(&mut CodedInputStream::from_bytes(b))
  }
  fn parse_from_tokio_bytes(b: &Bytes) -> Result<Self> {
    Self::parse_from(&mut CodedInputStream::from_tokio_bytes(b))
  }
  fn parse_from_reader(r: &mut dyn std::io::Read) -> Result<Self> {
    Self::parse_from(&mut CodedInputStream::new(r))
  }
  fn merge_from_bytes(&mut self, b: &[u8]) -> Result<()> {
    self.merge_from(&mut CodedInputStream::from_bytes(b))
  }
  fn write_to(&self, os: &mut CodedOutputStream<'_>) -> Result<()> {
    self.check_initialized()?;
    self.compute_size();
    self.write_to_with_cached_sizes(os)
  }
  fn write_to_vec(&self, v: &mut Vec<u8>) -> Result<()> {
    self.write_to(&mut CodedOutputStream::vec(v))
  }
  fn write_to_bytes(&self) -> Result<Vec<u8>> {
    let mut v = Vec::new();
    self.write_to_vec(&mut v)?;
    Ok(v)
  }
  fn write_to_writer(&self, w: &mut dyn std::io::Write) -> Result<()> {
    // Like the real library, encode into an internal buffer and hand the writer large chunks.
    let bytes = self.write_to_bytes()?;
    for chunk in bytes.chunks(8 * 1024) {
      w.write_all(chunk)?;
    }
    w.flush()?;
    Ok(())
  }
}

pub trait MessageFull: Message + Display + ProtobufValue {
  fn descriptor() -> MessageDescriptor;
}

pub trait MessageDyn: Any + Debug + Display + Send + Sync + 'static {
  fn descriptor_dyn(&self) -> MessageDescriptor;
  fn as_any(&self) -> &dyn Any;
  fn write_to_bytes_dyn(&self) -> Result<Vec<u8>>;
  fn compute_size_dyn(&self) -> u64;
}
impl<M: MessageFull> MessageDyn for M {
  fn descriptor_dyn(&self) -> MessageDescriptor {
    M::descriptor()
  }
  fn as_any(&self) -> &dyn Any {
    self
  }
  fn write_to_bytes_dyn(&self) -> Result<Vec<u8>> {
    self.write_to_bytes()
  }
  fn compute_size_dyn(&self) -> u64 {
    self.compute_size()
  }
}
impl dyn MessageDyn {
  pub fn downcast_ref<M: MessageFull>(&self) -> Option<&M> {
    MessageDyn::as_any(self).downcast_ref::<M>()
  }
}

pub trait Enum: Eq + Sized + Copy + Default + Hash + Debug + Send + Sync + 'static {
  const NAME: &'static str;
  fn value(&self) -> i32;
  fn from_i32(v: i32) -> Option<Self>;
  fn from_str(s: &str) -> Option<Self>;
  const VALUES: &'static [Self];
}
pub trait EnumFull: Enum {
  fn enum_descriptor() -> EnumDescriptor;
  fn descriptor(&self) -> EnumValueDescriptor;
}
pub trait Oneof {}
pub trait OneofFull: Oneof {
  fn descriptor() -> OneofDescriptor;
}

pub struct EnumOrUnknown<E: Enum> {
  value: i32,
  _p: std::marker::PhantomData<E>,
}
impl<E: Enum> EnumOrUnknown<E> {
  pub fn new(e: E) -> Self {
    Self::from_i32(e.value())
  }
  pub const fn from_i32(value: i32) -> Self {
    Self {
      value,
      _p: std::marker::PhantomData,
    }
  }
  pub fn value(&self) -> i32 {
    self.value
  }
  pub fn enum_value(&self) -> std::result::Result<E, i32> {
    E::from_i32(self.value).ok_or(self.value)
  }
  pub fn enum_value_or(&self, d: E) -> E {
    self.enum_value().unwrap_or(d)
  }
  pub fn enum_value_or_default(&self) -> E {
    self.enum_value_or(E::default())
  }
  pub fn unwrap(&self) -> E {
    self.enum_value().unwrap()
  }
}
impl<E: Enum> Clone for EnumOrUnknown<E> {
  fn clone(&self) -> Self {
    *self
  }
}
impl<E: Enum> Copy for EnumOrUnknown<E> {}
impl<E: Enum> PartialEq for EnumOrUnknown<E> {
  fn eq(&self, o: &Self) -> bool {
    self.value == o.value
  }
}
impl<E: Enum> Eq for EnumOrUnknown<E> {}
impl<E: Enum> Hash for EnumOrUnknown<E> {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    self.value.hash(h);
  }
}
impl<E: Enum> Default for EnumOrUnknown<E> {
  fn default() -> Self {
    Self::new(E::default())
  }
}
impl<E: Enum> From<E> for EnumOrUnknown<E> {
  fn from(e: E) -> Self {
    Self::new(e)
  }
}
impl<E: Enum> Debug for EnumOrUnknown<E> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self.enum_value() {
      Ok(e) => Debug::fmt(&e, f),
      Err(v) => Debug::fmt(&v, f),
    }
  }
}

pub struct MessageField<T>(pub Option<Box<T>>);
impl<T> MessageField<T> {
  pub fn some(t: T) -> Self {
    Self(Some(Box::new(t)))
  }
  pub const fn none() -> Self {
    Self(None)
  }
  pub fn from_option(o: Option<T>) -> Self {
    Self(o.map(Box::new))
  }
  pub fn into_option(self) -> Option<T> {
    self.0.map(|b| *b)
  }
  pub fn is_some(&self) -> bool {
    self.0.is_some()
  }
  pub fn is_none(&self) -> bool {
    self.0.is_none()
  }
  pub fn as_ref(&self) -> Option<&T> {
    self.0.as_deref()
  }
  pub fn as_mut(&mut self) -> Option<&mut T> {
    self.0.as_deref_mut()
  }
  pub fn unwrap(self) -> T {
    *self.0.unwrap()
  }
  pub fn take(&mut self) -> Option<T> {
    self.0.take().map(|b| *b)
  }
  pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Option<U> {
    self.into_option().map(f)
  }
  pub fn ok_or<E>(self, e: E) -> std::result::Result<T, E> {
    self.into_option().ok_or(e)
  }
  pub fn ok_or_else<E>(self, e: impl FnOnce() -> E) -> std::result::Result<T, E> {
    self.into_option().ok_or_else(e)
  }
  pub fn clear(&mut self) {
    self.0 = None;
  }
}
impl<T: Default> MessageField<T> {
  pub fn unwrap_or_default(self) -> T {
    self.into_option().unwrap_or_default()
  }
}
impl<M: Message> MessageField<M> {
  pub fn get_or_default(&self) -> &M {
    self.as_ref().unwrap_or_else(|| M::default_instance())
  }
  pub fn mut_or_insert_default(&mut self) -> &mut M {
    self.0.get_or_insert_with(Default::default)
  }
}
impl<T> Default for MessageField<T> {
  fn default() -> Self {
    Self(None)
  }
}
impl<T: Clone> Clone for MessageField<T> {
  fn clone(&self) -> Self {
    Self(self.0.clone())
  }
}
impl<T: PartialEq> PartialEq for MessageField<T> {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl<T: Debug> Debug for MessageField<T> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    Debug::fmt(&self.0, f)
  }
}
impl<T> From<Option<T>> for MessageField<T> {
  fn from(o: Option<T>) -> Self {
    Self::from_option(o)
  }
}
impl<M: Message> Deref for MessageField<M> {
  type Target = M;
  fn deref(&self) -> &M {
    self.get_or_default()
  }
}
impl<M: Message> DerefMut for MessageField<M> {
  fn deref_mut(&mut self) -> &mut M {
    self.mut_or_insert_default()
  }
}
impl<T> IntoIterator for MessageField<T> {
  type Item = T;
  type IntoIter = std::option::IntoIter<T>;
  fn into_iter(self) -> Self::IntoIter {
    self.into_option().into_iter()
  }
}
