use crate::descriptor::field_descriptor_proto::Type;
use crate::special::UnknownValue;
use crate::Message;
use std::marker::PhantomData;

pub trait ExtValue: Sized {
  fn from_unknown<'a>(vals: impl Iterator<Item = &'a UnknownValue>) -> Option<Self>;
}
impl ExtValue for bool {
  fn from_unknown<'a>(vals: impl Iterator<Item = &'a UnknownValue>) -> Option<Self> {
    let mut out = None;
    for v in vals {
      if let UnknownValue::Varint(v) = v {
        out = Some(*v != 0);
      }
    }
    out
  }
}
impl ExtValue for String {
  fn from_unknown<'a>(vals: impl Iterator<Item = &'a UnknownValue>) -> Option<Self> {
    let mut out = None;
    for v in vals {
      if let UnknownValue::LengthDelimited(v) = v {
        out = String::from_utf8(v.clone()).ok();
      }
    }
    out
  }
}
impl<M: Message> ExtValue for M {
  fn from_unknown<'a>(vals: impl Iterator<Item = &'a UnknownValue>) -> Option<Self> {
    let mut out: Option<M> = None;
    for v in vals {
      if let UnknownValue::LengthDelimited(v) = v {
        out.get_or_insert_with(M::new).merge_from_bytes(v).unwrap();
      }
    }
    out
  }
}
pub struct ExtFieldOptional<M, T> {
  number: u32,
  _p: PhantomData<(M, T)>,
}
impl<M: Message, T: ExtValue> ExtFieldOptional<M, T> {
  pub const fn new(number: u32, _t: Type) -> Self {
    Self {
      number,
      _p: PhantomData,
    }
  }
  pub fn get(&self, m: &M) -> Option<T> {
    T::from_unknown(
      m.special_fields()
        .unknown_fields()
        .iter()
        .filter(|(n, _)| *n == self.number)
        .map(|(_, v)| v),
    )
  }
}
pub struct ExtFieldRepeated<M, T> {
  number: u32,
  _p: PhantomData<(M, T)>,
}
impl<M: Message, T> ExtFieldRepeated<M, T> {
  pub const fn new(number: u32, _t: Type) -> Self {
    Self {
      number,
      _p: PhantomData,
    }
  }
  pub fn number(&self) -> u32 {
    self.number
  }
}
