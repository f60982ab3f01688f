use crate::coded::{zz32, zz64};
use crate::special::{UnknownFields, UnknownValue};
use crate::{
  CodedInputStream, CodedOutputStream, Enum, EnumOrUnknown, Error, Message, MessageField, Result,
};
use std::sync::OnceLock;

pub struct Lazy<T>(OnceLock<T>);
impl<T> Lazy<T> {
  pub const fn new() -> Self {
    Self(OnceLock::new())
  }
  pub fn get(&'static self, f: impl FnOnce() -> T) -> &'static T {
    self.0.get_or_init(f)
  }
}

pub fn compute_raw_varint64_size(v: u64) -> u64 {
  (u64::from(64 - (v | 1).leading_zeros()) + 6) / 7
}
pub fn tag_size(n: u32) -> u64 {
  compute_raw_varint64_size(u64::from(n) << 3)
}
pub fn string_size(n: u32, s: &str) -> u64 {
  bytes_size(n, s.as_bytes())
}
pub fn bytes_size(n: u32, b: &[u8]) -> u64 {
  let l = b.len() as u64;
  tag_size(n) + compute_raw_varint64_size(l) + l
}
pub fn uint64_size(n: u32, v: u64) -> u64 {
  tag_size(n) + compute_raw_varint64_size(v)
}
pub fn uint32_size(n: u32, v: u32) -> u64 {
  uint64_size(n, u64::from(v))
}
pub fn int64_size(n: u32, v: i64) -> u64 {
  uint64_size(n, v as u64)
}
pub fn int32_size(n: u32, v: i32) -> u64 {
  uint64_size(n, i64::from(v) as u64)
}
pub fn sint64_size(n: u32, v: i64) -> u64 {
  uint64_size(n, zz64(v))
}
pub fn sint32_size(n: u32, v: i32) -> u64 {
  uint64_size(n, u64::from(zz32(v)))
}
pub fn vec_packed_double_size(n: u32, v: &[f64]) -> u64 {
  if v.is_empty() {
    return 0;
  }
  let l = v.len() as u64 * 8;
  tag_size(n) + compute_raw_varint64_size(l) + l
}
pub fn vec_packed_enum_or_unknown_size<E: Enum>(n: u32, v: &[EnumOrUnknown<E>]) -> u64 {
  if v.is_empty() {
    return 0;
  }
  let l: u64 = v
    .iter()
    .map(|e| compute_raw_varint64_size(i64::from(e.value()) as u64))
    .sum();
  tag_size(n) + compute_raw_varint64_size(l) + l
}
pub fn unknown_fields_size(u: &UnknownFields) -> u64 {
  u.iter()
    .map(|(n, v)| match v {
      UnknownValue::Fixed32(_) => tag_size(n) + 4,
      UnknownValue::Fixed64(_) => tag_size(n) + 8,
      UnknownValue::Varint(v) => uint64_size(n, *v),
      UnknownValue::LengthDelimited(v) => bytes_size(n, v),
    })
    .sum()
}
pub fn enum_or_unknown_size<E: Enum>(n: u32, v: EnumOrUnknown<E>) -> u64 {
  int32_size(n, v.value())
}
pub fn read_unknown_or_skip_group(
  tag: u32,
  is: &mut CodedInputStream<'_>,
  u: &mut UnknownFields,
) -> Result<()> {
  if let Some(v) = is.read_unknown(tag)? {
    u.add_value(tag >> 3, v);
  }
  Ok(())
}
pub fn skip_field_for_tag(tag: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
  is.read_unknown(tag)?;
  Ok(())
}
pub fn read_singular_message_into_field<M: Message>(
  is: &mut CodedInputStream<'_>,
  t: &mut MessageField<M>,
) -> Result<()> {
  let m = t.mut_or_insert_default();
  is.merge_message(m)
}
pub fn read_repeated_packed_enum_or_unknown_into<E: Enum>(
  is: &mut CodedInputStream<'_>,
  t: &mut Vec<EnumOrUnknown<E>>,
) -> Result<()> {
  let len = is.read_raw_varint64()?;
  let old = is.push_limit(len)?;
  while !is.eof() {
    t.push(is.read_enum_or_unknown()?);
  }
  is.pop_limit(old);
  Ok(())
}
pub fn write_message_field_with_cached_size<M: Message>(
  n: u32,
  m: &M,
  os: &mut CodedOutputStream<'_>,
) -> Result<()> {
  os.write_tag(n, 2)?;
  os.write_raw_varint32(m.special_fields().cached_size().get())?;
  m.write_to_with_cached_sizes(os)
}
#[allow(unused)]
fn _unused(_: Error) {}
