use crate::special::{UnknownFields, UnknownValue};
use crate::{Chars, Enum, EnumOrUnknown, Error, Message, Result};
use bytes::Bytes;
use std::io::{Read, Write};
use std::marker::PhantomData;

const RECURSION_LIMIT: u32 = 100;

pub struct CodedInputStream<'a> {
  buf: Bytes,
  pos: usize,
  limit: usize,
  depth: u32,
  pending_err: Option<std::io::Error>,
  _p: PhantomData<&'a ()>,
}

macro_rules! packed {
  ($name:ident, $read:ident, $t:ty) => {
    pub fn $name(&mut self, target: &mut Vec<$t>) -> Result<()> {
      let len = self.read_raw_varint64()?;
      let old = self.push_limit(len)?;
      while !self.eof() {
        target.push(self.$read()?);
      }
      self.pop_limit(old);
      Ok(())
    }
  };
}

impl<'a> CodedInputStream<'a> {
  fn build(buf: Bytes) -> Self {
    let limit = buf.len();
    Self {
      buf,
      pos: 0,
      limit,
      depth: 0,
      pending_err: None,
      _p: PhantomData,
    }
  }
  pub fn from_bytes(b: &'a [u8]) -> Self {
    Self::build(Bytes::copy_from_slice(b))
  }
  pub fn from_tokio_bytes(b: &'a Bytes) -> Self {
    Self::build(b.clone())
  }
  pub fn new(r: &'a mut dyn Read) -> Self {
    let mut v = Vec::new();
    let err = r.read_to_end(&mut v).err();
    let mut s = Self::build(Bytes::from(v));
    s.pending_err = err;
    s
  }
  pub(crate) fn take_err(&mut self) -> Result<()> {
    match self.pending_err.take() {
      Some(e) => Err(e.into()),
      None => Ok(()),
    }
  }
  pub fn eof(&self) -> bool {
    self.pos >= self.limit
  }
  fn take(&mut self, n: u64) -> Result<Bytes> {
    let avail = (self.limit - self.pos) as u64;
    if n > avail {
      self.take_err()?;
      return Err(Error::Wire("unexpected EOF"));
    }
    let n = n as usize;
    let out = self.buf.slice(self.pos .. self.pos + n);
    self.pos += n;
    Ok(out)
  }
  pub fn push_limit(&mut self, len: u64) -> Result<u64> {
    let avail = (self.limit - self.pos) as u64;
    if len > avail {
      self.take_err()?;
      return Err(Error::Wire("limit past end"));
    }
    let old = self.limit as u64;
    self.limit = self.pos + len as usize;
    Ok(old)
  }
  pub fn pop_limit(&mut self, old: u64) {
    self.limit = old as usize;
  }
  pub fn read_raw_varint64(&mut self) -> Result<u64> {
    let mut r: u64 = 0;
    for i in 0 .. 10 {
      if self.eof() {
        self.take_err()?;
        return Err(Error::Wire("unexpected EOF in varint"));
      }
      let b = self.buf[self.pos];
      self.pos += 1;
      if i == 9 && b > 1 {
        return Err(Error::Wire("malformed varint"));
      }
      r |= u64::from(b & 0x7f) << (7 * i);
      if b & 0x80 == 0 {
        return Ok(r);
      }
    }
    Err(Error::Wire("malformed varint"))
  }
  pub fn read_raw_varint32(&mut self) -> Result<u32> {
    let v = self.read_raw_varint64()?;
    u32::try_from(v).map_err(|_| Error::Wire("malformed varint32"))
  }
  pub fn read_raw_tag_or_eof(&mut self) -> Result<Option<u32>> {
    if self.eof() {
      self.take_err()?;
      return Ok(None);
    }
    let v = self.read_raw_varint32()?;
    if v >> 3 == 0 {
      return Err(Error::Wire("invalid tag"));
    }
    Ok(Some(v))
  }
  pub fn read_uint64(&mut self) -> Result<u64> {
    self.read_raw_varint64()
  }
  pub fn read_uint32(&mut self) -> Result<u32> {
    self.read_raw_varint32()
  }
  pub fn read_int64(&mut self) -> Result<i64> {
    Ok(self.read_raw_varint64()? as i64)
  }
  pub fn read_int32(&mut self) -> Result<i32> {
    Ok(self.read_raw_varint64()? as i32)
  }
  pub fn read_sint64(&mut self) -> Result<i64> {
    let n = self.read_raw_varint64()?;
    Ok(((n >> 1) as i64) ^ (-((n & 1) as i64)))
  }
  pub fn read_sint32(&mut self) -> Result<i32> {
    let n = self.read_raw_varint32()?;
    Ok(((n >> 1) as i32) ^ (-((n & 1) as i32)))
  }
  pub fn read_bool(&mut self) -> Result<bool> {
    Ok(self.read_raw_varint64()? != 0)
  }
  pub fn read_fixed64(&mut self) -> Result<u64> {
    Ok(u64::from_le_bytes(self.take(8)?[..].try_into().unwrap()))
  }
  pub fn read_fixed32(&mut self) -> Result<u32> {
    Ok(u32::from_le_bytes(self.take(4)?[..].try_into().unwrap()))
  }
  pub fn read_sfixed64(&mut self) -> Result<i64> {
    Ok(self.read_fixed64()? as i64)
  }
  pub fn read_sfixed32(&mut self) -> Result<i32> {
    Ok(self.read_fixed32()? as i32)
  }
  pub fn read_double(&mut self) -> Result<f64> {
    Ok(f64::from_bits(self.read_fixed64()?))
  }
  pub fn read_float(&mut self) -> Result<f32> {
    Ok(f32::from_bits(self.read_fixed32()?))
  }
  pub fn read_tokio_bytes(&mut self) -> Result<Bytes> {
    let n = self.read_raw_varint64()?;
    self.take(n)
  }
  pub fn read_bytes(&mut self) -> Result<Vec<u8>> {
    Ok(self.read_tokio_bytes()?.to_vec())
  }
  pub fn read_string(&mut self) -> Result<String> {
    String::from_utf8(self.read_bytes()?).map_err(|_| Error::Utf8)
  }
  pub fn read_tokio_chars(&mut self) -> Result<Chars> {
    Chars::from_bytes(self.read_tokio_bytes()?).map_err(|_| Error::Utf8)
  }
  pub fn read_enum_or_unknown<E: Enum>(&mut self) -> Result<EnumOrUnknown<E>> {
    Ok(EnumOrUnknown::from_i32(self.read_int32()?))
  }
  pub fn merge_message<M: Message>(&mut self, m: &mut M) -> Result<()> {
    if self.depth >= RECURSION_LIMIT {
      return Err(Error::Wire("recursion limit"));
    }
    self.depth += 1;
    let len = self.read_raw_varint64()?;
    let old = self.push_limit(len)?;
    m.merge_from(self)?;
    self.pop_limit(old);
    self.depth -= 1;
    Ok(())
  }
  pub fn read_message<M: Message>(&mut self) -> Result<M> {
    let mut m = M::new();
    self.merge_message(&mut m)?;
    Ok(m)
  }
  packed!(read_repeated_packed_double_into, read_double, f64);
  packed!(read_repeated_packed_float_into, read_float, f32);
  packed!(read_repeated_packed_int32_into, read_int32, i32);
  packed!(read_repeated_packed_int64_into, read_int64, i64);
  packed!(read_repeated_packed_uint32_into, read_uint32, u32);
  packed!(read_repeated_packed_uint64_into, read_uint64, u64);
  packed!(read_repeated_packed_sint32_into, read_sint32, i32);
  packed!(read_repeated_packed_sint64_into, read_sint64, i64);
  packed!(read_repeated_packed_fixed32_into, read_fixed32, u32);
  packed!(read_repeated_packed_fixed64_into, read_fixed64, u64);
  packed!(read_repeated_packed_sfixed32_into, read_sfixed32, i32);
  packed!(read_repeated_packed_sfixed64_into, read_sfixed64, i64);
  packed!(read_repeated_packed_bool_into, read_bool, bool);

  pub(crate) fn read_unknown(&mut self, tag: u32) -> Result<Option<UnknownValue>> {
    Ok(Some(match tag & 7 {
      0 => UnknownValue::Varint(self.read_raw_varint64()?),
      1 => UnknownValue::Fixed64(self.read_fixed64()?),
      2 => UnknownValue::LengthDelimited(self.read_bytes()?),
      5 => UnknownValue::Fixed32(self.read_fixed32()?),
      3 => {
        if self.depth >= RECURSION_LIMIT {
          return Err(Error::Wire("recursion limit"));
        }
        self.depth += 1;
        loop {
          let Some(t) = self.read_raw_tag_or_eof()? else {
            return Err(Error::Wire("unterminated group"));
          };
          if t & 7 == 4 {
            break;
          }
          self.read_unknown(t)?;
        }
        self.depth -= 1;
        return Ok(None);
      },
      _ => return Err(Error::Wire("incorrect tag")),
    }))
  }
}

enum Target<'a> {
  Vec(&'a mut Vec<u8>),
  Slice(&'a mut [u8], usize),
  Write(&'a mut dyn Write),
}

pub struct CodedOutputStream<'a> {
  t: Target<'a>,
}

pub(crate) fn zz64(v: i64) -> u64 {
  ((v << 1) ^ (v >> 63)) as u64
}
pub(crate) fn zz32(v: i32) -> u32 {
  ((v << 1) ^ (v >> 31)) as u32
}

macro_rules! wr {
  ($name:ident, $no_tag:ident, $t:ty, $wt:expr) => {
    pub fn $name(&mut self, n: u32, v: $t) -> Result<()> {
      self.write_tag_raw(n, $wt)?;
      self.$no_tag(v)
    }
  };
}

impl<'a> CodedOutputStream<'a> {
  pub fn new(w: &'a mut dyn Write) -> Self {
    Self { t: Target::Write(w) }
  }
  pub fn vec(v: &'a mut Vec<u8>) -> Self {
    Self { t: Target::Vec(v) }
  }
  pub fn bytes(b: &'a mut [u8]) -> Self {
    Self {
      t: Target::Slice(b, 0),
    }
  }
  pub fn flush(&mut self) -> Result<()> {
    if let Target::Write(w) = &mut self.t {
      w.flush()?;
    }
    Ok(())
  }
  pub fn check_eof(&self) {
    if let Target::Slice(b, p) = &self.t {
      assert_eq!(b.len(), *p, "must not be called with data left");
    }
  }
  pub fn write_raw_bytes(&mut self, b: &[u8]) -> Result<()> {
    match &mut self.t {
      Target::Vec(v) => v.extend_from_slice(b),
      Target::Slice(s, p) => {
        if s.len() - *p < b.len() {
          return Err(Error::Wire("given slice is too small"));
        }
        s[*p .. *p + b.len()].copy_from_slice(b);
        *p += b.len();
      },
      Target::Write(w) => w.write_all(b)?,
    }
    Ok(())
  }
  fn write_tag_raw(&mut self, n: u32, wt: u32) -> Result<()> {
    self.write_raw_varint32((n << 3) | wt)
  }
  pub fn write_raw_varint32(&mut self, v: u32) -> Result<()> {
    self.write_raw_varint64(u64::from(v))
  }
  pub fn write_raw_varint64(&mut self, mut v: u64) -> Result<()> {
    let mut b = [0u8; 10];
    let mut i = 0;
    loop {
      if v < 0x80 {
        b[i] = v as u8;
        i += 1;
        break;
      }
      b[i] = (v as u8 & 0x7f) | 0x80;
      v >>= 7;
      i += 1;
    }
    self.write_raw_bytes(&b[.. i])
  }
  pub fn write_uint64_no_tag(&mut self, v: u64) -> Result<()> {
    self.write_raw_varint64(v)
  }
  pub fn write_uint32_no_tag(&mut self, v: u32) -> Result<()> {
    self.write_raw_varint32(v)
  }
  pub fn write_int64_no_tag(&mut self, v: i64) -> Result<()> {
    self.write_raw_varint64(v as u64)
  }
  pub fn write_int32_no_tag(&mut self, v: i32) -> Result<()> {
    self.write_raw_varint64(i64::from(v) as u64)
  }
  pub fn write_enum_no_tag(&mut self, v: i32) -> Result<()> {
    self.write_int32_no_tag(v)
  }
  pub fn write_sint64_no_tag(&mut self, v: i64) -> Result<()> {
    self.write_raw_varint64(zz64(v))
  }
  pub fn write_sint32_no_tag(&mut self, v: i32) -> Result<()> {
    self.write_raw_varint32(zz32(v))
  }
  pub fn write_bool_no_tag(&mut self, v: bool) -> Result<()> {
    self.write_raw_varint32(u32::from(v))
  }
  pub fn write_fixed64_no_tag(&mut self, v: u64) -> Result<()> {
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_fixed32_no_tag(&mut self, v: u32) -> Result<()> {
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_sfixed64_no_tag(&mut self, v: i64) -> Result<()> {
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_sfixed32_no_tag(&mut self, v: i32) -> Result<()> {
    self.write_raw_bytes(&v.to_le_bytes())
  }
  pub fn write_double_no_tag(&mut self, v: f64) -> Result<()> {
    self.write_raw_bytes(&v.to_bits().to_le_bytes())
  }
  pub fn write_float_no_tag(&mut self, v: f32) -> Result<()> {
    self.write_raw_bytes(&v.to_bits().to_le_bytes())
  }
  wr!(write_uint64, write_uint64_no_tag, u64, 0);
  wr!(write_uint32, write_uint32_no_tag, u32, 0);
  wr!(write_int64, write_int64_no_tag, i64, 0);
  wr!(write_int32, write_int32_no_tag, i32, 0);
  wr!(write_enum, write_int32_no_tag, i32, 0);
  wr!(write_sint64, write_sint64_no_tag, i64, 0);
  wr!(write_sint32, write_sint32_no_tag, i32, 0);
  wr!(write_bool, write_bool_no_tag, bool, 0);
  wr!(write_fixed64, write_fixed64_no_tag, u64, 1);
  wr!(write_fixed32, write_fixed32_no_tag, u32, 5);
  wr!(write_sfixed64, write_sfixed64_no_tag, i64, 1);
  wr!(write_sfixed32, write_sfixed32_no_tag, i32, 5);
  wr!(write_double, write_double_no_tag, f64, 1);
  wr!(write_float, write_float_no_tag, f32, 5);

  pub fn write_bytes(&mut self, n: u32, b: &[u8]) -> Result<()> {
    self.write_tag_raw(n, 2)?;
    self.write_raw_varint64(b.len() as u64)?;
    self.write_raw_bytes(b)
  }
  pub fn write_string(&mut self, n: u32, s: &str) -> Result<()> {
    self.write_bytes(n, s.as_bytes())
  }
  pub fn write_tag(&mut self, n: u32, wt: u32) -> Result<()> {
    self.write_tag_raw(n, wt)
  }
  pub fn write_repeated_packed_double(&mut self, n: u32, v: &[f64]) -> Result<()> {
    if v.is_empty() {
      return Ok(());
    }
    self.write_tag_raw(n, 2)?;
    self.write_raw_varint64(v.len() as u64 * 8)?;
    for x in v {
      self.write_double_no_tag(*x)?;
    }
    Ok(())
  }
  pub fn write_repeated_packed_enum_or_unknown<E: Enum>(
    &mut self,
    n: u32,
    v: &[EnumOrUnknown<E>],
  ) -> Result<()> {
    if v.is_empty() {
      return Ok(());
    }
    self.write_tag_raw(n, 2)?;
    let size: u64 = v
      .iter()
      .map(|e| crate::rt::compute_raw_varint64_size(i64::from(e.value()) as u64))
      .sum();
    self.write_raw_varint64(size)?;
    for x in v {
      self.write_int32_no_tag(x.value())?;
    }
    Ok(())
  }
  pub fn write_unknown_fields(&mut self, u: &UnknownFields) -> Result<()> {
    for (n, v) in u.iter() {
      match v {
        UnknownValue::Fixed32(v) => self.write_fixed32(n, *v)?,
        UnknownValue::Fixed64(v) => self.write_fixed64(n, *v)?,
        UnknownValue::Varint(v) => self.write_uint64(n, *v)?,
        UnknownValue::LengthDelimited(v) => self.write_bytes(n, v)?,
      }
    }
    Ok(())
  }
}

impl Write for CodedOutputStream<'_> {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    self.write_raw_bytes(b)?;
    Ok(b.len())
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(Self::flush(self)?)
  }
}
