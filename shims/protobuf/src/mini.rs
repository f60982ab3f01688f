//! Field codecs for the handful of messages implemented by hand (descriptors, well known types).
use crate::{rt, CodedInputStream, CodedOutputStream, Message, MessageField, Result};
use std::collections::HashMap;

pub trait Field {
  fn merge(&mut self, wt: u32, is: &mut CodedInputStream<'_>) -> Result<()>;
  fn size(&self, n: u32) -> u64;
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()>;
}
impl Field for Option<String> {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    *self = Some(is.read_string()?);
    Ok(())
  }
  fn size(&self, n: u32) -> u64 {
    self.as_ref().map_or(0, |s| rt::string_size(n, s))
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    self.as_ref().map_or(Ok(()), |s| os.write_string(n, s))
  }
}
impl Field for Option<i32> {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    *self = Some(is.read_int32()?);
    Ok(())
  }
  fn size(&self, n: u32) -> u64 {
    self.map_or(0, |v| rt::int32_size(n, v))
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    self.map_or(Ok(()), |v| os.write_int32(n, v))
  }
}
impl Field for Option<bool> {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    *self = Some(is.read_bool()?);
    Ok(())
  }
  fn size(&self, n: u32) -> u64 {
    self.map_or(0, |_| rt::tag_size(n) + 1)
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    self.map_or(Ok(()), |v| os.write_bool(n, v))
  }
}
impl<M: Message> Field for MessageField<M> {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    rt::read_singular_message_into_field(is, self)
  }
  fn size(&self, n: u32) -> u64 {
    self.as_ref().map_or(0, |m| {
      let l = m.compute_size();
      rt::tag_size(n) + rt::compute_raw_varint64_size(l) + l
    })
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    self
      .as_ref()
      .map_or(Ok(()), |m| rt::write_message_field_with_cached_size(n, m, os))
  }
}
impl<M: Message> Field for Vec<M> {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    self.push(is.read_message()?);
    Ok(())
  }
  fn size(&self, n: u32) -> u64 {
    self
      .iter()
      .map(|m| {
        let l = m.compute_size();
        rt::tag_size(n) + rt::compute_raw_varint64_size(l) + l
      })
      .sum()
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    for m in self {
      rt::write_message_field_with_cached_size(n, m, os)?;
    }
    Ok(())
  }
}
impl Field for Vec<String> {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    self.push(is.read_string()?);
    Ok(())
  }
  fn size(&self, n: u32) -> u64 {
    self.iter().map(|s| rt::string_size(n, s)).sum()
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    self.iter().try_for_each(|s| os.write_string(n, s))
  }
}
impl Field for i64 {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    *self = is.read_int64()?;
    Ok(())
  }
  fn size(&self, n: u32) -> u64 {
    if *self == 0 { 0 } else { rt::int64_size(n, *self) }
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    if *self == 0 { Ok(()) } else { os.write_int64(n, *self) }
  }
}
impl Field for i32 {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    *self = is.read_int32()?;
    Ok(())
  }
  fn size(&self, n: u32) -> u64 {
    if *self == 0 { 0 } else { rt::int32_size(n, *self) }
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    if *self == 0 { Ok(()) } else { os.write_int32(n, *self) }
  }
}
impl Field for String {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    *self = is.read_string()?;
    Ok(())
  }
  fn size(&self, n: u32) -> u64 {
    if self.is_empty() { 0 } else { rt::string_size(n, self) }
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    if self.is_empty() { Ok(()) } else { os.write_string(n, self) }
  }
}
impl Field for Vec<u8> {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    *self = is.read_bytes()?;
    Ok(())
  }
  fn size(&self, n: u32) -> u64 {
    if self.is_empty() { 0 } else { rt::bytes_size(n, self) }
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    if self.is_empty() { Ok(()) } else { os.write_bytes(n, self) }
  }
}
impl<M: Message> Field for HashMap<String, M> {
  fn merge(&mut self, _: u32, is: &mut CodedInputStream<'_>) -> Result<()> {
    let len = is.read_raw_varint64()?;
    let old = is.push_limit(len)?;
    let (mut k, mut v) = (String::new(), M::new());
    while let Some(tag) = is.read_raw_tag_or_eof()? {
      match tag {
        10 => k = is.read_string()?,
        18 => v = is.read_message()?,
        t => rt::skip_field_for_tag(t, is)?,
      }
    }
    is.pop_limit(old);
    self.insert(k, v);
    Ok(())
  }
  fn size(&self, n: u32) -> u64 {
    self
      .iter()
      .map(|(k, v)| {
        let vl = v.compute_size();
        let l = rt::string_size(1, k) + 1 + rt::compute_raw_varint64_size(vl) + vl;
        rt::tag_size(n) + rt::compute_raw_varint64_size(l) + l
      })
      .sum()
  }
  fn write(&self, n: u32, os: &mut CodedOutputStream<'_>) -> Result<()> {
    for (k, v) in self {
      let vl = v.special_fields().cached_size().get() as u64;
      let l = rt::string_size(1, k) + 1 + rt::compute_raw_varint64_size(vl) + vl;
      os.write_tag(n, 2)?;
      os.write_raw_varint32(l as u32)?;
      os.write_string(1, k)?;
      rt::write_message_field_with_cached_size(2, v, os)?;
    }
    Ok(())
  }
}

macro_rules! mini_message {
  ($name:ident { $($f:ident : $t:ty = $n:expr),* $(,)? }) => {
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct $name {
      $(pub $f: $t,)*
      pub special_fields: crate::SpecialFields,
    }
    impl $name {
      pub fn new() -> Self { Self::default() }
    }
    impl<'a> Default for &'a $name {
      fn default() -> &'a $name { <$name as crate::Message>::default_instance() }
    }
    impl crate::Message for $name {
      const NAME: &'static str = stringify!($name);
      fn new() -> Self { Self::default() }
      fn is_initialized(&self) -> bool { true }
      #[allow(unused_variables)]
      fn merge_from(&mut self, is: &mut crate::CodedInputStream<'_>) -> crate::Result<()> {
        while let Some(tag) = is.read_raw_tag_or_eof()? {
          match tag >> 3 {
            $($n => crate::mini::Field::merge(&mut self.$f, tag & 7, is)?,)*
            _ => crate::rt::read_unknown_or_skip_group(
              tag, is, self.special_fields.mut_unknown_fields())?,
          }
        }
        Ok(())
      }
      fn write_to_with_cached_sizes(&self, os: &mut crate::CodedOutputStream<'_>)
        -> crate::Result<()> {
        $(crate::mini::Field::write(&self.$f, $n, os)?;)*
        os.write_unknown_fields(self.special_fields.unknown_fields())
      }
      fn compute_size(&self) -> u64 {
        #[allow(unused_mut)]
        let mut s = crate::rt::unknown_fields_size(self.special_fields.unknown_fields());
        $(s += crate::mini::Field::size(&self.$f, $n);)*
        self.special_fields.cached_size().set(s as u32);
        s
      }
      fn special_fields(&self) -> &crate::SpecialFields { &self.special_fields }
      fn mut_special_fields(&mut self) -> &mut crate::SpecialFields { &mut self.special_fields }
      fn default_instance() -> &'static Self {
        static I: std::sync::OnceLock<$name> = std::sync::OnceLock::new();
        I.get_or_init($name::default)
      }
    }
  };
}
pub(crate) use mini_message;
