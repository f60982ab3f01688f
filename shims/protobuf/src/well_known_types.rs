use crate::descriptor::FileDescriptorSet;

fn set() -> &'static FileDescriptorSet {
  static S: crate::rt::Lazy<FileDescriptorSet> = crate::rt::Lazy::new();
  S.get(|| crate::Message::parse_from_bytes(include_bytes!("wkt.bin")).unwrap())
}

macro_rules! wkt_file {
  ($file:expr, [$($m:ident),*]) => {
    pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor {
      static G: crate::rt::Lazy<crate::reflect::GeneratedFileDescriptor> = crate::rt::Lazy::new();
      static F: crate::rt::Lazy<crate::reflect::FileDescriptor> = crate::rt::Lazy::new();
      F.get(|| {
        let p = super::set().file.iter().find(|f| f.name() == $file).expect($file);
        crate::reflect::FileDescriptor::new_generated_2(G.get(|| {
          crate::reflect::GeneratedFileDescriptor::new_generated(
            p, vec![], vec![$($m::generated_message_descriptor_data()),*], vec![])
        }))
      })
    }
  };
}
macro_rules! wkt_full {
  ($m:ident, [$($acc:expr),*]) => {
    impl $m {
      #[allow(unused_imports)]
      fn generated_message_descriptor_data() -> crate::reflect::GeneratedMessageDescriptorData {
        use crate::reflect::rt::v2::*;
        crate::reflect::GeneratedMessageDescriptorData::new_2::<$m>(
          stringify!($m), vec![$($acc),*], vec![])
      }
    }
    impl crate::MessageFull for $m {
      fn descriptor() -> crate::reflect::MessageDescriptor {
        file_descriptor().message_by_package_relative_name(stringify!($m)).unwrap()
      }
    }
    impl std::fmt::Display for $m {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        crate::text_format::fmt(self, f)
      }
    }
    impl crate::reflect::ProtobufValue for $m {
      type RuntimeType = crate::reflect::rt::RuntimeTypeMessage<Self>;
    }
  };
}

pub mod timestamp {
  crate::mini::mini_message!(Timestamp { seconds: i64 = 1, nanos: i32 = 2 });
  wkt_full!(Timestamp, [
    make_simpler_field_accessor("seconds", |m: &Timestamp| &m.seconds, |m: &mut Timestamp| &mut m.seconds),
    make_simpler_field_accessor("nanos", |m: &Timestamp| &m.nanos, |m: &mut Timestamp| &mut m.nanos)
  ]);
  wkt_file!("google/protobuf/timestamp.proto", [Timestamp]);
}

pub mod duration {
  crate::mini::mini_message!(Duration { seconds: i64 = 1, nanos: i32 = 2 });
  wkt_full!(Duration, [
    make_simpler_field_accessor("seconds", |m: &Duration| &m.seconds, |m: &mut Duration| &mut m.seconds),
    make_simpler_field_accessor("nanos", |m: &Duration| &m.nanos, |m: &mut Duration| &mut m.nanos)
  ]);
  wkt_file!("google/protobuf/duration.proto", [Duration]);

  #[derive(Debug)]
  pub struct NegativeDuration;
  impl std::fmt::Display for NegativeDuration {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
      f.write_str("negative duration")
    }
  }
  impl std::error::Error for NegativeDuration {}
  impl TryFrom<Duration> for std::time::Duration {
    type Error = NegativeDuration;
    fn try_from(d: Duration) -> Result<Self, NegativeDuration> {
      if d.seconds < 0 || d.nanos < 0 {
        return Err(NegativeDuration);
      }
      Ok(Self::from_secs(d.seconds as u64) + Self::from_nanos(d.nanos as u64))
    }
  }
  impl From<std::time::Duration> for Duration {
    fn from(d: std::time::Duration) -> Self {
      Self {
        seconds: d.as_secs() as i64,
        nanos: d.subsec_nanos() as i32,
        ..Default::default()
      }
    }
  }
}

pub mod any {
  crate::mini::mini_message!(Any { type_url: String = 1, value: Vec<u8> = 2 });
  wkt_full!(Any, [
    make_simpler_field_accessor("type_url", |m: &Any| &m.type_url, |m: &mut Any| &mut m.type_url),
    make_simpler_field_accessor("value", |m: &Any| &m.value, |m: &mut Any| &mut m.value)
  ]);
  wkt_file!("google/protobuf/any.proto", [Any]);
}

pub mod struct_ {
  use crate::{CodedInputStream, CodedOutputStream, EnumOrUnknown, MessageField, SpecialFields};
  use std::collections::HashMap;

  #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
  #[allow(non_camel_case_types)]
  pub enum NullValue {
    #[default]
    NULL_VALUE = 0,
  }
  impl crate::Enum for NullValue {
    const NAME: &'static str = "NullValue";
    fn value(&self) -> i32 {
      0
    }
    fn from_i32(v: i32) -> Option<Self> {
      (v == 0).then_some(Self::NULL_VALUE)
    }
    fn from_str(s: &str) -> Option<Self> {
      (s == "NULL_VALUE").then_some(Self::NULL_VALUE)
    }
    const VALUES: &'static [Self] = &[Self::NULL_VALUE];
  }
  impl crate::EnumFull for NullValue {
    fn enum_descriptor() -> crate::reflect::EnumDescriptor {
      file_descriptor().enum_by_package_relative_name("NullValue").unwrap()
    }
    fn descriptor(&self) -> crate::reflect::EnumValueDescriptor {
      Self::enum_descriptor().value_by_index(0)
    }
  }
  crate::mini::mini_message!(Struct { fields: HashMap<String, Value> = 1 });
  crate::mini::mini_message!(ListValue { values: Vec<Value> = 1 });
  wkt_full!(Struct, [
    make_map_simpler_accessor_new("fields", |m: &Struct| &m.fields, |m: &mut Struct| &mut m.fields)
  ]);
  wkt_full!(ListValue, [
    make_vec_simpler_accessor("values", |m: &ListValue| &m.values, |m: &mut ListValue| &mut m.values)
  ]);

  pub mod value {
    #[derive(Clone, Debug, PartialEq)]
    pub enum Kind {
      NullValue(crate::EnumOrUnknown<super::NullValue>),
      NumberValue(f64),
      StringValue(String),
      BoolValue(bool),
      StructValue(super::Struct),
      ListValue(super::ListValue),
    }
  }
  use value::Kind;
  #[derive(Clone, Debug, Default, PartialEq)]
  pub struct Value {
    pub kind: Option<Kind>,
    pub special_fields: SpecialFields,
  }
  impl Value {
    fn m<'a, T: crate::Message>(o: Option<&'a T>) -> &'a T {
      o.unwrap_or_else(|| T::default_instance())
    }
  }
  wkt_full!(Value, [
    make_oneof_enum_accessors::<Value, NullValue>("null_value", |m| match &m.kind { Some(Kind::NullValue(e)) => Some(*e), _ => None }, |_, _: EnumOrUnknown<NullValue>| (), NullValue::NULL_VALUE),
    make_oneof_copy_has_get_set_simpler_accessors::<Value, f64>("number_value", |m| matches!(m.kind, Some(Kind::NumberValue(_))), |m| match m.kind { Some(Kind::NumberValue(v)) => v, _ => 0.0 }, |_, _| ()),
    make_oneof_deref_has_get_set_simpler_accessor::<Value, String>("string_value", |m| matches!(m.kind, Some(Kind::StringValue(_))), |m| match &m.kind { Some(Kind::StringValue(v)) => v, _ => "" }, |_, _| ()),
    make_oneof_copy_has_get_set_simpler_accessors::<Value, bool>("bool_value", |m| matches!(m.kind, Some(Kind::BoolValue(_))), |m| matches!(m.kind, Some(Kind::BoolValue(true))), |_, _| ()),
    make_oneof_message_has_get_mut_set_accessor::<Value, Struct>("struct_value", |m| matches!(m.kind, Some(Kind::StructValue(_))), |m| Value::m(match &m.kind { Some(Kind::StructValue(v)) => Some(v), _ => None }), |_| unimplemented!(), |_, _| ()),
    make_oneof_message_has_get_mut_set_accessor::<Value, ListValue>("list_value", |m| matches!(m.kind, Some(Kind::ListValue(_))), |m| Value::m(match &m.kind { Some(Kind::ListValue(v)) => Some(v), _ => None }), |_| unimplemented!(), |_, _| ())
  ]);
  impl<'a> Default for &'a Value {
    fn default() -> &'a Value {
      <Value as crate::Message>::default_instance()
    }
  }
  impl crate::Message for Value {
    const NAME: &'static str = "Value";
    fn new() -> Self {
      Self::default()
    }
    fn is_initialized(&self) -> bool {
      true
    }
    fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> crate::Result<()> {
      while let Some(tag) = is.read_raw_tag_or_eof()? {
        self.kind = Some(match tag {
          8 => Kind::NullValue(is.read_enum_or_unknown()?),
          17 => Kind::NumberValue(is.read_double()?),
          26 => Kind::StringValue(is.read_string()?),
          32 => Kind::BoolValue(is.read_bool()?),
          42 => Kind::StructValue(is.read_message()?),
          50 => Kind::ListValue(is.read_message()?),
          t => {
            crate::rt::read_unknown_or_skip_group(t, is, self.special_fields.mut_unknown_fields())?;
            continue;
          },
        });
      }
      Ok(())
    }
    fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> crate::Result<()> {
      match &self.kind {
        Some(Kind::NullValue(v)) => os.write_int32(1, v.value())?,
        Some(Kind::NumberValue(v)) => os.write_double(2, *v)?,
        Some(Kind::StringValue(v)) => os.write_string(3, v)?,
        Some(Kind::BoolValue(v)) => os.write_bool(4, *v)?,
        Some(Kind::StructValue(v)) => crate::rt::write_message_field_with_cached_size(5, v, os)?,
        Some(Kind::ListValue(v)) => crate::rt::write_message_field_with_cached_size(6, v, os)?,
        None => (),
      }
      os.write_unknown_fields(self.special_fields.unknown_fields())
    }
    fn compute_size(&self) -> u64 {
      fn ms<M: crate::Message>(m: &M) -> u64 {
        let l = m.compute_size();
        1 + crate::rt::compute_raw_varint64_size(l) + l
      }
      let s = crate::rt::unknown_fields_size(self.special_fields.unknown_fields())
        + match &self.kind {
          Some(Kind::NullValue(v)) => crate::rt::int32_size(1, v.value()),
          Some(Kind::NumberValue(_)) => 9,
          Some(Kind::StringValue(v)) => crate::rt::string_size(3, v),
          Some(Kind::BoolValue(_)) => 2,
          Some(Kind::StructValue(v)) => ms(v),
          Some(Kind::ListValue(v)) => ms(v),
          None => 0,
        };
      self.special_fields.cached_size().set(s as u32);
      s
    }
    fn special_fields(&self) -> &SpecialFields {
      &self.special_fields
    }
    fn mut_special_fields(&mut self) -> &mut SpecialFields {
      &mut self.special_fields
    }
    fn default_instance() -> &'static Self {
      static I: std::sync::OnceLock<Value> = std::sync::OnceLock::new();
      I.get_or_init(Value::default)
    }
  }
  wkt_file!("google/protobuf/struct.proto", [Struct, Value, ListValue]);
  #[allow(unused)]
  type _U = MessageField<Value>;
}
