//! Read-only reflection over generated messages.
use crate::descriptor::{
  DescriptorProto, EnumDescriptorProto, FieldDescriptorProto, FileDescriptorProto,
  MethodDescriptorProto, OneofDescriptorProto, ServiceDescriptorProto,
};
use crate::{
  Bytes, Chars, Enum, EnumFull, EnumOrUnknown, Message, MessageDyn, MessageField, MessageFull,
};
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::marker::PhantomData;
use std::ops::Deref;
use std::sync::Arc;

//
// Values
//

#[derive(Clone)]
pub struct MessageRef<'a>(pub &'a dyn MessageDyn);
impl Deref for MessageRef<'_> {
  type Target = dyn MessageDyn;
  fn deref(&self) -> &dyn MessageDyn {
    self.0
  }
}

#[derive(Clone)]
pub enum ReflectValueRef<'a> {
  U32(u32),
  U64(u64),
  I32(i32),
  I64(i64),
  F32(f32),
  F64(f64),
  Bool(bool),
  String(&'a str),
  Bytes(&'a [u8]),
  Enum(EnumDescriptor, i32),
  Message(MessageRef<'a>),
}
impl Display for ReflectValueRef<'_> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self {
      Self::U32(v) => write!(f, "{v}"),
      Self::U64(v) => write!(f, "{v}"),
      Self::I32(v) => write!(f, "{v}"),
      Self::I64(v) => write!(f, "{v}"),
      Self::F32(v) => write!(f, "{v}"),
      Self::F64(v) => write!(f, "{v}"),
      Self::Bool(v) => write!(f, "{v}"),
      Self::String(v) => write!(f, "{v}"),
      Self::Bytes(v) => write!(f, "{v:?}"),
      Self::Enum(d, v) => match d.value_by_number(*v) {
        Some(x) => write!(f, "{}", x.name()),
        None => write!(f, "{v}"),
      },
      Self::Message(m) => write!(f, "{}", &**m),
    }
  }
}

#[derive(Clone)]
pub enum RuntimeType {
  I32,
  I64,
  U32,
  U64,
  F32,
  F64,
  Bool,
  String,
  VecU8,
  Enum(EnumDescriptor),
  Message(MessageDescriptor),
}
pub enum RuntimeFieldType {
  Singular(RuntimeType),
  Repeated(RuntimeType),
  Map(RuntimeType, RuntimeType),
}

pub trait ProtobufValue: Clone + Debug + Send + Sync + Sized + 'static {
  type RuntimeType: rt::RuntimeTypeTrait<Value = Self>;
}

macro_rules! scalar {
  ($t:ty, $rt:ident, $variant:ident) => {
    impl ProtobufValue for $t {
      type RuntimeType = rt::$rt;
    }
    impl rt::RuntimeTypeTrait for rt::$rt {
      type Value = $t;
      fn runtime_type() -> RuntimeType {
        RuntimeType::$variant
      }
      fn as_ref(v: &$t) -> ReflectValueRef<'_> {
        ReflectValueRef::$variant(*v)
      }
      fn is_non_zero(v: &$t) -> bool {
        *v != <$t>::default()
      }
      fn default_ref() -> ReflectValueRef<'static> {
        ReflectValueRef::$variant(<$t>::default())
      }
    }
  };
}
scalar!(i32, RtI32, I32);
scalar!(i64, RtI64, I64);
scalar!(u32, RtU32, U32);
scalar!(u64, RtU64, U64);
scalar!(f32, RtF32, F32);
scalar!(f64, RtF64, F64);
scalar!(bool, RtBool, Bool);

macro_rules! dereffed {
  ($t:ty, $rt:ident, $rtype:ident, $variant:ident, $d:ty, $empty:expr) => {
    impl ProtobufValue for $t {
      type RuntimeType = rt::$rt;
    }
    impl rt::RuntimeTypeTrait for rt::$rt {
      type Value = $t;
      fn runtime_type() -> RuntimeType {
        RuntimeType::$rtype
      }
      fn as_ref(v: &$t) -> ReflectValueRef<'_> {
        ReflectValueRef::$variant(v)
      }
      fn is_non_zero(v: &$t) -> bool {
        !v.is_empty()
      }
      fn default_ref() -> ReflectValueRef<'static> {
        ReflectValueRef::$variant($empty)
      }
    }
    impl rt::RuntimeTypeWithDeref for rt::$rt {
      type DerefTarget = $d;
      fn deref_as_ref(v: &$d) -> ReflectValueRef<'_> {
        ReflectValueRef::$variant(v)
      }
    }
  };
}
dereffed!(String, RtString, String, String, str, "");
dereffed!(Chars, RtChars, String, String, str, "");
dereffed!(Vec<u8>, RtVecU8, VecU8, Bytes, [u8], &[]);
dereffed!(Bytes, RtBytes, VecU8, Bytes, [u8], &[]);

impl<E: EnumFull> ProtobufValue for EnumOrUnknown<E> {
  type RuntimeType = rt::RtEnumOrUnknown<E>;
}
impl<E: EnumFull> rt::RuntimeTypeTrait for rt::RtEnumOrUnknown<E> {
  type Value = EnumOrUnknown<E>;
  fn runtime_type() -> RuntimeType {
    RuntimeType::Enum(E::enum_descriptor())
  }
  fn as_ref(v: &EnumOrUnknown<E>) -> ReflectValueRef<'_> {
    ReflectValueRef::Enum(E::enum_descriptor(), v.value())
  }
  fn is_non_zero(v: &EnumOrUnknown<E>) -> bool {
    v.value() != 0
  }
  fn default_ref() -> ReflectValueRef<'static> {
    ReflectValueRef::Enum(E::enum_descriptor(), E::default().value())
  }
}
impl<M: MessageFull> rt::RuntimeTypeTrait for rt::RuntimeTypeMessage<M> {
  type Value = M;
  fn runtime_type() -> RuntimeType {
    RuntimeType::Message(M::descriptor())
  }
  fn as_ref(v: &M) -> ReflectValueRef<'_> {
    ReflectValueRef::Message(MessageRef(v))
  }
  fn is_non_zero(_: &M) -> bool {
    true
  }
  fn default_ref() -> ReflectValueRef<'static> {
    ReflectValueRef::Message(MessageRef(M::default_instance()))
  }
}

pub trait ReflectMap {
  fn entries(&self) -> Vec<(ReflectValueRef<'_>, ReflectValueRef<'_>)>;
  fn types() -> RuntimeFieldType;
}
impl<K: ProtobufValue + Eq + Hash, V: ProtobufValue> ReflectMap for HashMap<K, V> {
  fn entries(&self) -> Vec<(ReflectValueRef<'_>, ReflectValueRef<'_>)> {
    use rt::RuntimeTypeTrait;
    self
      .iter()
      .map(|(k, v)| (K::RuntimeType::as_ref(k), V::RuntimeType::as_ref(v)))
      .collect()
  }
  fn types() -> RuntimeFieldType {
    use rt::RuntimeTypeTrait;
    RuntimeFieldType::Map(K::RuntimeType::runtime_type(), V::RuntimeType::runtime_type())
  }
}

//
// Field references
//

pub struct ReflectOptionalRef<'a>(Option<ReflectValueRef<'a>>);
impl<'a> ReflectOptionalRef<'a> {
  pub fn value(&self) -> Option<ReflectValueRef<'a>> {
    self.0.clone()
  }
}
pub struct ReflectRepeatedRef<'a>(Vec<ReflectValueRef<'a>>);
impl<'a> ReflectRepeatedRef<'a> {
  pub fn len(&self) -> usize {
    self.0.len()
  }
  pub fn is_empty(&self) -> bool {
    self.0.is_empty()
  }
}
impl<'a> IntoIterator for ReflectRepeatedRef<'a> {
  type Item = ReflectValueRef<'a>;
  type IntoIter = std::vec::IntoIter<ReflectValueRef<'a>>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.into_iter()
  }
}
pub struct ReflectMapRef<'a>(Vec<(ReflectValueRef<'a>, ReflectValueRef<'a>)>);
impl<'a> ReflectMapRef<'a> {
  pub fn len(&self) -> usize {
    self.0.len()
  }
  pub fn is_empty(&self) -> bool {
    self.0.is_empty()
  }
}
impl<'a> IntoIterator for ReflectMapRef<'a> {
  type Item = (ReflectValueRef<'a>, ReflectValueRef<'a>);
  type IntoIter = std::vec::IntoIter<(ReflectValueRef<'a>, ReflectValueRef<'a>)>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.into_iter()
  }
}
impl<'a> IntoIterator for &ReflectMapRef<'a> {
  type Item = (ReflectValueRef<'a>, ReflectValueRef<'a>);
  type IntoIter = std::vec::IntoIter<(ReflectValueRef<'a>, ReflectValueRef<'a>)>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.clone().into_iter()
  }
}
pub enum ReflectFieldRef<'a> {
  Optional(ReflectOptionalRef<'a>),
  Repeated(ReflectRepeatedRef<'a>),
  Map(ReflectMapRef<'a>),
}

type GetFn = Box<dyn for<'a> Fn(&'a dyn MessageDyn) -> ReflectFieldRef<'a> + Send + Sync>;

pub struct FieldAccessor {
  name: &'static str,
  get: GetFn,
  field_type: Box<dyn Fn() -> RuntimeFieldType + Send + Sync>,
  default: Option<Box<dyn Fn() -> ReflectValueRef<'static> + Send + Sync>>,
}

fn cast<M: MessageFull>(m: &dyn MessageDyn) -> &M {
  m.downcast_ref::<M>().expect("wrong message type")
}
fn singular<V: ProtobufValue>() -> RuntimeFieldType {
  use rt::RuntimeTypeTrait;
  RuntimeFieldType::Singular(V::RuntimeType::runtime_type())
}
fn repeated<V: ProtobufValue>() -> RuntimeFieldType {
  use rt::RuntimeTypeTrait;
  RuntimeFieldType::Repeated(V::RuntimeType::runtime_type())
}

pub mod rt {
  use super::*;

  pub trait RuntimeTypeTrait: 'static {
    type Value;
    fn runtime_type() -> RuntimeType;
    fn as_ref(v: &Self::Value) -> ReflectValueRef<'_>;
    fn is_non_zero(v: &Self::Value) -> bool;
    fn default_ref() -> ReflectValueRef<'static>;
  }
  pub trait RuntimeTypeWithDeref: RuntimeTypeTrait {
    type DerefTarget: ?Sized;
    fn deref_as_ref(v: &Self::DerefTarget) -> ReflectValueRef<'_>;
  }
  pub struct RtI32;
  pub struct RtI64;
  pub struct RtU32;
  pub struct RtU64;
  pub struct RtF32;
  pub struct RtF64;
  pub struct RtBool;
  pub struct RtString;
  pub struct RtChars;
  pub struct RtVecU8;
  pub struct RtBytes;
  pub struct RtEnumOrUnknown<E>(PhantomData<E>);
  pub struct RuntimeTypeMessage<M>(PhantomData<M>);

  pub mod v2 {
    use super::*;

    fn acc<V: ProtobufValue>(name: &'static str, get: GetFn) -> FieldAccessor {
      FieldAccessor {
        name,
        get,
        field_type: Box::new(singular::<V>),
        default: Some(Box::new(V::RuntimeType::default_ref)),
      }
    }
    fn opt(v: Option<ReflectValueRef<'_>>) -> ReflectFieldRef<'_> {
      ReflectFieldRef::Optional(ReflectOptionalRef(v))
    }

    pub fn make_option_accessor<M: MessageFull, V: ProtobufValue>(
      name: &'static str,
      get: for<'a> fn(&'a M) -> &'a Option<V>,
      _m: for<'a> fn(&'a mut M) -> &'a mut Option<V>,
    ) -> FieldAccessor {
      acc::<V>(
        name,
        Box::new(move |m| opt(get(cast::<M>(m)).as_ref().map(V::RuntimeType::as_ref))),
      )
    }
    pub fn make_simpler_field_accessor<M: MessageFull, V: ProtobufValue>(
      name: &'static str,
      get: for<'a> fn(&'a M) -> &'a V,
      _m: for<'a> fn(&'a mut M) -> &'a mut V,
    ) -> FieldAccessor {
      acc::<V>(
        name,
        Box::new(move |m| {
          let v = get(cast::<M>(m));
          opt(V::RuntimeType::is_non_zero(v).then(|| V::RuntimeType::as_ref(v)))
        }),
      )
    }
    pub fn make_vec_simpler_accessor<M: MessageFull, V: ProtobufValue>(
      name: &'static str,
      get: for<'a> fn(&'a M) -> &'a Vec<V>,
      _m: for<'a> fn(&'a mut M) -> &'a mut Vec<V>,
    ) -> FieldAccessor {
      FieldAccessor {
        name,
        get: Box::new(move |m| {
          ReflectFieldRef::Repeated(ReflectRepeatedRef(
            get(cast::<M>(m)).iter().map(V::RuntimeType::as_ref).collect(),
          ))
        }),
        field_type: Box::new(repeated::<V>),
        default: None,
      }
    }
    pub fn make_map_simpler_accessor_new<M: MessageFull, T: ReflectMap + 'static>(
      name: &'static str,
      get: for<'a> fn(&'a M) -> &'a T,
      _m: for<'a> fn(&'a mut M) -> &'a mut T,
    ) -> FieldAccessor {
      FieldAccessor {
        name,
        get: Box::new(move |m| ReflectFieldRef::Map(ReflectMapRef(get(cast::<M>(m)).entries()))),
        field_type: Box::new(T::types),
        default: None,
      }
    }
    pub fn make_message_field_accessor<M: MessageFull, V: MessageFull>(
      name: &'static str,
      get: for<'a> fn(&'a M) -> &'a MessageField<V>,
      _m: for<'a> fn(&'a mut M) -> &'a mut MessageField<V>,
    ) -> FieldAccessor {
      acc::<V>(
        name,
        Box::new(move |m| {
          opt(
            get(cast::<M>(m))
              .as_ref()
              .map(|v| ReflectValueRef::Message(MessageRef(v))),
          )
        }),
      )
    }
    pub fn make_oneof_message_has_get_mut_set_accessor<M: MessageFull, F: MessageFull>(
      name: &'static str,
      has: for<'a> fn(&'a M) -> bool,
      get: for<'a> fn(&'a M) -> &'a F,
      _mutate: for<'a> fn(&'a mut M) -> &'a mut F,
      _set: fn(&mut M, F),
    ) -> FieldAccessor {
      acc::<F>(
        name,
        Box::new(move |m| {
          let m = cast::<M>(m);
          opt(has(m).then(|| ReflectValueRef::Message(MessageRef(get(m)))))
        }),
      )
    }
    pub trait Copied: ProtobufValue {
      fn copied(self) -> ReflectValueRef<'static>;
    }
    macro_rules! copied {
      ($($t:ty => $v:ident),*) => {
        $(impl Copied for $t {
          fn copied(self) -> ReflectValueRef<'static> { ReflectValueRef::$v(self) }
        })*
      };
    }
    copied!(i32 => I32, i64 => I64, u32 => U32, u64 => U64, f32 => F32, f64 => F64, bool => Bool);
    pub fn make_oneof_copy_has_get_set_simpler_accessors<M: MessageFull, V: Copied>(
      name: &'static str,
      has: for<'a> fn(&'a M) -> bool,
      get: for<'a> fn(&'a M) -> V,
      _set: fn(&mut M, V),
    ) -> FieldAccessor {
      acc::<V>(
        name,
        Box::new(move |m| {
          let m = cast::<M>(m);
          opt(has(m).then(|| get(m).copied()))
        }),
      )
    }
    pub fn make_oneof_deref_has_get_set_simpler_accessor<M: MessageFull, F: ProtobufValue>(
      name: &'static str,
      has: for<'a> fn(&'a M) -> bool,
      get: for<'a> fn(
        &'a M,
      )
        -> &'a <<F as ProtobufValue>::RuntimeType as RuntimeTypeWithDeref>::DerefTarget,
      _set: fn(&mut M, F),
    ) -> FieldAccessor
    where
      F::RuntimeType: RuntimeTypeWithDeref,
    {
      acc::<F>(
        name,
        Box::new(move |m| {
          let m = cast::<M>(m);
          opt(has(m).then(|| F::RuntimeType::deref_as_ref(get(m))))
        }),
      )
    }
    pub fn make_oneof_enum_accessors<M: MessageFull, E: EnumFull>(
      name: &'static str,
      get: for<'a> fn(&'a M) -> Option<EnumOrUnknown<E>>,
      _set: fn(&mut M, EnumOrUnknown<E>),
      _default: E,
    ) -> FieldAccessor {
      acc::<EnumOrUnknown<E>>(
        name,
        Box::new(move |m| {
          opt(
            get(cast::<M>(m)).map(|v| ReflectValueRef::Enum(E::enum_descriptor(), v.value())),
          )
        }),
      )
    }
  }
}

//
// Descriptors
//

pub struct GeneratedMessageDescriptorData {
  name: &'static str,
  fields: Vec<FieldAccessor>,
}
impl GeneratedMessageDescriptorData {
  pub fn new_2<M: MessageFull>(
    name: &'static str,
    fields: Vec<FieldAccessor>,
    _oneofs: Vec<GeneratedOneofDescriptorData>,
  ) -> Self {
    Self { name, fields }
  }
}
pub struct GeneratedOneofDescriptorData;
impl GeneratedOneofDescriptorData {
  pub fn new<O>(_name: &'static str) -> Self {
    Self
  }
}
pub struct GeneratedEnumDescriptorData;
impl GeneratedEnumDescriptorData {
  pub fn new<E>(_name: &'static str) -> Self {
    Self
  }
}

struct FieldInner {
  proto: FieldDescriptorProto,
  full_name: String,
  accessor: Option<FieldAccessor>,
}
struct MessageInner {
  relative_name: String,
  full_name: String,
  proto: DescriptorProto,
  fields: Vec<FieldInner>,
}
struct EnumInner {
  relative_name: String,
  full_name: String,
  proto: EnumDescriptorProto,
}
struct FileInner {
  proto: Arc<FileDescriptorProto>,
  deps: Vec<FileDescriptor>,
  messages: Vec<MessageInner>,
  enums: Vec<EnumInner>,
}
pub struct GeneratedFileDescriptor(Arc<FileInner>);
impl GeneratedFileDescriptor {
  pub fn new_generated(
    proto: &'static FileDescriptorProto,
    deps: Vec<FileDescriptor>,
    messages: Vec<GeneratedMessageDescriptorData>,
    _enums: Vec<GeneratedEnumDescriptorData>,
  ) -> Self {
    let mut accessors: HashMap<&'static str, Vec<FieldAccessor>> =
      messages.into_iter().map(|m| (m.name, m.fields)).collect();
    let pkg = if proto.package().is_empty() {
      String::new()
    } else {
      format!("{}.", proto.package())
    };
    let mut out = FileInner {
      proto: Arc::new(proto.clone()),
      deps,
      messages: vec![],
      enums: vec![],
    };
    fn add_enum(out: &mut FileInner, pkg: &str, prefix: &str, e: &EnumDescriptorProto) {
      let relative_name = format!("{prefix}{}", e.name());
      out.enums.push(EnumInner {
        full_name: format!("{pkg}{relative_name}"),
        relative_name,
        proto: e.clone(),
      });
    }
    fn add(
      out: &mut FileInner,
      accessors: &mut HashMap<&'static str, Vec<FieldAccessor>>,
      pkg: &str,
      prefix: &str,
      m: &DescriptorProto,
    ) {
      let relative_name = format!("{prefix}{}", m.name());
      let full_name = format!("{pkg}{relative_name}");
      let mut acc: HashMap<&'static str, FieldAccessor> = accessors
        .remove(relative_name.as_str())
        .unwrap_or_default()
        .into_iter()
        .map(|a| (a.name, a))
        .collect();
      let nested = format!("{relative_name}.");
      out.messages.push(MessageInner {
        fields: m
          .field
          .iter()
          .map(|f| FieldInner {
            proto: f.clone(),
            full_name: format!("{full_name}.{}", f.name()),
            accessor: acc.remove(f.name()),
          })
          .collect(),
        relative_name,
        full_name,
        proto: m.clone(),
      });
      for e in &m.enum_type {
        add_enum(out, pkg, &nested, e);
      }
      for n in &m.nested_type {
        add(out, accessors, pkg, &nested, n);
      }
    }
    for m in &proto.message_type {
      add(&mut out, &mut accessors, &pkg, "", m);
    }
    for e in &proto.enum_type {
      add_enum(&mut out, &pkg, "", e);
    }
    Self(Arc::new(out))
  }
}

#[derive(Clone)]
pub struct FileDescriptor(Arc<FileInner>);
impl FileDescriptor {
  pub fn new_generated_2(g: &'static GeneratedFileDescriptor) -> Self {
    Self(g.0.clone())
  }
  pub fn proto(&self) -> &FileDescriptorProto {
    &self.0.proto
  }
  pub fn name(&self) -> &str {
    self.0.proto.name()
  }
  pub fn package(&self) -> &str {
    self.0.proto.package()
  }
  pub fn deps(&self) -> &[FileDescriptor] {
    &self.0.deps
  }
  pub fn messages(&self) -> impl Iterator<Item = MessageDescriptor> + '_ {
    (0 .. self.0.messages.len()).map(|i| MessageDescriptor {
      file: self.clone(),
      index: i,
    })
  }
  pub fn message_by_package_relative_name(&self, name: &str) -> Option<MessageDescriptor> {
    let index = self.0.messages.iter().position(|m| m.relative_name == name)?;
    Some(MessageDescriptor {
      file: self.clone(),
      index,
    })
  }
  pub fn message_by_full_name(&self, name: &str) -> Option<MessageDescriptor> {
    let name = name.strip_prefix('.').unwrap_or(name);
    self
      .0
      .messages
      .iter()
      .position(|m| m.full_name == name)
      .map(|index| MessageDescriptor {
        file: self.clone(),
        index,
      })
      .or_else(|| self.0.deps.iter().find_map(|d| d.message_by_full_name(name)))
  }
  pub fn enum_by_package_relative_name(&self, name: &str) -> Option<EnumDescriptor> {
    let index = self.0.enums.iter().position(|m| m.relative_name == name)?;
    Some(EnumDescriptor {
      file: self.clone(),
      index,
    })
  }
  pub fn services(&self) -> impl Iterator<Item = ServiceDescriptor> + '_ {
    (0 .. self.0.proto.service.len()).map(|i| ServiceDescriptor {
      file: self.clone(),
      index: i,
    })
  }
}

#[derive(Clone)]
pub struct ServiceDescriptor {
  file: FileDescriptor,
  index: usize,
}
impl ServiceDescriptor {
  pub fn proto(&self) -> &ServiceDescriptorProto {
    &self.file.0.proto.service[self.index]
  }
  pub fn methods(&self) -> impl Iterator<Item = MethodDescriptor> + '_ {
    (0 .. self.proto().method.len()).map(|i| MethodDescriptor {
      service: self.clone(),
      index: i,
    })
  }
}
#[derive(Clone)]
pub struct MethodDescriptor {
  service: ServiceDescriptor,
  index: usize,
}
impl MethodDescriptor {
  pub fn proto(&self) -> &MethodDescriptorProto {
    &self.service.proto().method[self.index]
  }
  pub fn input_type(&self) -> MessageDescriptor {
    self
      .service
      .file
      .message_by_full_name(self.proto().input_type())
      .expect("unknown input type")
  }
  pub fn output_type(&self) -> MessageDescriptor {
    self
      .service
      .file
      .message_by_full_name(self.proto().output_type())
      .expect("unknown output type")
  }
}

#[derive(Clone)]
pub struct MessageDescriptor {
  file: FileDescriptor,
  index: usize,
}
impl MessageDescriptor {
  fn inner(&self) -> &MessageInner {
    &self.file.0.messages[self.index]
  }
  pub fn file_descriptor(&self) -> &FileDescriptor {
    &self.file
  }
  pub fn full_name(&self) -> &str {
    &self.inner().full_name
  }
  pub fn name(&self) -> &str {
    self.inner().proto.name()
  }
  pub fn proto(&self) -> &DescriptorProto {
    &self.inner().proto
  }
  pub fn fields(&self) -> impl Iterator<Item = FieldDescriptor> {
    let m = self.clone();
    (0 .. self.inner().fields.len()).map(move |i| FieldDescriptor {
      message: m.clone(),
      index: i,
    })
  }
  pub fn field_by_name(&self, name: &str) -> Option<FieldDescriptor> {
    self.fields().find(|f| f.name() == name)
  }
  pub fn oneofs(&self) -> impl Iterator<Item = OneofDescriptor> {
    let m = self.clone();
    (0 .. self.inner().proto.oneof_decl.len()).map(move |i| OneofDescriptor {
      message: m.clone(),
      index: i,
    })
  }
  pub fn oneof_by_name(&self, name: &str) -> Option<OneofDescriptor> {
    self.oneofs().find(|o| o.name() == name)
  }
}
impl PartialEq for MessageDescriptor {
  fn eq(&self, o: &Self) -> bool {
    self.full_name() == o.full_name()
  }
}
impl Debug for MessageDescriptor {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.write_str(self.full_name())
  }
}

#[derive(Clone)]
pub struct FieldDescriptor {
  message: MessageDescriptor,
  index: usize,
}
impl FieldDescriptor {
  fn inner(&self) -> &FieldInner {
    &self.message.inner().fields[self.index]
  }
  fn accessor(&self) -> &FieldAccessor {
    self
      .inner()
      .accessor
      .as_ref()
      .unwrap_or_else(|| panic!("no accessor for {}", self.inner().full_name))
  }
  pub fn proto(&self) -> &FieldDescriptorProto {
    &self.inner().proto
  }
  pub fn name(&self) -> &str {
    self.proto().name()
  }
  pub fn full_name(&self) -> String {
    self.inner().full_name.clone()
  }
  pub fn number(&self) -> i32 {
    self.proto().number()
  }
  pub fn containing_message(&self) -> MessageDescriptor {
    self.message.clone()
  }
  pub fn containing_oneof_including_synthetic(&self) -> Option<OneofDescriptor> {
    let index = usize::try_from(self.proto().oneof_index?).ok()?;
    Some(OneofDescriptor {
      message: self.message.clone(),
      index,
    })
  }
  pub fn runtime_field_type(&self) -> RuntimeFieldType {
    (self.accessor().field_type)()
  }
  pub fn get_reflect<'a>(&self, m: &'a dyn MessageDyn) -> ReflectFieldRef<'a> {
    (self.accessor().get)(m)
  }
  pub fn get_singular<'a>(&self, m: &'a dyn MessageDyn) -> Option<ReflectValueRef<'a>> {
    match self.get_reflect(m) {
      ReflectFieldRef::Optional(o) => o.value(),
      _ => panic!("not a singular field"),
    }
  }
  pub fn get_singular_field_or_default<'a>(&self, m: &'a dyn MessageDyn) -> ReflectValueRef<'a> {
    self
      .get_singular(m)
      .unwrap_or_else(|| (self.accessor().default.as_ref().expect("not a singular field"))())
  }
  pub fn get_repeated<'a>(&self, m: &'a dyn MessageDyn) -> ReflectRepeatedRef<'a> {
    match self.get_reflect(m) {
      ReflectFieldRef::Repeated(r) => r,
      _ => panic!("not a repeated field"),
    }
  }
  pub fn get_map<'a>(&self, m: &'a dyn MessageDyn) -> ReflectMapRef<'a> {
    match self.get_reflect(m) {
      ReflectFieldRef::Map(r) => r,
      _ => panic!("not a map field"),
    }
  }
  pub fn has_field(&self, m: &dyn MessageDyn) -> bool {
    match self.get_reflect(m) {
      ReflectFieldRef::Optional(o) => o.value().is_some(),
      ReflectFieldRef::Repeated(r) => !r.is_empty(),
      ReflectFieldRef::Map(r) => !r.is_empty(),
    }
  }
}

#[derive(Clone)]
pub struct OneofDescriptor {
  message: MessageDescriptor,
  index: usize,
}
impl OneofDescriptor {
  pub fn proto(&self) -> &OneofDescriptorProto {
    &self.message.inner().proto.oneof_decl[self.index]
  }
  pub fn name(&self) -> &str {
    self.proto().name()
  }
  pub fn full_name(&self) -> String {
    format!("{}.{}", self.message.full_name(), self.name())
  }
  pub fn fields(&self) -> impl Iterator<Item = FieldDescriptor> {
    let i = i32::try_from(self.index).unwrap();
    self
      .message
      .fields()
      .filter(move |f| f.proto().oneof_index == Some(i))
  }
}

#[derive(Clone)]
pub struct EnumDescriptor {
  file: FileDescriptor,
  index: usize,
}
impl EnumDescriptor {
  fn inner(&self) -> &EnumInner {
    &self.file.0.enums[self.index]
  }
  pub fn name(&self) -> &str {
    self.inner().proto.name()
  }
  pub fn full_name(&self) -> &str {
    &self.inner().full_name
  }
  pub fn value_by_number(&self, n: i32) -> Option<EnumValueDescriptor> {
    let index = self.inner().proto.value.iter().position(|v| v.number() == n)?;
    Some(self.value_by_index(index))
  }
  pub fn value_by_index(&self, index: usize) -> EnumValueDescriptor {
    assert!(index < self.inner().proto.value.len());
    EnumValueDescriptor {
      e: self.clone(),
      index,
    }
  }
}
#[derive(Clone)]
pub struct EnumValueDescriptor {
  e: EnumDescriptor,
  index: usize,
}
impl EnumValueDescriptor {
  pub fn name(&self) -> &str {
    self.e.inner().proto.value[self.index].name()
  }
  pub fn value(&self) -> i32 {
    self.e.inner().proto.value[self.index].number()
  }
}
#[allow(unused)]
fn _u<E: Enum, M: Message>() {}

/// Messages of schemas put together at run time.
pub mod dynamic {
  use super::*;
  use std::collections::BTreeMap;

  #[derive(Debug)]
  pub enum DynValue {
    U32(u32),
    U64(u64),
    I32(i32),
    I64(i64),
    F32(f32),
    F64(f64),
    Bool(bool),
    String(String),
    Bytes(Vec<u8>),
    Enum(i32),
    Message(Box<dyn MessageDyn>),
  }
  #[derive(Debug)]
  pub struct DynMessage {
    pub descriptor: MessageDescriptor,
    pub fields: BTreeMap<i32, Vec<DynValue>>,
  }
  impl std::fmt::Display for DynMessage {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
      write!(f, "{:?}", self.fields)
    }
  }
  impl MessageDyn for DynMessage {
    fn descriptor_dyn(&self) -> MessageDescriptor {
      self.descriptor.clone()
    }
    fn as_any(&self) -> &dyn std::any::Any {
      self
    }
    fn write_to_bytes_dyn(&self) -> crate::Result<Vec<u8>> {
      unimplemented!("dynamic messages are not written")
    }
    fn compute_size_dyn(&self) -> u64 {
      unimplemented!("dynamic messages are not written")
    }
  }

  fn value<'a>(v: &'a DynValue, e: Option<&EnumDescriptor>) -> ReflectValueRef<'a> {
    match v {
      DynValue::U32(v) => ReflectValueRef::U32(*v),
      DynValue::U64(v) => ReflectValueRef::U64(*v),
      DynValue::I32(v) => ReflectValueRef::I32(*v),
      DynValue::I64(v) => ReflectValueRef::I64(*v),
      DynValue::F32(v) => ReflectValueRef::F32(*v),
      DynValue::F64(v) => ReflectValueRef::F64(*v),
      DynValue::Bool(v) => ReflectValueRef::Bool(*v),
      DynValue::String(v) => ReflectValueRef::String(v),
      DynValue::Bytes(v) => ReflectValueRef::Bytes(v),
      DynValue::Enum(v) => ReflectValueRef::Enum(e.unwrap().clone(), *v),
      DynValue::Message(m) => ReflectValueRef::Message(MessageRef(&**m)),
    }
  }

  /// The messages are flat: nested types and maps are not supported.
  pub fn file(proto: FileDescriptorProto, deps: Vec<FileDescriptor>) -> FileDescriptor {
    let pkg = format!("{}.", proto.package());
    let enums: Vec<EnumInner> = proto
      .enum_type
      .iter()
      .map(|e| EnumInner { relative_name: e.name().into(), full_name: format!("{pkg}{}", e.name()), proto: e.clone() })
      .collect();
    // A file of its own for the enums keeps the descriptors free of cycles.
    let types = FileDescriptor(Arc::new(FileInner {
      proto: Arc::new(FileDescriptorProto { name: Some(format!("{}.enums", proto.name())), package: proto.package.clone(), ..Default::default() }),
      deps: deps.clone(),
      messages: vec![],
      enums,
    }));
    let messages = proto
      .message_type
      .iter()
      .map(|m| {
        let full_name = format!("{pkg}{}", m.name());
        let fields = m
          .field
          .iter()
          .map(|f| {
            let number = f.number();
            let ty = f.type_.unwrap_or(0);
            let repeated = f.label == Some(3);
            let e = types
              .0
              .enums
              .iter()
              .position(|e| f.type_name() == format!(".{}", e.full_name))
              .map(|index| EnumDescriptor { file: types.clone(), index });
            let presence = f.oneof_index.is_some() || ty == 11;
            let get_e = e.clone();
            let get: GetFn = Box::new(move |m| {
              let m = m.as_any().downcast_ref::<DynMessage>().expect("wrong message type");
              let vals = m.fields.get(&number);
              if repeated {
                return ReflectFieldRef::Repeated(ReflectRepeatedRef(
                  vals.into_iter().flatten().map(|v| value(v, get_e.as_ref())).collect(),
                ));
              }
              let v = vals.and_then(|v| v.last());
              let zero = |v: &DynValue| match v {
                DynValue::U32(v) => *v == 0,
                DynValue::U64(v) => *v == 0,
                DynValue::I32(v) | DynValue::Enum(v) => *v == 0,
                DynValue::I64(v) => *v == 0,
                DynValue::F32(v) => *v == 0.0,
                DynValue::F64(v) => *v == 0.0,
                DynValue::Bool(v) => !*v,
                DynValue::String(v) => v.is_empty(),
                DynValue::Bytes(v) => v.is_empty(),
                DynValue::Message(_) => false,
              };
              ReflectFieldRef::Optional(ReflectOptionalRef(
                v.filter(|v| presence || !zero(v)).map(|v| value(v, get_e.as_ref())),
              ))
            });
            let type_e = e.clone();
            let any = deps.first().map(|d| MessageDescriptor { file: d.clone(), index: 0 });
            let field_type = Box::new(move || {
              let t = match ty {
                1 => RuntimeType::F64,
                2 => RuntimeType::F32,
                3 | 16 | 18 => RuntimeType::I64,
                4 | 6 => RuntimeType::U64,
                5 | 15 | 17 => RuntimeType::I32,
                7 | 13 => RuntimeType::U32,
                8 => RuntimeType::Bool,
                9 => RuntimeType::String,
                11 => RuntimeType::Message(any.clone().expect("a message type")),
                12 => RuntimeType::VecU8,
                _ => RuntimeType::Enum(type_e.clone().expect("an enum type")),
              };
              if repeated { RuntimeFieldType::Repeated(t) } else { RuntimeFieldType::Singular(t) }
            });
            let default: Option<Box<dyn Fn() -> ReflectValueRef<'static> + Send + Sync>> =
              if repeated || ty == 11 {
                None
              } else {
                Some(Box::new(move || match ty {
                  1 => ReflectValueRef::F64(0.0),
                  2 => ReflectValueRef::F32(0.0),
                  3 | 16 | 18 => ReflectValueRef::I64(0),
                  4 | 6 => ReflectValueRef::U64(0),
                  5 | 15 | 17 => ReflectValueRef::I32(0),
                  7 | 13 => ReflectValueRef::U32(0),
                  8 => ReflectValueRef::Bool(false),
                  9 => ReflectValueRef::String(""),
                  12 => ReflectValueRef::Bytes(&[]),
                  _ => ReflectValueRef::Enum(e.clone().expect("an enum type"), 0),
                }))
              };
            FieldInner {
              proto: f.clone(),
              full_name: format!("{full_name}.{}", f.name()),
              accessor: Some(FieldAccessor { name: "", get, field_type, default }),
            }
          })
          .collect();
        MessageInner { relative_name: m.name().into(), full_name, proto: m.clone(), fields }
      })
      .collect();
    FileDescriptor(Arc::new(FileInner { proto: Arc::new(proto), deps, messages, enums: vec![] }))
  }
}
