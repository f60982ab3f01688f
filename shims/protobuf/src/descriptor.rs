use crate::mini::mini_message;
use crate::reflect::{FileDescriptor, GeneratedFileDescriptor};
use crate::MessageField;

macro_rules! accessors {
  ($t:ident: $($f:ident),*) => {
    impl $t { $(pub fn $f(&self) -> &str { self.$f.as_deref().unwrap_or("") })* }
  };
}

mini_message!(FileDescriptorProto {
  name: Option<String> = 1,
  package: Option<String> = 2,
  dependency: Vec<String> = 3,
  message_type: Vec<DescriptorProto> = 4,
  enum_type: Vec<EnumDescriptorProto> = 5,
  service: Vec<ServiceDescriptorProto> = 6,
  extension: Vec<FieldDescriptorProto> = 7,
  options: MessageField<FileOptions> = 8,
});
accessors!(FileDescriptorProto: name, package);
mini_message!(FileDescriptorSet { file: Vec<FileDescriptorProto> = 1 });
mini_message!(DescriptorProto {
  name: Option<String> = 1,
  field: Vec<FieldDescriptorProto> = 2,
  nested_type: Vec<DescriptorProto> = 3,
  enum_type: Vec<EnumDescriptorProto> = 4,
  options: MessageField<MessageOptions> = 7,
  oneof_decl: Vec<OneofDescriptorProto> = 8,
});
accessors!(DescriptorProto: name);
mini_message!(FieldDescriptorProto {
  name: Option<String> = 1,
  number: Option<i32> = 3,
  label: Option<i32> = 4,
  type_: Option<i32> = 5,
  type_name: Option<String> = 6,
  options: MessageField<FieldOptions> = 8,
  oneof_index: Option<i32> = 9,
  proto3_optional: Option<bool> = 17,
});
accessors!(FieldDescriptorProto: name, type_name);
impl FieldDescriptorProto {
  pub fn number(&self) -> i32 {
    self.number.unwrap_or(0)
  }
}
mini_message!(OneofDescriptorProto {
  name: Option<String> = 1,
  options: MessageField<OneofOptions> = 2,
});
accessors!(OneofDescriptorProto: name);
mini_message!(EnumDescriptorProto {
  name: Option<String> = 1,
  value: Vec<EnumValueDescriptorProto> = 2,
  options: MessageField<EnumOptions> = 3,
});
accessors!(EnumDescriptorProto: name);
mini_message!(EnumValueDescriptorProto {
  name: Option<String> = 1,
  number: Option<i32> = 2,
  options: MessageField<EnumValueOptions> = 3,
});
accessors!(EnumValueDescriptorProto: name);
impl EnumValueDescriptorProto {
  pub fn number(&self) -> i32 {
    self.number.unwrap_or(0)
  }
}
mini_message!(ServiceDescriptorProto {
  name: Option<String> = 1,
  method: Vec<MethodDescriptorProto> = 2,
});
accessors!(ServiceDescriptorProto: name);
mini_message!(MethodDescriptorProto {
  name: Option<String> = 1,
  input_type: Option<String> = 2,
  output_type: Option<String> = 3,
  options: MessageField<MethodOptions> = 4,
  client_streaming: Option<bool> = 5,
  server_streaming: Option<bool> = 6,
});
accessors!(MethodDescriptorProto: name, input_type, output_type);
mini_message!(FileOptions {});
mini_message!(MessageOptions {});
mini_message!(FieldOptions {});
mini_message!(OneofOptions {});
mini_message!(EnumOptions {});
mini_message!(EnumValueOptions {});
mini_message!(ServiceOptions {});
mini_message!(MethodOptions {});

pub mod field_descriptor_proto {
  #[allow(non_camel_case_types)]
  #[derive(Clone, Copy, Debug, PartialEq, Eq)]
  pub enum Type {
    TYPE_DOUBLE = 1,
    TYPE_FLOAT = 2,
    TYPE_INT64 = 3,
    TYPE_UINT64 = 4,
    TYPE_INT32 = 5,
    TYPE_FIXED64 = 6,
    TYPE_FIXED32 = 7,
    TYPE_BOOL = 8,
    TYPE_STRING = 9,
    TYPE_GROUP = 10,
    TYPE_MESSAGE = 11,
    TYPE_BYTES = 12,
    TYPE_UINT32 = 13,
    TYPE_ENUM = 14,
    TYPE_SFIXED32 = 15,
    TYPE_SFIXED64 = 16,
    TYPE_SINT32 = 17,
    TYPE_SINT64 = 18,
  }
}

pub fn file_descriptor() -> &'static FileDescriptor {
  static P: crate::rt::Lazy<FileDescriptorProto> = crate::rt::Lazy::new();
  static G: crate::rt::Lazy<GeneratedFileDescriptor> = crate::rt::Lazy::new();
  static F: crate::rt::Lazy<FileDescriptor> = crate::rt::Lazy::new();
  F.get(|| {
    let p = P.get(|| FileDescriptorProto {
      name: Some("google/protobuf/descriptor.proto".to_string()),
      package: Some("google.protobuf".to_string()),
      ..Default::default()
    });
    FileDescriptor::new_generated_2(
      G.get(|| GeneratedFileDescriptor::new_generated(p, vec![], vec![], vec![])),
    )
  })
}
