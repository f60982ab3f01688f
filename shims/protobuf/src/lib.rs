//! API-compatible stand-in for the `protobuf` 4.0.0-alpha.0 fork used by shared-core. See
//! /verif/DESIGN.md ("Stand-ins"). Wire format and presence semantics follow the protobuf spec.
#![allow(clippy::all)]

pub mod chars;
pub mod coded;
pub mod descriptor;
pub mod ext;
pub mod message;
mod mini;
pub mod reflect;
pub mod rt;
pub mod special;
pub mod text_format;
pub mod well_known_types;

pub use bytes::Bytes;
pub use chars::Chars;
pub use coded::{CodedInputStream, CodedOutputStream};
pub use message::{
  Enum, EnumFull, EnumOrUnknown, Message, MessageDyn, MessageField, MessageFull, Oneof, OneofFull,
};
pub use special::{CachedSize, SpecialFields, UnknownFields, UnknownValue, UnknownValues};

pub const VERSION_4_0_0_ALPHA_0: () = ();

#[derive(Debug)]
pub enum Error {
  Io(std::io::Error),
  Wire(&'static str),
  Utf8,
}
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    match self {
      Self::Io(e) => write!(f, "{e}"),
      Self::Wire(s) => write!(f, "{s}"),
      Self::Utf8 => write!(f, "invalid utf-8"),
    }
  }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
  fn from(e: std::io::Error) -> Self {
    Self::Io(e)
  }
}
impl From<Error> for std::io::Error {
  fn from(e: Error) -> Self {
    match e {
      Error::Io(e) => e,
      e => Self::new(std::io::ErrorKind::Other, e),
    }
  }
}
pub type Result<T> = std::result::Result<T, Error>;
