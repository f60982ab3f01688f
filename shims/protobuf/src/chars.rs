use bytes::Bytes;
use std::ops::Deref;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Chars(Bytes);

impl Chars {
  pub const fn new() -> Self {
    Self(Bytes::new())
  }
  pub fn from_bytes(b: Bytes) -> Result<Self, std::str::Utf8Error> {
    std::str::from_utf8(&b)?;
    Ok(Self(b))
  }
  pub fn clear(&mut self) {
    self.0 = Bytes::new();
  }
  pub fn as_str(&self) -> &str {
    self
  }
  pub fn len(&self) -> usize {
    self.0.len()
  }
  pub fn is_empty(&self) -> bool {
    self.0.is_empty()
  }
}
impl Default for Chars {
  fn default() -> Self {
    Self::new()
  }
}
impl Deref for Chars {
  type Target = str;
  fn deref(&self) -> &str {
    // Checked on construction.
    unsafe { std::str::from_utf8_unchecked(&self.0) }
  }
}
impl From<String> for Chars {
  fn from(s: String) -> Self {
    Self(Bytes::from(s.into_bytes()))
  }
}
impl From<&str> for Chars {
  fn from(s: &str) -> Self {
    Self(Bytes::copy_from_slice(s.as_bytes()))
  }
}
impl From<Chars> for String {
  fn from(c: Chars) -> Self {
    c.to_string()
  }
}
impl AsRef<str> for Chars {
  fn as_ref(&self) -> &str {
    self
  }
}
impl std::borrow::Borrow<str> for Chars {
  fn borrow(&self) -> &str {
    self
  }
}
impl PartialEq<str> for Chars {
  fn eq(&self, o: &str) -> bool {
    **self == *o
  }
}
impl PartialEq<&str> for Chars {
  fn eq(&self, o: &&str) -> bool {
    **self == **o
  }
}
impl PartialEq<String> for Chars {
  fn eq(&self, o: &String) -> bool {
    **self == **o
  }
}
impl std::fmt::Display for Chars {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(&**self, f)
  }
}
impl std::fmt::Debug for Chars {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Debug::fmt(&**self, f)
  }
}
