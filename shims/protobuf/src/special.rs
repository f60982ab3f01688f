use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Default)]
pub struct CachedSize(AtomicU32);
impl CachedSize {
  pub const fn new() -> Self {
    Self(AtomicU32::new(0))
  }
  pub fn get(&self) -> u32 {
    self.0.load(Ordering::Relaxed)
  }
  pub fn set(&self, v: u32) {
    self.0.store(v, Ordering::Relaxed);
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum UnknownValue {
  Fixed32(u32),
  Fixed64(u64),
  Varint(u64),
  LengthDelimited(Vec<u8>),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct UnknownValues {
  pub values: Vec<UnknownValue>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct UnknownFields {
  fields: Option<Box<BTreeMap<u32, UnknownValues>>>,
}
impl UnknownFields {
  pub const fn new() -> Self {
    Self { fields: None }
  }
  pub fn add_value(&mut self, number: u32, v: UnknownValue) {
    self
      .fields
      .get_or_insert_with(Default::default)
      .entry(number)
      .or_default()
      .values
      .push(v);
  }
  pub fn clear(&mut self) {
    self.fields = None;
  }
  pub fn iter(&self) -> impl Iterator<Item = (u32, &UnknownValue)> {
    self
      .fields
      .iter()
      .flat_map(|m| m.iter())
      .flat_map(|(n, v)| v.values.iter().map(move |v| (*n, v)))
  }
}

#[derive(Default)]
pub struct SpecialFields {
  unknown_fields: UnknownFields,
  cached_size: CachedSize,
}
impl SpecialFields {
  pub const fn new() -> Self {
    Self {
      unknown_fields: UnknownFields::new(),
      cached_size: CachedSize::new(),
    }
  }
  pub fn unknown_fields(&self) -> &UnknownFields {
    &self.unknown_fields
  }
  pub fn mut_unknown_fields(&mut self) -> &mut UnknownFields {
    &mut self.unknown_fields
  }
  pub fn cached_size(&self) -> &CachedSize {
    &self.cached_size
  }
  pub fn clear(&mut self) {
    self.unknown_fields.clear();
  }
}
impl Clone for SpecialFields {
  fn clone(&self) -> Self {
    let c = CachedSize::new();
    c.set(self.cached_size.get());
    Self {
      unknown_fields: self.unknown_fields.clone(),
      cached_size: c,
    }
  }
}
impl PartialEq for SpecialFields {
  fn eq(&self, o: &Self) -> bool {
    self.unknown_fields == o.unknown_fields
  }
}
impl std::fmt::Debug for SpecialFields {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    f.debug_struct("SpecialFields")
      .field("unknown_fields", &self.unknown_fields)
      .finish()
  }
}
