use crate::reflect::{ReflectFieldRef, ReflectValueRef};
use crate::MessageDyn;
use std::fmt::{Formatter, Result};

fn value(f: &mut Formatter<'_>, name: &str, v: &ReflectValueRef<'_>, first: &mut bool) -> Result {
  if !*first {
    write!(f, " ")?;
  }
  *first = false;
  match v {
    ReflectValueRef::Message(m) => {
      write!(f, "{name} {{")?;
      fmt_dyn(&**m, f)?;
      write!(f, "}}")
    },
    ReflectValueRef::String(s) => write!(f, "{name}: {s:?}"),
    v => write!(f, "{name}: {v}"),
  }
}
fn fmt_dyn(m: &dyn MessageDyn, f: &mut Formatter<'_>) -> Result {
  let mut first = true;
  for field in m.descriptor_dyn().fields() {
    match field.get_reflect(m) {
      ReflectFieldRef::Optional(o) => {
        if let Some(v) = o.value() {
          value(f, field.name(), &v, &mut first)?;
        }
      },
      ReflectFieldRef::Repeated(r) => {
        for v in r {
          value(f, field.name(), &v, &mut first)?;
        }
      },
      ReflectFieldRef::Map(m) => {
        for (k, v) in m {
          value(f, &format!("{}[{k}]", field.name()), &v, &mut first)?;
        }
      },
    }
  }
  Ok(())
}
pub fn fmt(m: &dyn MessageDyn, f: &mut Formatter<'_>) -> Result {
  fmt_dyn(m, f)
}
