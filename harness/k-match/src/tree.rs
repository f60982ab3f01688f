//! Messages of any generated type, built from a tape of bytes against the type's own descriptor.
use protobuf::descriptor::{DescriptorProto, EnumDescriptorProto};
use protobuf::reflect::FileDescriptor;
use protobuf::Message;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
  I(i64),
  F(f64),
  S(String),
  B(Vec<u8>),
  M(Node),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Node {
  pub ty: String,
  pub fields: BTreeMap<u32, Vec<Val>>,
}
/// A raw set of wire fields, last one wins for scalars.
#[derive(Clone, Debug, Default)]
pub struct Raw(pub Vec<(u32, u64, Vec<u8>)>);
impl Raw {
  pub fn parse(mut b: &[u8]) -> Self {
    fn varint(b: &mut &[u8]) -> u64 {
      let (mut v, mut s) = (0u64, 0);
      loop {
        let x = b[0];
        *b = &b[1 ..];
        v |= u64::from(x & 127) << s;
        s += 7;
        if x < 128 {
          return v;
        }
      }
    }
    let mut out = vec![];
    while !b.is_empty() {
      let tag = varint(&mut b);
      let n = (tag >> 3) as u32;
      match tag & 7 {
        0 => out.push((n, varint(&mut b), vec![])),
        2 => {
          let l = varint(&mut b) as usize;
          out.push((n, 0, b[.. l].to_vec()));
          b = &b[l ..];
        },
        1 => {
          out.push((n, u64::from_le_bytes(b[.. 8].try_into().unwrap()), vec![]));
          b = &b[8 ..];
        },
        5 => {
          out.push((n, u64::from(u32::from_le_bytes(b[.. 4].try_into().unwrap())), vec![]));
          b = &b[4 ..];
        },
        _ => panic!("group"),
      }
    }
    Raw(out)
  }
  pub fn num(&self, n: u32) -> Option<u64> {
    self.0.iter().rev().find(|f| f.0 == n).map(|f| f.1)
  }
  pub fn sub(&self, n: u32) -> Option<Raw> {
    let parts: Vec<&[u8]> = self.0.iter().filter(|f| f.0 == n).map(|f| &f.2[..]).collect();
    if parts.is_empty() { None } else { Some(Raw::parse(&parts.concat())) }
  }
  pub fn only(&self, known: &[u32]) -> bool {
    self.0.iter().all(|f| known.contains(&f.0))
  }
}

#[derive(Clone, Debug)]
pub struct Field {
  pub num: u32,
  pub name: String,
  /// The descriptor's type number.
  pub ty: i32,
  pub type_name: String,
  pub repeated: bool,
  pub map: bool,
  pub oneof: Option<usize>,
  pub rules: Option<Raw>,
}
#[derive(Clone, Debug, Default)]
pub struct Msg {
  pub fields: Vec<Field>,
  /// Whether each oneof has to be set.
  pub oneofs: Vec<bool>,
  pub map_entry: bool,
}
#[derive(Default, Debug)]
pub struct Schema {
  pub msgs: BTreeMap<String, Msg>,
  pub enums: BTreeMap<String, Vec<i64>>,
  files: HashSet<String>,
}
impl Schema {
  pub fn add(&mut self, f: &FileDescriptor) {
    if !self.files.insert(f.name().to_string()) {
      return;
    }
    for d in f.deps() {
      self.add(d);
    }
    let pkg = if f.package().is_empty() { String::new() } else { format!(".{}", f.package()) };
    for m in &f.proto().message_type {
      self.msg(&pkg, m);
    }
    for e in &f.proto().enum_type {
      self.enm(&pkg, e);
    }
    for n in ["Duration", "Timestamp"] {
      let fields = vec![
        Field { num: 1, name: "seconds".into(), ty: 3, type_name: String::new(), repeated: false, map: false, oneof: None, rules: None },
        Field { num: 2, name: "nanos".into(), ty: 5, type_name: String::new(), repeated: false, map: false, oneof: None, rules: None },
      ];
      self.msgs.insert(format!(".google.protobuf.{n}"), Msg { fields, oneofs: vec![], map_entry: false });
    }
  }
  fn enm(&mut self, pkg: &str, e: &EnumDescriptorProto) {
    self.enums.insert(format!("{pkg}.{}", e.name()), e.value.iter().map(|v| i64::from(v.number())).collect());
  }
  fn msg(&mut self, pkg: &str, m: &DescriptorProto) {
    let name = format!("{pkg}.{}", m.name());
    for n in &m.nested_type {
      self.msg(&name, n);
    }
    for e in &m.enum_type {
      self.enm(&name, e);
    }
    let raw = |b: Vec<u8>| Raw::parse(&b);
    let map_entry = m.options.as_ref().map_or(false, |o| raw(o.write_to_bytes().unwrap()).num(7) == Some(1));
    let fields = m
      .field
      .iter()
      .map(|f| {
        let type_name = f.type_name().to_string();
        Field {
          num: f.number() as u32,
          name: f.name().to_string(),
          ty: f.type_.unwrap(),
          map: self.msgs.get(&type_name).map_or(false, |m| m.map_entry),
          type_name,
          repeated: f.label == Some(3),
          oneof: f.oneof_index.map(|i| i as usize),
          rules: f.options.as_ref().and_then(|o| raw(o.write_to_bytes().unwrap()).sub(1071)),
        }
      })
      .collect();
    let oneofs =
      m.oneof_decl.iter().map(|o| o.options.as_ref().map_or(false, |o| raw(o.write_to_bytes().unwrap()).num(1071) == Some(1))).collect();
    self.msgs.insert(name, Msg { fields, oneofs, map_entry });
  }
}

pub struct Tape<'a>(pub &'a [u8]);
impl Tape<'_> {
  pub fn next(&mut self) -> u8 {
    let Some((b, rest)) = self.0.split_first() else { return 0 };
    self.0 = rest;
    *b
  }
  fn pick(&mut self, n: usize) -> usize {
    usize::from(self.next()) % n.max(1)
  }
}
fn scalar(s: &Schema, f: &Field, t: &mut Tape<'_>) -> Val {
  let k = t.next();
  match f.ty {
    1 | 2 => Val::F([1.0, 0.5, -2.25, 1e9, 0.0][usize::from(k) % 5]),
    8 => Val::I(i64::from(k % 4 != 3)),
    9 => Val::S(["a", "ab", "é", "éé", "abc", "日本語", "x y", "🦀", "", "abcd"][usize::from(k) % 10].to_string()),
    12 => Val::B(vec![k; usize::from(k) % 4]),
    14 => {
      let v = &s.enums[&f.type_name];
      Val::I(match k {
        250 ..= 252 => 99,
        253 => -1,
        _ => v[usize::from(k) % v.len()],
      })
    },
    3 | 5 | 15 | 16 | 17 | 18 => Val::I([1, 2, 7, 1000, 0, -1, i64::from(i32::MAX), i64::from(i32::MIN)][usize::from(k) % 8]),
    _ => Val::I([1, 2, 7, 1000, 300, 65536, 0, i64::from(u32::MAX)][usize::from(k) % 8]),
  }
}
pub fn node(s: &Schema, ty: &str, t: &mut Tape<'_>, depth: u32) -> Node {
  let mut out = Node { ty: ty.to_string(), fields: BTreeMap::new() };
  let Some(m) = s.msgs.get(ty) else { return out };
  if depth > 9 {
    return out;
  }
  let chosen: Vec<Option<u32>> = (0 .. m.oneofs.len())
    .map(|i| {
      let opts: Vec<u32> = m.fields.iter().filter(|f| f.oneof == Some(i)).map(|f| f.num).collect();
      let b = t.next();
      if b >= 250 || (opts.len() == 1 && b % 3 == 2) { None } else { Some(opts[usize::from(b) % opts.len()]) }
    })
    .collect();
  for f in &m.fields {
    let one = |t: &mut Tape<'_>| {
      if f.ty == 11 { Val::M(node(s, &f.type_name, t, depth + 1)) } else { scalar(s, f, t) }
    };
    if let Some(o) = f.oneof {
      if chosen[o] == Some(f.num) {
        let v = one(t);
        out.fields.insert(f.num, vec![v]);
      }
    } else if f.repeated {
      let need = f.rules.is_some();
      let n = match t.next() {
        b if b >= 245 => 0,
        b if need || b > 128 => 1 + usize::from(b) % 2,
        _ => 0,
      };
      if n > 0 {
        let mut vs: Vec<Val> = (0 .. n).map(|_| one(t)).collect();
        if f.map {
          // Distinct keys.
          let mut seen = Vec::new();
          vs.retain(|v| {
            let Val::M(e) = v else { return false };
            let k = e.fields.get(&1).cloned();
            let new = !seen.contains(&k);
            seen.push(k);
            new
          });
        }
        out.fields.insert(f.num, vs);
      }
    } else {
      let b = t.next();
      let set = m.map_entry || if f.rules.is_some() { b < 245 } else { b > 100 };
      if set {
        let v = one(t);
        out.fields.insert(f.num, vec![v]);
      }
    }
  }
  let _ = t.pick(1);
  out
}

fn put(out: &mut Vec<u8>, mut v: u64) {
  while v >= 128 {
    out.push(v as u8 | 128);
    v >>= 7;
  }
  out.push(v as u8);
}
/// The wire form; `flip` reverses the order of fields and of map entries, which is the same message.
pub fn encode(s: &Schema, n: &Node, flip: bool) -> Vec<u8> {
  let Some(m) = s.msgs.get(&n.ty) else { return vec![] };
  let mut parts = vec![];
  for (num, vals) in &n.fields {
    let f = m.fields.iter().find(|f| f.num == *num).unwrap();
    let mut vals: Vec<&Val> = vals.iter().collect();
    if flip && f.map {
      vals.reverse();
    }
    let mut out = vec![];
    for v in vals {
      let wt = match f.ty {
        1 | 6 | 16 => 1,
        2 | 7 | 15 => 5,
        9 | 11 | 12 => 2,
        _ => 0,
      };
      put(&mut out, u64::from(*num) << 3 | wt);
      let bytes = |out: &mut Vec<u8>, b: &[u8]| {
        put(out, b.len() as u64);
        out.extend_from_slice(b);
      };
      match (v, f.ty) {
        (Val::F(v), 1) => out.extend(v.to_le_bytes()),
        (Val::F(v), _) => out.extend((*v as f32).to_le_bytes()),
        (Val::I(v), 6 | 16) => out.extend(v.to_le_bytes()),
        (Val::I(v), 7 | 15) => out.extend((*v as i32).to_le_bytes()),
        (Val::I(v), 17 | 18) => put(&mut out, ((v << 1) ^ (v >> 63)) as u64),
        (Val::I(v), _) => put(&mut out, *v as u64),
        (Val::S(v), _) => bytes(&mut out, v.as_bytes()),
        (Val::B(v), _) => bytes(&mut out, v),
        (Val::M(v), _) => bytes(&mut out, &encode(s, v, flip)),
      }
    }
    parts.push(out);
  }
  if flip {
    parts.reverse();
  }
  parts.concat()
}
