//! C21: validation of messages against the rules annotated in their schema; C22: fingerprints.
use crate::tree::{encode, node, Field, Node, Raw, Schema, Tape, Val};
use protobuf::{Message, MessageFull};
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Run};

#[path = "/repo/bd-pgv/src/generated/test_protos/test_validate.rs"]
#[allow(warnings)]
mod test_validate;
/// The generated test messages look for the rules next to them.
use bd_pgv::generated::protos::validate;
#[path = "/repo/bd-proto-util/src/proto.rs"]
#[allow(warnings)]
mod proto;
use proto::ProtoHashWrapper;

struct Ty {
  name: &'static str,
  file: fn() -> &'static protobuf::reflect::FileDescriptor,
  full: String,
  validate: fn(&[u8]) -> Result<Result<(), String>, String>,
  /// Text hash, in-process hash.
  hash: fn(&[u8]) -> Result<(String, u64), String>,
  same: fn(&[u8], &[u8]) -> bool,
}
fn parse<M: Message>(b: &[u8]) -> Result<M, String> {
  M::parse_from_bytes(b).map_err(|e| format!("parsing: {e}"))
}
fn ty<M: MessageFull>(name: &'static str, file: fn() -> &'static protobuf::reflect::FileDescriptor) -> Ty {
  Ty {
    name,
    file,
    full: format!(".{}", M::descriptor().full_name()),
    validate: |b| parse::<M>(b).map(|m| bd_pgv::proto_validate::validate(&m).map_err(|e| e.to_string())),
    hash: |b| {
      let w = ProtoHashWrapper::new(parse::<M>(b)?);
      let mut h = std::collections::hash_map::DefaultHasher::new();
      w.hash(&mut h);
      Ok((w.message_hash(), h.finish()))
    },
    same: |a, b| parse::<M>(a).unwrap() == parse::<M>(b).unwrap(),
  }
}
fn all() -> &'static (Schema, Vec<Ty>) {
  static ALL: OnceLock<(Schema, Vec<Ty>)> = OnceLock::new();
  ALL.get_or_init(|| {
    macro_rules! tys { ($($m:path: $($t:ident),+;)+) => { vec![$($({ use $m as m; ty::<m::$t>(stringify!($t), m::file_descriptor) }),+),+] } }
    use bd_proto::protos as p;
    let v = tys![
      test_validate: Duration, Bool, String, Repeated, Message, OneOf, NotImplemented, EnumOld, Uint32, Uint64, Int32, Int64;
      p::workflow::workflow: WorkflowsConfiguration, Workflow;
      p::client::api: ApiRequest, ApiResponse, ConfigurationUpdate, StatsUploadRequest;
      p::client::runtime: Runtime;
      p::client::matcher: RootMatcher;
      p::config::v1::config: BufferConfigList;
      p::insight::insight: InsightsConfiguration;
      p::bdtail::bdtail_config: BdTailConfigurations;
      p::filter::filter: FiltersConfiguration;
      p::log_matcher::log_matcher: LogMatcher;
      p::pulse::pulse: Metadata;
    ];
    let mut s = Schema::default();
    for t in &v {
      s.add((t.file)());
    }
    (s, v)
  })
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  ty: usize,
  tape: Vec<u8>,
  #[serde(default)]
  change: u16,
}
fn case() -> impl Strategy<Value = Case> + Clone {
  let n = all().1.len();
  (prop_oneof![1 => 0 .. 12usize, 3 => 12 .. n], prop::collection::vec(any::<u8>(), 0 .. 160), any::<u16>())
    .prop_map(|(ty, tape, change)| Case { ty, tape, change })
}

// ----------------------------------------------------------------------------------- validation
#[derive(Default)]
struct Verdict {
  broken: Vec<String>,
  unsure: bool,
  rules: usize,
}
fn check(s: &Schema, n: &Node, out: &mut Verdict) {
  let Some(m) = s.msgs.get(&n.ty) else { return };
  for (i, required) in m.oneofs.iter().enumerate() {
    if *required {
      out.rules += 1;
      if !m.fields.iter().any(|f| f.oneof == Some(i) && n.fields.contains_key(&f.num)) {
        out.broken.push(format!("{} has no oneof {i}", n.ty));
      }
    }
  }
  for f in &m.fields {
    let vals = n.fields.get(&f.num).map_or(&[][..], |v| v);
    if let Some(r) = &f.rules {
      rules(s, &n.ty, f, r, vals, out);
    }
    for v in vals {
      if let Val::M(sub) = v {
        check(s, sub, out);
      }
    }
  }
}
fn rules(s: &Schema, ty: &str, f: &Field, all: &Raw, vals: &[Val], out: &mut Verdict) {
  let at = format!("{ty}.{}", f.name);
  let bad = |what: &str, out: &mut Verdict| out.broken.push(format!("{at}: {what} {vals:?}"));
  // A value that is judged: the one set, or the default where there is no presence.
  let int = match (vals.first(), f.oneof) {
    (Some(Val::I(v)), _) => Some(*v),
    (None, None) => Some(0),
    _ => None,
  };
  for (kind, _, _) in &all.0 {
    let r = all.sub(*kind).unwrap();
    out.rules += 1;
    if f.map {
      bad("a rule on a map", out);
      continue;
    }
    match (*kind, f.ty) {
      (3, 5) | (4, 3) | (5, 13) | (6, 4) if !f.repeated => {
        let Some(v) = int else { out.unsure |= !r.only(&[4]); continue };
        if !r.only(&[4]) {
          bad("a rule that is not supported", out);
        } else if let Some(gt) = r.num(4) {
          if v <= gt as i64 {
            bad("not greater", out);
          }
        }
      },
      (13, 8) if !f.repeated => {
        if let (Some(v), Some(c)) = (int, r.num(1)) {
          if v != c as i64 {
            bad("not the constant", out);
          }
        }
      },
      (14, 9) if !f.repeated => {
        let v = match (vals.first(), f.oneof) {
          (Some(Val::S(v)), _) => v.as_str(),
          (None, None) => "",
          _ => {
            out.unsure |= !r.only(&[2, 3]);
            continue;
          },
        };
        let len = v.chars().count() as u64;
        if !r.only(&[2, 3]) {
          bad("a rule that is not supported", out);
        } else if r.num(2).map_or(false, |m| len < m) {
          bad("too short", out);
        } else if r.num(3).map_or(false, |m| len > m) {
          bad("too long", out);
        }
      },
      (16, 14) if !f.repeated => {
        let Some(v) = int else { out.unsure |= !r.only(&[2]); continue };
        if !r.only(&[2]) {
          bad("a rule that is not supported", out);
        } else if r.num(2) == Some(1) && !s.enums[&f.type_name].contains(&v) {
          bad("not a defined value", out);
        }
      },
      (17, 11) if !f.repeated => {
        if r.num(2) == Some(1) && vals.is_empty() {
          if f.oneof.is_some() {
            out.unsure = true;
          } else {
            bad("missing", out);
          }
        }
        out.unsure |= !r.only(&[2]);
      },
      (18, _) if f.repeated => {
        if !r.only(&[1]) {
          bad("a rule that is not supported", out);
        } else if r.num(1).map_or(false, |m| (vals.len() as u64) < m) {
          bad("too few", out);
        }
      },
      (21, 11) if !f.repeated => {
        let Some(Val::M(d)) = vals.first() else { out.unsure |= !r.only(&[5]); continue };
        let part = |n: u32| match d.fields.get(&n).and_then(|v| v.first()) {
          Some(Val::I(v)) => *v,
          _ => 0,
        };
        let nanos = i128::from(part(1)) * 1_000_000_000 + i128::from(part(2));
        if !r.only(&[5]) {
          bad("a rule that is not supported", out);
          continue;
        }
        let gt = r.sub(5).map(|d| i128::from(d.num(1).unwrap_or(0) as i64) * 1_000_000_000 + i128::from(d.num(2).unwrap_or(0) as i64));
        if part(1) < 0 || part(2) < 0 {
          // Mixed signs are not a well-formed duration.
          if nanos < 0 || gt.map_or(false, |g| nanos <= g) { bad("negative", out) } else { out.unsure = true }
        } else if gt.map_or(false, |g| nanos <= g) {
          bad("not greater", out);
        }
      },
      // Kinds that are never supported, on whatever they are, and those for fields that cannot be judged.
      (9 ..= 12 | 20 | 22, _) => bad("a kind of rule that is not supported", out),
      (1, 2) | (2, 1) | (15, 12) if !f.repeated => bad("a kind of rule that is not supported", out),
      // A rule of another type than the field's: nothing is promised.
      _ => out.unsure = true,
    }
  }
}
/// A schema made up for the occasion.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Made {
  /// Type, shape (plain, in the oneof, optional, repeated), kind of rule if any, the rules in it.
  fields: Vec<(u8, u8, u8, Vec<(u8, u16)>)>,
  required: bool,
  /// Within another message.
  nested: bool,
  tape: Vec<u8>,
}
fn made() -> impl Strategy<Value = Made> + Clone {
  let inner = prop::collection::vec((prop_oneof![3 => 0u8 .. 4, 2 => any::<u8>()], prop_oneof![4 => 0u16 .. 8, 1 => any::<u16>()]), 0 .. 3);
  let f = (0u8 .. 12, 0u8 .. 5, prop_oneof![3 => 0u8 .. 1, 12 => 1u8 .. 2, 2 => 2u8 .. 12], inner);
  (prop::collection::vec(f, 1 .. 4), any::<bool>(), prop::bool::weighted(0.3), prop::collection::vec(any::<u8>(), 0 .. 60))
    .prop_map(|(fields, required, nested, tape)| Made { fields, required, nested, tape })
}
/// Descriptor types with the kind of rule made for them, and what rules that kind has: number, and
/// whether it is a number, a text or a duration. The first ones are supported.
const KINDS: [(i32, u32, &[(u32, u8)]); 12] = [
  (5, 3, &[(4, 0), (4, 0), (4, 0), (4, 0), (1, 0), (2, 0), (3, 0), (5, 0), (6, 0), (7, 0), (8, 0)]),
  (3, 4, &[(4, 0), (4, 0), (4, 0), (4, 0), (1, 0), (2, 0), (3, 0), (5, 0), (6, 0), (7, 0), (8, 0)]),
  (13, 5, &[(4, 0), (4, 0), (4, 0), (4, 0), (1, 0), (2, 0), (3, 0), (5, 0), (6, 0), (7, 0), (8, 0)]),
  (4, 6, &[(4, 0), (4, 0), (4, 0), (4, 0), (1, 0), (2, 0), (3, 0), (5, 0), (6, 0), (7, 0), (8, 0)]),
  (8, 13, &[(1, 6)]),
  (9, 14, &[
    (2, 0), (3, 0), (2, 0), (3, 0), (1, 1), (19, 0), (20, 0), (4, 0), (5, 0), (6, 1), (7, 1), (8, 1), (9, 1), (23, 1), (10, 1), (11, 1), (12, 0), (13, 0),
    (14, 0), (15, 0), (16, 0), (17, 0), (18, 0), (21, 0), (22, 0), (24, 0),
  ]),
  (14, 16, &[(2, 6), (2, 6), (2, 6), (2, 6), (1, 0), (3, 0), (4, 0)]),
  (11, 21, &[(5, 2), (5, 2), (5, 2), (5, 2), (1, 0), (2, 2), (3, 2), (4, 2), (6, 2), (7, 2), (8, 2)]),
  (11, 17, &[(2, 6)]),
  (2, 1, &[(1, 3)]),
  (1, 2, &[(1, 4)]),
  (12, 15, &[(2, 0)]),
];
const NEVER: [(u32, &[(u32, u8)]); 10] = [(9, &[]), (10, &[]), (11, &[]), (12, &[]), (20, &[]), (22, &[]), (20, &[(1, 0)]), (22, &[(7, 0)]), (9, &[(4, 5)]), (10, &[])];
fn field_bytes(out: &mut Vec<u8>, num: u32, b: &[u8]) {
  let mut put = |mut v: u64| {
    while v >= 128 {
      out.push(v as u8 | 128);
      v >>= 7;
    }
    out.push(v as u8);
  };
  put(u64::from(num) << 3 | 2);
  put(b.len() as u64);
  out.extend_from_slice(b);
}
fn rule_bytes(list: &[(u32, u8)], chosen: &[(u8, u16)]) -> Vec<u8> {
  use protobuf::CodedOutputStream;
  let mut out = vec![];
  {
    let mut o = CodedOutputStream::vec(&mut out);
    for (which, v) in chosen {
      if list.is_empty() {
        break;
      }
      let (num, how) = list[usize::from(*which) % list.len()];
      match how {
        0 => o.write_uint64(num, u64::from(*v)).unwrap(),
        1 => o.write_string(num, &format!("{v}")).unwrap(),
        2 => {
          let d = protobuf::well_known_types::duration::Duration { seconds: i64::from(*v % 3), nanos: i32::from(*v % 2), ..Default::default() };
          o.write_bytes(num, &d.write_to_bytes().unwrap()).unwrap();
        },
        3 => o.write_float(num, f32::from(*v)).unwrap(),
        4 => o.write_double(num, f64::from(*v)).unwrap(),
        6 => o.write_uint64(num, u64::from(*v & 1)).unwrap(),
        _ => o.write_fixed32(num, (*v).into()).unwrap(),
      }
    }
    o.flush().unwrap();
  }
  out
}
use protobuf::reflect::dynamic::{self, DynMessage, DynValue};
fn instance(fd: &protobuf::reflect::FileDescriptor, s: &Schema, n: &Node) -> DynMessage {
  let descriptor = fd.message_by_full_name(&n.ty).expect("a message type");
  let fields = n.fields.iter().map(|(num, vals)| {
    let ty = s.msgs[&n.ty].fields.iter().find(|f| f.num == *num).unwrap().ty;
    let vals = vals.iter().map(|v| match (v, ty) {
      (Val::F(v), 1) => DynValue::F64(*v),
      (Val::F(v), _) => DynValue::F32(*v as f32),
      (Val::I(v), 3) => DynValue::I64(*v),
      (Val::I(v), 4) => DynValue::U64(*v as u64),
      (Val::I(v), 13) => DynValue::U32(*v as u32),
      (Val::I(v), 8) => DynValue::Bool(*v != 0),
      (Val::I(v), 14) => DynValue::Enum(*v as i32),
      (Val::I(v), _) => DynValue::I32(*v as i32),
      (Val::S(v), _) => DynValue::String(v.clone()),
      (Val::B(v), _) => DynValue::Bytes(v.clone()),
      (Val::M(m), _) if m.ty == ".google.protobuf.Duration" => {
        let bytes = encode(s, m, false);
        DynValue::Message(Box::new(protobuf::well_known_types::duration::Duration::parse_from_bytes(&bytes).unwrap()))
      },
      (Val::M(m), _) => DynValue::Message(Box::new(instance(fd, s, m))),
    });
    (*num as i32, vals.collect())
  });
  DynMessage { descriptor, fields: fields.collect() }
}
fn play_made(c: &Made, obs: &mut vcommon::Obs) -> vcommon::Res {
  use protobuf::descriptor::*;
  let mut top = DescriptorProto { name: Some("Top".into()), ..Default::default() };
  let mut file = FileDescriptorProto {
    name: Some("made.proto".into()),
    package: Some("made".into()),
    dependency: vec!["google/protobuf/duration.proto".into()],
    ..Default::default()
  };
  file.enum_type.push(EnumDescriptorProto {
    name: Some("E".into()),
    value: [0, 1, 3]
      .iter()
      .map(|i| EnumValueDescriptorProto { name: Some(format!("E{i}")), number: Some(*i), ..Default::default() })
      .collect(),
    ..Default::default()
  });
  file.message_type.push(DescriptorProto {
    name: Some("Sub".into()),
    field: vec![FieldDescriptorProto {
      name: Some("a".into()),
      number: Some(1),
      label: Some(1),
      type_: Some(5),
      ..Default::default()
    }],
    ..Default::default()
  });
  let kinds = &KINDS;
  if c.fields.iter().any(|f| f.1 == 1) {
    let options = OneofOptions::parse_from_bytes(&rule_bytes(&[(1071, 0)], if c.required { &[(0, 1)] } else { &[] })).unwrap();
    top.oneof_decl.push(OneofDescriptorProto { name: Some("o".into()), options: Some(options).into(), ..Default::default() });
  }
  for (i, (ty, shape, kind, inner)) in c.fields.iter().enumerate() {
    let (ty, fit, list) = kinds[usize::from(*ty) % kinds.len()];
    let repeated = *shape == 3;
    let mut f = FieldDescriptorProto {
      name: Some(format!("f{i}")),
      number: Some(i as i32 + 1),
      label: Some(if repeated { 3 } else { 1 }),
      type_: Some(ty),
      ..Default::default()
    };
    match (ty, fit) {
      (14, _) => f.type_name = Some(".made.E".into()),
      (11, 21) => f.type_name = Some(".google.protobuf.Duration".into()),
      (11, _) => f.type_name = Some(".made.Sub".into()),
      _ => (),
    }
    match shape {
      1 => f.oneof_index = Some(0),
      2 => {
        f.proto3_optional = Some(true);
        f.oneof_index = Some(top.oneof_decl.len() as i32);
        top.oneof_decl.push(OneofDescriptorProto { name: Some(format!("_f{i}")), ..Default::default() });
      },
      _ => (),
    }
    let body = match kind {
      0 => None,
      1 if repeated => Some((18, rule_bytes(&[(1, 0), (1, 0), (2, 0), (3, 0), (5, 0)], inner))),
      1 => Some((fit, rule_bytes(list, inner))),
      k => {
        let (kind, list) = NEVER[usize::from(*k - 2) % NEVER.len()];
        Some((kind, rule_bytes(list, inner)))
      },
    };
    if let Some((kind, body)) = body {
      let mut rules = vec![];
      field_bytes(&mut rules, kind, &body);
      let mut options = vec![];
      field_bytes(&mut options, 1071, &rules);
      f.options = Some(FieldOptions::parse_from_bytes(&options).unwrap()).into();
    }
    top.field.push(f);
  }
  // Real ones come first.
  file.message_type.push(top);
  file.message_type.push(DescriptorProto {
    name: Some("Outer".into()),
    field: vec![FieldDescriptorProto {
      name: Some("inner".into()),
      number: Some(1),
      label: Some(if c.required { 3 } else { 1 }),
      type_: Some(11),
      type_name: Some(".made.Top".into()),
      ..Default::default()
    }],
    ..Default::default()
  });
  let fd = dynamic::file(file, vec![protobuf::well_known_types::duration::file_descriptor().clone()]);
  let mut s = Schema::default();
  s.add(&fd);
  let name = if c.nested { "made.Outer" } else { "made.Top" };
  let n = node(&s, &format!(".{name}"), &mut Tape(&c.tape), 0);
  let mut v = Verdict::default();
  check(&s, &n, &mut v);
  let m = instance(&fd, &s, &n);
  let got = bd_pgv::proto_validate::validate(&m).map_err(|e| e.to_string());
  obs.nontrivial(v.rules > 0 && !v.unsure);
  obs.label_if(v.broken.iter().any(|b| b.contains("not supported")), "with a rule that is not supported");
  obs.label_if(v.broken.is_empty() && v.rules > 0 && !v.unsure, "valid under a rule");
  obs.label_if(v.broken.len() == 1, "one rule broken");
  obs.label_if(v.unsure, "with a rule outside the oracle");
  if !v.broken.is_empty() {
    ensure!(got.is_err(), "a message that breaks its rules was accepted: {:?}\n{n:?}\n{:?}", v.broken, s.msgs[".made.Top"]);
  } else if !v.unsure {
    ensure!(got.is_ok(), "a message that keeps its rules was rejected: {}\n{n:?}\n{:?}", got.unwrap_err(), s.msgs[".made.Top"]);
  }
  Ok(())
}

pub fn c21(run: &mut Run) {
  run.run(part("schemas", 300_000, 6_000_000, "the message has rules that apply to it").shards(8), made, play_made);
  run.run(
    part("messages", 60_000, 3_000_000, "the message has at least one rule that applies to it").shards(8),
    case,
    |c, obs| {
      let (s, tys) = all();
      let t = &tys[c.ty % tys.len()];
      let n = node(s, &t.full, &mut Tape(&c.tape), 0);
      let mut v = Verdict::default();
      check(s, &n, &mut v);
      let got = (t.validate)(&encode(s, &n, false))?;
      obs.nontrivial(v.rules > 0);
      obs.label_if(v.broken.is_empty() && v.rules > 2, "valid under several rules");
      obs.label_if(v.broken.len() == 1, "one rule broken");
      obs.label_if(v.unsure, "with a rule outside the oracle");
      if !v.broken.is_empty() {
        ensure!(got.is_err(), "a {} that breaks its rules was accepted: {:?}\n{n:?}", t.name, v.broken);
      } else if !v.unsure {
        ensure!(got.is_ok(), "a {} that keeps its rules was rejected: {}\n{n:?}", t.name, got.unwrap_err());
      }
      Ok(())
    },
  );
}

// ---------------------------------------------------------------------------------- fingerprints
fn leaves(n: &Node) -> usize {
  n.fields.values().flatten().map(|v| if let Val::M(m) = v { 1 + leaves(m) } else { 1 }).sum()
}
/// Changes one place: a scalar, a key of a map, the alternative that is set, the presence of a
/// submessage or the length of a list.
fn change(s: &Schema, n: &mut Node, at: &mut usize, how: u8) -> Option<&'static str> {
  let m = &s.msgs[&n.ty];
  for f in &m.fields {
    let Some(vals) = n.fields.get_mut(&f.num) else { continue };
    for i in 0 .. vals.len() {
      if *at == 0 {
        if f.repeated && !f.map && how % 3 == 0 {
          match how / 3 % 4 {
            0 | 1 => {
              let v = vals[i].clone();
              vals.push(v);
              return Some("a longer list");
            },
            2 => {
              vals.pop();
              if vals.is_empty() {
                n.fields.remove(&f.num);
              }
              return Some("a shorter list");
            },
            _ => {
              let v = vals[i].clone();
              vals.extend(std::iter::repeat(v).take(256));
              return Some("a much longer list");
            },
          }
        }
        // Another alternative with the same value.
        if let (Some(o), 0) = (f.oneof, how % 4) {
          let other = m.fields.iter().find(|g| g.oneof == Some(o) && g.num != f.num && g.ty == f.ty && g.type_name == f.type_name);
          if let Some(g) = other {
            let v = n.fields.remove(&f.num).unwrap();
            n.fields.insert(g.num, v);
            return Some("another alternative");
          }
        }
        let key = m.map_entry && f.num == 1;
        match &mut vals[i] {
          Val::I(v) if f.ty == 8 => *v = 1 - *v,
          Val::I(v) => {
            *v = match how % 20 {
              h @ 0 ..= 15 => (*v ^ (1 << h)) & 0x7fff_ffff,
              16 if f.ty == 14 => 99,
              16 if matches!(f.ty, 3 | 5 | 15 | 16 | 17 | 18) && *v > i64::from(i32::MIN) => -*v,
              17 if f.ty == 3 || f.ty == 4 => *v ^ (1 << (32 + how / 20)),
              h => (*v ^ (1 << (h + 11))) & 0x7fff_ffff,
            }
          },
          Val::F(v) => *v = match how % 3 { 0 => *v + 1.0, 1 => -*v, _ => *v + 0.5 },
          Val::S(v) => match how % if key { 4 } else { 6 } {
            0 => v.push('q'),
            1 => v.insert(0, 'q'),
            2 => v.push(' '),
            3 => v.push('\0'),
            4 => *v = v.to_uppercase(),
            _ => *v = "other".into(),
          },
          Val::B(v) => v.push(how % 2 * how),
          Val::M(_) if f.repeated || m.map_entry => return None,
          Val::M(_) => {
            n.fields.remove(&f.num);
            return Some("a missing submessage");
          },
        }
        return Some(if key { "a changed key" } else { "a changed value" });
      }
      *at -= 1;
      if let Val::M(sub) = &mut vals[i] {
        let inner = leaves(sub);
        if s.msgs.contains_key(&sub.ty) && *at < inner {
          return change(s, sub, at, how);
        }
        *at -= inner.min(*at);
      }
    }
  }
  None
}
/// A schema whose field numbers are far apart, and a message of it.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Spread {
  /// Type, shape (plain, in the oneof, optional, repeated), number.
  fields: Vec<(u8, u8, u8)>,
  tape: Vec<u8>,
  change: u16,
}
fn spread() -> impl Strategy<Value = Spread> + Clone {
  let f = (0u8 .. 12, 0u8 .. 5, 0u8 .. 16);
  (prop::collection::vec(f, 1 .. 6), prop::collection::vec(any::<u8>(), 0 .. 60), any::<u16>()).prop_map(|(fields, tape, change)| Spread { fields, tape, change })
}
fn play_spread(c: &Spread, obs: &mut vcommon::Obs) -> vcommon::Res {
  use protobuf::descriptor::*;
  const NUMBERS: [i32; 16] = [1, 2, 3, 255, 256, 257, 258, 259, 513, 514, 65_536, 65_537, 65_538, 16_777_217, 16_777_218, 131_073];
  let field = |name: String, number: i32, label: i32, ty: i32, type_name: Option<&str>| FieldDescriptorProto {
    name: Some(name),
    number: Some(number),
    label: Some(label),
    type_: Some(ty),
    type_name: type_name.map(Into::into),
    ..Default::default()
  };
  let mut file = FileDescriptorProto { name: Some("spread.proto".into()), package: Some("made".into()), ..Default::default() };
  let mut sub = DescriptorProto { name: Some("Sub".into()), ..Default::default() };
  sub.field.push(field("a".into(), 1, 1, 5, None));
  sub.field.push(field("b".into(), 257, 3, 9, None));
  file.message_type.push(sub);
  let mut top = DescriptorProto { name: Some("Top".into()), ..Default::default() };
  let mut seen = vec![];
  let fields: Vec<_> = c.fields.iter().filter(|f| !seen.contains(&f.2) && { seen.push(f.2); true }).collect();
  if fields.iter().any(|f| f.1 == 1) {
    top.oneof_decl.push(OneofDescriptorProto { name: Some("o".into()), ..Default::default() });
  }
  for (i, (ty, shape, number)) in fields.into_iter().enumerate() {
    let number = NUMBERS[usize::from(*number)];
    // Mostly of one type, so that alternatives can be told apart only by their number.
    let ty = [9, 13, 11, 11, 9, 13, 3, 4, 5, 8, 1, 12][usize::from(*ty)];
    let mut f = field(format!("f{i}"), number, if *shape == 3 { 3 } else { 1 }, ty, (ty == 11).then_some(".made.Sub"));
    match shape {
      1 => f.oneof_index = Some(0),
      2 => {
        f.proto3_optional = Some(true);
        f.oneof_index = Some(top.oneof_decl.len() as i32);
        top.oneof_decl.push(OneofDescriptorProto { name: Some(format!("_f{i}")), ..Default::default() });
      },
      _ => (),
    }
    top.field.push(f);
  }
  file.message_type.push(top);
  let fd = dynamic::file(file, vec![]);
  let mut s = Schema::default();
  s.add(&fd);
  let n = node(&s, ".made.Top", &mut Tape(&c.tape), 0);
  let total = leaves(&n);
  if total == 0 {
    return Ok(());
  }
  let mut m = n.clone();
  let mut at = usize::from(c.change) % total;
  let Some(what) = change(&s, &mut m, &mut at, (c.change >> 8) as u8) else { return Ok(()) };
  if encode(&s, &n, false) == encode(&s, &m, false) {
    return Ok(());
  }
  // A plain field that holds its default counts as missing.
  let implicit = |f: &Field| f.oneof.is_none() && !f.repeated && f.ty != 11;
  let clear = |n: &mut Node| {
    let msg = &s.msgs[".made.Top"];
    n.fields.retain(|k, v| {
      let f = msg.fields.iter().find(|f| f.num == *k).unwrap();
      !(implicit(f) && matches!(&v[..], [Val::I(0)] | [Val::F(0.0)]) || implicit(f) && matches!(&v[..], [Val::S(x)] if x.is_empty()) || implicit(f) && matches!(&v[..], [Val::B(x)] if x.is_empty()))
    });
  };
  let (mut a, mut b) = (n.clone(), m.clone());
  clear(&mut a);
  clear(&mut b);
  if a == b {
    return Ok(());
  }
  let hash = |n: &Node| {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    proto::hash_message(&mut h, &instance(&fd, &s, n));
    let mut text = proto::Sha256Hasher(Default::default());
    proto::hash_message(&mut text, &instance(&fd, &s, n));
    (h.finish(), sha2::Digest::finalize(text.0))
  };
  obs.nontrivial(true);
  obs.label(what);
  let (x, y) = (hash(&a), hash(&b));
  ensure!(x.1 != y.1 && x.0 != y.0, "two different messages have the same fingerprint ({what})\n{a:?}\n{b:?}\n{:?}", s.msgs[".made.Top"]);
  ensure!(hash(&a) == x, "a fingerprint that is not stable");
  Ok(())
}
pub fn c22(run: &mut Run) {
  run.run(part("schemas", 100_000, 3_000_000, "a single place of a non-empty message was changed").shards(8), spread, play_spread);
  run.run(
    part("fingerprints", 40_000, 1_500_000, "a single place of a non-empty message was changed").shards(8),
    case,
    |c, obs| {
      let (s, tys) = all();
      let t = &tys[c.ty % tys.len()];
      let n = node(s, &t.full, &mut Tape(&c.tape), 0);
      let a = encode(s, &n, false);
      let b = encode(s, &n, true);
      ensure!((t.same)(&a, &b), "the harness made two different messages");
      let (x, y) = ((t.hash)(&a)?, (t.hash)(&b)?);
      ensure_eq!(x, y, "fingerprint of the same {} read from differently ordered bytes", t.name);
      obs.label_if(n.fields.values().any(|v| v.len() > 1), "with a list");
      let total = leaves(&n);
      if total == 0 {
        return Ok(());
      }
      let mut m = n.clone();
      let mut at = usize::from(c.change) % total;
      let Some(what) = change(s, &mut m, &mut at, (c.change >> 8) as u8) else { return Ok(()) };
      let b = encode(s, &m, false);
      if (t.same)(&a, &b) {
        return Ok(());
      }
      obs.nontrivial(true);
      obs.label(what);
      ensure!((t.hash)(&b)?.0 != x.0, "two different messages of type {} have the same fingerprint ({what})\n{n:?}\n{m:?}", t.name);
      Ok(())
    },
  );
}
