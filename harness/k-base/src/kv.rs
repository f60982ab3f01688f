//! C01: persisted key-value store. C02: device id.
use crate::store::{b64, encode_string, unb64, Mem};
use bd_key_value::{Key, Storable};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Run};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Rec {
  a: u64,
  b: String,
  c: Vec<u8>,
  d: Option<i32>,
  e: bool,
}
impl Storable for Rec {}

static S: [Key<String>; 3] = [Key::new("s0"), Key::new("s1"), Key::new("s0.x")];
static R: [Key<Rec>; 2] = [Key::new("r0"), Key::new("r1")];

struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
  fn take(&mut self, n: u64) -> Option<&'a [u8]> {
    if n > self.0.len() as u64 {
      return None;
    }
    let (x, y) = self.0.split_at(n as usize);
    self.0 = y;
    Some(x)
  }
  fn u64(&mut self) -> Option<u64> {
    Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
  }
  fn string(&mut self) -> Option<String> {
    let n = self.u64()?;
    String::from_utf8(self.take(n)?.to_vec()).ok()
  }
}
fn decode_string(b: &[u8]) -> Option<String> {
  Cur(b).string()
}
fn decode_rec(b: &[u8]) -> Option<Rec> {
  let mut c = Cur(b);
  let a = c.u64()?;
  let s = c.string()?;
  let n = c.u64()?;
  let v = c.take(n)?.to_vec();
  let d = match c.take(1)?[0] {
    0 => None,
    1 => Some(i32::from_le_bytes(c.take(4)?.try_into().unwrap())),
    _ => return None,
  };
  let e = match c.take(1)?[0] {
    0 => false,
    1 => true,
    _ => return None,
  };
  Some(Rec { a, b: s, c: v, d, e })
}
fn encode_rec(r: &Rec) -> Vec<u8> {
  let mut v = r.a.to_le_bytes().to_vec();
  v.extend(encode_string(&r.b));
  v.extend((r.c.len() as u64).to_le_bytes());
  v.extend(&r.c);
  match r.d {
    None => v.push(0),
    Some(x) => {
      v.push(1);
      v.extend(x.to_le_bytes());
    },
  }
  v.push(u8::from(r.e));
  v
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Raw {
  Text(String),
  Bytes(Vec<u8>),
  /// A well-formed value with one byte changed / truncated / extended.
  Mutated { base: Box<Val>, at: u16, with: u8, cut: Option<u16>, tail: u8 },
  HugeLen { len: u64, body: Vec<u8> },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Val {
  S(String),
  R(Rec),
}
impl Val {
  fn bytes(&self) -> Vec<u8> {
    match self {
      Val::S(s) => encode_string(s),
      Val::R(r) => encode_rec(r),
    }
  }
}
impl Raw {
  fn text(&self) -> String {
    match self {
      Raw::Text(s) => s.clone(),
      Raw::Bytes(b) => b64(b),
      Raw::Mutated { base, at, with, cut, tail } => {
        let mut b = base.bytes();
        if !b.is_empty() {
          let n = b.len();
          b[*at as usize % n] ^= with;
        }
        if let Some(c) = cut {
          let n = b.len();
          b.truncate(*c as usize % (n + 1));
        }
        b.extend(std::iter::repeat(7).take(*tail as usize));
        b64(&b)
      },
      Raw::HugeLen { len, body } => {
        let mut b = len.to_le_bytes().to_vec();
        b.extend(body);
        b64(&b)
      },
    }
  }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
  SetS(usize, String),
  SetR(usize, Rec),
  GetS(usize),
  GetR(usize),
  /// Something else wrote to the underlying storage.
  RawS(usize, Raw),
  RawR(usize, Raw),
  Faults { set: bool, get: bool, delete: bool },
  Reopen,
}

fn text() -> impl Strategy<Value = String> {
  prop_oneof![
    800 => "[ -~]{0,20}",
    1 => (1000usize .. 150_000).prop_map(|n| "long value".chars().cycle().take(n).collect::<String>()),
    400 => "\\PC{0,12}",
    200 => Just(String::new()),
    200 => "[a-z]{100,300}",
  ]
}
fn rec() -> impl Strategy<Value = Rec> {
  (any::<u64>(), text(), prop::collection::vec(any::<u8>(), 0 .. 40), any::<Option<i32>>(), any::<bool>())
    .prop_map(|(a, b, c, d, e)| Rec { a, b, c, d, e })
}
fn raw() -> impl Strategy<Value = Raw> {
  let val = prop_oneof![text().prop_map(Val::S), rec().prop_map(Val::R)];
  prop_oneof![
    2 => "[A-Za-z0-9+/=]{0,24}".prop_map(Raw::Text),
    1 => "\\PC{0,12}".prop_map(Raw::Text),
    2 => prop::collection::vec(any::<u8>(), 0 .. 40).prop_map(Raw::Bytes),
    5 => (val, any::<u16>(), prop_oneof![Just(0u8), any::<u8>()], any::<Option<u16>>(), 0u8 .. 4)
      .prop_map(|(base, at, with, cut, tail)| Raw::Mutated { base: Box::new(base), at, with, cut, tail }),
    2 => (
        prop_oneof![Just(u64::MAX), Just(1 << 63), Just(1 << 62), Just(u64::from(u32::MAX)), any::<u64>(), 0u64 .. 64],
        prop::collection::vec(any::<u8>(), 0 .. 24)
      ).prop_map(|(len, body)| Raw::HugeLen { len, body }),
  ]
}
fn ops() -> impl Strategy<Value = Vec<Op>> {
  let op = prop_oneof![
    5 => (0usize .. 3, text()).prop_map(|(k, v)| Op::SetS(k, v)),
    4 => (0usize .. 2, rec()).prop_map(|(k, v)| Op::SetR(k, v)),
    6 => (0usize .. 3).prop_map(Op::GetS),
    5 => (0usize .. 2).prop_map(Op::GetR),
    3 => (0usize .. 3, raw()).prop_map(|(k, v)| Op::RawS(k, v)),
    3 => (0usize .. 2, raw()).prop_map(|(k, v)| Op::RawR(k, v)),
    1 => (any::<bool>(), prop::bool::weighted(0.2), any::<bool>())
      .prop_map(|(set, get, delete)| Op::Faults { set, get, delete }),
    2 => Just(Op::Faults { set: false, get: false, delete: false }),
    1 => Just(Op::Reopen),
  ];
  prop::collection::vec(op, 1 .. 30)
}

pub fn c01(run: &mut Run) {
  run.run(
    part(
      "history",
      40_000,
      1_000_000,
      "op sequences over 5 typed keys: set, get, foreign/corrupt raw contents, storage faults, reopen; compared with a map of raw \
       contents and an independent decoder; non-trivial = at least one get of a present entry",
    ),
    ops,
    |ops, obs| {
      let mem = Mem::default();
      let mut store = mem.store();
      // What storage must hold. None: not determined (a failed read may or may not have deleted).
      let mut model: HashMap<&'static str, Option<String>> = HashMap::new();
      let mut loose: std::collections::HashSet<&'static str> = Default::default();
      let s_names = ["s0", "s1", "s0.x"];
      let r_names = ["r0", "r1"];
      fn check_get<T: PartialEq + std::fmt::Debug>(
        mem: &Mem,
        model: &mut HashMap<&'static str, Option<String>>,
        loose: &mut std::collections::HashSet<&'static str>,
        name: &'static str,
        got: Option<T>,
        decode: impl Fn(&[u8]) -> Option<T>,
        obs: &mut vcommon::Obs,
      ) -> Result<(), Fail> {
        let (fail_get, fail_delete) = {
          let b = mem.0.lock();
          (b.fail_get, b.fail_delete)
        };
        if fail_get {
          ensure!(got.is_none(), "value {got:?} returned although storage reads fail");
          loose.insert(name);
          return Ok(());
        }
        let actual = mem.0.lock().map.get(name).cloned();
        if loose.remove(name) {
          // The failed read may have removed the entry; nothing else may have happened to it.
          let before = model.get(name).cloned().flatten();
          ensure!(
            actual == before || actual.is_none(),
            "entry {name} changed by a failed read: {actual:?} was {before:?}"
          );
          model.insert(name, actual.clone());
          // `actual` was read after the get under test, so decide from what is left.
          if actual.is_none() {
            ensure!(got.is_none(), "get({name}) returned {got:?} from an entry that is gone");
            return Ok(());
          }
        }
        let before = model.get(name).cloned().flatten();
        let want = before.as_deref().and_then(|t| unb64(t)).and_then(|b| decode(&b));
        ensure!(got == want, "get({name}) returned {got:?}, stored {want:?} (raw {before:?})");
        obs.nontrivial(want.is_some());
        if before.is_some() && want.is_none() {
          obs.label("malformed read");
          // Malformed data is dropped so that it does not stay forever.
          let after = if fail_delete { before } else { None };
          ensure_eq!(actual, after, "raw contents of {name} after reading malformed data");
          model.insert(name, actual);
        } else {
          ensure_eq!(actual, before, "raw contents of {name} after a get");
        }
        Ok(())
      }
      for op in ops {
        match op {
          Op::SetS(k, v) => {
            let fail = mem.0.lock().fail_set;
            store.set(&S[*k], v);
            if !fail {
              model.insert(s_names[*k], Some(b64(&encode_string(v))));
              loose.remove(s_names[*k]);
            }
          },
          Op::SetR(k, v) => {
            let fail = mem.0.lock().fail_set;
            store.set(&R[*k], v);
            if !fail {
              model.insert(r_names[*k], Some(b64(&encode_rec(v))));
              loose.remove(r_names[*k]);
            }
          },
          Op::GetS(k) => {
            let got = store.get(&S[*k]);
            check_get(&mem, &mut model, &mut loose, s_names[*k], got, decode_string, obs)?;
          },
          Op::GetR(k) => {
            let got = store.get(&R[*k]);
            check_get(&mem, &mut model, &mut loose, r_names[*k], got, decode_rec, obs)?;
          },
          Op::RawS(k, raw) => {
            mem.0.lock().map.insert(s_names[*k].to_string(), raw.text());
            model.insert(s_names[*k], Some(raw.text()));
            loose.remove(s_names[*k]);
          },
          Op::RawR(k, raw) => {
            mem.0.lock().map.insert(r_names[*k].to_string(), raw.text());
            model.insert(r_names[*k], Some(raw.text()));
            loose.remove(r_names[*k]);
          },
          Op::Faults { set, get, delete } => {
            let mut b = mem.0.lock();
            b.fail_set = *set;
            b.fail_get = *get;
            b.fail_delete = *delete;
          },
          Op::Reopen => store = mem.store(),
        }
        // Nothing but the entries addressed may change.
        let b = mem.0.lock();
        for name in s_names.iter().chain(&r_names) {
          if !loose.contains(name) {
            let want = model.get(name).cloned().flatten();
            ensure_eq!(b.map.get(*name).cloned(), want, "raw contents of {name} after {op:?}");
          }
        }
        ensure!(b.map.len() <= 5, "unexpected keys {:?}", b.map.keys());
      }
      Ok(())
    },
  );
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum DevOp {
  Id,
  IdConcurrent(u8),
  Restart,
  Raw(Raw),
  Wipe,
  FailSet(bool),
}

pub fn c02(run: &mut Run) {
  run.run(
    part(
      "history",
      12_000,
      200_000,
      "histories of id requests (also from several threads at once), process restarts, corrupted or wiped storage and failing writes; \
       non-trivial = at least one restart with a stored id",
    ),
    || {
      prop::collection::vec(
        prop_oneof![
          6 => Just(DevOp::Id),
          1 => (2u8 .. 5).prop_map(DevOp::IdConcurrent),
          4 => Just(DevOp::Restart),
          2 => raw().prop_map(DevOp::Raw),
          1 => Just(DevOp::Wipe),
          1 => any::<bool>().prop_map(DevOp::FailSet),
        ],
        1 .. 20,
      )
    },
    |ops, obs| {
      let mem = Mem::default();
      let mut dev = bd_device::Device::new(mem.store());
      let mut in_memory: Option<String> = None;
      let mut ever: std::collections::HashSet<String> = Default::default();
      const KEY: &str = "device.state";
      for op in ops {
        match op {
          DevOp::Id | DevOp::IdConcurrent(_) => {
            let before = mem.0.lock().map.get(KEY).cloned();
            let sets = mem.0.lock().sets;
            let ids = match op {
              DevOp::IdConcurrent(n) => std::thread::scope(|s| {
                let hs: Vec<_> = (0 .. *n).map(|_| s.spawn(|| dev.id())).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
              }),
              _ => vec![dev.id()],
            };
            let id = ids[0].clone();
            ensure!(ids.iter().all(|i| *i == id), "concurrent callers saw different ids {ids:?}");
            let wrote = mem.0.lock().sets - sets;
            let after = mem.0.lock().map.get(KEY).cloned();
            if let Some(m) = &in_memory {
              ensure_eq!(id, *m, "device id within one process");
              ensure_eq!(wrote, 0, "writes for a known id");
              ensure_eq!(after, before, "stored id changed by reading it");
              continue;
            }
            let stored = before.as_deref().and_then(unb64).and_then(|b| decode_string(&b));
            if let Some(s) = stored {
              obs.nontrivial(true);
              ensure_eq!(id, s, "device id after a restart");
              ensure_eq!(wrote, 0, "writes for a stored id");
              ensure_eq!(after, before, "stored id changed by reading it");
            } else {
              ensure!(
                uuid::Uuid::parse_str(&id).is_ok_and(|u| u.get_version_num() == 4),
                "new device id {id:?} is not a random UUID"
              );
              ensure!(ever.insert(id.clone()), "new device id {id} was used before");
              ensure_eq!(wrote, 1, "writes for a new id");
              if !mem.0.lock().fail_set {
                ensure_eq!(after, Some(b64(&encode_string(&id))), "what was stored for the new id");
              }
            }
            in_memory = Some(id);
          },
          DevOp::Restart => {
            dev = bd_device::Device::new(mem.store());
            in_memory = None;
          },
          DevOp::Raw(r) => {
            mem.0.lock().map.insert(KEY.to_string(), r.text());
          },
          DevOp::Wipe => {
            mem.0.lock().map.clear();
          },
          DevOp::FailSet(f) => mem.0.lock().fail_set = *f,
        }
      }
      Ok(())
    },
  );
}
