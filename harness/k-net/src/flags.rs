//! C34: flags set at run time.
use crate::codec::quiet;
use bd_proto::protos::client::api::RuntimeUpdate;
use bd_proto::protos::client::runtime::runtime::{value, Value};
use bd_proto::protos::client::runtime::Runtime;
use bd_runtime::runtime::{ConfigLoader, FeatureFlag, RuntimeManager, Watch};
use bd_runtime::{bool_feature_flag, duration_feature_flag, int_feature_flag};
use protobuf::Message;
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::Arc;
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

int_feature_flag!(Int0, "a.i0", 7);
int_feature_flag!(Int1, "a.i1", 0);
bool_feature_flag!(Bool2, "b.b2", true);
bool_feature_flag!(Bool3, "b.b3", false);
duration_feature_flag!(Time4, "c.d4", time::Duration::milliseconds(50));
// The same names as others of them, by mistake.
bool_feature_flag!(Wrong0, "a.i0", true);
int_feature_flag!(Wrong4, "c.d4", 3);

const NAMES: [&str; 5] = ["a.i0", "a.i1", "b.b2", "b.b3", "c.d4"];
const DEFAULTS: [u32; 5] = [7, 0, 1, 0, 50];
const KINDS: [usize; 7] = [0, 0, 1, 1, 2, 1, 0];
const FLAG_OF: [usize; 7] = [0, 1, 2, 3, 4, 0, 4];

#[derive(Clone)]
enum W {
  I0(Watch<u32, Int0>),
  I1(Watch<u32, Int1>),
  B2(Watch<bool, Bool2>),
  B3(Watch<bool, Bool3>),
  T4(Watch<time::Duration, Time4>),
  X0(Watch<bool, Wrong0>),
  X4(Watch<u32, Wrong4>),
}
macro_rules! each {
  ($w:expr, $x:ident => $e:expr) => {
    match $w {
      W::I0($x) => ($e).number(),
      W::I1($x) => ($e).number(),
      W::B2($x) => ($e).number(),
      W::B3($x) => ($e).number(),
      W::T4($x) => ($e).number(),
      W::X0($x) => ($e).number(),
      W::X4($x) => ($e).number(),
    }
  };
}
trait Number {
  fn number(self) -> u32;
}
impl Number for u32 {
  fn number(self) -> u32 {
    self
  }
}
impl Number for bool {
  fn number(self) -> u32 {
    self.into()
  }
}
impl Number for time::Duration {
  fn number(self) -> u32 {
    // Any other number than a flag can be set to is taken for one that none is set to.
    u32::try_from(self.whole_milliseconds()).unwrap_or(4_123_456_789)
  }
}

fn register(l: &ConfigLoader, i: usize) -> anyhow::Result<W> {
  Ok(match i {
    0 => W::I0(Int0::register(l)?),
    1 => W::I1(Int1::register(l)?),
    2 => W::B2(Bool2::register(l)?),
    3 => W::B3(Bool3::register(l)?),
    4 => W::T4(Time4::register(l)?),
    5 => W::X0(Wrong0::register(l)?),
    _ => W::X4(Wrong4::register(l)?),
  })
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Op {
  /// flags and values, version; whether the process ends half way through storing it
  Update(Vec<(u8, u32)>, u8, bool),
  Register(u8),
  Seen(u8),
  Available,
  /// whether what is stored is looked at
  Restart(bool),
  Stored(Bad),
  Tries(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
enum Bad {
  Gone,
  Cut(u16),
  Flip(u16),
  /// as stored by versions that did not compress
  Plain,
  Directory,
}
const TRIES: [&str; 10] = ["", " 1", "-1", "x", "4294967295", "4294967296", "0", "5", "6", "-"];

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  ops: Vec<Op>,
}

fn case() -> impl Strategy<Value = Case> {
  let v = prop_oneof![4 => 0u32 .. 3, 1 => Just(7u32), 1 => Just(50u32), 1 => any::<u32>()];
  let bad = prop_oneof![
    1 => Just(Bad::Gone), 2 => any::<u16>().prop_map(Bad::Cut), 2 => any::<u16>().prop_map(Bad::Flip), 2 => Just(Bad::Plain), 1 => Just(Bad::Directory)
  ];
  let op = prop_oneof![
    5 => (prop::collection::vec((0u8 .. 6, v), 0 .. 5), 0u8 .. 4, prop::bool::weighted(0.15)).prop_map(|(v, n, c)| Op::Update(v, n, c)),
    4 => (0u8 .. 7).prop_map(Op::Register),
    3 => (0u8 .. 8).prop_map(Op::Seen),
    1 => Just(Op::Available),
    5 => prop::bool::weighted(0.9).prop_map(Op::Restart),
    1 => bad.prop_map(Op::Stored),
    1 => (0u8 .. TRIES.len() as u8).prop_map(Op::Tries),
  ];
  // Some histories are mostly starts in a row.
  prop_oneof![
    3 => prop::collection::vec(op.clone(), 1 .. 40),
    1 => (prop::collection::vec(op.clone(), 1 .. 5), prop::collection::vec(prop_oneof![12 => Just(Op::Restart(true)), 1 => op.clone()], 4 .. 12), prop::collection::vec(op, 1 .. 6))
      .prop_map(|(a, b, c)| [a, b, c].concat()),
  ]
  .prop_map(|ops| Case { ops })
}

fn update(values: &[(u8, u32)], version: u8) -> RuntimeUpdate {
  let mut r = Runtime::default();
  for (i, v) in values {
    let i = usize::from(*i);
    let mut x = Value::default();
    x.type_ = Some(match (i, KINDS.get(i)) {
      (5, _) => value::Type::StringValue("s".to_string()),
      (_, Some(1)) => value::Type::BoolValue(v % 2 == 1),
      _ => value::Type::UintValue(*v),
    });
    r.values.insert((*NAMES.get(i).unwrap_or(&"other")).to_string(), x);
  }
  // A configuration without any flags may come without the list of them.
  let runtime = (version % 2 == 0 || !r.values.is_empty()).then_some(r);
  RuntimeUpdate { version_nonce: format!("v{version}"), runtime: runtime.into(), ..Default::default() }
}

type Values = BTreeMap<usize, u32>;
fn values(v: &[(u8, u32)]) -> Values {
  v.iter().map(|(i, v)| (usize::from(*i), match KINDS.get(usize::from(*i)) { _ if *i > 4 => 1, Some(1) => v % 2, _ => *v })).collect()
}

#[derive(Clone, Debug, PartialEq)]
enum Stored {
  Nothing,
  Update(Values, String, Vec<(u8, u32)>, u8),
  /// nothing of use
  Broken,
  /// cut or changed somewhere: refused, or still what it was, or taken for an update without flags
  Doubtful(Values, String),
}

struct Process {
  loader: Arc<ConfigLoader>,
  manager: RuntimeManager,
  watches: Vec<(usize, W, u64)>,
  /// per flag: registered first as which, value, how often it changed
  first: BTreeMap<usize, (usize, u32, u64)>,
  current: Values,
  version: Option<String>,
  /// the version was told by a doubtful file
  vague: bool,
  heard: bool,
}

impl Process {
  fn new(dir: &Path) -> Self {
    let loader = ConfigLoader::new(dir);
    Self { manager: RuntimeManager::new(loader.clone()), loader, watches: vec![], first: BTreeMap::new(), current: Values::new(), version: None, vague: false, heard: false }
  }

  fn apply(&mut self, v: Values, version: String) {
    self.current = v;
    self.version = Some(version);
    self.vague = false;
    for (i, (_, old, changes)) in &mut self.first {
      let new = self.current.get(i).copied().unwrap_or(DEFAULTS[*i]);
      if new != *old {
        *old = new;
        *changes += 1;
      }
    }
  }

  fn check(&self) -> Res {
    if !self.vague {
      ensure_eq!(self.manager.version_nonce(), self.version, "version in use");
    }
    let s = self.loader.snapshot();
    for i in 0 .. 5 {
      let want = self.current.get(&i).copied().unwrap_or(DEFAULTS[i]);
      let got = match KINDS[i] {
        0 => s.get_integer(NAMES[i], DEFAULTS[i]),
        1 => s.get_bool(NAMES[i], DEFAULTS[i] == 1).into(),
        _ => {
          let d = s.get_duration(NAMES[i], time::Duration::milliseconds(DEFAULTS[i].into()));
          d.number()
        },
      };
      ensure_eq!(got, want, "value of {}", NAMES[i]);
    }
    ensure_eq!(s.get_string("nowhere", "none"), "none", "a text never set");
    ensure_eq!(s.get_string("other", "none"), if self.current.contains_key(&5) { "s" } else { "none" }, "a text");
    for (i, w, seen) in &self.watches {
      let (_, value, changes) = self.first[i];
      ensure_eq!(each!(w, x => x.read()), value, "watched value of {}", NAMES[*i]);
      ensure_eq!(each!(w, x => x.has_changed()) == 1, changes != *seen, "whether {} changed", NAMES[*i]);
    }
    Ok(())
  }
}

fn play(c: &Case, obs: &mut Obs) -> Res {
  quiet();
  ensure!(Int0::path() == NAMES[0] && Time4::path() == NAMES[4], "names");
  let dir = tempfile::tempdir().map_err(|e| Fail::new(e.to_string()))?;
  let (stored_file, tries_file) = (dir.path().join("runtime/update.pb"), dir.path().join("runtime/retry_count"));
  let mut p = Process::new(dir.path());
  let mut stored = Stored::Nothing;
  let mut tries: Option<u64> = None;
  let (mut kept, mut given_up, mut plain) = (0, 0, false);
  for op in &c.ops {
    match op {
      Op::Update(v, version, ends) => {
        let before = std::fs::read(&tries_file);
        plain = false;
        p.manager.process_update(&update(v, *version));
        p.apply(values(v), format!("v{version}"));
        if std::fs::metadata(&stored_file).is_ok_and(|m| m.is_dir()) {
          // Nothing can be stored there until the next start cleared it.
          tries = Some(0);
        } else {
          stored = Stored::Update(values(v), format!("v{version}"), v.clone(), *version);
          tries = Some(0);
        }
        if *ends {
          obs.label("ended while storing");
          match before {
            Ok(b) => {
              tries = std::str::from_utf8(&b).ok().and_then(|s| s.parse::<u32>().ok()).map(Into::into);
              std::fs::write(&tries_file, b).unwrap();
              tries = tries.or(Some(u64::MAX));
            },
            Err(_) => {
              tries = None;
              let _ = std::fs::remove_file(&tries_file);
            },
          }
        }
      },
      Op::Register(i) => {
        let i = usize::from(*i);
        let flag = FLAG_OF[i];
        if i > 4 && !p.first.contains_key(&flag) {
          continue;
        }
        let got = register(&p.loader, i);
        match p.first.get(&flag) {
          Some((f, ..)) if KINDS[*f] != KINDS[i] => {
            obs.label("registered as another type");
            ensure!(got.is_err(), "{} is watched as of two types", NAMES[flag]);
            continue;
          },
          Some(_) => (),
          None => {
            p.first.insert(flag, (i, p.current.get(&flag).copied().unwrap_or(DEFAULTS[flag]), 0));
          },
        }
        let w = got.map_err(|e| Fail::new(format!("{} cannot be watched: {e}", NAMES[flag])))?;
        p.watches.push((flag, w, p.first[&flag].2));
      },
      Op::Seen(i) => {
        let n = p.watches.len();
        if n > 0 {
          let (flag, w, seen) = &mut p.watches[usize::from(*i) % n];
          let (_, value, changes) = p.first[flag];
          *seen = changes;
          ensure_eq!(each!(w, x => x.read_mark_update()), value, "value of {} as it is marked seen", NAMES[*flag]);
        }
      },
      Op::Available => {
        p.manager.server_is_available();
        if !p.heard {
          tries = Some(0);
        }
        p.heard = true;
      },
      Op::Restart(look) => {
        p = Process::new(dir.path());
        if *look {
          p.manager.handle_cached_config();
          plain = false;
          let (was, n) = (stored.clone(), tries);
          match (&was, n) {
            (Stored::Nothing, _) | (Stored::Broken, _) | (_, None) => (stored, tries) = (Stored::Nothing, None),
            (_, Some(n)) if n > 5 => {
              obs.label("given up");
              given_up += 1;
              (stored, tries) = (Stored::Nothing, None);
            },
            (Stored::Update(v, version, ..), Some(n)) => {
              kept += 1;
              tries = Some(n + 1);
              p.apply(v.clone(), version.clone());
            },
            (Stored::Doubtful(v, version), Some(n)) => {
              tries = Some(n + 1);
              match p.manager.version_nonce() {
                None => (stored, tries) = (Stored::Nothing, None),
                Some(x) if x == *version => p.apply(v.clone(), x),
                Some(_) => p.vague = true,
              }
            },
          }
          if stored == Stored::Nothing {
            ensure!(!stored_file.exists(), "what was given up is still there");
          }
        }
      },
      Op::Stored(bad) => {
        let Ok(bytes) = std::fs::read(&stored_file) else { continue };
        let (Stored::Update(v, version, ..), false) = (&stored, bytes.is_empty()) else { continue };
        let doubtful = Stored::Doubtful(v.clone(), version.clone());
        match bad {
          Bad::Gone => {
            std::fs::remove_file(&stored_file).unwrap();
            stored = Stored::Nothing;
          },
          // What was not compressed has no checksum.
          Bad::Cut(_) | Bad::Flip(_) if plain => continue,
          Bad::Cut(n) => {
            std::fs::write(&stored_file, &bytes[.. usize::from(*n) % bytes.len()]).unwrap();
            stored = doubtful;
          },
          Bad::Flip(n) => {
            let mut b = bytes.clone();
            let n = usize::from(*n) % (b.len() * 8);
            b[n / 8] ^= 1 << (n % 8);
            std::fs::write(&stored_file, b).unwrap();
            stored = doubtful;
          },
          Bad::Plain => {
            if let Stored::Update(.., v, version) = &stored {
              std::fs::write(&stored_file, update(v, *version).write_to_bytes().unwrap()).unwrap();
              obs.label("stored without compression");
              plain = true;
            }
          },
          Bad::Directory => {
            std::fs::remove_file(&stored_file).unwrap();
            std::fs::create_dir(&stored_file).unwrap();
            stored = Stored::Broken;
          },
        }
        obs.label("damaged");
      },
      Op::Tries(t) => {
        if !tries_file.parent().unwrap().exists() {
          continue;
        }
        let t = TRIES[usize::from(*t)];
        if t == "-" {
          let _ = std::fs::remove_file(&tries_file);
          tries = None;
        } else {
          std::fs::write(&tries_file, t).unwrap();
          tries = Some(t.parse::<u32>().map_or(u64::MAX, Into::into));
        }
      },
    }
    p.check()?;
  }
  obs.nontrivial(kept > 0 && (p.watches.len() > 1 || given_up > 0));
  Ok(())
}

pub fn c34(run: &mut Run) {
  run.run(part("histories", 40_000, 1_500_000, "a stored configuration was used, and flags were watched or it was given up").shards(8), case, play);
}
