//! C03: fixed sessions. C16: activity based sessions.
use crate::store::{b64, encode_string, unb64, Mem};
use bd_session::{activity_based, fixed, Strategy as Session};
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::{Arc, Weak};
use time::OffsetDateTime;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Run};

fn is_uuid(s: &str) -> bool {
  uuid::Uuid::parse_str(s).is_ok_and(|u| u.get_version_num() == 4)
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Answer {
  Id(String),
  Fails,
  /// The host asks for the session id / a new session from within the callback.
  ReadsId(String),
  StartsNew(String),
  /// ... and then fails.
  ReadsIdThenFails,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
  Id,
  IdThreads(u8),
  New,
  Previous,
  Restart,
  Flush,
  FailSet(bool),
  Malformed,
}

struct Host {
  answers: parking_lot::Mutex<(Vec<Answer>, usize)>,
  strategy: parking_lot::Mutex<Weak<Session>>,
  given: parking_lot::Mutex<Vec<Option<String>>>,
  inner: parking_lot::Mutex<Vec<String>>,
}
impl fixed::Callbacks for Host {
  fn generate_session_id(&self) -> anyhow::Result<String> {
    let answer = {
      let mut a = self.answers.lock();
      let i = a.1;
      a.1 += 1;
      let n = a.0.len();
      a.0[i % n].clone()
    };
    let strategy = self.strategy.lock().upgrade();
    let out = match &answer {
      Answer::Id(s) => Some(s.clone()),
      Answer::Fails => None,
      Answer::ReadsId(s) => {
        if let Some(st) = strategy {
          self.inner.lock().push(st.session_id());
          self.inner.lock().push(st.session_id());
        }
        Some(s.clone())
      },
      Answer::ReadsIdThenFails => {
        if let Some(st) = strategy {
          self.inner.lock().push(st.session_id());
        }
        None
      },
      Answer::StartsNew(s) => {
        if let Some(st) = strategy {
          st.start_new_session();
        }
        Some(s.clone())
      },
    };
    self.given.lock().push(out.clone());
    out.ok_or_else(|| anyhow::anyhow!("injected callback failure"))
  }
}

const FIXED_KEY: &str = "session_strategy.fixed.state.1";

pub fn c03(run: &mut Run) {
  run.run(
    part(
      "history",
      30_000,
      500_000,
      "histories of reading the id (also from several threads), starting sessions, asking for the previous process's session and \
       restarting, with host callbacks that succeed, fail or re-enter, failing writes and malformed storage; non-trivial = a restart \
       followed by a question about the previous session",
    ),
    || {
      let answer = prop_oneof![
        4 => "[a-z]{1,4}".prop_map(Answer::Id),
        2 => Just(Answer::Fails),
        1 => "[a-z]{1,4}".prop_map(Answer::ReadsId),
        1 => "[a-z]{1,4}".prop_map(Answer::StartsNew),
        1 => Just(Answer::ReadsIdThenFails),
      ];
      let op = prop_oneof![
        5 => Just(Op::Id),
        1 => (2u8 .. 5).prop_map(Op::IdThreads),
        4 => Just(Op::New),
        4 => Just(Op::Previous),
        3 => Just(Op::Restart),
        1 => Just(Op::Flush),
        1 => any::<bool>().prop_map(Op::FailSet),
        1 => Just(Op::Malformed),
      ];
      (prop::collection::vec(answer, 1 .. 8), prop::collection::vec(op, 1 .. 20))
    },
    |(answers, ops), obs| {
      let mem = Mem::default();
      let host = Arc::new(Host {
        answers: parking_lot::Mutex::new((answers.clone(), 0)),
        strategy: parking_lot::Mutex::default(),
        given: parking_lot::Mutex::default(),
        inner: parking_lot::Mutex::default(),
      });
      let boot = || {
        let s = Arc::new(Session::Fixed(fixed::Strategy::new(mem.store(), host.clone())));
        *host.strategy.lock() = Arc::downgrade(&s);
        s
      };
      let mut s = boot();
      // (current, previous process's) once known in this process
      let mut state: Option<(String, Option<String>)> = None;
      let mut persisted: Option<String> = None;
      let mut fail = false;
      let mut fresh: HashSet<String> = HashSet::new();
      let mut restarts = 0;
      for op in ops {
        host.given.lock().clear();
        host.inner.lock().clear();
        let generated = |got: &str, fresh: &mut HashSet<String>| -> Result<(), Fail> {
          let given = host.given.lock();
          ensure_eq!(given.len(), 1, "host callbacks for one new session");
          match &given[0] {
            Some(id) => ensure_eq!(got, id, "session id, as given by the host"),
            None => {
              ensure!(is_uuid(got), "session id {got:?} after a failed callback is not a random UUID");
              ensure!(fresh.insert(got.to_string()), "session id {got} was used before");
            },
          }
          Ok(())
        };
        match op {
          Op::Id | Op::IdThreads(_) => {
            let got = match op {
              Op::IdThreads(n) => {
                let ids: Vec<String> = std::thread::scope(|sc| {
                  let hs: Vec<_> = (0 .. *n).map(|_| sc.spawn(|| s.session_id())).collect();
                  hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                ensure!(ids.iter().all(|i| *i == ids[0]), "threads saw different session ids {ids:?}");
                ids[0].clone()
              },
              _ => s.session_id(),
            };
            match &state {
              Some((id, _)) => {
                ensure_eq!(got, *id, "session id within a session");
                ensure!(host.given.lock().is_empty(), "reading a known id asked the host for a new one");
              },
              None => {
                generated(&got, &mut fresh)?;
                state = Some((got.clone(), persisted.clone()));
                if !fail {
                  persisted = Some(got);
                }
              },
            }
          },
          Op::New => {
            s.start_new_session();
            let given = host.given.lock().clone();
            ensure_eq!(given.len(), 1, "host callbacks for one new session");
            let before = state.clone();
            let got = s.session_id();
            ensure_eq!(host.given.lock().len(), 1, "host callbacks after a session was started");
            generated(&got, &mut fresh)?;
            state = Some((got.clone(), before.map_or_else(|| persisted.clone(), |b| b.1)));
            if !fail {
              persisted = Some(got);
            }
          },
          Op::Previous => {
            let got = s.previous_process_session_id();
            let want = state.as_ref().map_or_else(|| persisted.clone(), |s| s.1.clone());
            ensure_eq!(got, want, "session of the previous process (after {restarts} restarts)");
            obs.nontrivial(restarts > 0 && got.is_some());
          },
          Op::Restart => {
            s = boot();
            state = None;
            restarts += 1;
          },
          Op::Flush => s.flush(),
          Op::FailSet(f) => {
            fail = *f;
            mem.0.lock().fail_set = *f;
          },
          Op::Malformed => {
            if let Some(v) = mem.0.lock().map.get_mut(FIXED_KEY) {
              *v = b64(&[1, 2, 3]);
              persisted = None;
            }
          },
        }
        // What a host reads from inside its own callback is a throw-away id, never a deadlock.
        for id in host.inner.lock().iter() {
          ensure!(is_uuid(id) && fresh.insert(id.clone()), "id {id:?} read from within the callback");
        }
        let raw = mem.0.lock().map.get(FIXED_KEY).cloned();
        if let Some(p) = &persisted {
          ensure_eq!(raw, Some(b64(&encode_string(p))), "stored session after {op:?}");
        }
      }
      Ok(())
    },
  );
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum AOp {
  Id,
  IdThreads(u8),
  New,
  Previous,
  Flush,
  Restart,
  /// Nanoseconds, may be negative.
  Clock(i64),
  FailSet(bool),
  Malformed,
}

const ACT_KEY: &str = "session_strategy.activity_based.state.1";

struct Listener(parking_lot::Mutex<Vec<String>>);
impl activity_based::Callbacks for Listener {
  fn session_id_changed(&self, id: &str) {
    self.0.lock().push(id.to_string());
  }
}

fn stored(mem: &Mem) -> Option<(String, OffsetDateTime)> {
  let raw = mem.0.lock().map.get(ACT_KEY).cloned()?;
  let b = unb64(&raw)?;
  let n = u64::from_le_bytes(b.get(.. 8)?.try_into().ok()?) as usize;
  let id = String::from_utf8(b.get(8 .. 8 + n)?.to_vec()).ok()?;
  let rest = &b[8 + n ..];
  let m = u64::from_le_bytes(rest.get(.. 8)?.try_into().ok()?) as usize;
  let t = std::str::from_utf8(rest.get(8 .. 8 + m)?).ok()?;
  Some((id, OffsetDateTime::parse(t, &time::format_description::well_known::Rfc3339).ok()?))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct ACase {
  threshold_s: i64,
  ops: Vec<AOp>,
}

pub fn c16(run: &mut Run) {
  run.run(
    part(
      "history",
      40_000,
      600_000,
      "histories of reading the id, starting sessions, flushing, restarting and moving the clock by amounts around the inactivity \
       threshold and the 15 s write interval, forwards and backwards, with failing writes and malformed storage; non-trivial = both an \
       id kept across a gap and one replaced because of a gap",
    ),
    || {
      let gap = |t: i64| {
        prop_oneof![
          3 => 0i64 .. 20_000_000_000,
          3 => prop::sample::select(vec![-1i64, 0, 1]).prop_map(move |d| t * 1_000_000_000 + d),
          2 => prop::sample::select(vec![-1i64, 0, 1]).prop_map(move |d| 15_000_000_000 + d),
          1 => prop::sample::select(vec![-1i64, 0, 1]).prop_map(move |d| (t - 15) * 1_000_000_000 + d),
          2 => prop_oneof![Just(-1i64), -30_000_000_000i64 .. 0],
          1 => 0i64 .. 4 * (t + 1) * 1_000_000_000,
        ]
      };
      prop::sample::select(vec![0i64, 1, 14, 15, 16, 30, 1800]).prop_flat_map(move |t| {
        let op = prop_oneof![
          7 => Just(AOp::Id),
          1 => (2u8 .. 4).prop_map(AOp::IdThreads),
          2 => Just(AOp::New),
          2 => Just(AOp::Previous),
          1 => Just(AOp::Flush),
          2 => Just(AOp::Restart),
          8 => gap(t).prop_map(AOp::Clock),
          1 => any::<bool>().prop_map(AOp::FailSet),
          1 => prop::bool::weighted(0.4).prop_map(|b| if b { AOp::Malformed } else { AOp::Id }),
        ];
        prop::collection::vec(op, 1 .. 30).prop_map(move |ops| ACase { threshold_s: t, ops })
      })
    },
    activity_case,
  );
}

fn activity_case(case: &ACase, obs: &mut Obs) -> Result<(), Fail> {
  struct Mm {
    id: String,
    previous: Option<String>,
    last_activity: OffsetDateTime,
    last_write: Option<OffsetDateTime>,
  }
  let threshold = time::Duration::seconds(case.threshold_s);
  let interval = time::Duration::seconds(15);
  let mem = Mem::default();
  let clock = Arc::new(bd_time::TestTimeProvider::new(OffsetDateTime::from_unix_timestamp(1_700_000_000).unwrap()));
  let listener = Arc::new(Listener(parking_lot::Mutex::default()));
  let boot = || {
    Session::ActivityBased(activity_based::Strategy::new(threshold, mem.store(), listener.clone(), clock.clone()))
  };
  let mut s = boot();
  let mut m: Option<Mm> = None;
  let mut disk: Option<(String, OffsetDateTime)> = None;
  let mut fail = false;
  let mut fresh: HashSet<String> = HashSet::new();
  let (mut kept, mut replaced) = (false, false);
  for op in &case.ops {
    listener.0.lock().clear();
    let now = bd_time::TimeProvider::now(&*clock);
    let mut write: Option<(String, OffsetDateTime)> = None;
    match op {
      AOp::Id | AOp::IdThreads(_) => {
        let got = match op {
          AOp::IdThreads(n) => {
            let ids: Vec<String> = std::thread::scope(|sc| {
              let hs: Vec<_> = (0 .. *n).map(|_| sc.spawn(|| s.session_id())).collect();
              hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            ensure!(ids.iter().all(|i| *i == ids[0]), "threads saw different session ids {ids:?}");
            ids[0].clone()
          },
          _ => s.session_id(),
        };
        let (old, previous, last_activity, last_write) = match &m {
          Some(m) => (Some(m.id.clone()), m.previous.clone(), m.last_activity, m.last_write),
          None => match &disk {
            Some((id, t)) => (Some(id.clone()), Some(id.clone()), *t, None),
            None => (None, None, now, None),
          },
        };
        let gone = now < last_activity || now - last_activity > threshold;
        let must_keep = old.is_some() && !gone;
        if must_keep {
          ensure_eq!(
            Some(got.clone()),
            old,
            "session id after {} of inactivity (threshold {threshold})",
            now - last_activity
          );
          ensure!(listener.0.lock().is_empty(), "a change was announced although the session is the same");
          kept |= now > last_activity;
        } else {
          ensure!(
            Some(&got) != old.as_ref(),
            "session id kept although {} passed since the last activity (threshold {threshold})",
            now - last_activity
          );
          ensure!(is_uuid(&got) && fresh.insert(got.clone()), "new session id {got:?}");
          // Without any earlier session the announcement may name an id that is replaced at once
          // only if the threshold is zero or less, which the clock here cannot exceed.
          let announced = listener.0.lock().clone();
          if old.is_some() || threshold >= time::Duration::ZERO {
            ensure_eq!(announced, vec![got.clone()], "announced sessions");
          } else {
            ensure_eq!(announced.last(), Some(&got), "announced session");
          }
          replaced |= old.is_some();
        }
        let wrote = !must_keep && old.is_some() || last_write.is_none_or(|w| now - w > interval);
        if wrote {
          write = Some((got.clone(), now));
        }
        m = Some(Mm { id: got, previous, last_activity: now, last_write: if wrote { Some(now) } else { last_write } });
      },
      AOp::New => {
        let previous = m.as_ref().map_or_else(|| disk.as_ref().map(|d| d.0.clone()), |m| m.previous.clone());
        s.start_new_session();
        // The new id is the one stored, and that every later call reports; to ask now would hide when it is stored again.
        let got = match stored(&mem) {
          Some((id, _)) if !fail => id,
          _ => s.session_id(),
        };
        ensure!(m.as_ref().is_none_or(|m| m.id != got), "a new session was started but the id stayed {got}");
        ensure!(is_uuid(&got) && fresh.insert(got.clone()), "new session id {got:?}");
        m = Some(Mm { id: got.clone(), previous, last_activity: now, last_write: Some(now) });
        write = Some((got, now));
      },
      AOp::Previous => {
        let got = s.previous_process_session_id();
        let want = m.as_ref().map_or_else(|| disk.as_ref().map(|d| d.0.clone()), |m| m.previous.clone());
        ensure_eq!(got, want, "session of the previous process");
      },
      AOp::Flush => {
        s.flush();
        if let Some(m) = &m {
          write = Some((m.id.clone(), m.last_activity));
        }
      },
      AOp::Restart => {
        s = boot();
        m = None;
      },
      AOp::Clock(ns) => clock.advance(time::Duration::nanoseconds(*ns)),
      AOp::FailSet(f) => {
        fail = *f;
        mem.0.lock().fail_set = *f;
      },
      AOp::Malformed => {
        if let Some(v) = mem.0.lock().map.get_mut(ACT_KEY) {
          *v = b64(&[9, 0, 0]);
          disk = None;
        }
      },
    }
    if let (Some(w), false) = (write, fail) {
      disk = Some(w);
    }
    ensure_eq!(stored(&mem), disk, "stored session after {op:?}");
  }
  obs.nontrivial(kept && replaced);
  Ok(())
}
