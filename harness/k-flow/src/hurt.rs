//! C30: what a damaged stored state, or one of other workflows, may do.
use crate::play::{config, distinct, feed, Sys};
use crate::spec::*;
use bd_api::upload::{IntentDecision, IntentResponse};
use bd_client_stats_store::MetricData;
use std::collections::BTreeMap;
use vcommon::{ensure, ensure_eq, Fail, Obs};

type Counters = BTreeMap<(String, BTreeMap<String, String>), u64>;

fn counters(sys: &Sys) -> Counters {
  let mut out = BTreeMap::new();
  sys.stats.collector_for_test().retain(|id, d| {
    if let MetricData::Counter(c) = d {
      out.insert((id.name.clone(), id.labels.clone()), c.get());
    }
    true
  });
  out
}

fn since(before: &Counters, now: Counters) -> Counters {
  now.into_iter().map(|(k, v)| (k.clone(), v - before.get(&k).copied().unwrap_or(0))).filter(|(_, v)| *v > 0).collect()
}

pub fn play(h: &Hurt, obs: &mut Obs) -> Result<(), Fail> {
  let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().map_err(|e| Fail::new(e.to_string()))?;
  rt.block_on(run(h, obs))
}

async fn run(h: &Hurt, obs: &mut Obs) -> Result<(), Fail> {
  let dir = tempfile::tempdir().unwrap();
  let (mut case, here) = (h.before.clone(), dir.path().join("a"));
  std::fs::create_dir(&here).unwrap();
  let mut sys = Sys::new(&here, case.limit, &[]);
  let which = distinct(&case, &(0 .. case.wfs.len()).collect::<Vec<_>>());
  sys.engine.start(config(&case, &which, case.buffers));
  let mut now = 1_700_000_000_000i64;
  for op in &case.ops {
    match op {
      Op::Log(l) => {
        now += i64::from(l.ms);
        feed(&mut sys, l, now);
        sys.active();
      },
      Op::Answer(Some(yes)) => {
        sys.pump().await;
        if let Some(i) = sys.intents.pop() {
          let decision = if *yes { IntentDecision::UploadImmediately } else { IntentDecision::Drop };
          let _ = i.response_tx.send(IntentResponse { uuid: i.uuid, decision });
        }
      },
      _ => unreachable!(),
    }
    sys.pump().await;
  }
  sys.engine.maybe_persist(true).await;
  let Some(path) = std::fs::read_dir(&here).unwrap().map(|e| e.unwrap().path()).find(|p| p.extension().is_some_and(|e| e == "bin")) else {
    return Ok(());
  };
  let stored = std::fs::read(&path).unwrap();
  let mut bytes = stored.clone();
  for w in &h.wounds {
    w.inflict(&mut bytes);
  }
  obs.nontrivial(bytes != stored || h.others.is_some());
  obs.label_if(bytes != stored, "damaged");
  obs.label_if(h.others.is_some(), "other workflows");
  std::fs::write(&path, bytes).unwrap();
  if let Some(o) = &h.others {
    case.wfs.clone_from(o);
  }
  let which = distinct(&case, &(0 .. case.wfs.len()).collect::<Vec<_>>());
  for again in 0 .. 2 {
    sys.restart(h.limit);
    sys.engine.start(config(&case, &which, case.buffers));
    for l in &h.after {
      now += i64::from(l.ms);
      feed(&mut sys, l, now);
      sys.pump().await;
      let active = sys.active();
      ensure!(active.is_some_and(|a| a <= f64::from(h.limit)), "start {again}: {active:?} active traversals");
    }
    sys.engine.maybe_persist(true).await;
  }

  // A session that nothing is known of: everything is as if there had never been anything.
  let there = dir.path().join("b");
  std::fs::create_dir(&there).unwrap();
  let mut clean = Sys::new(&there, h.limit, &[]);
  clean.engine.start(config(&case, &which, case.buffers));
  let before = counters(&sys);
  sys.sankeys.clear();
  let mut paths = 0;
  sys.active();
  for (i, l) in h.fresh.iter().enumerate() {
    now += i64::from(l.ms);
    let l = LogSpec { session: 77, ..l.clone() };
    let (a, b) = (feed(&mut sys, &l, now), feed(&mut clean, &l, now));
    ensure_eq!(a.screenshot, b.screenshot, "log {i} of a new session: screenshot");
    ensure_eq!(a.flush_ids, b.flush_ids, "log {i} of a new session: flush actions");
    ensure_eq!(a.flush_buffers, b.flush_buffers, "log {i} of a new session: buffers to be flushed");
    ensure_eq!(sys.active(), clean.active(), "log {i} of a new session: active traversals");
    ensure_eq!(since(&before, counters(&sys)), since(&Counters::new(), counters(&clean)), "log {i} of a new session: counters");
    sys.pump().await;
    clean.pump().await;
    paths += clean.sankeys.len();
  }
  obs.label_if(paths > 0, "diagram");
  Ok(())
}
