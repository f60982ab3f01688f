//! C27: the set of buffers as configured.
use crate::ring::payload;
use bd_buffer::{Buffer, BufferEvent, BuffersWithAck, CursorConsumer, Manager};
use bd_client_stats_store::Collector;
use bd_proto::protos::config::v1::config::{buffer_config, BufferConfig, BufferConfigList};
use bd_runtime::runtime::ConfigLoader;
use protobuf::{EnumOrUnknown, MessageField};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Seek, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Run};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
  /// Which buffers, whether of the other kind than usual, a bad one among them, and streaming.
  Update(Vec<usize>, bool, Option<usize>, bool),
  Write(usize, u32),
  /// Several writes without waiting for what happens to them.
  Burst(usize, Vec<u32>),
  /// Which buffers (there may be others than those), and whether somebody waits for it.
  Flush(Vec<usize>, bool),
  Read(usize, usize),
  /// Somebody keeps a reference.
  Hold(usize),
  Release,
  Restart,
  /// Damage to the header or the size of a file while it is closed.
  Break(usize, u16, u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
  pub kinds: Vec<bool>,
  pub ops: Vec<Op>,
}
struct One {
  trigger: bool,
  /// Written and not read, oldest first; those of a trigger buffer may be overwritten.
  records: Vec<Vec<u8>>,
  bytes: usize,
  ring: Option<Arc<Buffer>>,
  cursor: Option<CursorConsumer>,
  /// Some of it may still be in memory only.
  pending: bool,
}
const NV: u32 = 6000;
struct Sys {
  manager: Arc<Manager>,
  events: tokio::sync::mpsc::Receiver<bd_buffer::BufferEventWithResponse>,
  flush: tokio::sync::mpsc::Sender<BuffersWithAck>,
  task: tokio::task::JoinHandle<anyhow::Result<()>>,
}
impl Sys {
  fn new(dir: &std::path::Path) -> Self {
    let (manager, events) = Manager::new(dir.join("buffers"), &Collector::default().scope(""), &ConfigLoader::new(&dir.join("rt")));
    let (flush, rx) = tokio::sync::mpsc::channel(4);
    let m = manager.clone();
    let task = tokio::spawn(async move { m.process_flushes(rx).await });
    Self { manager, events, flush, task }
  }
}
/// Long the first time, and then not so long.
async fn patience<F: std::future::Future>(f: F) -> Result<F::Output, ()> {
  static OUT: AtomicBool = AtomicBool::new(false);
  let s = if OUT.load(Ordering::SeqCst) { 1 } else { 20 };
  tokio::time::timeout(Duration::from_secs(s), f).await.map_err(|_| OUT.store(true, Ordering::SeqCst))
}
fn name(i: usize) -> String {
  format!("buffer-{i}")
}
fn other(e: impl std::fmt::Display) -> Fail {
  Fail::new(format!("unexpected error: {e}"))
}
async fn run(case: &Case, obs: &mut Obs) -> Result<(), Fail> {
  let dir = tempfile::tempdir().unwrap();
  std::fs::create_dir_all(dir.path().join("buffers")).unwrap();
  let file = |i: usize| dir.path().join("buffers").join(name(i));
  let mut sys = Sys::new(dir.path());
  let mut live: BTreeMap<usize, One> = BTreeMap::new();
  // What was closed, as the file keeps it.
  let mut stored: BTreeMap<usize, One> = BTreeMap::new();
  let mut held: Vec<(usize, Arc<Buffer>)> = vec![];
  let mut streaming = false;
  let mut id = 0u64;
  let (mut changed, mut restarted, mut kept) = (0, 0, false);
  for (step, op) in case.ops.iter().enumerate() {
    let at = format!("step {step} {op:?}");
    match op {
      Op::Update(which, flip, bad, stream) => {
        let set: BTreeSet<usize> = which.iter().map(|i| i % case.kinds.len()).collect();
        // Somebody else still has the file of one that was removed.
        let busy = set.iter().any(|i| !live.contains_key(i) && held.iter().any(|(k, _)| k == i));
        // Of a refused update it is open what became of the files that it would have changed, so it does not
        // change any.
        let refused = busy || bad.is_some();
        let kinds: Vec<bool> = (0 .. case.kinds.len())
          .map(|i| if refused { stored.get(&i).map_or(case.kinds[i], |o| o.trigger) } else { case.kinds[i] ^ *flip })
          .collect();
        let kind = |i: usize| kinds[i];
        let mut list: Vec<BufferConfig> = set
          .iter()
          .map(|i| BufferConfig {
            id: name(*i),
            name: format!("n{i}"),
            type_: if kind(*i) { buffer_config::Type::TRIGGER } else { buffer_config::Type::CONTINUOUS }.into(),
            buffer_sizes: MessageField::some(buffer_config::BufferSizes {
              volatile_buffer_size_bytes: 480,
              non_volatile_buffer_size_bytes: if kind(*i) { 540 } else { NV },
              ..Default::default()
            }),
            ..Default::default()
          })
          .collect();
        if let Some(b) = bad {
          let bad = BufferConfig { id: "bad".into(), type_: EnumOrUnknown::from_i32(99), ..Default::default() };
          list.insert(b % (list.len() + 1), bad);
        }
        let list = BufferConfigList { buffer_config: list, ..Default::default() };
        let mut created = BTreeMap::new();
        let mut removed = BTreeSet::new();
        let mut stream_events = vec![];
        let result = {
          let update = sys.manager.update_from_config(&list, *stream);
          tokio::pin!(update);
          let mut open = vec![];
          loop {
            tokio::select! {
              biased;
              r = &mut update => {
                ensure!(r.is_err() || open.is_empty(), "{at}: done before everybody has taken notice");
                break r;
              },
              Some(e) = sys.events.recv() => {
                match &e.event {
                  BufferEvent::ContinuousBufferCreated(n, b) => {
                    ensure!(created.insert(n.clone(), (false, b.clone())).is_none(), "{at}: {n} created twice");
                  },
                  BufferEvent::TriggerBufferCreated(n, b) => {
                    ensure!(created.insert(n.clone(), (true, b.clone())).is_none(), "{at}: {n} created twice");
                  },
                  BufferEvent::BufferRemoved(n) => ensure!(removed.insert(n.clone()), "{at}: {n} removed twice"),
                  BufferEvent::StreamBufferAdded(_) => stream_events.push(true),
                  BufferEvent::StreamBufferRemoved(_) => stream_events.push(false),
                }
                open.push(e);
              },
              () = async { for _ in 0 .. 4 { tokio::task::yield_now().await } } => {
                // One of them after the other takes notice.
                ensure!(open.pop().is_some(), "{at}: nothing goes on");
              },
            }
          }
        };
        if bad.is_some() || busy {
          ensure!(result.is_err(), "{at}: accepted");
          ensure!(created.is_empty() && removed.is_empty() && stream_events.is_empty(), "{at}: events of a refused update");
          obs.label(if busy { "refused: file in use" } else { "refused" });
        } else {
          let s = result.map_err(other)?;
          ensure_eq!(s.is_some(), *stream, "{at}: stream buffer returned");
          ensure_eq!(stream_events, if streaming == *stream { vec![] } else { vec![*stream] }, "{at}: events of the stream buffer");
          streaming = *stream;
          let gone: BTreeSet<usize> = live.keys().filter(|i| !set.contains(i)).copied().collect();
          ensure_eq!(removed, gone.iter().map(|i| name(*i)).collect::<BTreeSet<_>>(), "{at}: removed");
          for i in &gone {
            let one = live.remove(i).unwrap();
            drop(one);
            changed += 1;
            let used = held.iter().any(|(k, _)| k == i);
            ensure_eq!(file(*i).exists(), used, "{at}: file of {i} after its removal");
          }
          for i in &set {
            if let Some(one) = live.get(i) {
              ensure!(!created.contains_key(&name(*i)), "{at}: {i} created again");
              kept |= !one.records.is_empty();
            } else {
              let (trigger, ring) = created.remove(&name(*i)).ok_or_else(|| Fail::new(format!("{at}: {i} was not announced")))?;
              ensure_eq!(trigger, kind(*i), "{at}: kind of {i}");
              // A file of another size starts over.
              let old = stored.remove(i).filter(|o| o.trigger == trigger);
              let mut one = old.unwrap_or(One { trigger, records: vec![], bytes: 0, ring: None, cursor: None, pending: false });
              kept |= !one.records.is_empty();
              if !trigger {
                one.cursor = Some(ring.create_continous_consumer().map_err(other)?);
              }
              one.ring = Some(ring);
              live.insert(*i, one);
              changed += 1;
            }
          }
          ensure!(created.is_empty(), "{at}: created without need");
        }
        let now: BTreeSet<String> = sys.manager.buffers().keys().cloned().collect();
        ensure_eq!(now, live.keys().map(|i| name(*i)).collect::<BTreeSet<_>>(), "{at}: buffers");
        for (i, one) in &live {
          let (ty, b) = sys.manager.buffers().remove(&name(*i)).unwrap();
          ensure_eq!(ty == buffer_config::Type::TRIGGER, one.trigger, "{at}: kind of {i} against what was announced");
          ensure!(Arc::ptr_eq(&b, one.ring.as_ref().unwrap()), "{at}: {i} is not the one that was announced");
        }
        ensure_eq!(sys.manager.stream_buffer().is_some(), streaming, "{at}: stream buffer");
      },
      Op::Write(i, n) => {
        if let Some(one) = live.get_mut(&(i % case.kinds.len())) {
          if !one.trigger && one.bytes + *n as usize + 8 > NV as usize / 2 {
            continue;
          }
          id += 1;
          let d = payload(id, *n);
          let ring = one.ring.as_ref().unwrap();
          if one.pending {
            ring.flush();
          }
          let mut p = ring.new_thread_local_producer().map_err(other)?;
          p.write(&d).map_err(|e| Fail::new(format!("{at}: write: {e}")))?;
          drop(p);
          ring.flush();
          one.pending = false;
          one.bytes += d.len() + 8;
          one.records.push(d);
        }
      },
      Op::Burst(i, sizes) => {
        if let Some(one) = live.get_mut(&(i % case.kinds.len())) {
          let ring = one.ring.as_ref().unwrap();
          let mut p = ring.new_thread_local_producer().map_err(other)?;
          // What does not fit into the memory may be dropped.
          let mut space = 400;
          if one.pending {
            ring.flush();
          }
          for n in sizes {
            if !one.trigger && one.bytes + *n as usize + 8 > NV as usize / 2 {
              continue;
            }
            id += 1;
            let d = payload(id, *n);
            let needed = d.len() + 16;
            if needed > space {
              ring.flush();
              space = 400;
            }
            space -= needed;
            p.write(&d).map_err(|e| Fail::new(format!("{at}: write: {e}")))?;
            one.pending = true;
            one.bytes += d.len() + 8;
            one.records.push(d);
          }
        }
      },
      Op::Flush(which, wait) => {
        let (tx, rx) = bd_completion::Sender::new();
        let names = which.iter().map(|i| name(*i)).collect();
        // Something unknown or removed does not stand in the way of the others, or of later ones.
        obs.label_if(which.iter().any(|i| !live.contains_key(i)), "flush of something unknown");
        sys.flush.send(BuffersWithAck::new(names, wait.then_some(tx))).await.map_err(|_| Fail::new(format!("{at}: flushes are no longer processed")))?;
        if *wait {
          match patience(rx.recv()).await {
            Ok(Ok(())) => {
              let all = which.is_empty();
              for (_, one) in live.iter_mut().filter(|(i, _)| all || which.contains(i)) {
                one.pending = false;
              }
            },
            Ok(Err(e)) => return Err(Fail::new(format!("{at}: no answer to a flush: {e}"))),
            Err(_) => return Err(Fail::new(format!("{at}: a flush does not end"))),
          }
        }
        tokio::task::yield_now().await;
        ensure!(!sys.task.is_finished(), "{at}: flushes are no longer processed");
      },
      Op::Read(i, n) => {
        if let Some(one) = live.get_mut(&(i % case.kinds.len())) {
          let flushed = !one.pending;
          if one.pending {
            one.ring.as_ref().unwrap().flush();
            one.pending = false;
          }
          if one.trigger {
            // All of it, at once.
            let mut c = one.ring.as_ref().unwrap().new_consumer().map_err(other)?;
            let mut got = vec![];
            loop {
              match c.try_read() {
                Ok(r) => got.push(r),
                Err(bd_buffer::Error::AbslStatus(bd_buffer::AbslCode::Unavailable, _)) => break,
                Err(e) => return Err(other(e)),
              }
            }
            ensure!(one.records.ends_with(&got), "{at}: what was read are not the latest records");
            let bytes: usize = got.iter().map(|r| r.len() + 8).sum();
            // As many as fit, but for the gap at the end.
            if let Some(next) = one.records.iter().rev().nth(got.len()) {
              let longest = one.records.iter().map(|r| r.len() + 8).max().unwrap_or(0);
              ensure!(bytes + next.len() + 8 + 2 * longest > 500, "{at}: only {bytes} bytes of records are left");
              obs.label("trigger buffer overwritten");
            }
            one.records.clear();
          } else {
            let c = one.cursor.as_mut().unwrap();
            for _ in 0 .. (*n).min(one.records.len()) {
              let want = one.records.remove(0);
              one.bytes -= want.len() + 8;
              if flushed {
                let at_once = tokio::time::timeout(Duration::ZERO, c.read()).await;
                let got = at_once.map_err(|_| Fail::new(format!("{at}: a record that was flushed is not there")))?;
                ensure_eq!(got.map_err(other)?, &want[..], "{at}: record read");
                c.advance_read_cursor().map_err(other)?;
                continue;
              }
              let got = patience(c.read()).await.map_err(|_| Fail::new(format!("{at}: a record is not readable")))?;
              ensure_eq!(got.map_err(other)?, &want[..], "{at}: record read");
              c.advance_read_cursor().map_err(other)?;
            }
          }
        }
      },
      Op::Hold(i) => {
        if let Some(one) = live.get(&(i % case.kinds.len())) {
          held.push((i % case.kinds.len(), one.ring.clone().unwrap()));
        }
      },
      Op::Release => {
        if let Some((i, b)) = held.pop() {
          drop(b);
          if !live.contains_key(&i) && !held.iter().any(|(k, _)| *k == i) {
            ensure!(!file(i).exists(), "{at}: file of {i} after the last one let go of it");
          }
        }
      },
      Op::Restart => {
        held.clear();
        restarted += 1;
        let Sys { manager, events, flush, task } = sys;
        drop((events, flush));
        task.await.unwrap().map_err(other)?;
        drop(manager);
        for (i, mut one) in std::mem::take(&mut live) {
          if one.pending {
            one.ring.as_ref().unwrap().flush();
          }
          one.cursor = None;
          one.ring = None;
          one.pending = false;
          stored.insert(i, one);
        }
        for i in stored.keys() {
          ensure!(file(*i).exists(), "{at}: file of {i} after a restart");
        }
        streaming = false;
        sys = Sys::new(dir.path());
      },
      Op::Break(i, off, x) => {
        if let Some(one) = stored.get_mut(&(i % case.kinds.len())) {
          let path = file(i % case.kinds.len());
          let mut f = std::fs::File::options().read(true).write(true).open(path).unwrap();
          if *off < 36 {
            // The version, or the size: to something that they never are.
            let second = *off / 4 % 2 == 1;
            f.seek(std::io::SeekFrom::Start(if second { 4 } else { 0 })).unwrap();
            f.write_all(&[if second { x | 1 } else { x | 2 }]).unwrap();
          } else {
            f.set_len(u64::from(*off) % 300).unwrap();
          }
          one.records.clear();
          one.bytes = 0;
          obs.label("file damaged while closed");
        }
      },
    }
  }
  obs.nontrivial(changed >= 3 && kept);
  obs.label_if(restarted > 0, "restarted");
  Ok(())
}
fn play(case: &Case, obs: &mut Obs) -> Result<(), Fail> {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let r = rt.block_on(run(case, obs));
  drop(rt);
  r
}
fn case() -> impl Strategy<Value = Case> + Clone {
  let i = 0usize .. 4;
  let op = prop_oneof![
    8 => (
      prop::collection::vec(i.clone(), 0 .. 5),
      prop::bool::weighted(0.1),
      prop_oneof![9 => Just(None), 1 => (0usize .. 5).prop_map(Some)],
      any::<bool>()
    )
      .prop_map(|(w, f, b, s)| Op::Update(w, f, b, s)),
    24 => (i.clone(), prop_oneof![8u32 .. 60, 8u32 .. 200]).prop_map(|(i, n)| Op::Write(i, n)),
    5 => (i.clone(), prop::collection::vec(8u32 .. 40, 1 .. 9)).prop_map(|(i, n)| Op::Burst(i, n)),
    5 => (prop::collection::vec(0usize .. 6, 0 .. 4), any::<bool>()).prop_map(|(w, a)| Op::Flush(w, a)),
    6 => (i.clone(), 1usize .. 8).prop_map(|(i, n)| Op::Read(i, n)),
    1 => i.clone().prop_map(Op::Hold),
    2 => Just(Op::Release),
    3 => Just(Op::Restart),
    1 => (i, 0u16 .. 60, any::<u8>()).prop_map(|(i, o, x)| Op::Break(i, o, x)),
  ];
  // What was written just before a flush, and is looked at right behind it.
  let flushed = (0usize .. 4, prop::collection::vec(8u32 .. 30, 2 .. 9), prop::collection::vec(0usize .. 6, 0 .. 3), any::<bool>()).prop_map(|(i, n, mut others, all)| {
    if !all {
      others.push(i);
    }
    let which = if all { vec![] } else { others };
    vec![Op::Burst(i, n), Op::Flush(which, true), Op::Read(i, 200)]
  });
  let ops = prop_oneof![9 => op.prop_map(|o| vec![o]), 1 => flushed];
  (prop::collection::vec(any::<bool>(), 4), prop::collection::vec(ops, 1 .. 80)).prop_map(|(kinds, ops)| Case { kinds, ops: ops.concat() })
}
pub fn c27(run: &mut Run) {
  run.run(
    part("histories", 1_500, 60_000, "buffers came and went, and one with unread records stayed").shards(8).max_shrink(60),
    case,
    |c, obs| crate::damage::guarded(c, obs, play),
  );
}
