//! C33: messages on the wire.
use bd_client_common::error::{Reporter, UnexpectedErrorHandler};
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_proto::protos::client::api::LogUploadRequest;
use protobuf::Message;
use std::borrow::Cow;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Once};
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

struct Quiet;
impl Reporter for Quiet {
  fn report(&self, _: &str, _: &Option<String>, _: &HashMap<Cow<'_, str>, Cow<'_, str>>) {}
}
pub fn quiet() {
  static ONCE: Once = Once::new();
  ONCE.call_once(|| UnexpectedErrorHandler::set_reporter(Arc::new(Quiet)));
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[serde(crate = "vcommon::serde")]
enum Mode {
  Plain,
  Single(u8),
  Whole(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Msg {
  id: u8,
  /// size and seed of each log; odd seeds give contents that does not compress
  logs: Vec<(u16, u8)>,
  /// how often the contents of each log is repeated beyond once, with other bytes each time
  #[serde(default)]
  more: u8,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
#[serde(crate = "vcommon::serde")]
enum Damage {
  /// a bit of the contents (modulo its size)
  Flip(u16),
  /// the contents is cut, and its announced size with it
  Cut(u16),
  /// contents of no meaning, said to be compressed or not
  Junk(u8, bool),
  /// something is added to the contents
  More(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Stream {
  mode: Mode,
  /// the receiver knows about compression although the sender does not use it
  able: bool,
  small: bool,
  messages: Vec<Msg>,
  damage: Option<(u8, Damage)>,
  counted_from: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  streams: Vec<Stream>,
  /// which stream goes on, how many bytes arrive at once
  order: Vec<(u8, u16)>,
}

fn msg() -> impl Strategy<Value = Msg> {
  let size = prop_oneof![3 => 0u16 .. 20, 4 => 80u16 .. 106, 2 => 200u16 .. 600, 1 => 1000u16 .. 9000];
  (0u8 .. 40, prop::collection::vec((size, any::<u8>()), 0 .. 3)).prop_map(|(id, logs)| Msg { id, logs, more: 0 })
}

/// Messages of up to some megabytes among ordinary ones.
fn large() -> impl Strategy<Value = Case> {
  let big = (0u8 .. 40, prop::collection::vec((500u16 .. 20_000, any::<u8>()), 1 .. 3), 4u8 .. 90).prop_map(|(id, logs, more)| Msg { id, logs, more });
  let mode = prop_oneof![1 => Just(Mode::Plain), 3 => (0u8 .. 10).prop_map(Mode::Single), 3 => (0u8 .. 10).prop_map(Mode::Whole)];
  let messages = prop::collection::vec(prop_oneof![1 => msg(), 2 => big], 1 .. 5);
  let stream = (mode, any::<bool>(), any::<bool>(), messages, 0u8 .. 6)
    .prop_map(|(mode, able, small, messages, counted_from)| Stream { mode, able, small, messages, damage: None, counted_from });
  let bytes = prop_oneof![1 => 0u16 .. 200, 2 => 200u16 .. 9000, 3 => any::<u16>()];
  (prop::collection::vec(stream, 1 .. 3), prop::collection::vec((0u8 .. 4, bytes), 0 .. 30)).prop_map(|(streams, order)| Case { streams, order })
}

fn case() -> impl Strategy<Value = Case> {
  let mode = prop_oneof![1 => Just(Mode::Plain), 3 => (0u8 .. 10).prop_map(Mode::Single), 2 => (0u8 .. 10).prop_map(Mode::Whole)];
  let damage = prop_oneof![
    3 => any::<u16>().prop_map(Damage::Flip),
    3 => any::<u16>().prop_map(Damage::Cut),
    2 => (0u8 .. 200, any::<bool>()).prop_map(|(a, b)| Damage::Junk(a, b)),
    1 => any::<u8>().prop_map(Damage::More),
  ];
  let stream = (mode, any::<bool>(), any::<bool>(), prop::collection::vec(msg(), 0 .. 6), prop::option::weighted(0.25, (0u8 .. 5, damage)), 0u8 .. 6)
    .prop_map(|(mode, able, small, messages, damage, counted_from)| Stream { mode, able, small, messages, damage, counted_from });
  let bytes = prop_oneof![3 => 0u16 .. 12, 2 => 12u16 .. 200, 1 => 200u16 .. 9000];
  (prop::collection::vec(stream, 1 .. 4), prop::collection::vec((0u8 .. 4, bytes), 0 .. 60)).prop_map(|(streams, order)| Case { streams, order })
}

fn build(m: &Msg) -> LogUploadRequest {
  let logs = m
    .logs
    .iter()
    .map(|(n, seed)| {
      let mut x = u32::from(*seed) + 1;
      (0 .. u32::from(*n) * (1 + u32::from(m.more)))
        .map(|i| {
          if seed % 2 == 0 {
            return (i / 64) as u8 ^ seed;
          }
          x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
          (x >> 16) as u8
        })
        .collect()
    })
    .collect();
  LogUploadRequest { upload_uuid: "u".repeat(usize::from(m.id)), logs, ..Default::default() }
}

#[derive(Debug, Default)]
struct Count(AtomicU64);
impl bd_stats_common::Counter for Count {
  fn inc(&self) {
    self.inc_by(1);
  }
  fn inc_by(&self, n: u64) {
    self.0.fetch_add(n, Ordering::SeqCst);
  }
}
impl Count {
  fn get(&self) -> u64 {
    self.0.load(Ordering::SeqCst)
  }
}

struct Peer<'a> {
  c: &'a Stream,
  enc: Encoder<LogUploadRequest>,
  dec: Decoder<LogUploadRequest>,
  next: usize,
  wire: Vec<u8>,
  read: usize,
  /// where each message ends on the wire
  ends: Vec<usize>,
  want: Vec<LogUploadRequest>,
  got: Vec<LogUploadRequest>,
  counts: Option<[Arc<Count>; 4]>,
  /// the message that was damaged, and whether damage must show
  bad: Option<(usize, bool)>,
  /// damage that cannot go unnoticed
  refused: bool,
  over: bool,
}

fn size(m: &LogUploadRequest) -> u64 {
  m.write_to_bytes().unwrap().len() as u64
}

impl<'a> Peer<'a> {
  fn new(c: &'a Stream) -> Self {
    let compression = match c.mode {
      Mode::Plain => None,
      Mode::Single(l) => Some(Compression::StatelessZlib { level: l.into() }),
      Mode::Whole(l) => Some(Compression::StatefulZlib { level: l.into() }),
    };
    let decompression = match c.mode {
      Mode::Plain if !c.able => None,
      Mode::Plain | Mode::Single(_) => Some(Decompression::StatelessZlib),
      Mode::Whole(_) => Some(Decompression::StatefulZlib),
    };
    Self {
      c,
      enc: Encoder::new(compression),
      dec: Decoder::new(decompression, if c.small { OptimizeFor::Memory } else { OptimizeFor::Cpu }),
      next: 0,
      wire: vec![],
      read: 0,
      ends: vec![],
      want: vec![],
      got: vec![],
      counts: None,
      bad: None,
      refused: false,
      over: false,
    }
  }

  fn send(&mut self, obs: &mut Obs) -> Res {
    let Some(m) = self.c.messages.get(self.next) else { return Ok(()) };
    if self.next == usize::from(self.c.counted_from) {
      let c: [Arc<Count>; 4] = std::array::from_fn(|_| Arc::default());
      self.enc.initialize_stats(c[0].clone(), c[1].clone());
      self.dec.initialize_stats(c[2].clone(), c[3].clone());
      self.counts = Some(c);
    }
    let m = build(m);
    let mut frame = self.enc.encode(&m).to_vec();
    // The frame by the rules of the protocol.
    ensure!(frame.len() >= 5 && frame[0] < 2, "a frame begins {:?}", &frame[.. frame.len().min(5)]);
    ensure_eq!(u32::from_be_bytes(frame[1 .. 5].try_into().unwrap()) as usize, frame.len() - 5, "announced size");
    let compressed = frame[0] == 1;
    ensure!(!compressed || self.c.mode != Mode::Plain, "compressed although nobody asked");
    if !compressed {
      ensure_eq!(frame[5 ..].to_vec(), m.write_to_bytes().unwrap(), "contents of a plain frame");
    }
    obs.label_if(compressed, "compressed");
    obs.label_if(!compressed && self.c.mode != Mode::Plain, "too small to compress");
    let sent: u64 = self.enc.bandwidth_stats().0;
    let (before, plain) = (self.wire.len() as u64, self.want.iter().map(|m| size(m) + 5).sum::<u64>());
    if self.bad.is_none() {
      ensure_eq!(sent, before + frame.len() as u64, "bytes sent");
    }
    ensure_eq!(self.enc.bandwidth_stats().1, plain + size(&m) + 5, "bytes sent before compression");
    if let Some((at, d)) = self.c.damage {
      if usize::from(at) == self.next {
        obs.label("damaged");
        let whole = matches!(self.c.mode, Mode::Single(_)) && compressed;
        let orig = frame.clone();
        match d {
          Damage::Flip(i) if frame.len() > 5 => {
            let i = usize::from(i) % ((frame.len() - 5) * 8);
            frame[5 + i / 8] ^= 1 << (i % 8);
            self.bad = Some((self.next, whole));
          },
          Damage::Cut(i) if frame.len() > 5 => {
            let n = usize::from(i) % (frame.len() - 5);
            frame.truncate(5 + n);
            self.bad = Some((self.next, whole));
          },
          Damage::More(n) => {
            frame.extend((0 ..= n % 9).map(|i| i.wrapping_mul(n)));
            self.bad = Some((self.next, whole));
            self.refused = whole;
          },
          Damage::Junk(n, flag) => {
            frame.truncate(5);
            frame[0] = flag.into();
            frame.extend((0 .. n).map(|i| i.wrapping_mul(37).wrapping_add(n)));
            self.bad = Some((self.next, flag && !matches!(self.c.mode, Mode::Whole(_))));
          },
          _ => (),
        }
        let n = (frame.len() - 5) as u32;
        frame[1 .. 5].copy_from_slice(&n.to_be_bytes());
        if frame == orig {
          self.bad = None;
        }
      }
    }
    self.wire.extend(frame);
    self.ends.push(self.wire.len());
    self.want.push(m);
    self.next += 1;
    Ok(())
  }

  fn receive(&mut self, n: usize, obs: &mut Obs) -> Res {
    if self.over {
      return Ok(());
    }
    let to = (self.read + n).min(self.wire.len());
    let got = self.dec.decode_data(&self.wire[self.read .. to]);
    self.read = to;
    let whole = self.ends.iter().filter(|e| **e <= to).count();
    match self.bad {
      Some((at, strict)) if at < whole => {
        // Whatever comes of it, it is not taken for a message it never was.
        match got {
          Err(_) => obs.label("damage refused"),
          Ok(more) => {
            self.got.extend(more);
            ensure!(!self.refused, "a message with something behind its end was accepted");
            if strict {
              ensure!(self.got.get(at) == Some(&self.want[at]), "a damaged message was taken for another one: {:?}", self.got.get(at).map(|m| m.logs.len()));
            }
          },
        }
        self.over = true;
      },
      _ => {
        let more = got.map_err(|e| Fail::new(format!("{:?} stream ends: {e}", self.c.mode)))?;
        self.got.extend(more);
        ensure_eq!(self.got.len(), whole, "messages after {to} bytes");
        ensure!(self.got[..] == self.want[.. whole], "messages are not what was sent");
        let (rx, plain) = self.dec.bandwidth_stats();
        ensure_eq!(rx, to as u64, "bytes received");
        ensure_eq!(plain, self.got.iter().map(size).sum::<u64>(), "bytes received after decompression");
        if let Some(c) = &self.counts {
          ensure_eq!((c[2].get(), c[3].get()), (rx, plain), "counters of what was received");
          ensure_eq!((c[0].get(), c[1].get()), self.enc.bandwidth_stats(), "counters of what was sent");
        }
      },
    }
    Ok(())
  }
}

/// Some of the state is per thread, so each case has one of its own.
fn play(c: &Case, obs: &mut Obs) -> Res {
  quiet();
  std::thread::scope(|s| match s.spawn(|| on_thread(c, obs)).join() {
    Ok(r) => r,
    Err(p) => std::panic::resume_unwind(p),
  })
}

fn on_thread(c: &Case, obs: &mut Obs) -> Res {
  let mut peers: Vec<Peer> = c.streams.iter().map(Peer::new).collect();
  let n = peers.len();
  let mut split = 0;
  for (i, bytes) in &c.order {
    let p = &mut peers[usize::from(*i) % n];
    p.send(obs)?;
    p.receive((*bytes).into(), obs)?;
    split += usize::from(p.read < p.wire.len());
  }
  for p in &mut peers {
    while p.next < p.c.messages.len() {
      p.send(obs)?;
    }
    p.receive(usize::MAX - p.read, obs)?;
  }
  let big = peers.iter().flat_map(|p| &p.got).map(size).max().unwrap_or(0);
  obs.label_if(big > 1 << 16, "more than 64 kB in one message");
  obs.label_if(big > 1 << 20, "more than 1 MB in one message");
  obs.nontrivial(split > 1 && peers.iter().filter(|p| !p.got.is_empty()).count() > 1);
  Ok(())
}

pub fn c33(run: &mut Run) {
  run.run(part("streams", 40_000, 2_000_000, "messages of several streams arrived, some of them in pieces").shards(8), case, play);
  run.run(part("large", 240, 12_000, "messages of several streams arrived, some of them in pieces").shards(8).max_shrink(300), large, play);
}
