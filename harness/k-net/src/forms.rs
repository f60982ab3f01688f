//! C35: stored forms of logs and of messages.
use bd_client_common::fb::{make_log, root_as_log};
use bd_client_common::file::{read_compressed_protobuf, write_compressed_protobuf};
use bd_log_primitives::{LogField, LogType, StringOrBytes};
use bd_proto::flatbuffers::buffer_log::bitdrift_public::fbs::logging::v_1::{Data, Log};
use bd_proto::protos::client::api::LogUploadRequest;
use flatbuffers::FlatBufferBuilder;
use time::OffsetDateTime;
use vcommon::proptest::prelude::*;
use vcommon::serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Res, Run};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(crate = "vcommon::serde")]
enum Text {
  T(String),
  B(Vec<u8>),
}
impl Text {
  fn real(&self) -> StringOrBytes<String, Vec<u8>> {
    match self {
      Text::T(s) => StringOrBytes::String(s.clone()),
      Text::B(b) => StringOrBytes::Bytes(b.clone()),
    }
  }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Entry {
  level: u32,
  kind: u8,
  message: Text,
  fields: Vec<(String, Text)>,
  session: String,
  /// nanoseconds since 1970
  at: (i64, u32),
  actions: Vec<String>,
  streams: Vec<String>,
  /// storing it fails
  fails: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct Case {
  logs: Vec<Entry>,
  /// damage to each stored log: place, value; and where it is cut
  damage: Vec<(u16, u8)>,
  cut: u16,
}

fn text() -> impl Strategy<Value = String> {
  prop_oneof![3 => "[a-z_]{0,6}", 2 => "\\PC{0,12}", 1 => "[\\x00-\\x7f]{0,9}", 1 => "x{40,300}"]
}
fn any_text() -> impl Strategy<Value = Text> {
  prop_oneof![
    300 => text().prop_map(Text::T),
    100 => prop::collection::vec(any::<u8>(), 0 .. 40).prop_map(Text::B),
    1 => (60_000usize .. 70_000).prop_map(|n| Text::T("é".repeat(n / 2))),
    1 => (60_000usize .. 70_000, any::<u8>()).prop_map(|(n, v)| Text::B(vec![v; n])),
  ]
}

fn case() -> impl Strategy<Value = Case> {
  let secs = prop_oneof![2 => -3i64 .. 3, 3 => 1_600_000_000i64 .. 1_900_000_000, 1 => -377_705_116_800i64 ..= 253_402_300_799];
  let nanos = prop_oneof![1 => Just(0u32), 1 => Just(1u32), 1 => Just(999_999_999u32), 2 => 0u32 .. 1_000_000_000];
  let names = || prop_oneof![50 => prop::collection::vec(text(), 0 .. 4), 1 => prop::collection::vec("[a-z]{0,2}", 4 .. 300)];
  let entry = (
    prop_oneof![4 => 0u32 .. 5, 1 => any::<u32>()],
    0u8 .. 10,
    any_text(),
    prop_oneof![
      50 => prop::collection::vec((prop_oneof![2 => "[ab]", 1 => text()], any_text()), 0 .. 6),
      1 => prop::collection::vec(("[a-z]{0,2}".prop_map(|s| s), any_text()), 6 .. 300),
    ],
    text(),
    (secs, nanos),
    names(),
    names(),
    prop::bool::weighted(0.1),
  )
    .prop_map(|(level, kind, message, fields, session, at, actions, streams, fails)| Entry { level, kind, message, fields, session, at, actions, streams, fails });
  (prop::collection::vec(entry, 1 .. 5), prop::collection::vec((any::<u16>(), any::<u8>()), 0 .. 4), any::<u16>())
    .prop_map(|(logs, damage, cut)| Case { logs, damage, cut })
}

fn data(kind: Data, s: Option<&str>, b: Option<&[u8]>) -> Result<Text, Fail> {
  match (kind, s, b) {
    (Data::string_data, Some(s), None) => Ok(Text::T(s.to_string())),
    (Data::binary_data, None, Some(b)) => Ok(Text::B(b.to_vec())),
    x => Err(Fail::new(format!("data of no kind: {x:?}"))),
  }
}

fn same(log: &Log<'_>, e: &Entry) -> Res {
  ensure_eq!(log.log_level(), e.level, "level");
  ensure_eq!(log.log_type().0, u32::from(e.kind), "type");
  let m = data(log.message_type(), log.message_as_string_data().map(|d| d.data()), log.message_as_binary_data().map(|d| d.data().bytes()))?;
  ensure_eq!(m, e.message, "message");
  let mut fields = vec![];
  for f in log.fields().iter().flatten() {
    let v = data(f.value_type(), f.value_as_string_data().map(|d| d.data()), f.value_as_binary_data().map(|d| d.data().bytes()))?;
    fields.push((f.key().to_string(), v));
  }
  ensure_eq!(fields, e.fields, "fields");
  ensure_eq!(log.session_id(), Some(e.session.as_str()), "session");
  let t = log.timestamp().ok_or("no time")?;
  ensure_eq!((t.seconds(), t.nanos()), (e.at.0, e.at.1 as i32), "time");
  ensure_eq!(log.workflow_action_ids().iter().flatten().map(str::to_string).collect::<Vec<_>>(), e.actions, "actions");
  ensure_eq!(log.stream_ids().iter().flatten().map(str::to_string).collect::<Vec<_>>(), e.streams, "streams");
  Ok(())
}

/// Reads all there is; that it ends and harms nothing is all that is asked.
fn look(log: &Log<'_>) -> usize {
  let mut n = log.message_as_string_data().map_or(0, |d| d.data().chars().count()) + log.message_as_binary_data().map_or(0, |d| d.data().len());
  for f in log.fields().iter().flatten() {
    n += f.key().chars().count();
    n += f.value_as_string_data().map_or(0, |d| d.data().chars().count()) + f.value_as_binary_data().map_or(0, |d| d.data().len());
  }
  n += log.session_id().map_or(0, |s| s.chars().count());
  n += log.workflow_action_ids().iter().flatten().chain(log.stream_ids().iter().flatten()).map(|s| s.chars().count()).sum::<usize>();
  n + log.timestamp().map_or(0, |t| t.nanos() as usize & 1)
}

fn logs(c: &Case, obs: &mut Obs) -> Res {
  let mut builder = FlatBufferBuilder::new();
  let mut stored: Vec<(usize, Vec<u8>)> = vec![];
  for (i, e) in c.logs.iter().enumerate() {
    let at = OffsetDateTime::from_unix_timestamp(e.at.0).unwrap() + time::Duration::nanoseconds(e.at.1.into());
    let fields = e.fields.iter().map(|(k, v)| LogField { key: k.clone(), value: v.real() }).collect();
    let got = make_log(
      &mut builder,
      e.level,
      LogType(e.kind.into()),
      &e.message.real(),
      &fields,
      &e.session,
      at,
      e.actions.iter().map(String::as_str),
      e.streams.iter().map(String::as_str),
      |b| {
        stored.push((i, b.to_vec()));
        if e.fails { anyhow::bail!("full") } else { Ok(()) }
      },
    );
    ensure_eq!(got.is_err(), e.fails, "storing failed");
    ensure_eq!(stored.len(), i + 1, "times a log was stored");
  }
  for (i, b) in &stored {
    let log = root_as_log(b).map_err(|e| Fail::new(format!("a stored log cannot be read: {e}")))?;
    same(&log, &c.logs[*i])?;
  }
  // Logs with anything wrong are refused or can be read to the end.
  let mut readable = 0;
  for (_, b) in &mut stored {
    let _ = root_as_log(&b[.. usize::from(c.cut) % b.len()]).map(|l| look(&l));
    for (at, v) in &c.damage {
      let n = b.len();
      b[usize::from(*at) % n] = *v;
    }
    if let Ok(l) = root_as_log(b) {
      readable += 1;
      look(&l);
    }
  }
  obs.label_if(readable > 0 && !c.damage.is_empty(), "readable in spite of damage");
  obs.nontrivial(c.logs.len() > 1 && c.logs.iter().any(|l| l.fields.len() > 1));
  Ok(())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(crate = "vcommon::serde")]
struct File {
  id: u8,
  logs: Vec<(u16, u8)>,
  flips: Vec<u16>,
  junk: Vec<u8>,
  #[serde(default)]
  more: u8,
}

fn file() -> impl Strategy<Value = File> {
  let size = prop_oneof![3 => 0u16 .. 20, 2 => 80u16 .. 400, 1 => 1000u16 .. 3000];
  (0u8 .. 40, prop::collection::vec((size, any::<u8>()), 0 .. 3), prop::collection::vec(any::<u16>(), 1 .. 20), prop::collection::vec(any::<u8>(), 0 .. 60), prop_oneof![150 => Just(0u8), 1 => any::<u8>()])
    .prop_map(|(id, logs, flips, junk, more)| File { id, logs, flips, junk, more })
}

fn files(c: &File, obs: &mut Obs) -> Res {
  let logs = c.logs.iter().map(|(n, s)| (0 .. u32::from(*n) * (1 + u32::from(c.more))).map(|i| if s % 2 == 0 { *s } else { (i ^ (i >> 3)).wrapping_mul(u32::from(*s)) as u8 }).collect()).collect();
  let m = LogUploadRequest { upload_uuid: "u".repeat(c.id.into()), logs, ..Default::default() };
  let b = write_compressed_protobuf(&m);
  let read = |b: &[u8]| read_compressed_protobuf::<LogUploadRequest>(b);
  let back = read(&b).map_err(|e| Fail::new(format!("what was written cannot be read: {e}")))?;
  ensure!(back == m, "what was written reads differently");
  // Every length, for what is not too long.
  let step = (b.len() / 200).max(1);
  for n in (0 .. b.len()).step_by(step).chain(b.len().saturating_sub(12) .. b.len()) {
    ensure!(read(&b[.. n]).is_err(), "{n} of {} bytes are taken for the whole", b.len());
  }
  for f in &c.flips {
    let mut d = b.clone();
    let n = usize::from(*f) % (d.len() * 8);
    d[n / 8] ^= 1 << (n % 8);
    ensure!(read(&d).map_or(true, |x| x == m), "with bit {n} of {} changed it reads as something else", d.len() * 8);
  }
  let _ = read(&c.junk);
  obs.nontrivial(b.len() > 100);
  Ok(())
}

pub fn c35(run: &mut Run) {
  run.run(part("logs", 40_000, 2_000_000, "several logs, one of them with several fields").shards(8), case, logs);
  run.run(part("files", 20_000, 600_000, "more than a hundred bytes").shards(8), file, files);
}
