//! C45: streams over the bundled HTTP/2 network, against a server that speaks h2 on the loopback interface.

use bd_api::{PlatformNetworkManager, PlatformNetworkStream, StreamEvent};
use bd_hyper_network::HyperNetwork;
use bd_shutdown::ComponentShutdownTrigger;
use bytes::Bytes;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::time::Duration;
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::mpsc;
use vcommon::proptest::prelude::*;
use vcommon::{part, Fail, Obs, Res, Run};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
  /// The owner of the stream sends messages of these sizes.
  Up(Vec<u16>),
  /// The server sends messages of these sizes.
  Down(Vec<u16>),
  /// Both at once.
  Both(Vec<u16>, Vec<u16>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Start {
  /// The server takes the stream.
  Taken,
  /// The server takes the stream and says that the status is 0.
  TakenOk,
  /// The server answers with another status.
  Status(u16),
  /// The server answers 200 with a gRPC status of its own.
  Grpc(u8),
  /// The stream is reset before there is an answer.
  Reset,
  /// The connection is cut before there is an answer.
  Cut,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
  /// The server ends the stream, after these last messages.
  Close(Vec<u16>),
  Trailers(Vec<u16>),
  Reset,
  Cut,
  /// The server says that the connection goes away, then ends the stream.
  GoAway(Vec<u16>),
  /// The owner gives up on the stream; the server then (or before, while nobody reads) sends this (sizes), and may end it.
  Gone(Vec<u16>, Option<bool>, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
  start: Start,
  headers: Vec<(u8, u8)>,
  /// How many events wait at most for the owner.
  room: u8,
  steps: Vec<Step>,
  end: End,
  /// What the owner still sends afterwards.
  stale: Vec<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
  lives: Vec<Life>,
  /// At the end: shut down while a stream is up, or the last handle goes.
  last: u8,
}

fn sizes(n: usize) -> impl Strategy<Value = Vec<u16>> {
  let one = prop_oneof![1 => Just(0u16), 6 => 1u16 .. 40, 2 => 40u16 .. 3000, 1 => 15000u16 .. 40000];
  prop::collection::vec(one, 0 ..= n)
}

fn life() -> impl Strategy<Value = Life> {
  let start = prop_oneof![
    8 => Just(Start::Taken),
    2 => Just(Start::TakenOk),
    2 => prop_oneof![Just(204u16), Just(201), Just(302), Just(401), Just(404), Just(500), Just(503), Just(299)].prop_map(Start::Status),
    2 => (1u8 .. 20).prop_map(Start::Grpc),
    1 => Just(Start::Reset),
    1 => Just(Start::Cut),
  ];
  let step = prop_oneof![
    2 => sizes(4).prop_map(Step::Up),
    2 => sizes(4).prop_map(Step::Down),
    1 => (sizes(3), sizes(3)).prop_map(|(a, b)| Step::Both(a, b)),
  ];
  let end = prop_oneof![
    3 => sizes(4).prop_map(End::Close),
    2 => sizes(4).prop_map(End::Trailers),
    1 => Just(End::Reset),
    1 => Just(End::Cut),
    1 => sizes(3).prop_map(End::GoAway),
    3 => (sizes(4), prop::option::of(any::<bool>()), any::<bool>()).prop_map(|(a, b, c)| End::Gone(a, b, c)),
  ];
  let headers = prop::collection::vec((0u8 .. 6, any::<u8>()), 0 .. 4);
  (start, headers, prop_oneof![Just(1u8), Just(2), Just(16)], prop::collection::vec(step, 0 .. 5), end, sizes(3))
    .prop_map(|(start, headers, room, steps, end, stale)| Life { start, headers, room, steps, end, stale })
}

fn case(n: usize) -> impl Strategy<Value = Case> {
  (prop::collection::vec(life(), 1 ..= n), 0u8 .. 3).prop_map(|(lives, last)| Case { lives, last })
}

/// Bytes that say where they belong.
struct Ink(u32);
impl Ink {
  fn take(&mut self, n: u16) -> Vec<u8> {
    (0 .. n)
      .map(|_| {
        self.0 = self.0.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        (self.0 >> 24) as u8
      })
      .collect()
  }
}

fn other(e: impl std::fmt::Debug) -> Fail {
  Fail::new(format!("{e:?}").trim_matches('"').to_string())
}

const PATIENCE: Duration = Duration::from_secs(20);

async fn within<T>(what: &str, f: impl std::future::Future<Output = T>) -> Result<T, Fail> {
  tokio::time::timeout(PATIENCE, f).await.map_err(|_| other(format!("{what}: nothing within {PATIENCE:?}")))
}

/// A request as the server got it, and the connection it came over.
struct Taken {
  request: http::Request<h2::RecvStream>,
  respond: h2::server::SendResponse<Bytes>,
  conn: mpsc::UnboundedSender<Drop>,
}

enum Drop {
  Cut,
  GoAway,
}

async fn connection(socket: TcpStream, out: mpsc::UnboundedSender<Taken>) {
  let (tx, mut rx) = mpsc::unbounded_channel();
  let _ = socket.set_nodelay(true);
  let Ok(mut conn) = h2::server::handshake(socket).await else {
    return;
  };
  loop {
    tokio::select! {
      next = conn.accept() => match next {
        Some(Ok((request, respond))) => {
          if out.send(Taken { request, respond, conn: tx.clone() }).is_err() {
            return;
          }
        },
        _ => return,
      },
      what = rx.recv() => match what {
        Some(Drop::Cut) => return,
        Some(Drop::GoAway) => conn.graceful_shutdown(),
        None => {},
      },
    }
  }
}

/// Sends all of this, as the window allows.
async fn pour(to: &mut h2::SendStream<Bytes>, data: Vec<u8>) -> Result<(), h2::Error> {
  let mut data = Bytes::from(data);
  if data.is_empty() {
    return to.send_data(data, false);
  }
  while !data.is_empty() {
    to.reserve_capacity(data.len());
    while to.capacity() == 0 {
      match std::future::poll_fn(|cx| to.poll_capacity(cx)).await {
        Some(r) => {
          r?;
        },
        None => return Ok(()),
      }
    }
    let n = to.capacity().min(data.len());
    to.send_data(data.split_to(n), false)?;
  }
  Ok(())
}

/// Reads until there are that many bytes.
async fn read_up(from: &mut h2::RecvStream, n: usize) -> Result<Vec<u8>, Fail> {
  let mut got = Vec::new();
  while got.len() < n {
    match from.data().await {
      Some(Ok(b)) => {
        let _ = from.flow_control().release_capacity(b.len());
        got.extend_from_slice(&b);
      },
      other_ => return Err(other(format!("the server got {} of {n} bytes, then {other_:?}", got.len()))),
    }
  }
  Ok(got)
}

async fn read_down(from: &mut mpsc::UnboundedReceiver<StreamEvent>, n: usize) -> Result<Vec<u8>, Fail> {
  let mut got = Vec::new();
  while got.len() < n {
    match from.recv().await {
      Some(StreamEvent::Data(b)) => got.extend_from_slice(&b),
      Some(StreamEvent::StreamClosed(why)) => {
        return Err(other(format!("the stream's owner got {} of {n} bytes, then that it is closed ({why})", got.len())))
      },
      None => return Err(other(format!("the stream's owner got {} of {n} bytes, then is forgotten", got.len()))),
    }
  }
  Ok(got)
}

fn same(what: &str, got: &[u8], want: &[u8]) -> Res {
  if got != want {
    let at = got.iter().zip(want).position(|(a, b)| a != b);
    return Err(other(format!("{what}: {} bytes arrive where {} were sent; the first to differ: {at:?}", got.len(), want.len())));
  }
  Ok(())
}

fn written(ink: &mut Ink, sizes: &[u16]) -> Vec<Vec<u8>> {
  sizes.iter().map(|n| ink.take(*n)).collect()
}

/// Reads events as they come, until told to stop.
#[allow(clippy::type_complexity)]
fn reader(
  mut rx: mpsc::Receiver<StreamEvent>,
) -> (mpsc::UnboundedReceiver<StreamEvent>, tokio::sync::oneshot::Sender<()>, tokio::task::JoinHandle<mpsc::Receiver<StreamEvent>>) {
  let (tx, all) = mpsc::unbounded_channel();
  let (stop, mut stopped) = tokio::sync::oneshot::channel::<()>();
  let reading = tokio::spawn(async move {
    loop {
      tokio::select! {
        biased;
        _ = &mut stopped => return rx,
        e = rx.recv() => match e {
          Some(e) => drop(tx.send(e)),
          None => return rx,
        },
      }
    }
  });
  (all, stop, reading)
}

/// What is left is these bytes, then that the stream is closed, once.
async fn ends(rx: &mut mpsc::UnboundedReceiver<StreamEvent>, want: Option<&[u8]>) -> Res {
  let mut got = Vec::new();
  loop {
    match within("the end of the stream", rx.recv()).await? {
      Some(StreamEvent::Data(b)) => got.extend_from_slice(&b),
      Some(StreamEvent::StreamClosed(_)) => break,
      None => return Err(other("a stream ends, and its owner is not told")),
    }
  }
  if let Some(want) = want {
    same("before the end of the stream", &got, want)?;
  }
  match within("the stream's owner let go", rx.recv()).await? {
    None => Ok(()),
    Some(e) => Err(other(format!("after the end of the stream: {e:?}"))),
  }
}

struct World {
  handle: bd_hyper_network::Handle,
  taken: mpsc::UnboundedReceiver<Taken>,
  ink: Ink,
  /// What the server does not let go of, as the client may still read it.
  kept: Vec<(h2::SendStream<Bytes>, h2::RecvStream)>,
}

impl World {
  async fn send(&self, stream: &mut Box<dyn PlatformNetworkStream>, data: Vec<Vec<u8>>) -> Res {
    for d in data {
      within("sending", stream.send_data(&d)).await?.map_err(other)?;
    }
    Ok(())
  }

  async fn life(&mut self, life: &Life, obs: &mut Obs) -> Res {
    let (event_tx, rx) = mpsc::channel(life.room.into());
    let (mut rx, stop, reading) = reader(rx);
    let headers: HashMap<String, String> = life.headers.iter().map(|(k, v)| (format!("x-{k}"), format!("v{v}"))).collect();
    let mut stream = {
      let h: HashMap<&str, &str> = headers.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
      within("starting a stream", self.handle.start_stream(event_tx, &(), &h)).await?.map_err(other)?
    };
    let Taken { request, mut respond, conn } =
      within("a stream started after what came before", self.taken.recv()).await?.ok_or_else(|| other("the server is gone"))?;
    if request.method() != "POST" || request.uri().path() != "/bitdrift_public.protobuf.client.v1.ApiService/Mux" {
      return Err(other(format!("a stream starts as {} {}", request.method(), request.uri())));
    }
    let got: HashMap<String, String> = request
      .headers()
      .iter()
      .filter(|(k, _)| k.as_str().starts_with("x-"))
      .map(|(k, v)| (k.to_string(), v.to_str().unwrap_or("?").to_string()))
      .collect();
    if got != headers {
      return Err(other(format!("a stream starts with the headers {got:?}, not {headers:?}")));
    }
    let mut from = request.into_body();
    let answer = |status: u16, grpc: Option<u8>| {
      let mut r = http::Response::builder().status(status);
      if let Some(g) = grpc {
        r = r.header("grpc-status", g.to_string()).header("grpc-message", "no%20thanks");
      }
      r.body(()).unwrap()
    };
    // What the server still says on a stream that it refuses is not for the owner.
    let said = written(&mut self.ink, &life.stale);
    let mut refuse = |status: u16, grpc: Option<u8>| -> Result<Option<h2::SendStream<Bytes>>, Fail> {
      let mut to = respond.send_response(answer(status, grpc), said.is_empty()).map_err(other)?;
      for d in &said {
        let _ = to.send_data(Bytes::from(d.clone()), false);
      }
      Ok((!said.is_empty()).then_some(to))
    };
    let refused = match &life.start {
      Start::Taken | Start::TakenOk => None,
      Start::Status(s) => Some(("status", refuse(*s, None)?)),
      Start::Grpc(g) => Some(("grpc", refuse(200, Some(*g))?)),
      Start::Reset => {
        respond.send_reset(h2::Reason::INTERNAL_ERROR);
        Some(("reset", None))
      },
      Start::Cut => {
        let _ = conn.send(Drop::Cut);
        Some(("cut", None))
      },
    };
    if let Some((how, to)) = refused {
      obs.label(how);
      ends(&mut rx, Some(&[])).await?;
      self.kept.extend(to.map(|to| (to, from)));
      let stale = written(&mut self.ink, &life.stale);
      return self.send(&mut stream, stale).await;
    }
    let mut to =
      respond.send_response(answer(200, (life.start == Start::TakenOk).then_some(0)), false).map_err(other)?;

    for step in &life.steps {
      let (up, down) = match step {
        Step::Up(u) => (u.as_slice(), [].as_slice()),
        Step::Down(d) => ([].as_slice(), d.as_slice()),
        Step::Both(u, d) => (u.as_slice(), d.as_slice()),
      };
      let (up, down) = (written(&mut self.ink, up), written(&mut self.ink, down));
      let (all_up, all_down) = (up.concat(), down.concat());
      let sending = self.send(&mut stream, up);
      let pouring = async {
        for d in down {
          pour(&mut to, d).await.map_err(other)?;
        }
        Ok::<(), Fail>(())
      };
      let both = async {
        tokio::join!(sending, pouring, read_up(&mut from, all_up.len()), read_down(&mut rx, all_down.len()))
      };
      let (a, b, got_up, got_down) = within("bytes both ways", both).await?;
      a?;
      b?;
      same("at the server", &got_up?, &all_up)?;
      same("at the stream's owner", &got_down?, &all_down)?;
    }

    let last = match &life.end {
      End::Close(s) | End::Trailers(s) | End::GoAway(s) | End::Gone(s, ..) => written(&mut self.ink, s),
      End::Reset | End::Cut => vec![],
    };
    let all = last.concat();
    if let End::Gone(_, closes, before) = &life.end {
      obs.label("gone");
      obs.nontrivial(true);
      drop(stop);
      let events = within("the owner's reader", reading).await?.map_err(other)?;
      let events = before.then_some(events);
      for d in last {
        // Whatever the client does about it.
        let _ = tokio::time::timeout(Duration::from_millis(20), pour(&mut to, d)).await;
      }
      match closes {
        Some(true) => {
          let _ = to.send_data(Bytes::new(), true);
        },
        Some(false) => to.send_reset(h2::Reason::CANCEL),
        None => {},
      }
      drop(events);
      self.kept.push((to, from));
      return Ok(());
    }
    let end = async {
      for d in last {
        pour(&mut to, d).await.map_err(other)?;
      }
      match &life.end {
        End::Close(_) => to.send_data(Bytes::new(), true).map_err(other)?,
        End::Trailers(_) => {
          let mut t = http::HeaderMap::new();
          t.insert("grpc-status", "0".parse().unwrap());
          to.send_trailers(t).map_err(other)?;
        },
        End::Reset => to.send_reset(h2::Reason::CANCEL),
        End::Cut => {
          let _ = conn.send(Drop::Cut);
        },
        End::GoAway(_) => {
          let _ = conn.send(Drop::GoAway);
          to.send_data(Bytes::new(), true).map_err(other)?;
        },
        End::Gone(..) => {},
      }
      Ok::<(), Fail>(())
    };
    let (a, b) = tokio::join!(end, ends(&mut rx, Some(&all)));
    a?;
    b?;
    drop((to, from));
    let stale = written(&mut self.ink, &life.stale);
    self.send(&mut stream, stale).await
  }
}

async fn all(case: &Case, obs: &mut Obs) -> Res {
  let listener = TcpListener::bind("127.0.0.1:0").await.map_err(other)?;
  let at = listener.local_addr().map_err(other)?;
  let (taken_tx, taken) = mpsc::unbounded_channel();
  let accepting = tokio::spawn(async move {
    let mut conns = tokio::task::JoinSet::new();
    while let Ok((socket, _)) = listener.accept().await {
      conns.spawn(connection(socket, taken_tx.clone()));
    }
  });
  let trigger = ComponentShutdownTrigger::default();
  let (network, handle) = HyperNetwork::new(&format!("http://{at}"), trigger.make_shutdown());
  let mut running = tokio::spawn(network.start());
  let mut w = World { handle, taken, ink: Ink(7), kept: vec![] };
  for (n, life) in case.lives.iter().enumerate() {
    let lived = tokio::select! {
      biased;
      end = &mut running => Err(other(format!("the network ends on its own: {end:?}"))),
      r = w.life(life, obs) => r,
    };
    lived.map_err(|e| Fail { msg: format!("stream {n}: {}", e.msg), ..e })?;
  }
  // The end, with nothing up or with a stream up.
  let mut up = None;
  if case.last > 0 {
    let (event_tx, rx) = mpsc::channel(16);
    let (rx, stop, reading) = reader(rx);
    if running.is_finished() {
      return Err(other("the network ends on its own"));
    }
    let stream = within("starting a stream", w.handle.start_stream(event_tx, &(), &HashMap::new())).await?.map_err(other)?;
    let Taken { request, mut respond, .. } =
      within("the last stream started", w.taken.recv()).await?.ok_or_else(|| other("the server is gone"))?;
    let mut to = respond.send_response(http::Response::new(()), false).map_err(other)?;
    to.send_data(Bytes::from_static(b"!"), false).map_err(other)?;
    let mut rx = rx;
    within("the last stream's first byte", read_down(&mut rx, 1)).await??;
    up = Some((stream, (rx, stop, reading), request, to));
  }
  if case.last == 2 {
    let Some((stream, rx, request, to)) = up.take() else { return Ok(()) };
    drop((stream, w.handle));
    up = None;
    within("the end, after the last handle went", running).await?.map_err(other)?.map_err(other)?;
    drop((rx, request, to));
  } else {
    within("everything let go, after being shut down", trigger.shutdown()).await?;
    within("the end, after being shut down", running).await?.map_err(other)?.map_err(other)?;
  }
  drop(up);
  accepting.abort();
  Ok(())
}

fn play(case: &Case, obs: &mut Obs) -> Res {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(other)?;
  rt.block_on(all(case, obs))
}

pub fn c45(run: &mut Run) {
  run.run(part("streams", 5_000, 100_000, "an owner gave up on a stream before its end").shards(8).max_shrink(40), || case(6), play);
}
