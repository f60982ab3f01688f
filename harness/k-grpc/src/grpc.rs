//! C40: calls between this client and this server, and of each with peers of any kind.
use axum::body::Body;
use axum::extract::Request;
use axum::response::Response;
use axum::routing::post;
use axum::Router;
use bd_grpc::{
  finalize_response_compression, make_server_streaming_router, make_unary_router, new_grpc_response, Client, Code, Compression, Error, Handler,
  ServerStreamingHandler, ServiceMethod, Status, StreamStats, StreamingApi, StreamingApiSender,
};
use bd_grpc_codec::{Encoder, OptimizeFor};
use bytes::Bytes;
use http::{Extensions, HeaderMap, HeaderValue, Uri};
use http_body::Frame;
use http_body_util::{BodyExt, StreamBody};
use hyper_util::client::legacy::connect::{Connected, Connection};
use hyper_util::rt::{TokioExecutor, TokioIo, TokioTimer};
use parking_lot::Mutex;
use protobuf::{Message, MessageFull};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use test_validate::String as Text;
use tokio::io::DuplexStream;
use tokio::sync::{mpsc, watch};
use tokio::time::Instant;
use tokio_stream::wrappers::ReceiverStream;
use tower::util::ServiceExt;
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Fail, Obs, Run};

#[path = "/repo/bd-pgv/src/generated/test_protos/test_validate.rs"]
#[allow(warnings)]
mod test_validate;
/// The generated test messages look for the rules next to them.
use bd_pgv::generated::protos::validate;

type Res = Result<(), Fail>;

// ---------------------------------------------------------------------------------------------
// What is said

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Txt {
  Empty,
  Short(u8),
  Long(u8, u16),
  Noise(u64, u16),
}
impl Txt {
  fn text(&self) -> String {
    match self {
      Self::Empty => String::new(),
      Self::Short(n) => ["a", "é\u{0}", "a longer one", "\n"][usize::from(*n) % 4].into(),
      Self::Long(c, n) => char::from(b'a' + c % 3).to_string().repeat(usize::from(*n) + 1),
      Self::Noise(seed, n) => {
        let mut x = *seed | 1;
        (0 ..= *n)
          .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            char::from_u32((x % 0x700) as u32 + 1).unwrap()
          })
          .collect()
      },
    }
  }
  fn message(&self) -> Text {
    Text { field: self.text(), ..Default::default() }
  }
}
fn txt() -> impl Strategy<Value = Txt> + Clone {
  prop_oneof![
    1 => Just(Txt::Empty),
    6 => (0u8 .. 4).prop_map(Txt::Short),
    2 => (0u8 .. 3, 0u16 .. 3000).prop_map(|(a, b)| Txt::Long(a, b)),
    2 => (any::<u64>(), 0u16 .. 2000).prop_map(|(a, b)| Txt::Noise(a, b)),
  ]
}

const WORDS: [&str; 9] = ["", "plain", "two words", "line\nbreak", "é ☃", "100%", "%41", "\u{7f}\t\r", "a:b,c;d=\"e\""];
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum End {
  Fine,
  Status(u8, Option<u8>),
  Other(u8),
}
fn code(n: u8) -> Code {
  match n % 7 {
    0 => Code::Unknown,
    1 => Code::InvalidArgument,
    2 => Code::FailedPrecondition,
    3 => Code::Internal,
    4 => Code::Unavailable,
    5 => Code::Unauthenticated,
    _ => Code::NotFound,
  }
}
impl End {
  fn result(&self) -> bd_grpc::Result<()> {
    match self {
      Self::Fine => Ok(()),
      Self::Status(c, m) => Err(Status { code: code(*c), message: m.map(|m| WORDS[usize::from(m) % 9].to_string()) }.into()),
      Self::Other(n) => Err(match n % 3 {
        0 => Error::ConnectionTimeout,
        1 => Error::RequestTimeout,
        _ => Error::BodyStream("over\nthere".into()),
      }),
    }
  }
}
fn end() -> impl Strategy<Value = End> + Clone {
  prop_oneof![
    3 => Just(End::Fine),
    2 => (0u8 .. 7, prop::option::weighted(0.8, 0u8 .. 9)).prop_map(|(a, b)| End::Status(a, b)),
    1 => (0u8 .. 3).prop_map(End::Other),
  ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
  /// The client sends these.
  Send(Vec<Txt>),
  /// The client sends this, put together by itself.
  Raw(Txt),
  /// The server stops reading, or reads on.
  Stop(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
  Unary { text: Txt, compression: u8, wait: u8, timeout: u8, end: End },
  Stream { text: Txt, messages: Vec<(Txt, u8)>, end: End, read: Option<u8>, memory: bool, accept: bool },
  Both { compression: bool, acts: Vec<Act>, memory: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
  pipe: u16,
  permits: u8,
  validate: bool,
  answer: bool,
  rounds: Vec<Vec<Call>>,
}
fn call() -> impl Strategy<Value = Call> + Clone {
  prop_oneof![
    4 => (txt(), 0u8 .. 3, 0u8 .. 20, 0u8 .. 60, end()).prop_map(|(text, compression, wait, timeout, end)| Call::Unary { text, compression, wait, timeout, end }),
    3 => (txt(), prop::collection::vec((txt(), prop_oneof![2 => Just(0u8), 1 => 0u8 .. 9]), 0 .. 6), end(), prop::option::weighted(0.2, 0u8 .. 4), any::<bool>(), any::<bool>())
      .prop_map(|(text, messages, end, read, memory, accept)| Call::Stream { text, messages, end, read, memory, accept }),
    2 => (
      any::<bool>(),
      prop::collection::vec(
        prop_oneof![4 => prop::collection::vec(txt(), 1 .. 5).prop_map(Act::Send), 1 => txt().prop_map(Act::Raw), 2 => any::<bool>().prop_map(Act::Stop)],
        1 .. 8
      ),
      any::<bool>()
    )
      .prop_map(|(compression, acts, memory)| Call::Both { compression, acts, memory }),
  ]
}
fn case() -> impl Strategy<Value = Case> {
  (
    prop_oneof![1 => 1u16 .. 64, 2 => 64u16 .. 5000],
    1u8 .. 4,
    any::<bool>(),
    any::<bool>(),
    prop::collection::vec(prop::collection::vec(call(), 1 .. 5), 1 .. 4),
  )
    .prop_map(|(pipe, permits, validate, answer, rounds)| Case { pipe, permits, validate, answer, rounds })
}

// ---------------------------------------------------------------------------------------------
// The line

struct Pipe(TokioIo<DuplexStream>);
impl Connection for Pipe {
  fn connected(&self) -> Connected {
    Connected::new()
  }
}
impl hyper::rt::Read for Pipe {
  fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: hyper::rt::ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
    Pin::new(&mut self.0).poll_read(cx, buf)
  }
}
impl hyper::rt::Write for Pipe {
  fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
    Pin::new(&mut self.0).poll_write(cx, buf)
  }
  fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
    Pin::new(&mut self.0).poll_flush(cx)
  }
  fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
    Pin::new(&mut self.0).poll_shutdown(cx)
  }
}
/// Every connection is a pipe to a server of its own with the same routes.
#[derive(Clone)]
struct Line {
  router: Router,
  size: usize,
  panicked: Arc<AtomicUsize>,
}
impl tower::Service<Uri> for Line {
  type Response = Pipe;
  type Error = std::io::Error;
  type Future = Pin<Box<dyn Future<Output = std::io::Result<Pipe>> + Send>>;
  fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
    Poll::Ready(Ok(()))
  }
  fn call(&mut self, _: Uri) -> Self::Future {
    let (a, b) = tokio::io::duplex(self.size);
    let router = self.router.clone();
    let panicked = self.panicked.clone();
    let served = tokio::spawn(async move {
      let service = hyper::service::service_fn(move |r: hyper::Request<hyper::body::Incoming>| router.clone().oneshot(r.map(Body::new)));
      let _ = hyper_util::server::conn::auto::Builder::new(TokioExecutor::new()).serve_connection_with_upgrades(TokioIo::new(b), service).await;
    });
    tokio::spawn(async move {
      if served.await.is_err() {
        panicked.fetch_add(1, Ordering::SeqCst);
      }
    });
    Box::pin(async move { Ok(Pipe(TokioIo::new(a))) })
  }
}
fn client(router: Router, size: usize, permits: u64) -> Result<Client<Line>, Fail> {
  let line = Line { router, size, panicked: Arc::default() };
  let http = hyper_util::client::legacy::Client::builder(TokioExecutor::new()).timer(TokioTimer::new()).http2_only(true).build(line);
  Client::new_with_client("http://there", http, permits).map_err(|e| Fail::new(format!("no client: {e}")))
}

fn method(name: &str) -> ServiceMethod<Text, Text> {
  static FILE: std::sync::OnceLock<protobuf::reflect::FileDescriptor> = std::sync::OnceLock::new();
  ServiceMethod::new_with_fd("Here", name, FILE.get_or_init(file))
}
fn file() -> protobuf::reflect::FileDescriptor {
  use protobuf::descriptor::{FileDescriptorProto, MethodDescriptorProto, ServiceDescriptorProto};
  let file = test_validate::file_descriptor();
  let mut p = FileDescriptorProto::new();
  p.name = Some("there.proto".into());
  p.package = Some("there.v1".into());
  p.dependency = vec![file.name().to_string()];
  for (service, methods) in [("Other", vec!["Unary"]), ("Here", vec!["Unary", "Stream", "Both"])] {
    let mut s = ServiceDescriptorProto::new();
    s.name = Some(service.into());
    for m in methods {
      let mut d = MethodDescriptorProto::new();
      d.name = Some(m.into());
      let t = format!(".{}", Text::descriptor().full_name());
      d.input_type = Some(t.clone());
      d.output_type = Some(t);
      s.method.push(d);
    }
    p.service.push(s);
  }
  let g = Box::leak(Box::new(protobuf::reflect::GeneratedFileDescriptor::new_generated(Box::leak(Box::new(p)), vec![file.clone()], vec![], vec![])));
  protobuf::reflect::FileDescriptor::new_generated_2(g)
}

// ---------------------------------------------------------------------------------------------
// The server

#[derive(Default)]
struct Served {
  /// by the number of the call
  calls: BTreeMap<usize, Call>,
  seen: BTreeMap<usize, Vec<Text>>,
  stops: BTreeMap<usize, watch::Receiver<bool>>,
  both: BTreeMap<usize, (u64, u64, u64, u64)>,
  trouble: Vec<String>,
}
#[derive(Clone, Default)]
struct Server {
  state: Arc<Mutex<Served>>,
  running: Arc<AtomicUsize>,
  most: Arc<AtomicUsize>,
  errors: Arc<AtomicU64>,
  stream_errors: Arc<AtomicU64>,
}
struct Running(Arc<AtomicUsize>);
impl Drop for Running {
  fn drop(&mut self) {
    self.0.fetch_sub(1, Ordering::SeqCst);
  }
}
impl Server {
  fn number(&self, headers: &HeaderMap) -> usize {
    let n: usize = headers.get("number").and_then(|v| v.to_str().ok()).and_then(|v| v.parse().ok()).unwrap_or(usize::MAX);
    if headers.get("content-type").is_none_or(|v| v != "application/grpc") || headers.get("te").is_none_or(|v| v != "trailers") {
      self.state.lock().trouble.push(format!("call {n} lacks what each has to say: {headers:?}"));
    }
    n
  }
}
#[async_trait::async_trait]
impl Handler<Text, Text> for Server {
  async fn handle(&self, headers: HeaderMap, _: Extensions, request: Text) -> bd_grpc::Result<Text> {
    let now = self.running.fetch_add(1, Ordering::SeqCst) + 1;
    self.most.fetch_max(now, Ordering::SeqCst);
    let _running = Running(self.running.clone());
    let n = self.number(&headers);
    let call = {
      let mut s = self.state.lock();
      s.seen.entry(n).or_default().push(request.clone());
      s.calls.get(&n).cloned()
    };
    let Some(Call::Unary { wait, end, .. }) = call else { return Err(Status::new(Code::Internal, "no such call").into()) };
    if wait > 0 {
      tokio::time::sleep(Duration::from_millis(u64::from(wait) * 10)).await;
    }
    end.result()?;
    Ok(answer(&request))
  }
}
fn answer(t: &Text) -> Text {
  Text { field: format!("{} is it", t.field), ..Default::default() }
}
#[async_trait::async_trait]
impl ServerStreamingHandler<Text, Text> for Server {
  async fn stream(&self, headers: HeaderMap, _: Extensions, request: Text, sender: &mut StreamingApiSender<Text>) -> bd_grpc::Result<()> {
    let n = self.number(&headers);
    let call = {
      let mut s = self.state.lock();
      s.seen.entry(n).or_default().push(request);
      s.calls.get(&n).cloned()
    };
    let Some(Call::Stream { messages, end, .. }) = call else { return Err(Status::new(Code::Internal, "no such call").into()) };
    for (m, wait) in &messages {
      sender.send(m.message()).await?;
      if *wait > 0 {
        tokio::time::sleep(Duration::from_millis(u64::from(*wait) * 10)).await;
      }
    }
    end.result()
  }
}
impl Server {
  async fn both(self, request: Request) -> Response {
    let (parts, body) = request.into_parts();
    let n = self.number(&parts.headers);
    let compression = finalize_response_compression(Some(bd_grpc_codec::Compression::StatelessZlib { level: 3 }), &parts.headers);
    let (tx, rx) = mpsc::channel(1);
    let stop = self.state.lock().stops.get(&n).cloned();
    let mut api = StreamingApi::<Text, Text>::new(tx, parts.headers, body, false, compression, OptimizeFor::Cpu, stop);
    tokio::spawn(async move {
      loop {
        match api.next().await {
          Ok(Some(batch)) => {
            if batch.is_empty() {
              self.state.lock().trouble.push("a batch without messages".into());
            }
            for m in batch {
              self.state.lock().seen.entry(n).or_default().push(m.clone());
              if api.send(m).await.is_err() {
                return;
              }
            }
            let s = api.bandwidth_stats();
            self.state.lock().both.insert(n, (s.rx, s.rx_decompressed, s.tx, s.tx_uncompressed));
          },
          Ok(None) => return,
          Err(_) => {
            // The client is gone.
            return;
          },
        }
      }
    });
    new_grpc_response(Body::new(StreamBody::new(ReceiverStream::new(rx))), compression)
  }
}

async fn quiet() {
  for _ in 0 .. 400 {
    tokio::task::yield_now().await;
  }
}

fn want_status(e: &Error, want: &Status, what: &str) -> Res {
  match e {
    Error::Grpc(s) => {
      ensure!(s == want, "{what} ends with {s:?} instead of {want:?}");
      Ok(())
    },
    e => Err(Fail::new(format!("{what} ends with {e:?} instead of {want:?}"))),
  }
}

async fn run(c: &Case, obs: &mut Obs) -> Res {
  let server = Server::default();
  let counter = prometheus::IntCounter::new("errors", "-").unwrap();
  let collector = bd_server_stats::stats::Collector::default();
  let stats = StreamStats::new(&collector.scope("s"), "stream");
  let (e1, e2) = (server.errors.clone(), server.stream_errors.clone());
  let arc = Arc::new(server.clone());
  let for_both = server.clone();
  let router = make_unary_router(
    &method("Unary"),
    arc.clone(),
    move |_| {
      e1.fetch_add(1, Ordering::SeqCst);
    },
    counter.clone(),
    c.validate,
  )
  .merge(make_server_streaming_router(
    &method("Stream"),
    arc,
    move |_| {
      e2.fetch_add(1, Ordering::SeqCst);
    },
    stats,
    c.validate,
    c.answer.then_some(bd_grpc_codec::Compression::StatelessZlib { level: 3 }),
  ))
  .route("/there.v1.Here/Both", post(move |r: Request| for_both.clone().both(r)));
  let client = Arc::new(client(router, usize::from(c.pipe), c.permits.into())?);
  let mut number = 0;
  let (mut unary_errors, mut unsure_errors) = (0u64, 0u64);
  let (mut streams, mut streams_fine, mut streams_bad, mut streams_unsure, mut sent, mut sent_unsure) = (0u64, 0u64, 0u64, 0u64, 0u64, false);
  let mut stream_errors = 0u64;
  for round in &c.rounds {
    // When each of them gets its turn.
    let mut free = vec![0u64; usize::from(c.permits)];
    let mut tasks = vec![];
    let mut timed_out = false;
    server.most.store(0, Ordering::SeqCst);
    let begun = Instant::now();
    for call in round {
      number += 1;
      let n = number;
      server.state.lock().calls.insert(n, call.clone());
      let client = client.clone();
      let mut headers = HeaderMap::new();
      headers.insert("number", HeaderValue::from(n));
      free.sort_unstable();
      match call.clone() {
        Call::Unary { text, compression, wait, timeout, end } => {
          let (wait, timeout) = (u64::from(wait) * 10, u64::from(timeout) * 10 + 5);
          let refused = c.validate && text.text().is_empty();
          let takes = if refused { 0 } else { wait };
          let start = free[0];
          // Both at once can go either way.
          let close = start.abs_diff(timeout) < 3 || (start + takes).abs_diff(timeout) < 3;
          let late = start + takes > timeout;
          let called = start < timeout;
          if called {
            free[0] = (start + takes).min(timeout);
          }
          timed_out |= late || close;
          let fails = refused || end != End::Fine;
          if close {
            unsure_errors += 1;
          } else if !late && fails {
            unary_errors += 1;
          }
          let validate = c.validate;
          obs.label_if(late, "too late");
          obs.label_if(start > 0, "waits for its turn");
          obs.label_if(refused, "refused");
          let server = server.clone();
          tasks.push(tokio::spawn(async move {
            let compression = match compression {
              0 => Compression::None,
              1 => Compression::GRpc(bd_grpc_codec::Compression::StatelessZlib { level: 4 }),
              _ => Compression::Snappy,
            };
            let r = client
              .unary(&method("Unary"), Some(headers), text.message(), time::Duration::milliseconds(timeout as i64), compression)
              .await;
            let took = begun.elapsed().as_millis() as u64;
            let what = format!("call {n}");
            if close {
              return Ok(());
            }
            ensure!(took.abs_diff(if late { timeout } else { start + takes }) < 3, "{what} took {took} ms instead of {}", if late { timeout } else { start + takes });
            let seen = server.state.lock().seen.get(&n).cloned().unwrap_or_default();
            if validate && text.text().is_empty() {
              ensure!(seen.is_empty(), "what is not valid is handled");
            } else if called {
              ensure!(seen == [text.message()], "{what}: {:?} is handled as {seen:?}", text.message());
            }
            if late {
              ensure!(matches!(r, Err(Error::RequestTimeout)), "{what} is not given up in time: {r:?}");
            } else if validate && text.text().is_empty() {
              let Err(Error::Grpc(s)) = &r else { return Err(Fail::new(format!("{what} is not valid and ends with {r:?}"))) };
              ensure!(
                s.code == Code::InvalidArgument && s.message.as_ref().is_some_and(|m| m.starts_with("Invalid request: ")),
                "{what} is not valid and ends with {s:?}"
              );
            } else {
              match (&end, r) {
                (End::Fine, Ok(t)) => ensure!(t == answer(&text.message()), "{what} is answered {t:?}"),
                (End::Status(..), Err(e)) => {
                  let Err(Error::Grpc(s)) = end.result() else { unreachable!() };
                  want_status(&e, &s, &what)?;
                },
                (End::Other(n), Err(e)) => {
                  let want = match n % 3 {
                    0 | 1 => Status::new(Code::Internal, "upstream timeout"),
                    _ => Status::new(Code::Internal, "Non-200 response code: 500 Internal Server Error"),
                  };
                  want_status(&e, &want, &what)?;
                },
                (_, r) => return Err(Fail::new(format!("{what} with {end:?} ends with {r:?}"))),
              }
            }
            Ok(())
          }));
        },
        Call::Stream { text, messages, end, read, memory, accept } => {
          let refused = c.validate && text.text().is_empty();
          let validate = c.validate;
          let bad = messages.iter().position(|m| validate && m.0.text().is_empty());
          streams += 1;
          let whole = read.is_none() && bad.is_none();
          if refused {
            streams_bad += 1;
          } else if !whole {
            streams_unsure += 1;
            sent_unsure = true;
          } else {
            sent += messages.len() as u64;
            if end == End::Fine {
              streams_fine += 1;
            } else {
              streams_bad += 1;
              stream_errors += 1;
            }
          }
          obs.label_if(bad.is_some(), "not valid for the client");
          obs.label_if(read.is_some(), "left before its end");
          if accept {
            headers.insert("grpc-accept-encoding", HeaderValue::from_static("deflate"));
          }
          let server = server.clone();
          tasks.push(tokio::spawn(async move {
            let what = format!("stream {n}");
            let optimize = if memory { OptimizeFor::Memory } else { OptimizeFor::Cpu };
            let r = client.server_streaming(&method("Stream"), Some(headers), text.message(), validate, optimize).await;
            if refused {
              let Err(Error::Grpc(s)) = &r.map(|_| ()) else { return Err(Fail::new(format!("{what} is not valid and begins"))) };
              ensure!(s.code == Code::InvalidArgument, "{what} is not valid and ends with {s:?}");
              return Ok(());
            }
            let mut api = r.map_err(|e| Fail::new(format!("{what} does not begin: {e}")))?;
            let mut got: Vec<Text> = vec![];
            let last = loop {
              if read.is_some_and(|r| got.len() >= usize::from(r)) {
                break None;
              }
              match api.next().await {
                Ok(Some(m)) => {
                  ensure!(!m.is_empty(), "{what} gives a batch without messages");
                  got.extend(m);
                },
                r => break Some(r.map(|_| ())),
              }
            };
            let want: Vec<Text> = messages.iter().map(|m| m.0.message()).collect();
            ensure!(want.starts_with(&got), "{what} gives {got:?} instead of {want:?}");
            ensure!(server.state.lock().seen.get(&n).is_some_and(|s| *s == [text.message()]), "{what} was asked for otherwise");
            match (last, bad) {
              (None, _) => {},
              (Some(Err(Error::ProtoValidation(_))), Some(bad)) => ensure!(got.len() <= bad, "{what} gives what is not valid"),
              (Some(r), Some(_)) => return Err(Fail::new(format!("{what} is not valid and ends with {r:?}"))),
              (Some(r), None) => {
                ensure_eq!(got.len(), want.len(), "messages of a stream");
                match (end.result(), r) {
                  (Ok(()), Ok(())) => {},
                  (Err(Error::Grpc(s)), Err(e)) => want_status(&e, &s, &what)?,
                  (Err(o), Err(e)) => want_status(&e, &Status::new(Code::Internal, &o.to_string()), &what)?,
                  (a, b) => return Err(Fail::new(format!("{what} ends with {b:?} instead of {a:?}"))),
                }
              },
            }
            Ok(())
          }));
        },
        Call::Both { compression, acts, memory } => {
          let (stop, rx) = watch::channel(false);
          server.state.lock().stops.insert(n, rx);
          let server = server.clone();
          obs.label("both ways");
          tasks.push(tokio::spawn(async move {
            let what = format!("stream {n}");
            let optimize = if memory { OptimizeFor::Memory } else { OptimizeFor::Cpu };
            let api = client
              .streaming(&method("Both"), Some(headers), false, compression.then_some(bd_grpc_codec::Compression::StatelessZlib { level: 2 }), optimize)
              .await;
            let mut api = api.map_err(|e| Fail::new(format!("{what} does not begin: {e}")))?;
            let mut want: Vec<Text> = vec![];
            let mut got: Vec<Text> = vec![];
            let mut stopped_at: Option<usize> = None;
            for a in &acts {
              match a {
                Act::Send(m) => {
                  for t in m {
                    // While the server does not read, only so much fits in between.
                    if stopped_at.is_some() {
                      if tokio::time::timeout(Duration::from_millis(7), api.send(t.message())).await.is_err() {
                        break;
                      }
                    } else {
                      api.send(t.message()).await.map_err(|e| Fail::new(format!("{what} cannot be sent to: {e}")))?;
                    }
                    want.push(t.message());
                  }
                },
                Act::Raw(t) => {
                  if compression || stopped_at.is_some() {
                    continue;
                  }
                  api.send_raw(Encoder::new(None).encode(&t.message())).await.map_err(|e| Fail::new(format!("{what} cannot be sent to: {e}")))?;
                  want.push(t.message());
                },
                Act::Stop(s) => {
                  if *s && stopped_at.is_none() {
                    let _ = stop.send(true);
                    quiet().await;
                    stopped_at = Some(server.state.lock().seen.get(&n).map_or(0, Vec::len));
                  } else if !*s && stopped_at.is_some() {
                    quiet().await;
                    let now = server.state.lock().seen.get(&n).map_or(0, Vec::len);
                    ensure!(stopped_at == Some(now) || stopped_at.is_some_and(|a| now > a && got.len() < a), "{what} is read from while it is stopped");
                    let _ = stop.send(false);
                    stopped_at = None;
                  }
                },
              }
              if stopped_at.is_none() {
                while got.len() < want.len() {
                  match tokio::time::timeout(Duration::from_secs(60), api.next()).await {
                    Ok(Ok(Some(m))) => got.extend(m),
                    r => return Err(Fail::new(format!("{what} ends in between or stalls: {r:?}, {} of {} messages", got.len(), want.len()))),
                  }
                  ensure!(want.starts_with(&got), "{what} gives {got:?} instead of {want:?}");
                }
              }
            }
            let _ = stop.send(false);
            while got.len() < want.len() {
              match tokio::time::timeout(Duration::from_secs(60), api.next()).await {
                Ok(Ok(Some(m))) => got.extend(m),
                r => return Err(Fail::new(format!("{what} ends in between or stalls: {r:?}, {} of {} messages", got.len(), want.len()))),
              }
            }
            ensure!(got == want, "{what} gives {got:?} instead of {want:?}");
            quiet().await;
            let s = api.bandwidth_stats();
            let plain: u64 = want.iter().map(|m| m.compute_size() + 5).sum();
            let there = server.state.lock().both.get(&n).copied().unwrap_or_default();
            ensure_eq!((s.tx, s.tx_uncompressed, s.rx, s.rx_decompressed), (there.0, there.3, there.2, there.1), "bytes counted here and there");
            if !compression {
              ensure_eq!((s.tx, s.tx_uncompressed), (plain, plain), "bytes counted");
            }
            Ok(())
          }));
        },
      }
      // They take their turns in this order.
      for _ in 0 .. 3 {
        tokio::task::yield_now().await;
      }
    }
    for t in tasks {
      match tokio::time::timeout(Duration::from_secs(600), t).await {
        Ok(Ok(r)) => r?,
        Ok(Err(e)) => return Err(Fail::new(format!("a call panics: {e}"))),
        Err(_) => return Err(Fail::new("a call never ends")),
      }
    }
    if !timed_out {
      let most = server.most.load(Ordering::SeqCst);
      ensure!(most <= usize::from(c.permits), "{most} calls at once with {} permitted", c.permits);
    }
    obs.label_if(round.len() > 1, "at the same time");
  }
  // Streams that were left have to see it.
  tokio::time::sleep(Duration::from_secs(2)).await;
  quiet().await;
  ensure!(server.state.lock().trouble.is_empty(), "{:?}", server.state.lock().trouble);
  let errors = server.errors.load(Ordering::SeqCst);
  ensure!(errors == counter.get(), "errors are reported {errors} times and counted {} times", counter.get());
  ensure!((unary_errors ..= unary_errors + unsure_errors).contains(&errors), "{errors} errors are counted, not {unary_errors}");
  let count = |name: &str, labels: &[(&str, &str)]| -> u64 {
    collector
      .gather()
      .iter()
      .filter(|f| f.get_name() == name)
      .flat_map(|f| f.get_metric().iter())
      .filter(|m| labels.iter().all(|(k, v)| m.get_label().iter().any(|l| l.get_name() == *k && l.get_value() == *v)))
      .map(|m| m.get_counter().get_value() as u64)
      .sum()
  };
  ensure_eq!(count("s:stream:stream_initiations_total", &[]), streams, "streams begun");
  let fine = count("s:stream:stream_completions_total", &[("result", "success")]);
  let bad = count("s:stream:stream_completions_total", &[("result", "failure")]);
  ensure_eq!(fine + bad, streams, "streams ended");
  ensure!((streams_fine ..= streams_fine + streams_unsure).contains(&fine), "{fine} streams are counted as ended well, not {streams_fine}");
  ensure!((streams_bad ..= streams_bad + streams_unsure).contains(&bad), "{bad} streams are counted as failed, not {streams_bad}");
  let reported = server.stream_errors.load(Ordering::SeqCst);
  ensure!((stream_errors ..= stream_errors + streams_unsure).contains(&reported), "{reported} failed streams are reported, not {stream_errors}");
  ensure_eq!(bad.wrapping_sub(reported), streams_bad - stream_errors, "failed streams of which the handler of errors is not told (their requests are not valid)");
  let messages = count("s:stream:stream_tx_messages_total", &[]);
  ensure!(messages == sent || sent_unsure && messages > sent || sent_unsure && messages == sent, "{messages} messages are counted, not {sent}");
  obs.nontrivial(number > 2);
  Ok(())
}

fn clock<F: Future<Output = Res>>(f: F) -> Res {
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
  let r = rt.block_on(f);
  drop(rt);
  r
}


// ---------------------------------------------------------------------------------------------
// Others' servers

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes_ {
  messages: Vec<Txt>,
  compressed: bool,
  /// how much of it is left out at the end
  cut: u8,
  /// the sizes of the pieces it comes in
  pieces: Vec<u16>,
}
impl Bytes_ {
  fn bytes(&self) -> Vec<u8> {
    let mut out = vec![];
    for m in &self.messages {
      let m = m.message().write_to_bytes().unwrap();
      let body = if self.compressed { deflated(&m) } else { m };
      out.push(u8::from(self.compressed));
      out.extend_from_slice(&(body.len() as u32).to_be_bytes());
      out.extend(body);
    }
    out.truncate(out.len().saturating_sub(self.cut.into()));
    out
  }
  /// How many of the messages are there to the end?
  fn whole(&self) -> usize {
    let have = self.bytes().len();
    (0 ..= self.messages.len()).rev().find(|n| Self { messages: self.messages[.. *n].to_vec(), cut: 0, ..self.clone() }.bytes().len() <= have).unwrap()
  }
  fn split(&self) -> Vec<Vec<u8>> {
    let bytes = self.bytes();
    let mut rest = &bytes[..];
    let mut out = vec![];
    for n in &self.pieces {
      let n = usize::from(*n).min(rest.len());
      out.push(rest[.. n].to_vec());
      rest = &rest[n ..];
    }
    out.push(rest.to_vec());
    out
  }
}
fn deflated(m: &[u8]) -> Vec<u8> {
  use std::io::Write;
  let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(4));
  e.write_all(m).unwrap();
  e.finish().unwrap()
}
fn bytes_() -> impl Strategy<Value = Bytes_> + Clone {
  (
    prop_oneof![1 => prop::collection::vec(txt(), 0 .. 4), 2 => prop::collection::vec(txt(), 1 .. 2)],
    any::<bool>(),
    prop_oneof![4 => Just(0u8), 1 => any::<u8>()],
    prop::collection::vec(prop_oneof![2 => 0u16 .. 8, 1 => 0u16 .. 2000], 0 .. 5),
  )
    .prop_map(|(messages, compressed, cut, pieces)| Bytes_ { messages, compressed, cut, pieces })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Peer {
  http: u8,
  /// of the answer, with its head only
  head: Option<(u8, Option<u8>)>,
  body: Bytes_,
  /// does it ever end, and with which status?
  ends: bool,
  tail: Option<(u8, Option<u8>)>,
  streamed: bool,
  validate: bool,
  timeout: u8,
}
fn peer() -> impl Strategy<Value = Peer> {
  let status = (prop_oneof![2 => Just(0u8), 2 => 1u8 .. 18], prop::option::of(0u8 .. 9));
  (
    prop_oneof![5 => Just(0u8), 1 => 1u8 .. 5],
    prop::option::weighted(0.15, status.clone()),
    bytes_(),
    prop::bool::weighted(0.9),
    prop::option::weighted(0.8, status),
    any::<bool>(),
    any::<bool>(),
    any::<u8>(),
  )
    .prop_map(|(http, head, body, ends, tail, streamed, validate, timeout)| Peer { http, head, body, ends, tail, streamed, validate, timeout })
}
fn escaped(s: &str) -> String {
  // As little as has to be, unlike our own server.
  s.bytes().map(|b| if (0x20 ..= 0x7e).contains(&b) && b != b'%' { char::from(b).to_string() } else { format!("%{b:02x}") }).collect()
}
fn status(s: &(u8, Option<u8>)) -> Status {
  let code = match s.0 {
    0 => Code::Ok,
    3 => Code::InvalidArgument,
    5 => Code::NotFound,
    9 => Code::FailedPrecondition,
    13 => Code::Internal,
    14 => Code::Unavailable,
    16 => Code::Unauthenticated,
    _ => Code::Unknown,
  };
  Status { code, message: s.1.map(|m| WORDS[usize::from(m) % 9].to_string()) }
}
fn put(h: &mut HeaderMap, s: &(u8, Option<u8>)) {
  h.insert("grpc-status", HeaderValue::from(u16::from(s.0)));
  if let Some(m) = s.1 {
    h.insert("grpc-message", HeaderValue::from_str(&escaped(WORDS[usize::from(m) % 9])).unwrap());
  }
}

async fn ask(p: &Peer, obs: &mut Obs) -> Res {
  let q = p.clone();
  let router = Router::new().fallback(move || {
    let p = q.clone();
    async move {
      let (tx, rx) = mpsc::channel::<Result<Frame<Bytes>, std::convert::Infallible>>(1);
      let mut r = Response::new(Body::new(StreamBody::new(ReceiverStream::new(rx))));
      *r.status_mut() = http::StatusCode::from_u16([200, 204, 400, 503, 302][usize::from(p.http) % 5]).unwrap();
      r.headers_mut().insert("content-type", HeaderValue::from_static("application/grpc"));
      if p.body.compressed {
        r.headers_mut().insert("grpc-encoding", HeaderValue::from_static("deflate"));
      }
      if let Some(s) = &p.head {
        put(r.headers_mut(), s);
        return r;
      }
      if [1, 4].contains(&(p.http % 5)) {
        return r;
      }
      tokio::spawn(async move {
        for b in p.body.split() {
          let _ = tx.send(Ok(Frame::data(b.into()))).await;
        }
        if !p.ends {
          tokio::time::sleep(Duration::from_secs(1_000_000)).await;
        }
        if let Some(s) = &p.tail {
          let mut h = HeaderMap::new();
          put(&mut h, s);
          let _ = tx.send(Ok(Frame::trailers(h))).await;
        }
      });
      r
    }
  });
  let client = client(router, 1000, 2)?;
  let (name, want_http) = (if p.streamed { "Stream" } else { "Unary" }, [200, 204, 400, 503, 302][usize::from(p.http) % 5]);
  let refused = |e: &Error| -> Res {
    let Error::Grpc(s) = e else { return Err(Fail::new(format!("HTTP status {want_http} is taken for {e:?}"))) };
    ensure!(
      s.code == Code::Internal && s.message.as_ref().is_some_and(|m| m.starts_with(&format!("Non-200 response code: {want_http}"))),
      "HTTP status {want_http} is taken for {s:?}"
    );
    Ok(())
  };
  let fails = !(200 .. 300).contains(&want_http);
  let whole = p.body.whole();
  obs.label_if(fails, "an HTTP status");
  obs.label_if(p.head.is_some(), "no more than a head");
  obs.label_if(!p.ends, "never ends");
  obs.label_if(p.body.cut > 0, "cut short");
  obs.nontrivial(p.body.split().len() > 1 || p.tail.is_some());
  let nothing = p.http % 5 == 1;
  let messages: Vec<Text> = if nothing { vec![] } else { p.body.messages[.. whole].iter().map(Txt::message).collect() };
  if p.streamed {
    let r = client.server_streaming(&method(name), None, Text::default(), p.validate, OptimizeFor::Cpu).await;
    let mut api = match r {
      Err(e) if fails => return refused(&e),
      Err(e) => {
        let Some(s) = &p.head else { return Err(Fail::new(format!("a stream does not begin: {e:?}"))) };
        return want_status(&e, &status(s), "a stream");
      },
      Ok(api) => {
        ensure!(!fails && p.head.is_none(), "a stream that was refused begins");
        api
      },
    };
    let mut got = vec![];
    let bad = messages.iter().position(|m| p.validate && m.field.is_empty());
    let last = loop {
      match tokio::time::timeout(Duration::from_secs(1000), api.next()).await {
        Ok(Ok(Some(m))) => got.extend(m),
        Ok(r) => break Some(r.map(|_| ())),
        Err(_) => break None,
      }
    };
    ensure!(messages.starts_with(&got), "a stream gives {got:?} instead of {messages:?}");
    if let Some(bad) = bad {
      ensure!(got.len() <= bad && matches!(last, Some(Err(Error::ProtoValidation(_)))), "what is not valid is given: {last:?}");
      return Ok(());
    }
    ensure!(got == messages, "a stream gives {got:?} instead of {messages:?}");
    match (last, &p.tail) {
      (None, _) => ensure!(!p.ends && !nothing, "a stream never ends"),
      (Some(Ok(())), t) => ensure!(nothing || p.ends && t.as_ref().is_none_or(|s| s.0 == 0), "a stream that ends with {t:?} is taken for complete"),
      (Some(Err(e)), Some(s)) if p.ends && s.0 != 0 && !nothing => want_status(&e, &status(s), "a stream")?,
      (Some(Err(e)), t) => return Err(Fail::new(format!("a stream that ends with {t:?} ends with {e:?}"))),
    }
    return Ok(());
  }
  let timeout = u64::from(p.timeout) + 100;
  let begun = Instant::now();
  let r = tokio::time::timeout(
    Duration::from_secs(10_000),
    client.unary(&method(name), None, Text::default(), time::Duration::milliseconds(timeout as i64), Compression::None),
  )
  .await
  .map_err(|_| Fail::new("a call never ends, in spite of its timeout"))?;
  let took = begun.elapsed().as_millis() as u64;
  ensure!(took < timeout + 3, "a call took {took} ms with a timeout of {timeout}");
  match r {
    Err(e) if fails => refused(&e)?,
    Err(e) if p.head.is_some() => want_status(&e, &status(p.head.as_ref().unwrap()), "a call")?,
    Err(Error::RequestTimeout) => ensure!(!p.ends && !nothing, "a call that ends is given up"),
    r => {
      ensure!(p.head.is_none() && !fails, "a call that failed gives {r:?}");
      ensure!(p.ends || nothing, "a call that does not end gives {r:?}");
      match (r, p.tail.as_ref().filter(|s| s.0 != 0 && !nothing)) {
        (Err(e), Some(s)) => want_status(&e, &status(s), "a call")?,
        (Ok(t), Some(s)) => return Err(Fail::new(format!("a call that failed with {:?} gives {t:?}", status(s)))),
        (Ok(t), None) => ensure!(messages == [t.clone()], "a call gives {t:?} instead of {messages:?}"),
        (Err(e), None) => {
          ensure!(messages.len() != 1, "a call that is answered fails: {e:?}");
          want_status(&e, &Status::new(Code::Internal, "Invalid response body"), "a call without one answer")?;
        },
      }
    },
  }
  Ok(())
}

// ---------------------------------------------------------------------------------------------
// Others' clients

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asked {
  body: Bytes_,
  snappy: bool,
  accept: u8,
  streamed: bool,
  validate: bool,
  /// (where, how) the bytes are changed
  spoil: Vec<(u16, u8)>,
  end: End,
}
fn asked() -> impl Strategy<Value = Asked> {
  (
    bytes_(),
    prop::bool::weighted(0.3),
    0u8 .. 3,
    any::<bool>(),
    any::<bool>(),
    prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(any::<(u16, u8)>(), 1 .. 4)],
    end(),
  )
    .prop_map(|(body, snappy, accept, streamed, validate, spoil, end)| Asked { body, snappy, accept, streamed, validate, spoil, end })
}

async fn answered(a: &Asked, obs: &mut Obs) -> Res {
  let server = Server::default();
  let counter = prometheus::IntCounter::new("errors", "-").unwrap();
  let collector = bd_server_stats::stats::Collector::default();
  let stats = StreamStats::new(&collector.scope("s"), "stream");
  let call = if a.streamed {
    Call::Stream { text: Txt::Empty, messages: vec![(Txt::Short(2), 0), (Txt::Long(1, 300), 0)], end: a.end.clone(), read: None, memory: false, accept: false }
  } else {
    Call::Unary { text: Txt::Empty, compression: 0, wait: 0, timeout: 0, end: a.end.clone() }
  };
  server.state.lock().calls.insert(1, call);
  let arc = Arc::new(server.clone());
  let e = server.errors.clone();
  let router = make_unary_router(&method("Unary"), arc.clone(), move |_| { e.fetch_add(1, Ordering::SeqCst); }, counter.clone(), a.validate).merge(
    make_server_streaming_router(&method("Stream"), arc, |_| {}, stats, a.validate, Some(bd_grpc_codec::Compression::StatelessZlib { level: 3 })),
  );
  let mut bytes = a.body.bytes();
  if a.snappy {
    bytes = snap::raw::Encoder::new().compress_vec(&bytes).unwrap();
  }
  for (at, b) in &a.spoil {
    if !bytes.is_empty() {
      let n = usize::from(*at) % bytes.len();
      bytes[n] = *b;
    }
  }
  let mut rest = &bytes[..];
  let mut pieces: Vec<Result<Bytes, std::convert::Infallible>> = vec![];
  for n in &a.body.pieces {
    let n = usize::from(*n).min(rest.len());
    pieces.push(Ok(Bytes::copy_from_slice(&rest[.. n])));
    rest = &rest[n ..];
  }
  pieces.push(Ok(Bytes::copy_from_slice(rest)));
  let name = if a.streamed { "Stream" } else { "Unary" };
  let mut r = Request::builder()
    .method("POST")
    .uri(format!("/there.v1.Here/{name}"))
    .header("content-type", "application/grpc")
    .header("te", "trailers")
    .header("number", 1);
  if a.body.compressed {
    r = r.header("grpc-encoding", "deflate");
  }
  if a.snappy {
    r = r.header("content-encoding", "snappy");
  }
  if a.accept > 0 {
    r = r.header("grpc-accept-encoding", ["", "deflate", "gzip"][usize::from(a.accept) % 3]);
  }
  let r = r.body(Body::from_stream(futures::stream::iter(pieces))).unwrap();
  let response = router.oneshot(r).await.unwrap();
  let (http, headers) = (response.status().as_u16(), response.headers().clone());
  let body = tokio::time::timeout(Duration::from_secs(1000), response.into_body().collect())
    .await
    .map_err(|_| Fail::new("an answer never ends"))?
    .map_err(|e| Fail::new(format!("an answer breaks off: {e}")))?;
  let tail = body.trailers().cloned();
  let body = body.to_bytes();
  let seen = server.state.lock().seen.get(&1).cloned().unwrap_or_default();
  ensure!([200, 400, 500].contains(&http), "the answer has the HTTP status {http}");
  let of = |h: &HeaderMap| h.get("grpc-status").map(|v| v.to_str().unwrap_or_default().to_string());
  let told = of(&headers).or_else(|| tail.as_ref().and_then(of));
  ensure!(http != 200 || told.is_some(), "an answer without a status");
  ensure!(seen.len() <= 1, "one request is handled {} times", seen.len());
  ensure!(told.as_deref() != Some("0") || seen.len() == 1, "a request that is not handled succeeds");
  obs.label_if(!a.spoil.is_empty(), "spoiled");
  obs.label_if(a.snappy, "snappy");
  obs.nontrivial(!bytes.is_empty());
  if !a.spoil.is_empty() || a.snappy && a.body.bytes().is_empty() {
    return Ok(());
  }
  let whole = a.body.whole();
  let fine = whole == 1 && !(a.validate && a.body.messages[0].text().is_empty());
  if !fine {
    ensure!(seen.is_empty(), "{} messages, not one that is valid, are handled as {seen:?}", whole);
    ensure!(told.as_deref() == Some("3"), "a request that is not valid is answered with {told:?}");
    obs.label("not valid");
  } else {
    ensure!(seen == [a.body.messages[0].message()], "{:?} is handled as {seen:?}", a.body.messages[0].message());
    // What has no body of its own yet can be told with the HTTP status.
    let at_once = !a.streamed && a.end != End::Fine;
    let want = match a.end.result() {
      Ok(()) => Some(Status { code: Code::Ok, message: None }),
      Err(Error::Grpc(s)) => Some(s),
      Err(Error::BodyStream(_)) if at_once => None,
      Err(_) if at_once => Some(Status::new(Code::Internal, "upstream timeout")),
      Err(e) => Some(Status::new(Code::Internal, &e.to_string())),
    };
    match want {
      None => ensure!(http == 500 && told.is_none(), "a failure is answered with {http} and {told:?}"),
      Some(s) => {
        ensure!(told == Some(s.code.to_int().to_string()), "a call that ends with {s:?} is answered with {told:?}");
        let m = headers.get("grpc-message").or_else(|| tail.as_ref().and_then(|t| t.get("grpc-message")));
        let m = m.map(|m| unescaped(m.as_bytes()));
        ensure!(m == s.message, "a call that ends with {s:?} is answered with the message {m:?}");
      },
    }
    let deflate = headers.get("grpc-encoding").is_some_and(|v| v == "deflate");
    let mut rest = &body[..];
    let mut got = vec![];
    while rest.len() >= 5 {
      let n = u32::from_be_bytes(rest[1 .. 5].try_into().unwrap()) as usize;
      ensure!(rest.len() >= 5 + n, "an answer is cut short");
      ensure!(rest[0] == 0 || deflate, "an answer is compressed without saying so");
      let m = if rest[0] == 1 {
        use std::io::Read;
        let mut out = vec![];
        flate2::read::ZlibDecoder::new(&rest[5 .. 5 + n]).read_to_end(&mut out).map_err(|e| Fail::new(format!("an answer cannot be read: {e}")))?;
        out
      } else {
        rest[5 .. 5 + n].to_vec()
      };
      got.push(Text::parse_from_bytes(&m).map_err(|e| Fail::new(format!("an answer cannot be read: {e}")))?);
      rest = &rest[5 + n ..];
    }
    ensure!(rest.is_empty(), "an answer is cut short");
    ensure!(!deflate || a.accept == 1, "an answer is compressed, which was not accepted");
    let want = if a.streamed {
      vec![Txt::Short(2).message(), Txt::Long(1, 300).message()]
    } else if at_once {
      vec![]
    } else {
      vec![answer(&a.body.messages[0].message())]
    };
    ensure!(got == want, "the answer is {got:?} instead of {want:?}");
  }
  let errors = u64::from(!a.streamed && (!fine || a.end != End::Fine));
  ensure_eq!((counter.get(), server.errors.load(Ordering::SeqCst)), (errors, errors), "errors counted and reported");
  Ok(())
}
fn unescaped(b: &[u8]) -> String {
  let hex = |b: Option<&u8>| b.and_then(|b| char::from(*b).to_digit(16));
  let mut out = vec![];
  let mut i = 0;
  while i < b.len() {
    match (b[i], hex(b.get(i + 1)), hex(b.get(i + 2))) {
      (b'%', Some(x), Some(y)) => {
        out.push((x * 16 + y) as u8);
        i += 3;
      },
      (x, ..) => {
        out.push(x);
        i += 1;
      },
    }
  }
  String::from_utf8_lossy(&out).into_owned()
}


// ---------------------------------------------------------------------------------------------
// Shutting down

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ev {
  /// A call by this client; it is handled until it is let go.
  Call(u8),
  /// This one of those under way is let go.
  Go(u8),
  /// This client goes away.
  Leave(u8),
  Shutdown,
}
#[derive(Clone)]
struct Held(Arc<Mutex<BTreeMap<usize, Arc<tokio::sync::Notify>>>>);
#[async_trait::async_trait]
impl Handler<Text, Text> for Held {
  async fn handle(&self, headers: HeaderMap, _: Extensions, request: Text) -> bd_grpc::Result<Text> {
    let n: usize = headers["number"].to_str().unwrap().parse().unwrap();
    let notify = self.0.lock().entry(n).or_default().clone();
    notify.notified().await;
    Ok(answer(&request))
  }
}
fn events() -> impl Strategy<Value = Vec<Ev>> {
  prop::collection::vec(
    prop_oneof![5 => (0u8 .. 3).prop_map(Ev::Call), 3 => any::<u8>().prop_map(Ev::Go), 1 => (0u8 .. 3).prop_map(Ev::Leave), 1 => Just(Ev::Shutdown)],
    1 .. 12,
  )
}

async fn serve(events: &[Ev], obs: &mut Obs) -> Res {
  let held = Held(Arc::default());
  let counter = prometheus::IntCounter::new("errors", "-").unwrap();
  let router = make_unary_router(&method("Unary"), Arc::new(held.clone()), |_| {}, counter, false);
  let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.map_err(|e| Fail::new(format!("cannot listen: {e}")))?;
  let address = listener.local_addr().unwrap().to_string();
  let (total, active) = (prometheus::IntCounter::new("total", "-").unwrap(), prometheus::IntGauge::new("active", "-").unwrap());
  let (stop, stopped) = tokio::sync::oneshot::channel::<()>();
  let (t, a) = (total.clone(), active.clone());
  let server = tokio::spawn(async move {
    bd_grpc::axum_helper::serve_with_connect_info(router, listener, t, a, async {
      let _ = stopped.await;
    })
    .await
    .map_err(|e| e.to_string())
  });
  let mut stop = Some(stop);
  let mut clients: BTreeMap<u8, Arc<Client<hyper_util::client::legacy::connect::HttpConnector>>> = BTreeMap::new();
  let mut connections = 0u64;
  let mut number = 0;
  let mut under_way: Vec<(usize, u8, tokio::task::JoinHandle<bd_grpc::Result<Text>>)> = vec![];
  let limit = Duration::from_secs(10);
  for e in events {
    match e {
      Ev::Call(c) => {
        number += 1;
        let n = number;
        if stop.is_none() {
          // Nobody is there for new clients.
          let client = Client::new_http(&address, time::Duration::seconds(5), 10).unwrap();
          let r = tokio::time::timeout(limit, client.unary(&method("Unary"), None, Text::default(), time::Duration::seconds(9), Compression::None)).await;
          ensure!(matches!(r, Ok(Err(Error::HyperClient(_) | Error::ConnectionTimeout))), "a call after the shutdown ends with {r:?}");
          continue;
        }
        let fresh = !clients.contains_key(c);
        let client = clients.entry(*c).or_insert_with(|| Arc::new(Client::new_http(&address, time::Duration::seconds(5), 10).unwrap())).clone();
        connections += u64::from(fresh);
        let mut headers = HeaderMap::new();
        headers.insert("number", HeaderValue::from(n));
        let task = tokio::spawn(async move {
          let t = Text { field: format!("{n}"), ..Default::default() };
          client.unary(&method("Unary"), Some(headers), t, time::Duration::seconds(60), Compression::None).await
        });
        let begun = std::time::Instant::now();
        while !held.0.lock().contains_key(&n) {
          ensure!(begun.elapsed() < limit && !task.is_finished(), "call {n} is not handled");
          tokio::time::sleep(Duration::from_micros(50)).await;
        }
        under_way.push((n, *c, task));
        ensure_eq!(total.get(), connections, "connections counted");
        ensure!(active.get() <= connections as i64 && active.get() >= clients.len() as i64, "{} connections are counted as open", active.get());
      },
      Ev::Go(i) => {
        if under_way.is_empty() {
          continue;
        }
        let (n, _, task) = under_way.remove(usize::from(*i) % under_way.len());
        held.0.lock()[&n].notify_one();
        let r = tokio::time::timeout(limit, task).await.map_err(|_| Fail::new(format!("call {n} never ends")))?.unwrap();
        obs.label_if(stop.is_none(), "finished after the shutdown");
        ensure!(matches!(&r, Ok(t) if t.field == format!("{n} is it")), "call {n}, begun before any shutdown, ends with {r:?}");
      },
      Ev::Leave(c) => {
        under_way.retain(|(_, of, task)| {
          if of == c {
            task.abort();
          }
          of != c
        });
        clients.remove(c);
      },
      Ev::Shutdown => {
        if let Some(stop) = stop.take() {
          let _ = stop.send(());
          let begun = std::time::Instant::now();
          while tokio::net::TcpStream::connect(&address).await.is_ok() {
            ensure!(begun.elapsed() < limit, "connections are taken after the shutdown");
            tokio::time::sleep(Duration::from_micros(200)).await;
          }
          // Those that were made to find that out may have been taken before.
          connections = total.get();
          ensure!(under_way.is_empty() || !server.is_finished(), "the server ends with calls under way");
        }
      },
    }
  }
  obs.nontrivial(number > 1);
  if let Some(stop) = stop.take() {
    let _ = stop.send(());
  }
  for _ in 0 .. 20 {
    tokio::task::yield_now().await;
  }
  ensure!(under_way.is_empty() || !server.is_finished(), "the server ends with calls under way");
  for (n, _, task) in under_way {
    held.0.lock()[&n].notify_one();
    let r = tokio::time::timeout(limit, task).await.map_err(|_| Fail::new(format!("call {n} never ends")))?.unwrap();
    ensure!(matches!(&r, Ok(t) if t.field == format!("{n} is it")), "call {n}, begun before the shutdown, ends with {r:?}");
  }
  let r = tokio::time::timeout(limit, server).await.map_err(|_| Fail::new("the server does not shut down"))?.unwrap();
  ensure!(r.is_ok(), "the server ends with {r:?}");
  ensure_eq!(active.get(), 0, "connections counted as open in the end");
  ensure!(total.get() >= connections, "{} connections are counted of {connections}", total.get());
  Ok(())
}

pub fn c40(run_: &mut Run) {
  run_.run(
    part("calls", 30_000, 100_000, "generated rounds of concurrent calls between this client and this server; non-trivial = more than two calls"),
    case,
    |c: &Case, obs: &mut Obs| clock(run(c, obs)),
  );
  run_.run(
    part("servers", 60_000, 300_000, "generated answers of other servers, byte by byte; non-trivial = in several pieces or with a status at the end"),
    peer,
    |p: &Peer, obs: &mut Obs| clock(ask(p, obs)),
  );
  run_.run(
    part("clients", 100_000, 300_000, "generated requests of other clients, byte by byte; non-trivial = not empty"),
    asked,
    |a: &Asked, obs: &mut Obs| clock(answered(a, obs)),
  );
  run_.run(
    part("binary", 20_000, 200_000, "generated values of binary headers, put into text and back; non-trivial = not empty"),
    || vcommon::proptest::collection::vec(vcommon::proptest::prelude::any::<u8>(), 0 .. 100),
    |data: &Vec<u8>, obs: &mut Obs| {
      obs.nontrivial(!data.is_empty());
      let value = bd_grpc::BinaryHeaderValue::new(data).to_header_value();
      let text = value.to_str().map_err(|e| Fail::new(format!("no text: {e}")))?;
      // Padding is up to the sender.
      let (mut bits, mut have, mut out) = (0u32, 0, vec![]);
      for c in text.trim_end_matches('=').bytes() {
        let v = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".iter().position(|x| *x == c);
        bits = bits << 6 | v.ok_or_else(|| Fail::new(format!("{text} is not base64")))? as u32;
        have += 6;
        if have >= 8 {
          have -= 8;
          out.push((bits >> have) as u8);
          bits &= (1 << have) - 1;
        }
      }
      ensure!(out == *data && bits == 0, "{data:?} is put as {text}, which is {out:?}");
      Ok(())
    },
  );
  run_.run(
    part("serve", 400, 10_000, "generated calls to a server on the loopback, shut down among them; non-trivial = more than one call").max_shrink(200),
    events,
    |e: &Vec<Ev>, obs: &mut Obs| {
      let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
      rt.block_on(serve(e, obs))
    },
  );
}
