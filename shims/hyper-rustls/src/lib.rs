//! Stand-in for hyper-rustls: no TLS; every connection is the wrapped connector's.
use std::task::{Context, Poll};
#[derive(Clone, Debug)]
pub struct HttpsConnector<T>(T);
impl<T: tower_service::Service<http::Uri>> tower_service::Service<http::Uri> for HttpsConnector<T> {
  type Response = T::Response;
  type Error = T::Error;
  type Future = T::Future;
  fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
    self.0.poll_ready(cx)
  }
  fn call(&mut self, uri: http::Uri) -> Self::Future {
    self.0.call(uri)
  }
}
#[derive(Default)]
pub struct HttpsConnectorBuilder;
impl HttpsConnectorBuilder {
  pub fn new() -> Self { Self }
  pub fn with_webpki_roots(self) -> Self { self }
  pub fn https_or_http(self) -> Self { self }
  pub fn enable_http1(self) -> Self { self }
  pub fn enable_http2(self) -> Self { self }
  pub fn enable_all_versions(self) -> Self { self }
  pub fn wrap_connector<T>(self, t: T) -> HttpsConnector<T> { HttpsConnector(t) }
}
