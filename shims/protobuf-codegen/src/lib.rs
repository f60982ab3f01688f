//! Build-script stand-in: compiles, never runs (SKIP_PROTO_GEN is set).
#[derive(Default)]
pub struct Customize;
impl Customize {
  pub fn gen_mod_rs(self, _: bool) -> Self { self }
  pub fn oneofs_non_exhaustive(self, _: bool) -> Self { self }
  pub fn tokio_bytes(self, _: bool) -> Self { self }
  pub fn tokio_bytes_for_string(self, _: bool) -> Self { self }
  pub fn file_header(self, _: String) -> Self { self }
}
pub struct Codegen;
impl Codegen {
  pub fn new() -> Self { Self }
  pub fn protoc(&mut self) -> &mut Self { self }
  pub fn customize(&mut self, _: Customize) -> &mut Self { self }
  pub fn includes<T>(&mut self, _: impl IntoIterator<Item = T>) -> &mut Self { self }
  pub fn input<T>(&mut self, _: T) -> &mut Self { self }
  pub fn inputs<T>(&mut self, _: impl IntoIterator<Item = T>) -> &mut Self { self }
  pub fn out_dir<T>(&mut self, _: T) -> &mut Self { self }
  pub fn capture_stderr(&mut self) -> &mut Self { self }
  pub fn run_from_script(&mut self) { panic!("proto generation is not available offline") }
}
