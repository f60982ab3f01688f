//! Build-script stand-in: compiles, never runs (SKIP_PROTO_GEN is set).
use std::path::Path;
pub struct Args<'a> {
  pub lang: &'a str,
  pub inputs: &'a [&'a Path],
  pub out_dir: &'a Path,
}
impl Default for Args<'_> {
  fn default() -> Self { Self { lang: "rust", inputs: &[], out_dir: Path::new("") } }
}
pub fn run(_: Args<'_>) -> std::io::Result<()> { panic!("flatc is not available offline") }
