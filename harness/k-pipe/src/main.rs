mod pipe;
mod spec;

/// What is logged for debugging is put together, as it would be with debugging on, and thrown away.
struct Sink;
impl log::Log for Sink {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    let _ = r.args().to_string();
  }
  fn flush(&self) {}
}

fn main() {
  log::set_logger(&Sink).unwrap();
  log::set_max_level(log::LevelFilter::Trace);
  vcommon::main_with(&[("C44", pipe::c44)]);
}
