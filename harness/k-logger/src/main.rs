mod notes;
mod ticks;
mod uploads;
mod waiting;
mod whole;

/// What is logged for debugging is put together, as it would be with debugging on, and thrown away.
struct Sink;
impl log::Log for Sink {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    let _ = r.args().to_string();
  }
  fn flush(&self) {}
}

fn main() {
  log::set_logger(&Sink).unwrap();
  log::set_max_level(log::LevelFilter::Trace);
  vcommon::main_with(&[("C38", uploads::c38), ("C39", whole::c39), ("C41", waiting::c41), ("C42", notes::c42), ("C43", ticks::c43)]);
}
