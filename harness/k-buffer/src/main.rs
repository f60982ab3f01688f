mod both;
mod damage;
mod manager;
mod model;
mod ring;

struct Trace;
impl log::Log for Trace {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    eprintln!("{}", r.args());
  }
  fn flush(&self) {}
}
fn main() {
  if std::env::var_os("VTRACE").is_some() {
    log::set_logger(&Trace).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
  }
  vcommon::main_with(&[("C23", ring::c23), ("C24", ring::c24), ("C25", damage::c25), ("C26", both::c26), ("C27", manager::c27)]);
}
