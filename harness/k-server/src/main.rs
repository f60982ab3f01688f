mod flags;
mod stats;

fn main() {
  vcommon::main_with(&[("C06", stats::c06), ("C07", flags::c07), ("C08", flags::c08)]);
}
