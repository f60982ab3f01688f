mod gen;
mod hurt;
mod model;
mod play;
mod spec;
fn main() {
  vcommon::main_with(&[("C28", gen::c28), ("C29", gen::c29), ("C30", gen::c30)]);
}
