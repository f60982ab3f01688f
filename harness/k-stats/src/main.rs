mod deliver;
mod store;
fn main() {
  vcommon::main_with(&[("C31", store::c31), ("C32", deliver::c32)]);
}
