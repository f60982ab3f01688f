mod session;
#[allow(dead_code)]
mod store;
mod times;

fn main() {
  vcommon::main_with(&[("C03", session::c03), ("C16", session::c16), ("C17", times::c17)]);
}
