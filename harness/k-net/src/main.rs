mod codec;
mod errors;
mod flags;
mod forms;
mod link;
fn main() {
  if std::env::args().nth(1).as_deref() == Some("child") {
    return errors::child();
  }
  vcommon::main_with(&[("C33", codec::c33), ("C34", flags::c34), ("C35", forms::c35), ("C36", errors::c36), ("C37", link::c37)]);
}
