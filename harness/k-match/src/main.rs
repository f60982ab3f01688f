mod filter;
mod logs;
mod matcher;
mod pgv;
mod rx;
mod tree;
fn main() {
  vcommon::main_with(&[
    ("C18", matcher::c18),
    ("C19", matcher::c19),
    ("C20", filter::c20),
    ("C21", pgv::c21),
    ("C22", pgv::c22),
  ]);
}
