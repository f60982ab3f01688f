mod kv;
mod logmeta;
mod misc;
mod store;
mod swaplog;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.get(1).map(String::as_str) == Some("child") {
    match args[2].as_str() {
      "runtime" => misc::child_runtime(),
      "log" => swaplog::child(&args[3]),
      "panic" => misc::child_panic(&args[3]),
      _ => std::process::exit(2),
    }
    return;
  }
  vcommon::main_with(&[
    ("C01", kv::c01),
    ("C02", kv::c02),
    ("C04", logmeta::c04),
    ("C05", logmeta::c05),
    ("C12", logmeta::c12),
    ("C09", misc::c09),
    ("C10", misc::c10),
    ("C11", misc::c11),
    ("C13", misc::c13),
    ("C14", misc::c14),
    ("C15", misc::c15),
    ("C46", swaplog::c46),
  ]);
}
