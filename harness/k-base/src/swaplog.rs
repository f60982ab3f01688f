//! C46: what is logged follows the rules given last.
use serde::{Deserialize, Serialize};
use vcommon::proptest::prelude::*;
use vcommon::{ensure, ensure_eq, part, Run};

const TARGETS: [&str; 8] = ["Ab", "a", "ab", "a::b", "a::b::c", "b", "aws_config::x", "aws_smithy_http_tower"];
const LEVELS: [log::Level; 5] = [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace];
const NAMES: [&str; 6] = ["off", "error", "warn", "info", "debug", "trace"];

/// One rule: for whom, and up to which level (0 = none, 5 = all).
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Rule {
  All(u8),
  For(u8, u8),
  /// Only a name: all levels of it.
  Name(u8),
  /// Not a rule; is left out.
  Bad(u8),
}
impl Rule {
  fn text(&self, caps: bool) -> String {
    let name = |l: u8| if caps { NAMES[l as usize].to_uppercase() } else { NAMES[l as usize].to_string() };
    match self {
      Self::All(l) => name(*l),
      Self::For(t, l) => format!("{}={}", TARGETS[*t as usize], name(*l)),
      Self::Name(t) => TARGETS[*t as usize].to_string(),
      Self::Bad(0) => "a=loud".into(),
      Self::Bad(1) => "a=b=info".into(),
      Self::Bad(_) => "=".into(),
    }
  }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Rules {
  rules: Vec<Rule>,
  caps: bool,
}
impl Rules {
  fn text(&self) -> String {
    self.rules.iter().map(|r| r.text(self.caps)).collect::<Vec<_>>().join(",")
  }
  /// Up to which level is this target logged?
  fn most(&self, target: &str) -> u8 {
    let mut best: Option<(usize, u8)> = None;
    let mut any = false;
    for r in &self.rules {
      let (prefix, level) = match r {
        Rule::All(l) => ("", *l),
        Rule::For(t, l) => (TARGETS[*t as usize], *l),
        Rule::Name(t) => (TARGETS[*t as usize], 5),
        Rule::Bad(_) => continue,
      };
      any = true;
      if target.starts_with(prefix) && best.map_or(true, |b| prefix.len() >= b.0) {
        best = Some((prefix.len(), level));
      }
    }
    // Without any rule, errors are logged.
    best.map_or(if any { 0 } else { 1 }, |b| b.1)
  }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
  Swap(Rules),
  /// target, level, on a thread of its own
  Log(u8, u8, bool),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
  first: Option<Rules>,
  color: bool,
  ops: Vec<Op>,
}

pub fn child(case: &str) {
  let c: Case = serde_json::from_str(case).unwrap();
  bd_log::SwapLogger::initialize();
  for (i, op) in c.ops.iter().enumerate() {
    match op {
      Op::Swap(r) => {
        if let Err(e) = bd_log::SwapLogger::swap(&r.text()) {
          println!("swap {i}: {e}");
        }
      },
      Op::Log(t, l, thread) => {
        let (t, l) = (TARGETS[*t as usize], LEVELS[*l as usize]);
        let write = move || {
          if log::log_enabled!(target: t, l) {
            println!("enabled {i}");
          }
          log::log!(target: t, l, "record {i}.");
        };
        if *thread {
          std::thread::spawn(write).join().unwrap();
        } else {
          write();
        }
      },
    }
  }
  println!("done");
}

fn rules() -> impl Strategy<Value = Rules> {
  let n = TARGETS.len() as u8;
  let rule = prop_oneof![
    3 => (0u8 .. 6).prop_map(Rule::All),
    6 => (0 .. n, 0u8 .. 6).prop_map(|(t, l)| Rule::For(t, l)),
    1 => (0 .. n).prop_map(Rule::Name),
    1 => (0u8 .. 3).prop_map(Rule::Bad),
  ];
  (prop::collection::vec(rule, 0 .. 5), any::<bool>()).prop_map(|(rules, caps)| Rules { rules, caps })
}

pub fn c46(run: &mut Run) {
  run.run(
    part(
      "child",
      2_000,
      20_000,
      "child processes that start with given rules or none, change them and write records of all levels and several targets in between, on \
       one or several threads; non-trivial = the rules change and some, but not all records are to be logged",
    )
    .max_shrink(150),
    || {
      let op = prop_oneof![1 => rules().prop_map(Op::Swap), 4 => (0 .. TARGETS.len() as u8, 0u8 .. 5, any::<bool>()).prop_map(|(t, l, h)| Op::Log(t, l, h))];
      (prop::option::weighted(0.7, rules()), prop::bool::weighted(0.2), prop::collection::vec(op, 1 .. 40))
        .prop_map(|(first, color, ops)| Case { first, color, ops })
    },
    |c, obs| {
      let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
      cmd.args(["child", "log", &serde_json::to_string(c).unwrap()]).env_remove("RUST_LOG").env_remove("BD_LOG_ANSI").env_remove("NO_COLOR");
      if let Some(r) = &c.first {
        cmd.env("RUST_LOG", r.text());
      }
      if c.color {
        cmd.env("BD_LOG_ANSI", "1");
      }
      let out = cmd.output().unwrap();
      let told = String::from_utf8_lossy(&out.stdout).to_string();
      let logged = String::from_utf8_lossy(&out.stderr).to_string();
      ensure!(out.status.success() && told.ends_with("done\n"), "the process does not come to its end: {told}{logged}");
      ensure!(!told.contains("swap"), "the rules are not taken: {told}");
      // Without rules: everything up to info, and warnings of some dependencies.
      let usual = Rules { rules: vec![Rule::All(3), Rule::For(7, 2)], caps: false };
      let mut now = c.first.clone();
      let (mut want, mut records, mut swaps) = (vec![], 0, 0);
      for (i, op) in c.ops.iter().enumerate() {
        match op {
          Op::Swap(r) => {
            now = Some(r.clone());
            swaps += 1;
          },
          Op::Log(t, l, _) => {
            records += 1;
            let target = TARGETS[*t as usize];
            let most = match &now {
              Some(r) => r.most(target),
              None if target.starts_with("aws_config") => 2,
              None => usual.most(target),
            };
            if l < &most {
              want.push((i, LEVELS[*l as usize], target));
            }
          },
        }
      }
      obs.nontrivial(swaps > 0 && !want.is_empty() && want.len() < records);
      obs.label_if(c.first.is_none(), "no rules at first");
      let got: Vec<usize> = told.lines().filter_map(|l| l.strip_prefix("enabled ").map(|n| n.parse().unwrap())).collect();
      ensure_eq!(got, want.iter().map(|w| w.0).collect::<Vec<_>>(), "records that are said to be logged");
      let lines: Vec<&str> = logged.lines().filter(|l| l.contains("record ")).collect();
      ensure_eq!(lines.len(), want.len(), "records that are logged");
      ensure!(lines.iter().all(|l| l.contains('\u{1b}') == c.color), "colors are asked for: {}; what is logged: {logged:?}", c.color);
      for (line, (i, level, target)) in lines.iter().zip(&want) {
        let mut plain = String::new();
        let mut rest = *line;
        while let Some((a, b)) = rest.split_once('\u{1b}') {
          plain.push_str(a);
          rest = b.split_once('m').map_or("", |x| x.1);
        }
        plain.push_str(rest);
        ensure!(
          plain.contains(&format!("record {i}.")) && plain.contains(level.as_str()) && plain.contains(&format!("{target}:")),
          "record {i} of {target} at {level} is logged as {plain:?}"
        );
      }
      Ok(())
    },
  );
}
