//! A small regular expression language with its own backtracking matcher, the oracle for the
//! regular expressions used in matcher configurations.
use serde::{Deserialize, Serialize};
use vcommon::proptest::prelude::*;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Atom {
  Lit(char),
  Any,
  Star(char),
  Plus(char),
  AnyStar,
  Class(Vec<char>),
  Alt(String, String),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Rx {
  pub start: bool,
  pub atoms: Vec<Atom>,
  pub end: bool,
}
pub const ALPHABET: [char; 6] = ['a', 'b', '.', '1', '-', 'é'];

impl Rx {
  pub fn text(&self) -> String {
    let lit = |c: &char| if *c == '.' { "\\.".to_string() } else { c.to_string() };
    let lits = |s: &str| s.chars().map(|c| lit(&c)).collect::<String>();
    let mut out = String::new();
    if self.start {
      out.push('^');
    }
    for a in &self.atoms {
      out.push_str(&match a {
        Atom::Lit(c) => lit(c),
        Atom::Any => ".".to_string(),
        Atom::Star(c) => format!("{}*", lit(c)),
        Atom::Plus(c) => format!("{}+", lit(c)),
        Atom::AnyStar => ".*".to_string(),
        Atom::Class(cs) => format!("[{}]", cs.iter().map(|c| if *c == '-' { "\\-".into() } else { c.to_string() }).collect::<String>()),
        Atom::Alt(a, b) => format!("(?:{}|{})", lits(a), lits(b)),
      });
    }
    if self.end {
      out.push('$');
    }
    out
  }
  fn rest(&self, i: usize, s: &[char]) -> bool {
    let Some(a) = self.atoms.get(i) else { return !self.end || s.is_empty() };
    let many = |f: &dyn Fn(char) -> bool, min: usize| {
      let n = s.iter().take_while(|c| f(**c)).count();
      (min ..= n).any(|k| self.rest(i + 1, &s[k ..]))
    };
    match a {
      Atom::Lit(c) => s.first() == Some(c) && self.rest(i + 1, &s[1 ..]),
      Atom::Any => s.first().is_some_and(|c| *c != '\n') && self.rest(i + 1, &s[1 ..]),
      Atom::Star(c) => many(&|x| x == *c, 0),
      Atom::Plus(c) => many(&|x| x == *c, 1),
      Atom::AnyStar => many(&|x| x != '\n', 0),
      Atom::Class(cs) => s.first().is_some_and(|c| cs.contains(c)) && self.rest(i + 1, &s[1 ..]),
      Atom::Alt(a, b) => [a, b].into_iter().any(|t| {
        let t: Vec<char> = t.chars().collect();
        s.starts_with(&t) && self.rest(i + 1, &s[t.len() ..])
      }),
    }
  }
  pub fn matches(&self, s: &str) -> bool {
    let s: Vec<char> = s.chars().collect();
    (0 ..= if self.start { 0 } else { s.len() }).any(|i| self.rest(0, &s[i ..]))
  }
}
pub fn chr() -> impl Strategy<Value = char> + Clone {
  prop::sample::select(ALPHABET.to_vec())
}
pub fn word() -> impl Strategy<Value = String> + Clone {
  prop::collection::vec(chr(), 0 .. 4).prop_map(|v| v.into_iter().collect())
}
pub fn rx() -> impl Strategy<Value = Rx> + Clone {
  let atom = prop_oneof![
    5 => chr().prop_map(Atom::Lit),
    1 => Just(Atom::Any),
    1 => chr().prop_map(Atom::Star),
    1 => chr().prop_map(Atom::Plus),
    1 => Just(Atom::AnyStar),
    1 => prop::collection::vec(chr(), 1 .. 3).prop_map(Atom::Class),
    1 => (word(), word()).prop_map(|(a, b)| Atom::Alt(a, b)),
  ];
  (any::<bool>(), prop::collection::vec(atom, 0 .. 4), any::<bool>())
    .prop_map(|(start, atoms, end)| Rx { start, atoms, end })
}
