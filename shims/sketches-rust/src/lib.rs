//! DDSketch stand-in: logarithmic mapping, dense buckets collapsed at the low end. Same API and the
//! same accuracy contract as the real crate; the encoding is this crate's own.
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub struct Error(pub &'static str);
impl std::fmt::Display for Error {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, PartialEq, Default)]
struct Store { b: BTreeMap<i32, f64>, max: usize }
impl Store {
  fn add(&mut self, i: i32, c: f64) {
    *self.b.entry(i).or_default() += c;
    let hi = *self.b.keys().next_back().unwrap();
    let lo = hi - (self.max as i32 - 1);
    while let Some((&k, &v)) = self.b.iter().next() {
      if k >= lo { break; }
      self.b.remove(&k);
      *self.b.entry(lo).or_default() += v;
    }
  }
  fn total(&self) -> f64 { self.b.values().sum() }
}

#[derive(Debug, Clone, PartialEq)]
pub struct DDSketch { gamma: f64, max: usize, pos: Store, neg: Store, zero: f64 }
impl DDSketch {
  pub fn logarithmic_collapsing_lowest_dense(acc: f64, max: usize) -> Result<Self, Error> {
    if !(acc > 0.0 && acc < 1.0) { return Err(Error("invalid accuracy")); }
    let s = Store { b: BTreeMap::new(), max };
    Ok(Self { gamma: (1.0 + acc) / (1.0 - acc), max, pos: s.clone(), neg: s, zero: 0.0 })
  }
  fn index(&self, v: f64) -> i32 { (v.ln() / self.gamma.ln()).floor() as i32 }
  fn value(&self, i: i32) -> f64 {
    let lo = (f64::from(i) * self.gamma.ln()).exp();
    lo * (1.0 + (self.gamma - 1.0) / (self.gamma + 1.0))
  }
  pub fn accept(&mut self, v: f64) { self.accept_with_count(v, 1.0); }
  pub fn accept_with_count(&mut self, v: f64, c: f64) {
    let min = f64::MIN_POSITIVE * self.gamma;
    if v > min { let i = self.index(v); self.pos.add(i, c); }
    else if v < -min { let i = self.index(-v); self.neg.add(i, c); }
    else { self.zero += c; }
  }
  pub fn is_empty(&self) -> bool { self.get_count() == 0.0 }
  pub fn clear(&mut self) { self.pos.b.clear(); self.neg.b.clear(); self.zero = 0.0; }
  pub fn get_count(&self) -> f64 { self.zero + self.pos.total() + self.neg.total() }
  pub fn get_sum(&self) -> Option<f64> {
    if self.is_empty() { return None; }
    Some(self.pos.b.iter().map(|(i, c)| self.value(*i) * c).sum::<f64>()
      - self.neg.b.iter().map(|(i, c)| self.value(*i) * c).sum::<f64>())
  }
  pub fn get_value_at_quantile(&self, q: f64) -> Option<f64> {
    let n = self.get_count();
    if n == 0.0 { return None; }
    let rank = q * (n - 1.0);
    let mut seen = 0.0;
    for (i, c) in self.neg.b.iter().rev() { seen += c; if seen > rank { return Some(-self.value(*i)); } }
    seen += self.zero;
    if seen > rank { return Some(0.0); }
    let mut last = None;
    for (i, c) in &self.pos.b { seen += c; last = Some(self.value(*i)); if seen > rank { return last; } }
    last.or(Some(0.0))
  }
  pub fn get_min(&self) -> Option<f64> { self.get_value_at_quantile(0.0) }
  pub fn get_max(&self) -> Option<f64> { self.get_value_at_quantile(1.0) }
  pub fn merge_with(&mut self, o: &Self) -> Result<(), Error> {
    if (self.gamma - o.gamma).abs() > 1e-12 { return Err(Error("incompatible mapping")); }
    for (i, c) in &o.pos.b { self.pos.add(*i, *c); }
    for (i, c) in &o.neg.b { self.neg.add(*i, *c); }
    self.zero += o.zero;
    Ok(())
  }
  pub fn encode(&self) -> Result<Vec<u8>, Error> {
    let mut out = self.zero.to_le_bytes().to_vec();
    for s in [&self.pos, &self.neg] {
      out.extend((s.b.len() as u32).to_le_bytes());
      for (i, c) in &s.b { out.extend(i.to_le_bytes()); out.extend(c.to_le_bytes()); }
    }
    Ok(out)
  }
  pub fn decode_and_merge_with(&mut self, b: &[u8]) -> Result<(), Error> {
    let mut p = 0;
    let mut take = |n: usize| { let r = b.get(p .. p + n).ok_or(Error("truncated")); p += n; r };
    let zero = f64::from_le_bytes(take(8)?.try_into().unwrap());
    let mut add = vec![];
    for k in 0 .. 2 {
      let n = u32::from_le_bytes(take(4)?.try_into().unwrap());
      for _ in 0 .. n {
        let i = i32::from_le_bytes(take(4)?.try_into().unwrap());
        let c = f64::from_le_bytes(take(8)?.try_into().unwrap());
        if !(c > 0.0) { return Err(Error("bad count")); }
        add.push((k, i, c));
      }
    }
    if p != b.len() || !(zero >= 0.0) { return Err(Error("malformed")); }
    self.zero += zero;
    for (k, i, c) in add { if k == 0 { self.pos.add(i, c) } else { self.neg.add(i, c) } }
    let _ = self.max;
    Ok(())
  }
}
