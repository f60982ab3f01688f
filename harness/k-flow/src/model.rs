//! The reference: what a set of workflows makes of logs.
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Path {
  /// A node and whether it counts.
  nodes: Vec<(String, bool)>,
  trimmed: bool,
}

#[derive(Clone, Debug, PartialEq)]
struct Trav {
  state: usize,
  hits: Vec<u32>,
  paths: BTreeMap<u8, Path>,
}

#[derive(Clone, Debug, PartialEq)]
struct Run {
  travs: Vec<Trav>,
  matched: u32,
  since: Option<i64>,
}
impl Run {
  fn fresh(&self) -> bool {
    self.travs.iter().all(|t| t.state == 0 && t.hits.iter().all(|h| *h == 0))
  }

  fn n(&self) -> u32 {
    self.travs.len() as u32
  }
}

#[derive(Clone, Debug)]
pub struct Flow {
  pub def: usize,
  /// The one that has not started yet, and the others, oldest first.
  runs: Vec<Run>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pending {
  pub id: usize,
  pub session: String,
  pub from: BTreeSet<String>,
  pub to: Option<(BTreeSet<String>, Option<u64>)>,
}

#[derive(Clone, Debug)]
pub struct Stream {
  pub id: usize,
  session: String,
  from: BTreeSet<String>,
  to: BTreeSet<String>,
  max: Option<u64>,
  logs: u64,
}

#[derive(Clone, Debug)]
struct Saved {
  session: String,
  flows: Vec<Flow>,
  pending: Vec<Pending>,
  streams: Vec<Stream>,
}

/// What is expected of one log.
#[derive(Default, Debug)]
pub struct Out {
  pub dest: BTreeSet<String>,
  pub flush_ids: BTreeSet<String>,
  pub flush_buffers: BTreeSet<String>,
  pub screenshot: bool,
  pub metrics: Vec<Metric>,
  pub sankeys: Vec<Emitted>,
  pub active: u32,
}

/// A path of a diagram, by which action.
#[derive(Debug, PartialEq, Clone)]
pub struct Emitted {
  pub diagram: u8,
  pub limit: u32,
  pub tags: Vec<Value>,
  pub nodes: Vec<String>,
  pub trimmed: bool,
}

#[derive(Default, Debug)]
pub struct Seen {
  pub forked: bool,
  pub completed: bool,
  pub stopped: bool,
  pub reset: bool,
  pub limited: bool,
  pub rerouted: bool,
  pub stream_ended: bool,
  pub resumed: bool,
  pub advanced: u32,
}

#[derive(Debug)]
pub struct Model {
  pub flows: Vec<Flow>,
  pub session: String,
  active: u32,
  pub limit: u32,
  pub buffers: u8,
  pub pending: Vec<Pending>,
  pub queue: VecDeque<Pending>,
  /// What the server is being asked about.
  pub asking: Option<Pending>,
  rejected: BTreeSet<usize>,
  pub streams: Vec<Stream>,
  /// Whether the flush of an action is done.
  pub flushes: BTreeMap<usize, bool>,
  saved: Option<Saved>,
  /// What became of pending or streaming actions that a change of the buffers invalidated and whether that is
  /// stored is open.
  pub stale: bool,
  /// Whether the last attempt stored anything.
  pub doubt: bool,
  pub seen: Seen,
}

enum End {
  Running,
  Completed,
  Stopped,
}

impl Model {
  pub fn new(limit: u32, buffers: u8) -> Self {
    Self {
      flows: vec![],
      session: String::new(),
      active: 0,
      limit,
      buffers,
      pending: vec![],
      queue: VecDeque::new(),
      asking: None,
      rejected: BTreeSet::new(),
      streams: vec![],
      flushes: BTreeMap::new(),
      saved: None,
      stale: false,
      doubt: false,
      seen: Seen::default(),
    }
  }

  fn set(&self, trigger: bool) -> BTreeSet<String> {
    names(self.buffers, trigger).into_iter().collect()
  }

  /// Workflows as configured, with what is known of them.
  fn add(&mut self, mut f: Flow) {
    let total: u32 = f.runs.iter().map(Run::n).sum();
    let mut left = total;
    while left + self.active > self.limit {
      let Some(r) = f.runs.pop() else { break };
      left -= r.n();
      self.stale |= !r.fresh();
      self.seen.limited = true;
    }
    self.active += left;
    self.flows.push(f);
  }

  pub fn update(&mut self, case: &Case, which: &[usize], buffers: u8) {
    let mut i = self.flows.len();
    while i > 0 {
      i -= 1;
      let keep = which.iter().any(|d| case.wfs[*d].proto(&case.flushes) == case.wfs[self.flows[i].def].proto(&case.flushes));
      if !keep {
        let f = self.flows.remove(i);
        self.active -= f.runs.iter().map(Run::n).sum::<u32>();
      }
    }
    for d in which {
      if !self.flows.iter().any(|f| case.wfs[f.def].id == case.wfs[*d].id) {
        self.add(Flow { def: *d, runs: vec![] });
      }
    }
    self.buffers = buffers;
    self.stale |= self.standardize();
  }

  /// Forget about buffers that do not exist.
  fn standardize(&mut self) -> bool {
    let (trigger, continuous) = (self.set(true), self.set(false));
    let before = format!("{:?}{:?}", self.pending, self.streams);
    for p in &mut self.pending {
      p.from = p.from.intersection(&trigger).cloned().collect();
    }
    self.pending.retain(|p| !p.from.is_empty());
    for s in &mut self.streams {
      s.from = s.from.intersection(&trigger).cloned().collect();
      s.to = s.to.intersection(&continuous).cloned().collect();
    }
    self.streams.retain(|s| !s.from.is_empty() && !s.to.is_empty());
    before != format!("{:?}{:?}", self.pending, self.streams)
  }

  pub fn persist(&mut self) {
    self.saved = Some(Saved {
      session: self.session.clone(),
      flows: self.flows.clone(),
      pending: self.pending.clone(),
      streams: self.streams.clone(),
    });
  }

  /// The definitions that the stored runs belong to.
  pub fn saved_defs(&self) -> Vec<usize> {
    self.saved.iter().flat_map(|s| &s.flows).filter(|f| f.runs.iter().any(|r| !r.fresh())).map(|f| f.def).collect()
  }

  pub fn restart(&mut self, which: &[usize]) {
    let saved = self.saved.clone();
    let mut m = Self::new(self.limit, self.buffers);
    std::mem::swap(&mut m.seen, &mut self.seen);
    m.stale = self.stale;
    if let Some(s) = &saved {
      m.session = s.session.clone();
      m.pending = s.pending.clone();
      m.streams = s.streams.clone();
      m.stale |= m.standardize();
    }
    // What belongs to nothing that is configured stays in the file until something else is stored.
    m.stale |= saved.iter().flat_map(|s| &s.flows).any(|f| !which.contains(&f.def) && f.runs.iter().any(|r| !r.fresh()));
    for d in which {
      let runs = saved.as_ref().and_then(|s| s.flows.iter().find(|f| f.def == *d)).map_or(vec![], |f| {
        f.runs.iter().filter(|r| !r.fresh()).cloned().collect()
      });
      m.seen.resumed |= !runs.is_empty();
      m.add(Flow { def: *d, runs });
    }
    // In the order of their ids, then of the session.
    let mut again = m.pending.clone();
    again.sort_by(|a, b| (format!("f{}", a.id), &a.session).cmp(&(format!("f{}", b.id), &b.session)));
    m.queue = again.into();
    m.saved = saved;
    *self = m;
  }

  fn new_run(case: &Case, def: usize) -> Run {
    let first = &case.wfs[def].states[0];
    Run {
      travs: if first.is_empty() { vec![] } else { vec![Trav { state: 0, hits: vec![0; first.len()], paths: BTreeMap::new() }] },
      matched: 0,
      since: None,
    }
  }

  /// One run and one log: how it ends, whether something matched, and what is to be done.
  fn step(case: &Case, def: usize, run: &mut Run, log: &LogSpec, now: i64, acts: &mut Vec<(Act, Option<Emitted>)>, seen: &mut Seen) -> (End, bool) {
    let wf = &case.wfs[def];
    let mut todo = vec![];
    let mut matched = 0;
    let mut next: Vec<Trav> = vec![];
    let late = run.since.zip(wf.ms_limit).is_some_and(|(t, l)| now - t > l as i64);
    if late && !run.travs.is_empty() {
      return (End::Stopped, false);
    }
    for mut t in std::mem::take(&mut run.travs) {
      let mut followed = vec![];
      for (i, tr) in wf.states[t.state].iter().enumerate() {
        if tr.pred.holds(log) {
          matched += 1;
          t.hits[i] += 1;
          if t.hits[i] == tr.count {
            followed.push(i);
          }
        }
      }
      if followed.is_empty() {
        next.push(t);
        continue;
      }
      seen.forked |= followed.len() > 1;
      seen.advanced += 1;
      for i in followed {
        let tr = &wf.states[t.state][i];
        let mut paths = t.paths.clone();
        for (s, v, counts) in &tr.nodes {
          if !wf.emits(*s) {
            continue;
          }
          if let Some(v) = v.of(log) {
            let p = paths.entry(*s).or_default();
            p.nodes.push((v, *counts));
            if *counts && p.nodes.iter().filter(|n| n.1).count() > wf.sankey_limits[*s as usize] as usize {
              let first = p.nodes.iter().position(|n| n.1).unwrap();
              p.nodes.remove(first);
              p.trimmed = true;
            }
          }
        }
        for a in &tr.acts {
          if let Act::Sankey(s, tags) = a {
            if let Some(p) = paths.remove(s) {
              let e = Emitted {
                diagram: *s,
                limit: wf.sankey_limits[*s as usize],
                tags: tags.clone(),
                nodes: p.nodes.into_iter().map(|n| n.0).collect(),
                trimmed: p.trimmed,
              };
              todo.push((a.clone(), Some(e)));
            }
          } else {
            todo.push((a.clone(), None));
          }
        }
        let to = wf.target(t.state, tr);
        if !wf.states[to].is_empty() {
          next.push(Trav { state: to, hits: vec![0; wf.states[to].len()], paths });
        }
      }
    }
    run.travs = next;
    run.matched += matched;
    if wf.logs_limit.is_some_and(|l| run.matched > l) {
      return (End::Stopped, matched > 0);
    }
    if matched > 0 && run.since.is_none() {
      run.since = Some(now);
    }
    acts.extend(todo);
    (if run.travs.is_empty() { End::Completed } else { End::Running }, matched > 0)
  }

  pub fn log(&mut self, case: &Case, log: &LogSpec, now: i64) -> Out {
    let session = "s".repeat(1 + usize::from(log.session));
    if self.session != session {
      if !self.session.is_empty() {
        for f in &mut self.flows {
          f.runs.clear();
        }
        self.active = 0;
      }
      self.session = session;
    }
    let dest: BTreeSet<String> = names(log.dest, true).into_iter().chain(names(log.dest, false)).collect();
    let mut out = Out { active: self.active, ..Out::default() };
    if self.flows.is_empty() {
      out.dest = dest;
      return out;
    }
    let mut acts = vec![];
    for f in &mut self.flows {
      let wf = &case.wfs[f.def];
      if !f.runs.iter().any(Run::fresh) {
        let r = Self::new_run(case, f.def);
        if self.active + r.n() <= self.limit {
          self.active += r.n();
          if wf.exclusive {
            f.runs.insert(0, r);
          } else {
            f.runs.push(r);
          }
        } else {
          self.seen.limited = true;
        }
      }
      let mut progress = false;
      let mut i = f.runs.len();
      while i > 0 {
        i -= 1;
        let before = f.runs[i].n();
        let (end, moved) = Self::step(case, f.def, &mut f.runs[i], log, now, &mut acts, &mut self.seen);
        match end {
          End::Stopped => {
            self.seen.stopped = true;
            self.active -= before;
            f.runs.remove(i);
          },
          End::Completed => {
            self.seen.completed = true;
            self.active -= before;
            f.runs.remove(i);
            progress = true;
            // With more active than allowed it counts as stopped.
            if self.active > self.limit {
              progress = false;
            }
          },
          End::Running => {
            self.active = self.active - before + f.runs[i].n();
            if self.active > self.limit {
              self.seen.limited = true;
              self.active -= f.runs[i].n();
              f.runs.remove(i);
            } else {
              progress |= moved;
            }
          },
        }
        if wf.exclusive && f.runs.len() > 1 && progress {
          if i == 0 {
            self.seen.reset = true;
            let old = f.runs.remove(1);
            self.active -= old.n();
          } else {
            break;
          }
        }
      }
    }
    out.active = self.active;

    // Where the log goes.
    let (trigger, continuous) = (self.set(true), self.set(false));
    let (session, flushes, seen) = (self.session.clone(), &self.flushes, &mut self.seen);
    self.streams.retain(|s| {
      let over = s.max.is_some_and(|m| s.logs >= m) || s.session != session;
      let end = over && flushes.get(&s.id).copied().unwrap_or(true);
      seen.stream_ended |= end;
      !end
    });
    let mut rest: BTreeSet<String> = dest.iter().filter(|d| trigger.contains(*d) || continuous.contains(*d)).cloned().collect();
    let mut to = BTreeSet::new();
    for s in &mut self.streams {
      let both: Vec<_> = s.from.intersection(&dest).cloned().collect();
      if !both.is_empty() {
        seen.rerouted = true;
        s.logs += 1;
        rest.retain(|d| !both.contains(d));
        to.extend(s.to.iter().cloned());
      }
    }
    to.extend(rest);
    out.dest = to;

    let was = self.pending.clone();
    let mut flush: BTreeSet<(String, usize)> = BTreeSet::new();
    for (a, emitted) in acts {
      match a {
        Act::Metric(m) => {
          if !out.metrics.contains(&m) {
            out.metrics.push(m);
          }
        },
        Act::Screenshot(_) => out.screenshot = true,
        Act::Sankey(..) => {
          let e = emitted.unwrap();
          if !out.sankeys.contains(&e) {
            out.sankeys.push(e);
          }
        },
        Act::Flush(f) => {
          let f = f % case.flushes.len();
          flush.insert((format!("f{f}"), f));
        },
      }
    }
    for (name, f) in flush {
      out.flush_ids.insert(name);
      let spec = &case.flushes[f];
      let named: BTreeSet<String> = names(spec.buffers, true).into_iter().collect();
      let from: BTreeSet<String> = if named.is_empty() { trigger.clone() } else { named.intersection(&trigger).cloned().collect() };
      if from.is_empty() {
        continue;
      }
      out.flush_buffers.extend(from.iter().cloned());
      if was.iter().any(|p| p.id == f) || self.streams.iter().any(|s| s.id == f) {
        continue;
      }
      let to = spec.streaming.and_then(|(to, max)| {
        let named: BTreeSet<String> = names(to, false).into_iter().collect();
        let to: BTreeSet<String> =
          if named.is_empty() { continuous.iter().take(1).cloned().collect() } else { named.intersection(&continuous).cloned().collect() };
        (!to.is_empty()).then_some((to, max))
      });
      let p = Pending { id: f, session: self.session.clone(), from, to };
      self.pending.push(p.clone());
      self.queue.push_back(p);
    }
    out
  }

  /// Goes on until somebody has to be asked.
  pub fn pump(&mut self) {
    while self.asking.is_none() {
      let Some(p) = self.queue.pop_front() else { break };
      if self.rejected.contains(&p.id) {
        self.pending.retain(|q| q.id != p.id || q.session != p.session);
      } else {
        self.asking = Some(p);
      }
    }
  }

  /// The server's decision; the buffers to flush, if any.
  pub fn answer(&mut self, yes: bool) -> Option<BTreeSet<String>> {
    let p = self.asking.take().unwrap();
    self.pending.retain(|q| q.id != p.id || q.session != p.session);
    if !yes {
      self.rejected.insert(p.id);
      return None;
    }
    let flush = self.flushes.get(&p.id).copied().unwrap_or(true);
    if flush {
      self.flushes.insert(p.id, false);
    }
    let continuous = self.set(false);
    if let Some((to, max)) = p.to {
      let to: BTreeSet<String> = to.intersection(&continuous).cloned().collect();
      if !to.is_empty() {
        self.streams.push(Stream { id: p.id, session: p.session, from: p.from.clone(), to, max, logs: 0 });
      }
    }
    flush.then_some(p.from)
  }
}
