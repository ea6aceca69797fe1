//! Subjects: all histories against a reference machine, re-entrant histories and
//! concurrent use against interval rules.
use crate::ast::*;
use crate::conc::*;
use crate::core::*;
use crate::gen::src;
use crate::log::{self, K, R};
use crate::real::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use vstd::rt::{self, Config, Engine};

pub const KINDS: [&str; 4] = ["Subject", "BehaviorSubject", "ReplaySubject", "AsyncSubject"];

// ---------------------------------------------------------------- C10: histories

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum S {
  Sub,
  Unsub(u16),
  Next,
  Err,
  Done,
}
fn show_s(s: &[S]) -> String {
  let mut n = 0;
  s.iter()
    .map(|s| match s {
      S::Sub => "subscribe".to_string(),
      S::Unsub(k) => format!("unsubscribe({})", k),
      S::Next => {
        n += 1;
        format!("next({})", n)
      }
      S::Err => "error".into(),
      S::Done => "complete".into(),
    })
    .collect::<Vec<_>>()
    .join(", ")
}
/// every history of exactly this many steps (shorter ones are their prefixes)
fn histories(depth: usize, subs: u16) -> Vec<Box<[S]>> {
  let mut out = vec![];
  let mut cur = vec![];
  fn go(cur: &mut Vec<S>, left: usize, n: u16, max: u16, out: &mut Vec<Box<[S]>>) {
    if left == 0 {
      out.push(cur.clone().into_boxed_slice());
      return;
    }
    let mut put = |s: S, n: u16| {
      cur.push(s);
      go(cur, left - 1, n, max, out);
      cur.pop();
    };
    put(S::Next, n);
    if n < max {
      put(S::Sub, n + 1);
    }
    for k in 0..n {
      put(S::Unsub(k), n);
    }
    put(S::Done, n);
    put(S::Err, n);
  }
  go(&mut cur, depth, 0, subs, &mut out);
  out
}

/// many items, many subscribers, many that come and go
fn large_histories(q: bool) -> Vec<Box<[S]>> {
  let mut out: Vec<Vec<S>> = vec![];
  let sizes: &[usize] = if q { &[5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 300] } else { &[5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1001, 1024, 1025] };
  let ends: [&[S]; 3] = [&[S::Done], &[S::Err], &[]];
  for &n in sizes {
    for e in ends {
      let tail = |v: &mut Vec<S>| {
        v.extend([S::Sub, S::Next]);
        v.extend(e);
        v.extend([S::Sub]);
        out.push(v.clone());
      };
      let mut tail = tail;
      // items: nobody there, one there, one that comes half-way, one that leaves half-way
      for first in [0, 1] {
        for half in [None, Some(S::Sub), Some(S::Unsub(0))] {
          if first == 0 && half == Some(S::Unsub(0)) {
            continue;
          }
          let mut v = vec![S::Sub; first];
          v.extend(vec![S::Next; n / 2]);
          v.extend(half);
          v.extend(vec![S::Next; n - n / 2]);
          tail(&mut v);
        }
      }
      // subscribers
      let m = n.min(if q { 130 } else { 300 });
      for items in [false, true] {
        let mut come = vec![];
        for _ in 0..m {
          if items {
            come.push(S::Next);
          }
          come.push(S::Sub);
        }
        come.push(S::Next);
        let fwd: Vec<usize> = (0..m).collect();
        let back: Vec<usize> = (0..m).rev().collect();
        let odd: Vec<usize> = (0..m).filter(|k| k % 2 == 1).collect();
        for leave in [vec![], fwd, back, odd, vec![0], vec![m - 1], vec![m / 2]] {
          let mut v = come.clone();
          for (i, k) in leave.iter().enumerate() {
            v.push(S::Unsub(*k as u16));
            if i % 7 == 0 {
              v.push(S::Next);
            }
          }
          v.push(S::Next);
          tail(&mut v);
        }
      }
      // one that stays while others come and go
      for stays in [0, 1] {
        let mut v = vec![S::Sub; stays];
        for k in 0..n.min(300) {
          v.extend([S::Sub, S::Next, S::Unsub((k + stays) as u16)]);
        }
        tail(&mut v);
      }
    }
  }
  out.into_iter().map(|v| v.into_boxed_slice()).collect()
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Trace {
  /// per subscriber: step and event
  recs: Vec<Vec<(usize, Ev)>>,
  /// per step: who is subscribed
  live: Vec<Vec<bool>>,
  held: Vec<Option<usize>>,
}

/// what the statements leave open, as bits
const REJECT: u32 = 1; // once ended, a stateful subject ignores what comes
const LAST_TERM: u32 = 2; // a later terminal replaces the stored one
const LAST_SEEN: u32 = 4; // AsyncSubject: the last item since subscribing

/// the machine the statement describes
fn reference(kind: u8, h: &[S], pol: u32) -> Trace {
  struct M {
    live: Vec<bool>,
    seen: Vec<Option<i64>>,
    t: Trace,
  }
  let mut m = M { live: vec![], seen: vec![], t: Trace::default() };
  let mut past: Vec<i64> = if kind == 1 { vec![0] } else { vec![] };
  let mut ended: Option<Ev> = None;
  let mut n = 0;
  for (i, s) in h.iter().enumerate() {
    let i = i + 1;
    match *s {
      S::Sub => {
        m.live.push(true);
        m.seen.push(None);
        m.t.recs.push(vec![]);
        let r = m.t.recs.last_mut().unwrap();
        if kind == 1 && ended.is_none() {
          r.push((i, Ev::Next(*past.last().unwrap())));
        }
        if kind == 2 {
          r.extend(past.iter().map(|x| (i, Ev::Next(*x))));
        }
        if let (1 | 2, Some(e)) = (kind, ended) {
          r.push((i, e));
          *m.live.last_mut().unwrap() = false;
        }
      }
      S::Unsub(k) => m.live[k as usize] = false,
      S::Next => {
        n += 1;
        if !(ended.is_some() && kind != 0 && pol & REJECT != 0) {
          past.push(n);
          for k in 0..m.live.len() {
            if m.live[k] {
              m.seen[k] = Some(n);
              if kind != 3 {
                m.t.recs[k].push((i, Ev::Next(n)));
              }
            }
          }
        }
      }
      S::Err | S::Done => {
        let e = if *s == S::Err { Ev::Err(i as i64) } else { Ev::Done };
        if ended.is_none() || pol & LAST_TERM != 0 {
          ended = Some(e);
        }
        for k in 0..m.live.len() {
          if m.live[k] {
            if kind == 3 && e == Ev::Done {
              let x = if pol & LAST_SEEN != 0 { m.seen[k] } else { past.last().copied() };
              m.t.recs[k].extend(x.map(|x| (i, Ev::Next(x))));
            }
            m.t.recs[k].push((i, e));
            m.live[k] = false;
          }
        }
      }
    }
    m.t.live.push(m.live.clone());
    m.t.held.push((kind == 0).then(|| m.live.iter().filter(|x| **x).count()));
  }
  m.t
}

fn real_history(kind: u8, h: &[S], out: &mut Trace) {
  let sj = Sj::new(kind);
  let recs: Arc<Sh<Vec<Vec<(usize, Ev)>>>> = Arc::new(Sh::new(vec![]));
  let step = Arc::new(Sh::new(0usize));
  let mut hs: Vec<Subscription<'static>> = vec![];
  let mut n = 0;
  for (i, s) in h.iter().enumerate() {
    *step.get() = i + 1;
    match *s {
      S::Sub => {
        let k = hs.len();
        recs.get().push(vec![]);
        let put = {
          let (recs, step) = (recs.clone(), step.clone());
          move |e: Ev| {
            recs.get()[k].push((*step.get(), e));
            rt::note(|| format!("subscriber {} gets {}", k, show(&e)));
          }
        };
        let (p1, p2, p3) = (put.clone(), put.clone(), put);
        rt::note(|| format!("subscriber {} subscribes", k));
        hs.push(sj.observable().subscribe(move |x: Val| p1(Ev::Next(x.n)), move |e| p2(Ev::Err(boom_id(&e))), move || p3(Ev::Done)));
      }
      S::Unsub(k) => {
        rt::note(|| format!("subscriber {} unsubscribes", k));
        hs[k as usize].unsubscribe()
      }
      S::Next => {
        n += 1;
        rt::note(|| format!("next({})", n));
        sj.emit(Ev::Next(n))
      }
      S::Err => {
        rt::note(|| "error".into());
        sj.emit(Ev::Err(i as i64 + 1))
      }
      S::Done => {
        rt::note(|| "complete".into());
        sj.emit(Ev::Done)
      }
    }
    out.live.push(hs.iter().map(|s| s.is_subscribed()).collect());
    out.held.push(sj.held());
  }
  out.recs = recs.get().clone();
}

struct Hist {
  kind: u8,
  all: Vec<Box<[S]>>,
  seed: u64,
}
impl Space for Hist {
  fn name(&self) -> String {
    format!("{} seed {}", KINDS[self.kind as usize], self.seed)
  }
  fn n(&self) -> usize {
    self.all.len()
  }
  fn show(&self, i: usize) -> String {
    format!("{}; history: {}", KINDS[self.kind as usize], show_s(&self.all[i]))
  }
  fn group(&self, i: usize) -> String {
    let _ = i;
    self.name()
  }
  fn states(&self, i: usize, see: &mut dyn FnMut(u64)) {
    for k in 1..=self.all[i].len() {
      see(h64(&(self.kind, &self.all[i][..k])));
    }
  }
  fn check(&self, i: usize, eng: &mut Engine) -> Option<String> {
    let h = &self.all[i];
    let slot: Arc<Sh<Trace>> = Arc::new(Sh::new(Trace::default()));
    let (s2, h2, kind) = (slot.clone(), h.clone(), self.kind);
    eng.set_hash_seed(self.seed);
    let f = eng.run_default(move || real_history(kind, &h2, s2.get()));
    if let Some(f) = f {
      return Some(format!("{:?}: {}", f.kind, f.msg));
    }
    let got = slot.get();
    let pols: &[u32] = match kind {
      0 => &[0],
      3 => &[0, REJECT, LAST_SEEN, LAST_SEEN | REJECT],
      _ => &[REJECT, 0, LAST_TERM, LAST_TERM | REJECT],
    };
    // AsyncSubject: whoever comes after the end may be told so or may wait
    let end = h.iter().position(|s| matches!(s, S::Err | S::Done));
    let mut subs = 0;
    let mut late = vec![];
    for (i, s) in h.iter().enumerate() {
      if *s == S::Sub {
        late.push(kind == 3 && end.map(|e| i > e).unwrap_or(false));
        subs += 1;
      }
    }
    let _ = subs;
    let mut first = None;
    for p in pols {
      let want = reference(kind, h, *p);
      match differ(got, &want, &late) {
        None => {
          first = None;
          break;
        }
        d => first = first.or(d),
      }
    }
    first.or_else(|| {
      got.recs.iter().enumerate().find_map(|(k, r)| {
        let t = r.iter().position(|x| x.1.terminal());
        (t.is_some() && t != Some(r.len() - 1)).then(|| format!("subscriber {} gets something after its terminal", k))
      })
    })
  }
}
fn differ(got: &Trace, want: &Trace, skip: &[bool]) -> Option<String> {
  let sh = |r: &[(usize, Ev)]| r.iter().map(|(i, e)| format!("{}@{}", show(e), i)).collect::<Vec<_>>().join(" ");
  for k in 0..want.recs.len() {
    if skip[k] {
      continue;
    }
    if got.recs[k] != want.recs[k] {
      return Some(format!("subscriber {} gets [{}], expected [{}] (event@step)", k, sh(&got.recs[k]), sh(&want.recs[k])));
    }
    for (i, (a, b)) in got.live.iter().zip(&want.live).enumerate() {
      if k < b.len() && a[k] != b[k] {
        return Some(format!("after step {} subscriber {}'s is_subscribed is {}, expected {}", i + 1, k, a[k], b[k]));
      }
    }
  }
  for (i, (a, b)) in got.held.iter().zip(&want.held).enumerate() {
    if let (Some(a), Some(b)) = (a, b) {
      if a != b {
        return Some(format!("after step {} the subject holds {} observers, expected {}", i + 1, a, b));
      }
    }
  }
  None
}

// ---------------------------------------------------------------- interval rules

/// one call of next/error/complete on the subject
#[derive(Clone, Copy, Debug)]
struct Call {
  t: usize,
  from: usize,
  to: usize,
  ev: Ev,
}
fn calls(l: &[R], leaf: usize) -> Vec<Call> {
  let mut open: Vec<Vec<Option<usize>>> = vec![];
  let mut out: Vec<Call> = vec![];
  for (i, r) in l.iter().enumerate() {
    if r.t >= open.len() {
      open.resize(r.t + 1, vec![]);
    }
    match r.k {
      K::Em(k, ev) => {
        if k == leaf {
          open[r.t].push(Some(out.len()));
          out.push(Call { t: r.t, from: i, to: usize::MAX, ev });
        } else {
          open[r.t].push(None);
        }
      }
      K::Ee(_) => {
        if let Some(Some(c)) = open[r.t].pop() {
          out[c].to = i;
        }
      }
      _ => {}
    }
  }
  out
}

/// kind: 0..3 as the subjects; 4: a live tail like 0, but what was emitted while
/// nobody was subscribed is not known to this judge
pub fn multicast(kind: u8, l: &[R], leaf: usize, who: usize) -> Option<String> {
  let cs = calls(l, leaf);
  let ss = match log::find(l, "sub starts", who as i64) {
    Some(x) => x,
    None => return None,
  };
  let sr = log::find(l, "sub returned", who as i64).unwrap_or(usize::MAX);
  // the one that found a handle to unsubscribe
  let us = log::find(l, "unsub starts", who as i64);
  let ur = log::find(l, "unsub returned", who as i64).unwrap_or(usize::MAX);
  let cb = log::cbs(l, who);
  let got: Vec<Ev> = cb.iter().map(|x| x.1).collect();
  let bad = |m: String| Some(format!("subscriber {}: {}; it gets {}", who, m, show_evs(&got)));
  let items: Vec<Call> = cs.iter().filter(|c| !c.ev.terminal()).copied().collect();
  let terms: Vec<Call> = cs.iter().filter(|c| c.ev.terminal()).copied().collect();
  let t_from = terms.iter().map(|c| c.from).min().unwrap_or(usize::MAX);
  let t_over = terms.iter().map(|c| c.to).min().unwrap_or(usize::MAX);
  let mut pos: HashMap<Ev, usize> = HashMap::new();
  for x in &cb {
    pos.entry(x.1).or_insert(x.0);
  }
  let at = |ev: Ev| pos.get(&ev).copied();
  // nothing twice
  let mut seen = HashSet::new();
  for (_, e) in &cb {
    if !e.terminal() && !seen.insert(*e) {
      return bad(format!("{} twice", show(e)));
    }
  }
  if got.iter().filter(|e| e.terminal()).count() > 1 {
    return bad("two terminals".into());
  }
  // nothing from nowhere
  for (i, e) in &cb {
    match e {
      Ev::Next(0) if kind == 1 => {}
      Ev::Next(_) => match items.iter().find(|c| c.ev == *e) {
        None => return bad(format!("{} was never pushed", show(e))),
        Some(c) => {
          if c.from > *i {
            return bad(format!("{} arrives before it is pushed", show(e)));
          }
          if (kind == 0 || kind == 3) && c.to < ss && kind != 3 {
            return bad(format!("{} had been pushed before it subscribed", show(e)));
          }
          if c.from > ur {
            return bad(format!("{} was pushed after unsubscribe had returned", show(e)));
          }
        }
      },
      _ => {
        if !terms.iter().any(|c| c.ev == *e && c.from < *i && (kind == 1 || kind == 2 || c.to > ss)) {
          return bad(format!("no {} was sent", show(e)));
        }
      }
    }
  }
  // nothing after the end
  if let Some((i, _)) = cb.iter().find(|x| x.1.terminal()) {
    if let Some(e) = log::cb_end(l, *i) {
      for (j, ev) in &cb {
        if *j > *i && items.iter().any(|c| c.ev == *ev && c.from > e) {
          return bad(format!("{} was pushed after its terminal", show(ev)));
        }
      }
    }
  }
  // whether this call ended undisturbed before it left and before anything ended the subject
  let quiet = |p: usize| !cs.iter().any(|c| c.from < p && c.to > p);
  let safe = |c: &Call| c.to < t_from && us.map(|u| c.to < u && quiet(u)).unwrap_or(true);
  if kind == 3 {
    let nx: Vec<usize> = cb.iter().filter(|x| !x.1.terminal()).map(|x| x.0).collect();
    if nx.len() > 1 {
      return bad("more than the last item".into());
    }
    let mine: Vec<&Call> = items.iter().filter(|c| c.from > sr && safe(c)).collect();
    if let Some(i) = nx.first() {
      if us.is_none() && got.last() != Some(&Ev::Done) {
        return bad("an item without completion".into());
      }
      if terms.iter().all(|c| c.ev != Ev::Done || c.from > *i) {
        return bad("an item before the completion".into());
      }
      let e = items.iter().find(|c| Some(c.from) == items.iter().find(|d| at(d.ev) == Some(*i)).map(|d| d.from)).unwrap();
      if let Some(y) = items.iter().find(|y| e.to < y.from && y.from > sr && safe(y)) {
        return bad(format!("{} is not the last item, {} came later", show(&e.ev), show(&y.ev)));
      }
    } else if us.is_none() && !mine.is_empty() && !terms.is_empty() && terms.iter().all(|c| c.ev == Ev::Done && c.from > sr) {
      return bad("the last item is missing".into());
    }
  } else {
    // everything pushed while it was there
    for c in &items {
      let there = match kind {
        2 => c.to < t_from,
        _ => c.from > sr,
      };
      if there && safe(c) && at(c.ev).is_none() {
        return bad(format!("{} is missing", show(&c.ev)));
      }
    }
    // no gap: what definitely came after something it got, unless it was gone by then;
    // what definitely came before something it got, if it was there
    for a in &items {
      for b in &items {
        if a.to < b.from {
          if at(a.ev).is_some() && at(b.ev).is_none() && safe(b) {
            return bad(format!("{} but not {}, which was pushed later", show(&a.ev), show(&b.ev)));
          }
          if at(b.ev).is_some() && at(a.ev).is_none() && (a.from > sr || kind == 2) && b.to < t_from {
            return bad(format!("{} but not {}, which was pushed before it", show(&b.ev), show(&a.ev)));
          }
        }
      }
    }
    // a gap in one producer's items
    for b in items.iter().filter(|b| at(b.ev).is_none()) {
      for a in &items {
        for c in &items {
          if a.to < b.from && b.to < c.from && at(a.ev).is_some() && at(c.ev).is_some() {
            return bad(format!("{} and {} but not {} between them", show(&a.ev), show(&c.ev), show(&b.ev)));
          }
        }
      }
    }
  }
  // order
  for a in &items {
    for b in &items {
      if let (true, Some(i), Some(j)) = (a.to < b.from, at(a.ev), at(b.ev)) {
        if i > j {
          return bad(format!("{} before {}, which was pushed first", show(&b.ev), show(&a.ev)));
        }
      }
    }
  }
  if kind == 1 {
    match got.first() {
      None => {
        if us.is_none() && sr != usize::MAX {
          return bad("neither a value nor a terminal".into());
        }
      }
      Some(e) if e.terminal() => {
        if t_from > sr {
          return bad("the latest value is missing".into());
        }
      }
      Some(first) => {
        if t_over < ss {
          return bad("a value although the subject had ended".into());
        }
        let before: Vec<&Call> = items.iter().filter(|c| c.to < ss && c.to < t_from).collect();
        if *first == Ev::Next(0) {
          if let Some(b) = before.first() {
            return bad(format!("the initial value although {} had been pushed", show(&b.ev)));
          }
          if let Some(c) = items.iter().find(|c| safe(c) && at(c.ev).is_none()) {
            return bad(format!("the initial value but not the later {}", show(&c.ev)));
          }
        } else if let Some(f) = items.iter().find(|c| c.ev == *first) {
          if let Some(y) = before.iter().find(|y| f.to < y.from) {
            return bad(format!("{} as the latest value although {} came later", show(first), show(&y.ev)));
          }
        }
        if got[1..].contains(&Ev::Next(0)) {
          return bad("the initial value again".into());
        }
      }
    }
    for (i, e) in cb.iter().skip(1) {
      if let Some(c) = items.iter().find(|c| c.ev == *e) {
        if c.to < ss {
          return bad(format!("the old value {} (at {})", show(&c.ev), i));
        }
      }
    }
  }
  // the end
  let due = match kind {
    1 | 2 => !terms.is_empty(),
    _ => terms.iter().any(|c| c.from > sr),
  };
  if due && us.is_none() && sr != usize::MAX && !got.iter().any(|e| e.terminal()) {
    return bad("the terminal is missing".into());
  }
  None
}

fn j_multicast<const KIND: u8>(cc: &CC, r: &Res) -> Option<String> {
  let n = r.handles.len();
  let _ = cc;
  if let Some(m) = (0..n).find_map(|w| multicast(KIND, &r.log, 0, w)) {
    return Some(m);
  }
  held_ok(r)
}
/// a Subject holds nobody whose subscription is over
pub fn held_ok(r: &Res) -> Option<String> {
  if let Some(h) = r.env.st.get()[0].subject.as_ref().and_then(|s| s.held()) {
    let live = r.handles.iter().flatten().filter(|s| s.is_subscribed()).count();
    if h > live {
      return Some(format!("the Subject still holds {} observers, {} subscriptions are alive", h, live));
    }
  }
  None
}
pub fn judge_of(kind: u8) -> Jdg {
  match kind {
    0 => j_multicast::<0>,
    1 => j_multicast::<1>,
    2 => j_multicast::<2>,
    _ => j_multicast::<3>,
  }
}

// ---------------------------------------------------------------- C10

struct Reent {
  kind: u8,
  all: Vec<CC>,
}
impl Space for Reent {
  fn name(&self) -> String {
    format!("{} re-entered", KINDS[self.kind as usize])
  }
  fn n(&self) -> usize {
    self.all.len()
  }
  fn show(&self, i: usize) -> String {
    self.all[i].show()
  }
  fn group(&self, i: usize) -> String {
    format!("{} {:?}", self.kind, self.all[i].react)
  }
  fn states(&self, i: usize, see: &mut dyn FnMut(u64)) {
    see(h64(&self.all[i].show()));
  }
  fn check(&self, i: usize, eng: &mut Engine) -> Option<String> {
    let cc = self.all[i].clone();
    let j = judge_of(self.kind);
    for seed in 0..2 {
      eng.set_hash_seed(seed);
      let c2 = cc.clone();
      let f = eng.run_default(move || {
        let r = run(&c2);
        if let Some(m) = j(&c2, &r) {
          verdict(m);
        }
      });
      if let Some(f) = f {
        return Some(format!("{:?}: {}", f.kind, f.msg));
      }
    }
    None
  }
}
fn to_a(h: &[S]) -> Vec<A> {
  let (mut n, mut k) = (0, 0);
  h.iter()
    .enumerate()
    .map(|(i, s)| match s {
      S::Sub => {
        k += 1;
        A::Sub(k - 1)
      }
      S::Unsub(k) => A::Unsub(*k as usize),
      S::Next => {
        n += 1;
        A::Emit(0, Ev::Next(n))
      }
      S::Err => A::Emit(0, Ev::Err(i as i64 + 1)),
      S::Done => A::Emit(0, Ev::Done),
    })
    .collect()
}
pub fn c10(ctx: &Ctx) {
  let q = ctx.quick();
  for kind in 0..4u8 {
    let d = if q { 9 } else { 10 };
    sweep_one(ctx, &Hist { kind, all: histories(d, 3), seed: 0 });
    sweep_one(ctx, &Hist { kind, all: histories(d - 2, 4), seed: 1 });
    sweep_one(ctx, &Hist { kind, all: histories(d - 2, 3), seed: 2 });
    for seed in 0..3 {
      sweep_one(ctx, &Hist { kind, all: large_histories(q), seed });
    }
  }
  // callbacks that come back
  for kind in 0..4u8 {
    let mut all = vec![];
    let mut inner = vec![A::Emit(0, Ev::Next(50)), A::Emit(0, Ev::Done), A::Emit(0, Ev::Err(60))];
    inner.extend((0..2).map(A::Unsub));
    inner.push(A::Sub(4));
    for h in histories(if q { 5 } else { 6 }, 2) {
      let subs = h.iter().filter(|s| **s == S::Sub).count();
      // one terminal at most, nothing after it: what is left open there is the history's business
      if h.iter().position(|s| matches!(s, S::Err | S::Done)).map(|p| h[p + 1..].iter().any(|s| *s != S::Sub)).unwrap_or(false) {
        continue;
      }
      let acts = to_a(&h);
      let mut pre = vec![A::Sub(0)];
      pre.extend(acts.iter().map(|a| match a {
        A::Sub(k) => A::Sub(k + 1),
        a => a.clone(),
      }));
      let mut reacts: Vec<Vec<(usize, usize, A)>> = vec![];
      for who in 0..=subs.min(1) {
        for nth in 1..=3 {
          for a in &inner {
            reacts.push(vec![(who, nth, a.clone())]);
          }
        }
      }
      for (a, b) in [
        (A::Unsub(0), A::Emit(0, Ev::Next(50))),
        (A::Emit(0, Ev::Next(50)), A::Unsub(0)),
        (A::Sub(4), A::Emit(0, Ev::Next(50))),
        (A::Emit(0, Ev::Next(50)), A::Sub(4)),
        (A::Emit(0, Ev::Next(50)), A::Emit(0, Ev::Done)),
        (A::Unsub(0), A::Sub(4)),
        (A::Unsub(1), A::Unsub(0)),
      ] {
        for nth in 1..=2 {
          reacts.push(vec![(0, nth, a.clone()), (0, nth, b.clone())]);
          if subs > 0 {
            reacts.push(vec![(0, nth, a.clone()), (1, nth, b.clone())]);
          }
        }
      }
      for r in reacts {
        let mut c = CC::new(src(0), vec![Leaf::Subj(kind)], vec![]);
        c.pre = pre.clone();
        c.react = r;
        all.push(c);
      }
    }
    sweep_one(ctx, &Reent { kind, all });
  }
  // and from several threads: what the subject holds when all is over
  let cfg = Config { bound: ctx.pick(4, 6), ..Config::default() };
  let mut scens = vec![];
  let t1 = vec![
    vec![A::Emit(0, Ev::Next(1))],
    vec![A::Emit(0, Ev::Next(1)), A::Emit(0, Ev::Done)],
    vec![A::Emit(0, Ev::Err(1))],
    vec![A::Emit(0, Ev::Done)],
    vec![A::Emit(0, Ev::Next(1)), A::Emit(0, Ev::Next(2))],
  ];
  let t2 = vec![
    vec![A::Sub(1)],
    vec![A::Unsub(0)],
    vec![A::Sub(1), A::Unsub(1)],
    vec![A::Sub(1), A::Sub(2)],
    vec![A::Unsub(0), A::Sub(1)],
    vec![A::Sub(1), A::Unsub(0)],
  ];
  for kind in 0..4u8 {
    for a in &t1 {
      for b in &t2 {
        scens.push(scen_cc(&cfg, CC::new(src(0), vec![Leaf::Subj(kind)], vec![a.clone(), b.clone()]), judge_of(kind)));
      }
    }
    for b in &t2 {
      scens.push(scen_cc(&cfg, CC::new(src(0), vec![Leaf::Subj(kind)], vec![vec![A::Sub(3), A::Unsub(3)], b.clone()]), judge_of(kind)));
    }
  }
  explore_all(ctx, scens, &any);
  ctx.assume("after a terminal, a stateful subject may ignore, keep or replace what is pushed; an AsyncSubject's late subscribers may be told of the end or wait");
}

// ---------------------------------------------------------------- C12

fn prod(p: i64, n: i64) -> Vec<A> {
  (0..n).map(|i| A::Emit(0, Ev::Next(p * 100 + i))).collect()
}
pub fn c12(ctx: &Ctx) {
  let hi = Config { bound: ctx.pick(5, 7), ..Config::default() };
  let lo = Config { bound: ctx.pick(3, 5), ..Config::default() };
  let min = Config { bound: ctx.pick(3, 4), ..Config::default() };
  let mut scens = vec![];
  for kind in 0..4u8 {
    let j = judge_of(kind);
    let mut add = |cfg: &Config, pre: Vec<A>, ths: Vec<Vec<A>>, post: Vec<A>| {
      let mut c = CC::new(src(0), vec![Leaf::Subj(kind)], ths);
      c.pre = pre;
      c.post = post;
      scens.push(scen_cc(cfg, c, j));
    };
    let done = vec![A::Emit(0, Ev::Done)];
    let fin: Vec<A> = if kind == 3 { done.clone() } else { vec![] };
    // observers that stay
    for (x, y) in [(1, 1), (2, 1), (2, 2), (3, 1), (3, 3)] {
      for pre in [vec![A::Sub(0)], vec![A::Sub(0), A::Sub(1)]] {
        add(if x + y < 5 { &hi } else { &lo }, pre.clone(), vec![prod(1, x), prod(2, y)], fin.clone());
      }
    }
    for (x, y, z) in [(1, 1, 1), (2, 1, 1), (2, 2, 1)] {
      add(&lo, vec![A::Sub(0)], vec![prod(1, x), prod(2, y), prod(3, z)], fin.clone());
    }
    // one that comes, goes, or both
    for (x, y) in [(1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (2, 2)] {
      for (pre, t) in [
        (vec![A::Sub(0)], vec![A::Sub(1)]),
        (vec![], vec![A::Sub(0)]),
        (vec![A::Sub(0)], vec![A::Unsub(0)]),
        (vec![A::Sub(0), A::Sub(1)], vec![A::Unsub(1)]),
        (vec![A::Sub(0)], vec![A::Sub(1), A::Unsub(1)]),
        (vec![A::Sub(0)], vec![A::Unsub(0), A::Sub(1)]),
        (vec![A::Sub(0)], vec![A::Sub(1), A::Unsub(0)]),
        (vec![A::Sub(0)], vec![A::Sub(1), A::Sub(2)]),
        // one that has something to be handed over
        (vec![A::Emit(0, Ev::Next(900)), A::Emit(0, Ev::Next(901))], vec![A::Sub(0)]),
        (vec![A::Emit(0, Ev::Next(900)), A::Sub(0)], vec![A::Sub(1), A::Unsub(0)]),
      ] {
        let mut ths = vec![t, prod(1, x)];
        if y > 0 {
          ths.push(prod(2, y));
        }
        let cfg = match (y, x + y) {
          (0, _) => &hi,
          (_, 2 | 3) => &lo,
          _ => &min,
        };
        if x + y >= 4 && ctx.quick() && ths[0].len() > 1 {
          continue;
        }
        add(cfg, pre, ths, fin.clone());
      }
    }
    // several that come or go at once
    for x in [1, 2] {
      add(&lo, vec![], vec![vec![A::Sub(0)], vec![A::Sub(1)], prod(1, x)], fin.clone());
      add(&lo, vec![A::Sub(0), A::Sub(1)], vec![vec![A::Unsub(0)], vec![A::Unsub(1)], prod(1, x)], fin.clone());
      add(&lo, vec![A::Sub(0)], vec![vec![A::Unsub(0)], vec![A::Sub(1)], prod(1, x)], fin.clone());
    }
    // while the subject ends
    for e in [Ev::Done, Ev::Err(5)] {
      for x in [1, 2] {
        let mut p = prod(1, x);
        p.push(A::Emit(0, e));
        add(&hi, vec![A::Sub(0)], vec![p.clone(), vec![A::Sub(1)]], vec![A::Sub(2)]);
        add(&hi, vec![A::Sub(0)], vec![p.clone(), vec![A::Unsub(0)]], vec![A::Sub(1)]);
        add(&hi, vec![A::Sub(0)], vec![prod(1, x), vec![A::Emit(0, e)]], vec![A::Sub(1)]);
        add(&lo, vec![A::Sub(0)], vec![prod(1, x), vec![A::Emit(0, e)], vec![A::Sub(1)]], vec![]);
        add(&lo, vec![A::Sub(0)], vec![p.clone(), prod(2, 1), vec![A::Sub(1)]], vec![]);
      }
      add(&hi, vec![A::Sub(0)], vec![vec![A::Emit(0, Ev::Done)], vec![A::Emit(0, e)]], vec![A::Sub(1)]);
    }
    // pushes from inside a callback while others push
    for (nth, a) in [(1, A::Emit(0, Ev::Next(500))), (1, A::Sub(2)), (1, A::Unsub(0)), (2, A::Emit(0, Ev::Next(500))), (1, A::Unsub(1)), (2, A::Sub(2))] {
      for (x, y) in [(1, 1), (2, 1)] {
        let mut c = CC::new(src(0), vec![Leaf::Subj(kind)], vec![prod(1, x), prod(2, y)]);
        c.pre = vec![A::Sub(0), A::Sub(1)];
        c.post = fin.clone();
        c.react = vec![(0, nth, a.clone())];
        scens.push(scen_cc(&lo, c, j));
      }
    }
  }
  // many of everything, few deviations
  let one = Config { bound: 1, max_steps: 4_000_000, ..Config::default() };
  let two = Config { bound: ctx.pick(1, 2), max_steps: 4_000_000, ..Config::default() };
  let zero = Config { bound: 0, max_steps: 4_000_000, ..Config::default() };
  for kind in 0..4u8 {
    let j = judge_of(kind);
    let fin: Vec<A> = if kind == 3 { vec![A::Emit(0, Ev::Done)] } else { vec![] };
    let mut add = |cfg: &Config, pre: Vec<A>, ths: Vec<Vec<A>>, post: Vec<A>| {
      let mut c = CC::new(src(0), vec![Leaf::Subj(kind)], ths);
      c.pre = pre;
      c.post = post;
      scens.push(scen_cc(cfg, c, j));
    };
    let load = |n: i64| -> Vec<A> { (0..n).map(|i| A::Emit(0, Ev::Next(1000 + i))).collect() };
    let subs = |r: std::ops::Range<usize>| -> Vec<A> { r.map(A::Sub).collect() };
    // subscribers
    for &m in ctx.pick(&[4usize, 5, 9, 17, 33, 70][..], &[4, 5, 6, 8, 9, 12, 16, 17, 33, 65, 70, 130]) {
      let cfg = match m {
        0..=9 => &two,
        10..=17 => &one,
        _ => ctx.pick(&zero, &one),
      };
      let all = subs(0..m);
      let odd: Vec<A> = (0..m).filter(|k| k % 2 == 1).map(A::Unsub).collect();
      add(cfg, all.clone(), vec![prod(1, 2), prod(2, 2)], fin.clone());
      add(cfg, all.clone(), vec![odd, prod(1, 3)], fin.clone());
      add(cfg, all.clone(), vec![vec![A::Unsub(0), A::Sub(m), A::Unsub(m - 1), A::Sub(m + 1)], prod(1, 3)], fin.clone());
      add(cfg, vec![A::Sub(0)], vec![subs(1..m), prod(1, 3)], fin.clone());
      add(cfg, all.clone(), vec![vec![A::Emit(0, Ev::Next(1)), A::Emit(0, Ev::Done)], vec![A::Unsub(m - 1), A::Sub(m)]], vec![A::Sub(m + 1)]);
      add(cfg, all, vec![vec![A::Emit(0, Ev::Next(1)), A::Emit(0, Ev::Err(5))], vec![A::Unsub(0), A::Sub(m)]], vec![A::Sub(m + 1)]);
    }
    // items
    for &n in ctx.pick(&[5i64, 9, 17, 33, 99][..], &[4, 5, 8, 9, 16, 17, 32, 33, 65, 99]) {
      let cfg = match n {
        0..=9 => &two,
        10..=33 => &one,
        _ => ctx.pick(&zero, &one),
      };
      add(cfg, vec![A::Sub(0)], vec![prod(1, n), prod(2, n)], fin.clone());
      add(cfg, vec![A::Sub(0)], vec![prod(1, n), vec![A::Sub(1), A::Unsub(0)]], fin.clone());
      add(cfg, vec![], vec![prod(1, n), vec![A::Sub(0)], vec![A::Sub(1)]], fin.clone());
    }
    // what there is to hand over
    for &n in ctx.pick(&[17i64, 65, 129, 257][..], &[8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300]) {
      add(&one, load(n), vec![vec![A::Sub(0)], prod(1, 2)], fin.clone());
      let mut pre = vec![A::Sub(0)];
      pre.extend(load(n));
      add(&one, pre, vec![vec![A::Unsub(0), A::Sub(1)], vec![A::Emit(0, Ev::Next(1)), A::Emit(0, Ev::Done)]], vec![A::Sub(2)]);
    }
    // producers
    for k in ctx.pick(4..=5i64, 4..=8) {
      add(&one, vec![A::Sub(0), A::Sub(1)], (1..=k).map(|p| prod(p, 2)).collect(), fin.clone());
    }
    // those that come and go
    for &n in ctx.pick(&[4usize, 9, 20, 70][..], &[4, 6, 9, 20, 40, 70, 140]) {
      let one = if n > 20 { ctx.pick(&zero, &one) } else { &one };
      let churn: Vec<A> = (1..=n).flat_map(|k| [A::Sub(k), A::Unsub(k - 1)]).collect();
      add(&one, vec![A::Sub(0)], vec![churn, prod(1, 3)], fin.clone());
      let churn: Vec<A> = (1..=n).flat_map(|k| [A::Sub(k), A::Unsub(k)]).collect();
      add(&one, vec![A::Sub(0)], vec![churn, prod(1, 3)], fin.clone());
    }
  }
  explore_all(ctx, scens, &any);
  ctx.assume("an item counts as pushed before another if its next had returned when the other's was called; items whose calls overlap may arrive in either order");
}
