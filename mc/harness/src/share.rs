//! publish, ref_count and replay: all histories against a reference machine, and
//! concurrent use against rules about the one source subscription.
use crate::ast::*;
use crate::core::*;
use crate::log::{self, Log, K, R};
use crate::real::emit;
use crate::subj::multicast;
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::Arc;
use vstd::rt::{self, Config, Engine, ObjId};

const NAMES: [&str; 3] = ["publish", "ref_count", "replay"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
  Sub(u8),
  /// a subscriber that takes one item
  Sub1(u8),
  Unsub(u8),
  Connect(u8),
  Disc(u8),
  Emit(Ev),
  /// milliseconds
  Sleep(u64),
}
fn show_b(b: &B) -> String {
  match b {
    B::Sub(k) => format!("sub{}", k),
    B::Sub1(k) => format!("sub{}.take(1)", k),
    B::Unsub(k) => format!("unsub{}", k),
    B::Connect(k) => format!("connect{}", k),
    B::Disc(k) => format!("disconnect{}", k),
    B::Emit(e) => format!("source:{}", show(e)),
    B::Sleep(ms) => format!("sleep{}", ms),
  }
}
fn show_bs(b: &[B]) -> String {
  b.iter().map(show_b).collect::<Vec<_>>().join(" ")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Source {
  Hot,
  /// emits the script while it is subscribed to; the n-th time 1000n is added
  Cold(Vec<Ev>),
  /// the same, on a thread of its own
  Thread(Vec<Ev>),
}
#[derive(Clone, Debug)]
pub struct SH {
  kind: u8,
  src: Source,
  pre: Vec<B>,
  threads: Vec<Vec<B>>,
  post: Vec<B>,
  react: Vec<(u8, usize, B)>,
  /// an operator between the source and the sharing
  above: bool,
}
impl SH {
  fn new(kind: u8, src: Source, pre: Vec<B>, threads: Vec<Vec<B>>) -> SH {
    SH { kind, src, pre, threads, post: vec![], react: vec![], above: false }
  }
  fn show(&self) -> String {
    let src = match &self.src {
      Source::Hot => "hot".into(),
      Source::Cold(s) => format!("cold {}", show_evs(s)),
      Source::Thread(s) => format!("thread emitting {}", show_evs(s)),
    };
    let mut s = format!("{} of {} source{}", NAMES[self.kind as usize], src, if self.above { ".map" } else { "" });
    s += &format!("; {}", show_bs(&self.pre));
    for (i, t) in self.threads.iter().enumerate() {
      s += &format!("; {} {}", if i == 0 { "main".to_string() } else { format!("T{}", i) }, show_bs(t));
    }
    if !self.post.is_empty() {
      s += &format!("; post {}", show_bs(&self.post));
    }
    for (w, n, a) in &self.react {
      s += &format!("; in callback #{} of sub{}: {}", n, w, show_b(a));
    }
    s
  }
  fn all(&self) -> impl Iterator<Item = &B> {
    self.pre.iter().chain(self.threads.iter().flatten()).chain(self.post.iter()).chain(self.react.iter().map(|r| &r.2))
  }
}

enum Conn {
  P(publish::Publish<'static, Val>),
  C(ref_count::RefCount<'static, Val>),
  R(replay::Replay<'static, Val>),
}
struct Src {
  o: ObjId,
  obs: Sh<Vec<Observer<'static, Val>>>,
  log: Log,
  /// total number of times it was subscribed; the most at any one time
  subs: Sh<usize>,
  most: Sh<usize>,
}
struct Rn {
  c: Conn,
  src: Arc<Src>,
  log: Log,
  hid: ObjId,
  subs: Sh<Vec<Option<Subscription<'static>>>>,
  conns: Sh<Vec<Option<Subscription<'static>>>>,
  count: Sh<Vec<usize>>,
  react: Vec<(u8, usize, B)>,
  step: Sh<usize>,
  recs: Sh<Vec<Vec<(usize, Ev)>>>,
}
fn source(s: &Source, st: &Arc<Src>) -> Observable<'static, Val> {
  let (kind, st) = (s.clone(), st.clone());
  Observable::create(move |s: Observer<'static, Val>| {
    rt::op(&st.o, true, 601);
    if !s.is_subscribed() {
      return;
    }
    let n = *st.subs.get();
    *st.subs.get() += 1;
    st.obs.get().push(s.clone());
    let alive = st.obs.get().clone().iter().filter(|o| o.is_subscribed()).count();
    *st.most.get() = (*st.most.get()).max(alive);
    st.log.mark(K::M("source up", n as i64));
    let script = match &kind {
      Source::Hot => return,
      Source::Cold(x) | Source::Thread(x) => x.clone(),
    };
    let (s2, st2) = (s.clone(), st.clone());
    let go = move || {
      for ev in &script {
        if !s2.is_subscribed() {
          st2.log.mark(K::M("source stops", n as i64));
          return;
        }
        let ev = match ev {
          Ev::Next(x) => Ev::Next(x + 1000 * n as i64),
          e => *e,
        };
        st2.log.push(K::Em(0, ev));
        emit(&s2, ev);
        st2.log.mark(K::Ee(0));
      }
    };
    match kind {
      Source::Thread(_) => {
        vstd::thread::spawn(go);
      }
      _ => go(),
    }
  })
}
impl Rn {
  fn observable(&self) -> Observable<'static, Val> {
    match &self.c {
      Conn::P(p) => p.observable(),
      Conn::C(p) => p.observable(),
      Conn::R(p) => p.observable(),
    }
  }
}
fn act(r: &Arc<Rn>, b: &B) {
  match *b {
    B::Sleep(ms) => rt::sleep(ms * 1_000_000),
    B::Emit(ev) => {
      r.log.push(K::Em(0, ev));
      rt::op(&r.src.o, true, 602);
      let obs = r.src.obs.get().clone();
      for o in obs {
        emit(&o, ev);
      }
      r.log.mark(K::Ee(0));
    }
    B::Connect(k) => {
      if let Conn::P(p) = &r.c {
        r.log.push(K::M("connect starts", k as i64));
        let s = p.connect();
        r.log.push(K::M("connect returned", k as i64));
        rt::op(&r.hid, true, 603);
        r.conns.get()[k as usize] = Some(s);
      }
    }
    B::Disc(k) => {
      rt::op(&r.hid, false, 604);
      let s = r.conns.get()[k as usize].clone();
      if let Some(s) = s {
        r.log.push(K::M("disconnect starts", k as i64));
        s.unsubscribe();
        r.log.push(K::M("disconnect returned", k as i64));
      }
    }
    B::Unsub(k) => {
      rt::op(&r.hid, false, 605);
      let s = r.subs.get()[k as usize].clone();
      if let Some(s) = s {
        r.log.push(K::M("unsub starts", k as i64));
        s.unsubscribe();
        r.log.push(K::M("unsub returned", k as i64));
      }
    }
    B::Sub(k) | B::Sub1(k) => {
      let w = k as usize;
      let cb = move |ev: Ev, r: &Arc<Rn>| {
        r.log.push(K::Cb(w, ev));
        r.recs.get()[w].push((*r.step.get(), ev));
        r.count.get()[w] += 1;
        let n = r.count.get()[w];
        for (v, m, a) in &r.react {
          if *v as usize == w && *m == n {
            act(r, a);
          }
        }
        r.log.mark(K::Ce(w));
      };
      let (r1, r2, r3) = (r.clone(), r.clone(), r.clone());
      let mut o = r.observable();
      if matches!(b, B::Sub1(_)) {
        o = o.take(1);
      }
      r.log.push(K::M("sub starts", k as i64));
      let s = o.subscribe(move |x: Val| cb(Ev::Next(x.n), &r1), move |e: RxError| cb(Ev::Err(boom_id(&e)), &r2), move || cb(Ev::Done, &r3));
      r.log.push(K::M("sub returned", k as i64));
      rt::op(&r.hid, true, 606);
      r.subs.get()[w] = Some(s);
    }
  }
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Tr {
  recs: Vec<Vec<(usize, Ev)>>,
  /// per step
  live: Vec<Vec<bool>>,
  sources: Vec<usize>,
  total: Vec<usize>,
}
struct Rs {
  log: Vec<R>,
  subs: Vec<Option<Subscription<'static>>>,
  conns: Vec<Option<Subscription<'static>>>,
  src: Arc<Src>,
  most: usize,
  /// source subscriptions alive at the end
  alive: usize,
  total: usize,
}
impl Drop for Rs {
  fn drop(&mut self) {
    if std::thread::panicking() {
      return;
    }
    self.subs.drain(..).flatten().for_each(|s| s.unsubscribe());
    self.conns.drain(..).flatten().for_each(|s| s.unsubscribe());
    self.src.obs.get().clear();
  }
}
fn run(c: &SH, tr: Option<&mut Tr>) -> Rs {
  let log = log::new();
  let src = Arc::new(Src { o: ObjId::new(), obs: Sh::new(vec![]), log: log.clone(), subs: Sh::new(0), most: Sh::new(0) });
  let mut o = source(&c.src, &src);
  if c.above {
    o = o.map(|x| x);
  }
  let n = 1 + c.all().map(|b| if let B::Sub(k) | B::Sub1(k) | B::Unsub(k) = b { *k as usize } else { 0 }).max().unwrap_or(0);
  let m = 1 + c.all().map(|b| if let B::Connect(k) | B::Disc(k) = b { *k as usize } else { 0 }).max().unwrap_or(0);
  let r = Arc::new(Rn {
    c: match c.kind {
      0 => Conn::P(o.publish()),
      1 => Conn::C(o.ref_count()),
      _ => Conn::R(o.replay()),
    },
    src: src.clone(),
    log: log.clone(),
    hid: ObjId::new(),
    subs: Sh::new(vec![None; n]),
    conns: Sh::new(vec![None; m]),
    count: Sh::new(vec![0; n]),
    react: c.react.clone(),
    step: Sh::new(0),
    recs: Sh::new(vec![vec![]; n]),
  });
  let alive = || src.obs.get().clone().iter().filter(|o| o.is_subscribed()).count();
  if let Some(tr) = tr {
    // one history, looked at after every step
    for b in &c.pre {
      *r.step.get() += 1;
      act(&r, b);
      tr.live.push(r.subs.get().iter().map(|s| s.as_ref().map(|s| s.is_subscribed()).unwrap_or(false)).collect());
      tr.sources.push(alive());
      tr.total.push(*src.subs.get());
    }
    tr.recs = r.recs.get().clone();
  } else {
    c.pre.iter().for_each(|b| act(&r, b));
    let ths: Vec<_> = c
      .threads
      .iter()
      .skip(1)
      .map(|t| {
        let (r, t) = (r.clone(), t.clone());
        vstd::thread::spawn(move || t.iter().for_each(|b| act(&r, b)))
      })
      .collect();
    if let Some(t) = c.threads.first() {
      t.iter().for_each(|b| act(&r, b));
    }
    for t in ths {
      let _ = t.join();
    }
    rt::quiesce();
    for b in &c.post {
      act(&r, b);
      rt::quiesce();
    }
  }
  let (most, total, alive) = (*src.most.get(), *src.subs.get(), alive());
  Rs { log: log.take(), subs: std::mem::take(r.subs.get()), conns: std::mem::take(r.conns.get()), src, most, alive, total }
}

// ---------------------------------------------------------------- the machine

const KEEP: u32 = 1; // replay keeps what it has when the last one leaves
const SHARE: u32 = 2; // publish: connecting while connected changes nothing

struct Ma<'a> {
  kind: u8,
  src: &'a Source,
  pol: u32,
  step: usize,
  /// alive, takes one
  subs: Vec<(bool, bool)>,
  /// source subscriptions alive; for publish, which connection each belongs to
  conns: Vec<bool>,
  total: usize,
  past: Vec<Ev>,
  ended: Option<Ev>,
  recs: Vec<Vec<(usize, Ev)>>,
}
impl Ma<'_> {
  fn any(&self) -> bool {
    self.subs.iter().any(|s| s.0)
  }
  /// to one subscriber
  fn give(&mut self, k: usize, ev: Ev) {
    if !self.subs[k].0 {
      return;
    }
    self.recs[k].push((self.step, ev));
    if ev.terminal() {
      self.subs[k].0 = false;
    } else if self.subs[k].1 {
      self.recs[k].push((self.step, Ev::Done));
      self.subs[k].0 = false;
    }
  }
  fn left(&mut self) {
    if self.kind > 0 && !self.any() {
      self.conns.iter_mut().for_each(|c| *c = false);
      if self.kind == 2 && self.ended.is_none() && self.pol & KEEP == 0 {
        self.past.clear();
      }
    }
  }
  /// from source subscription c
  fn send(&mut self, c: usize, ev: Ev) {
    if !self.conns[c] {
      return;
    }
    if ev.terminal() {
      self.conns[c] = false;
      if self.kind == 2 {
        self.ended = Some(ev);
      }
    } else {
      self.past.push(ev);
    }
    for k in 0..self.subs.len() {
      self.give(k, ev);
    }
    self.left();
  }
  fn connect(&mut self) {
    let c = self.conns.len();
    let n = self.total;
    self.conns.push(true);
    self.total += 1;
    if let Source::Cold(s) = self.src {
      for ev in s.clone() {
        let ev = match ev {
          Ev::Next(x) => Ev::Next(x + 1000 * n as i64),
          e => e,
        };
        self.send(c, ev);
      }
    }
  }
}
fn machine(c: &SH, pol: u32) -> Tr {
  let mut m = Ma { kind: c.kind, src: &c.src, pol, step: 0, subs: vec![], conns: vec![], total: 0, past: vec![], ended: None, recs: vec![] };
  let mut t = Tr::default();
  // publish: connection handle -> source subscription
  let mut of = vec![];
  for b in &c.pre {
    m.step += 1;
    match *b {
      B::Sub(_) | B::Sub1(_) => {
        let k = m.subs.len();
        let first = !m.any();
        m.subs.push((true, matches!(b, B::Sub1(_))));
        m.recs.push(vec![]);
        match c.kind {
          0 => {}
          1 => {
            if first {
              m.connect()
            }
          }
          _ => {
            for ev in m.past.clone() {
              m.give(k, ev);
            }
            if let Some(e) = m.ended {
              m.give(k, e);
            } else if first {
              if m.any() {
                m.connect()
              }
            }
            m.left();
          }
        }
      }
      B::Unsub(k) => {
        m.subs[k as usize].0 = false;
        m.left();
      }
      B::Connect(_) => match m.conns.iter().position(|c| *c) {
        Some(x) if pol & SHARE != 0 => of.push(x),
        _ => {
          of.push(m.conns.len());
          m.connect()
        }
      },
      B::Disc(k) => m.conns[of[k as usize]] = false,
      B::Emit(ev) => (0..m.conns.len()).for_each(|c| m.send(c, ev)),
      B::Sleep(_) => {}
    }
    t.live.push(m.subs.iter().map(|s| s.0).collect());
    t.sources.push(m.conns.iter().filter(|c| **c).count());
    t.total.push(m.total);
  }
  t.recs = m.recs;
  t
}

struct Hist {
  name: String,
  all: Vec<SH>,
  seed: u64,
}
impl Space for Hist {
  fn name(&self) -> String {
    self.name.clone()
  }
  fn n(&self) -> usize {
    self.all.len()
  }
  fn show(&self, i: usize) -> String {
    self.all[i].show()
  }
  fn group(&self, i: usize) -> String {
    format!("{} {:?}", self.name, self.all[i].src)
  }
  fn states(&self, i: usize, see: &mut dyn FnMut(u64)) {
    let c = &self.all[i];
    for k in 1..=c.pre.len() {
      see(h64(&(c.kind, &c.src, &c.pre[..k])));
    }
  }
  fn check(&self, i: usize, eng: &mut Engine) -> Option<String> {
    let c = &self.all[i];
    let slot: Arc<Sh<(Tr, usize)>> = Arc::new(Sh::new((Tr::default(), 0)));
    let (s2, c2) = (slot.clone(), c.clone());
    eng.set_hash_seed(self.seed);
    let f = eng.run_default(move || {
      let x = s2.get();
      let r = run(&c2, Some(&mut x.0));
      x.1 = r.most;
    });
    if let Some(f) = f {
      return Some(format!("{:?}: {}", f.kind, f.msg));
    }
    let (got, most) = slot.get();
    if c.kind > 0 && *most > 1 {
      return Some(format!("{} source subscriptions at a time", most));
    }
    let pols: &[u32] = match (c.kind, &c.src) {
      (0, _) => &[0, SHARE],
      (2, Source::Hot) => &[0, KEEP],
      _ => &[0],
    };
    let mut why = None;
    for p in pols {
      match differ(got, &machine(c, *p)) {
        None => return None,
        d => why = why.or(d),
      }
    }
    why
  }
}
fn differ(a: &Tr, b: &Tr) -> Option<String> {
  let sh = |r: &[(usize, Ev)]| r.iter().map(|(i, e)| format!("{}@{}", show(e), i)).collect::<Vec<_>>().join(" ");
  for (k, r) in b.recs.iter().enumerate() {
    if &a.recs[k] != r {
      return Some(format!("subscriber {} gets [{}], expected [{}] (event@step)", k, sh(&a.recs[k]), sh(r)));
    }
  }
  for i in 0..b.live.len() {
    if a.total[i] != b.total[i] {
      return Some(format!("after step {} the source has been subscribed {} times, expected {}", i + 1, a.total[i], b.total[i]));
    }
    if a.sources[i] != b.sources[i] {
      return Some(format!("after step {} {} source subscriptions are alive, expected {}", i + 1, a.sources[i], b.sources[i]));
    }
    for k in 0..b.live[i].len() {
      if a.live[i][k] != b.live[i][k] {
        return Some(format!("after step {} subscriber {}'s is_subscribed is {}, expected {}", i + 1, k, a.live[i][k], b.live[i][k]));
      }
    }
  }
  None
}

fn histories(kind: u8, src: &Source, depth: usize, subs: u8, take: bool) -> Vec<SH> {
  struct G<'a> {
    kind: u8,
    src: &'a Source,
    subs: u8,
    take: bool,
    cur: Vec<B>,
    out: Vec<SH>,
  }
  fn go(g: &mut G, left: usize, n: u8, c: u8, items: i64) {
    if left == 0 {
      g.out.push(SH::new(g.kind, g.src.clone(), g.cur.clone(), vec![]));
      return;
    }
    let mut next: Vec<(B, u8, u8, i64)> = vec![];
    if n < g.subs {
      next.push((B::Sub(n), n + 1, c, items));
      if g.take {
        next.push((B::Sub1(n), n + 1, c, items));
      }
    }
    for k in 0..n {
      next.push((B::Unsub(k), n, c, items));
    }
    if g.kind == 0 {
      if c < 2 {
        next.push((B::Connect(c), n, c + 1, items));
      }
      for k in 0..c {
        next.push((B::Disc(k), n, c, items));
      }
    }
    if *g.src == Source::Hot {
      next.push((B::Emit(Ev::Next(items + 1)), n, c, items + 1));
      next.push((B::Emit(Ev::Done), n, c, items));
      next.push((B::Emit(Ev::Err(items)), n, c, items));
    }
    for (b, n, c, i) in next {
      g.cur.push(b);
      go(g, left - 1, n, c, i);
      g.cur.pop();
    }
  }
  let mut g = G { kind, src, subs, take, cur: vec![], out: vec![] };
  go(&mut g, depth, 0, 0, 0);
  g.out
}

/// long histories and many subscribers or connections
fn large_histories(kind: u8, q: bool) -> Vec<SH> {
  let mut out = vec![];
  let on: Vec<B> = if kind == 0 { vec![B::Connect(0)] } else { vec![] };
  let ends: [&[Ev]; 3] = [&[], &[Ev::Done], &[Ev::Err(9)]];
  let mut add = |src: Source, v: Vec<B>| out.push(SH::new(kind, src, v, vec![]));
  let e = |x: usize| B::Emit(Ev::Next(x as i64));
  let items: &[usize] = if q { &[5, 9, 17, 33, 65, 129, 257, 300] } else { &[4, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 300, 513, 600] };
  for &n in items {
    for end in ends {
      let end: Vec<B> = end.iter().map(|x| B::Emit(*x)).collect();
      // one subscriber throughout, others during and after
      for leave in [false, true] {
        let mut v = vec![B::Sub(0)];
        v.extend(&on);
        v.extend((1..=n / 2).map(e));
        v.extend([B::Sub(1), B::Sub1(2)]);
        v.extend((n / 2 + 1..=n).map(e));
        if leave {
          v.push(B::Unsub(0));
        }
        v.extend([B::Sub(3), e(n + 1)]);
        v.extend(&end);
        v.extend([B::Sub(4), e(n + 2), B::Unsub(1), B::Unsub(3), B::Unsub(4), B::Unsub(0), B::Sub(5)]);
        add(Source::Hot, v);
      }
    }
    for end in ends {
      let mut script: Vec<Ev> = (1..=n).map(|x| Ev::Next(x as i64)).collect();
      script.extend(end);
      let mut v = vec![B::Sub(0)];
      v.extend(&on);
      v.extend([B::Sub(1), B::Unsub(0), B::Sub(2), B::Unsub(1), B::Unsub(2), B::Sub(3)]);
      add(Source::Cold(script.clone()), v);
      let mut v = vec![B::Sub1(0)];
      v.extend(&on);
      v.extend([B::Sub1(1), B::Sub(2), B::Unsub(2), B::Sub1(3)]);
      add(Source::Cold(script), v);
    }
  }
  let subs: &[u8] = if q { &[4, 5, 8, 9, 17, 33, 65] } else { &[4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 200] };
  for &m in subs {
    let all: Vec<B> = (0..m).map(B::Sub).collect();
    let fwd: Vec<B> = (0..m).map(B::Unsub).collect();
    let back: Vec<B> = (0..m).rev().map(B::Unsub).collect();
    let odd: Vec<B> = (0..m).filter(|k| k % 2 == 1).chain((0..m).filter(|k| k % 2 == 0)).map(B::Unsub).collect();
    for leave in [fwd, back, odd] {
      let mut v = all.clone();
      v.extend(&on);
      v.push(e(1));
      for (i, b) in leave.iter().enumerate() {
        v.push(*b);
        if i % 3 == 0 || i + 2 >= leave.len() {
          v.push(e(2 + i));
        }
      }
      v.extend([B::Sub(m), e(500), B::Unsub(m), B::Sub(m + 1), e(501)]);
      add(Source::Hot, v);
    }
    for end in [Ev::Done, Ev::Err(9)] {
      let mut v = all.clone();
      v.extend(&on);
      v.extend([e(1), B::Emit(end), B::Sub(m), e(2)]);
      add(Source::Hot, v);
    }
    // takers only: all gone after one item
    let mut v: Vec<B> = (0..m).map(B::Sub1).collect();
    v.extend(&on);
    v.extend([e(1), e(2), B::Sub(m), e(3)]);
    add(Source::Hot, v);
    // one connection after another
    for k in 0..2 {
      let mut v = vec![];
      for i in 0..m {
        match kind {
          0 => v.extend([B::Sub(i), B::Connect(i), e(i as usize + 1), B::Disc(i)]),
          _ if k == 0 => v.extend([B::Sub(i), e(i as usize + 1), B::Unsub(i)]),
          _ => v.extend([B::Sub1(i), e(i as usize + 1)]),
        }
        if kind == 0 && k == 1 {
          v.push(B::Unsub(i));
        }
      }
      v.extend([e(300), B::Sub(m), e(301)]);
      add(Source::Hot, v);
    }
    if kind > 0 {
      for s in [vec![Ev::Next(1), Ev::Next(2)], vec![Ev::Next(1), Ev::Done], vec![Ev::Next(1), Ev::Err(9)]] {
        let v: Vec<B> = (0..m).flat_map(|i| [B::Sub(i), B::Unsub(i)]).collect();
        add(Source::Cold(s.clone()), v);
        let v: Vec<B> = (0..m).map(B::Sub).collect();
        add(Source::Cold(s), v);
      }
    }
    // overlapping: the next one arrives before the last one leaves
    let mut v = vec![B::Sub(0)];
    v.extend(&on);
    for i in 1..m {
      v.extend([B::Sub(i), e(i as usize), B::Unsub(i - 1)]);
    }
    v.extend([e(300), B::Unsub(m - 1), e(301), B::Sub(m), e(302)]);
    add(Source::Hot, v);
  }
  out
}

// ---------------------------------------------------------------- concurrent rules

type J = fn(&SH, &Rs) -> Option<String>;
/// what holds whatever happens
fn ends(c: &SH, r: &Rs) -> Option<String> {
  let live = r.subs.iter().flatten().filter(|s| s.is_subscribed()).count();
  if c.kind > 0 {
    if r.most > 1 {
      return Some(format!("{} source subscriptions at a time", r.most));
    }
    if live == 0 && r.alive > 0 {
      return Some("the source is still subscribed although nobody is left".into());
    }
    if live > 0 && r.alive == 0 {
      return Some(format!("{} subscribers are left but the source is not subscribed", live));
    }
  } else {
    let want = c.all().filter(|b| matches!(b, B::Connect(_))).count();
    if r.total > want {
      return Some(format!("the source was subscribed {} times by {} connects", r.total, want));
    }
    // every connection that was disconnected
    let gone = (0..r.conns.len()).filter(|k| log::find(&r.log, "disconnect returned", *k as i64).is_some()).count();
    if r.alive + gone > want {
      return Some("the source is still subscribed after the connection was unsubscribed".into());
    }
  }
  // nobody gets anything twice (connected twice: maybe), or two ends
  let once = c.kind > 0 || c.all().filter(|b| matches!(b, B::Connect(_))).count() < 2;
  for w in 0..r.subs.len() {
    let g = log::got(&r.log, w);
    for (i, e) in g.iter().enumerate() {
      if once && !e.terminal() && g[..i].contains(e) {
        return Some(format!("subscriber {} gets {} twice: {}", w, show(e), show_evs(&g)));
      }
    }
    if g.iter().filter(|e| e.terminal()).count() > 1 {
      return Some(format!("subscriber {} gets two terminals: {}", w, show_evs(&g)));
    }
  }
  None
}
/// every source subscription emits the script, in items of its own (1000n more): what each subscriber gets is a
/// gap-free piece of one of them, to its end if it stays; with replay() from its beginning
fn scripted(c: &SH, r: &Rs) -> Option<String> {
  if let Some(m) = ends(c, r) {
    return Some(m);
  }
  let script = match &c.src {
    Source::Cold(s) | Source::Thread(s) => s,
    Source::Hot => return None,
  };
  let items: Vec<i64> = script.iter().filter_map(|e| if let Ev::Next(x) = e { Some(*x) } else { None }).collect();
  let end = script.iter().find(|e| e.terminal()).copied();
  let mut full = vec![false; r.total];
  for w in 0..r.subs.len() {
    if log::find(&r.log, "sub returned", w as i64).is_none() {
      continue;
    }
    let takes = c.all().any(|b| *b == B::Sub1(w as u8));
    let stays = log::find(&r.log, "unsub starts", w as i64).is_none() && !takes;
    let g = log::got(&r.log, w);
    let bad = |m: &str| Some(format!("subscriber {} {}: {}", w, m, show_evs(&g)));
    let mut xs: Vec<i64> = g.iter().filter_map(|e| if let Ev::Next(x) = e { Some(*x) } else { None }).collect();
    // one that arrives while the last of the others leaves, or as the source ends, may be given items of two
    // connections (not with replay)
    let conn = xs.iter().map(|x| x / 1000).max();
    for n in 0..conn.unwrap_or(0) {
      let old: Vec<i64> = xs.iter().filter(|x| **x / 1000 == n).map(|x| x % 1000).collect();
      if c.kind == 2 && !old.is_empty() {
        return bad("gets items of two source subscriptions");
      }
      if !(0..=items.len()).any(|i| items[i..].starts_with(&old)) {
        return bad("does not get a gap-free piece of what the source emitted");
      }
    }
    xs.retain(|x| Some(x / 1000) == conn);
    xs.iter_mut().for_each(|x| *x %= 1000);
    let torn = c.kind != 2 && r.total > 1;
    let term = if torn { g.iter().find(|e| e.terminal()) } else { g.last().filter(|e| e.terminal()) }.copied();
    if let Some(t) = term {
      if Some(t) != end && !(takes && t == Ev::Done) {
        return bad("is told of an end the source did not have");
      }
    }
    // where the piece has to end, if it has to
    let upto = !torn && (stays || (term.is_some() && !takes));
    let ok = |i: usize| {
      let piece = &items[i..];
      if upto { piece == xs } else { piece.starts_with(&xs) }
    };
    let from_start = ok(0);
    if c.kind == 2 && !from_start {
      return bad("does not get the whole sequence from the beginning");
    }
    if !(0..=items.len()).any(ok) {
      return bad("does not get a gap-free piece of what the source emitted");
    }
    if stays && end.is_some() && term.is_none() {
      return bad("stays but never sees the end");
    }
    if let (Some(n), true) = (conn, upto && from_start) {
      full[n as usize] = true;
    }
  }
  let leaves = c.all().any(|b| matches!(b, B::Unsub(_) | B::Sub1(_)));
  if !leaves && (c.kind == 2 || r.total == 1) && !items.is_empty() && full.iter().any(|f| !f) {
    return Some(format!("of {} source subscriptions, some were not received in full by the subscriber they were made for", r.total));
  }
  None
}
/// subscriber 0 is there from the beginning and stays
fn stays(c: &SH, r: &Rs) -> Option<String> {
  if let Some(m) = ends(c, r) {
    return Some(m);
  }
  let kind = if c.kind == 2 { 2 } else { 0 };
  let takers: Vec<u8> = c.all().filter_map(|b| if let B::Sub1(k) = b { Some(*k) } else { None }).collect();
  (0..r.subs.len()).filter(|w| !takers.contains(&(*w as u8))).find_map(|w| multicast(kind, &r.log, 0, w))
}
/// publish, connected once: everybody present gets everything between
fn connected(c: &SH, r: &Rs) -> Option<String> {
  if let Some(m) = ends(c, r) {
    return Some(m);
  }
  let l = &r.log;
  let up = log::find(l, "source up", 0);
  let on = log::find(l, "connect returned", 0).unwrap_or(usize::MAX);
  let cs = log::find(l, "connect starts", 0).unwrap_or(usize::MAX);
  let ds = log::find(l, "disconnect starts", 0).unwrap_or(usize::MAX);
  let dr = log::find(l, "disconnect returned", 0).unwrap_or(usize::MAX);
  if let Some(u) = up {
    if u < cs {
      return Some("the source is subscribed before connect".into());
    }
  }
  if on != usize::MAX && up.is_none() {
    return Some("connect does not subscribe the source".into());
  }
  let on = if matches!(c.src, Source::Hot) { on } else { up.unwrap_or(usize::MAX) };
  let end = |i: usize| l.iter().enumerate().skip(i).find(|(_, x)| x.t == l[i].t && x.k == K::Ee(0)).map(|x| x.0).unwrap_or(usize::MAX);
  let ems: Vec<(usize, Ev)> = l.iter().enumerate().filter_map(|(i, x)| if let K::Em(0, e) = x.k { Some((i, e)) } else { None }).collect();
  let t0 = ems.iter().find(|e| e.1.terminal()).map(|e| e.0).unwrap_or(usize::MAX);
  for w in 0..r.subs.len() as i64 {
    let g = log::got(l, w as usize);
    let sr = match log::find(l, "sub returned", w) {
      Some(x) => x,
      None => continue,
    };
    let us = log::find(l, "unsub starts", w).unwrap_or(usize::MAX);
    let ur = log::find(l, "unsub returned", w).unwrap_or(usize::MAX);
    for (i, e) in &ems {
      let must = *i > on && *i > sr && end(*i) < ds && end(*i) < us && (end(*i) < t0 || *i == t0);
      if must && !g.contains(e) {
        return Some(format!("subscriber {} misses {}: {}", w, show(e), show_evs(&g)));
      }
      if (*i > dr || *i > ur || end(*i) < cs) && !e.terminal() && g.contains(e) {
        return Some(format!("subscriber {} gets {}, emitted while it was not connected: {}", w, show(e), show_evs(&g)));
      }
    }
    // order
    let at = |e: Ev| g.iter().position(|x| *x == e);
    for (i, a) in &ems {
      for (j, b) in &ems {
        if end(*i) < *j && !a.terminal() && !b.terminal() {
          if let (Some(x), Some(y)) = (at(*a), at(*b)) {
            if x > y {
              return Some(format!("subscriber {} gets {} before {}", w, show(b), show(a)));
            }
          }
        }
      }
    }
  }
  None
}

fn scen_b(cfg: &Config, c: SH, j: J) -> Scen {
  let w = c.threads.iter().map(|t| 5 + t.len() as u32 * 3).sum::<u32>() + if let Source::Thread(s) = &c.src { 5 + 3 * s.len() as u32 } else { 0 };
  let mut s = scen(c.show(), cfg.clone(), move || {
    let r = run(&c, None);
    if let Some(m) = j(&c, &r) {
      verdict(m);
    }
  });
  s.weight = w;
  s
}

struct Reent {
  all: Vec<SH>,
  name: String,
}
impl Space for Reent {
  fn name(&self) -> String {
    self.name.clone()
  }
  fn n(&self) -> usize {
    self.all.len()
  }
  fn show(&self, i: usize) -> String {
    self.all[i].show()
  }
  fn group(&self, i: usize) -> String {
    format!("{:?}", self.all[i].react)
  }
  fn states(&self, i: usize, see: &mut dyn FnMut(u64)) {
    see(h64(&self.all[i].show()));
  }
  fn check(&self, i: usize, eng: &mut Engine) -> Option<String> {
    let c = self.all[i].clone();
    for seed in 0..2 {
      eng.set_hash_seed(seed);
      let c2 = c.clone();
      let f = eng.run_default(move || {
        let r = run(&c2, None);
        if let Some(m) = ends(&c2, &r) {
          verdict(m);
        }
      });
      if let Some(f) = f {
        return Some(format!("{:?}: {}", f.kind, f.msg));
      }
    }
    None
  }
}

pub fn c13(ctx: &Ctx) {
  let q = ctx.quick();
  let nx = |n: i64| Ev::Next(n);
  let scripts: Vec<Vec<Ev>> = vec![
    vec![],
    vec![nx(1)],
    vec![nx(1), nx(2)],
    vec![Ev::Done],
    vec![Ev::Err(9)],
    vec![nx(1), Ev::Done],
    vec![nx(1), Ev::Err(9)],
    vec![nx(1), nx(2), Ev::Done],
    vec![nx(1), nx(2), nx(3), Ev::Err(9)],
  ];
  for kind in 0..3u8 {
    let n = NAMES[kind as usize];
    let d = match (kind, q) {
      (0, true) => 7,
      (0, false) | (_, true) => 8,
      _ => 10,
    };
    sweep_one(ctx, &Hist { name: format!("{} hot", n), all: histories(kind, &Source::Hot, d, 3, false), seed: 0 });
    sweep_one(ctx, &Hist { name: format!("{} hot takers", n), all: histories(kind, &Source::Hot, d - 1, 3, true), seed: 1 });
    let mut all = vec![];
    for s in &scripts {
      all.extend(histories(kind, &Source::Cold(s.clone()), d - 1, 3, true));
    }
    sweep_one(ctx, &Hist { name: format!("{} cold", n), all, seed: 2 });
    let mut all = vec![];
    for s in &scripts {
      for mut c in histories(kind, &Source::Cold(s.clone()), 5, 3, true) {
        c.above = true;
        all.push(c);
      }
    }
    for mut c in histories(kind, &Source::Hot, 5, 3, true) {
      c.above = true;
      all.push(c);
    }
    sweep_one(ctx, &Hist { name: format!("{} above", n), all, seed: 0 });
    for seed in 0..3 {
      sweep_one(ctx, &Hist { name: format!("{} large", n), all: large_histories(kind, q), seed });
    }
    // callbacks that come back
    let mut all = vec![];
    let mut inner: Vec<B> = vec![B::Unsub(0), B::Unsub(1), B::Sub(4), B::Sub1(4), B::Emit(nx(50)), B::Emit(Ev::Done)];
    if kind == 0 {
      inner.extend([B::Connect(3), B::Disc(0)]);
    }
    let mut hs = histories(kind, &Source::Hot, if q { 4 } else { 5 }, 2, false);
    for s in &scripts {
      hs.extend(histories(kind, &Source::Cold(s.clone()), if q { 3 } else { 4 }, 2, false));
    }
    for h in hs {
      for who in 0..2 {
        for nth in 1..=2 {
          for a in &inner {
            let hot = h.src == Source::Hot;
            if matches!(a, B::Emit(_)) && !hot {
              continue;
            }
            let mut c = h.clone();
            c.react = vec![(who, nth, *a)];
            all.push(c);
          }
        }
      }
    }
    sweep_one(ctx, &Reent { name: format!("{} re-entered", n), all });
  }
  // several threads
  let hi = Config { bound: ctx.pick(3, 5), ..Config::default() };
  let lo = Config { bound: ctx.pick(2, 3), ..Config::default() };
  let one = Config { bound: 1, max_steps: 4_000_000, ..Config::default() };
  let mut scens = vec![];
  let e = |x: i64| B::Emit(nx(x));
  for kind in 1..3u8 {
    let mut add = |cfg: &Config, src: &Source, pre: Vec<B>, ths: Vec<Vec<B>>, post: Vec<B>, j: J| {
      let mut c = SH::new(kind, src.clone(), pre, ths);
      c.post = post;
      scens.push(scen_b(cfg, c, j));
    };
    // arrivals and departures only
    let moves: Vec<Vec<B>> = vec![
      vec![B::Sub(1)],
      vec![B::Sub(1), B::Unsub(1)],
      vec![B::Sub1(1)],
      vec![B::Unsub(0)],
      vec![B::Unsub(0), B::Sub(1)],
      vec![B::Sub(1), B::Unsub(0)],
      vec![B::Sub(1), B::Unsub(1), B::Unsub(0)],
    ];
    let others: Vec<Vec<B>> = vec![
      vec![B::Sub(2)],
      vec![B::Sub(2), B::Unsub(2)],
      vec![B::Sub(2), B::Unsub(2), B::Sub(3)],
      vec![e(10)],
      vec![e(10), e(11)],
      vec![B::Emit(Ev::Done)],
      vec![e(10), B::Emit(Ev::Err(7))],
      vec![B::Sub1(2), e(10)],
    ];
    for m in &moves {
      for o in &others {
        for pre in [vec![], vec![B::Sub(0)], vec![B::Sub(0), e(5)]] {
          if pre.is_empty() && m.contains(&B::Unsub(0)) {
            continue;
          }
          let there = pre.contains(&B::Sub(0)) && !m.contains(&B::Unsub(0));
          let ends: J = if there { stays } else { ends };
          add(&hi, &Source::Hot, pre.clone(), vec![m.clone(), o.clone()], vec![], ends);
          let drop_all: Vec<B> = (0..4).map(B::Unsub).collect();
          add(&lo, &Source::Hot, pre, vec![m.clone(), o.clone()], drop_all, ends);
        }
      }
      for s in [vec![nx(1), nx(2)], vec![nx(1), Ev::Done], vec![Ev::Done], vec![nx(1), nx(2), Ev::Err(7)]] {
        for o in [vec![], vec![B::Sub(2)], vec![B::Sub(2), B::Unsub(2)]] {
          for pre in [vec![], vec![B::Sub(0)]] {
            if pre.is_empty() && m.contains(&B::Unsub(0)) {
              continue;
            }
            if ctx.quick() && !o.is_empty() && (s.len() != 2 || (m.len() > 1 && o.len() > 1)) {
              continue;
            }
            let mut ths = vec![m.clone()];
            if !o.is_empty() {
              ths.push(o.clone());
            }
            add(if o.is_empty() { &hi } else { &lo }, &Source::Thread(s.clone()), pre.clone(), ths.clone(), vec![], scripted);
            add(&lo, &Source::Cold(s.clone()), pre.clone(), ths.clone(), vec![], scripted);
          }
        }
      }
    }
    // three at once
    for (a, b, c) in [
      (vec![B::Sub(1)], vec![B::Sub(2)], vec![B::Sub(3)]),
      (vec![B::Unsub(0)], vec![B::Sub(1)], vec![B::Sub(2), B::Unsub(2)]),
      (vec![B::Unsub(0)], vec![B::Sub(1)], vec![e(10)]),
      (vec![B::Unsub(0)], vec![B::Sub(1)], vec![B::Emit(Ev::Done)]),
      (vec![B::Sub(1)], vec![B::Sub(2)], vec![e(10), B::Emit(Ev::Done)]),
      (vec![B::Sub(1), B::Unsub(1)], vec![B::Sub(2), B::Unsub(2)], vec![e(10)]),
    ] {
      for pre in [vec![], vec![B::Sub(0)]] {
        if pre.is_empty() && a.contains(&B::Unsub(0)) {
          continue;
        }
        add(&lo, &Source::Hot, pre, vec![a.clone(), b.clone(), c.clone()], vec![], ends);
      }
    }
    // many of them
    for &m in ctx.pick(&[4u8, 5, 9, 17][..], &[4, 5, 6, 8, 9, 16, 17, 33]) {
      let all: Vec<B> = (0..m).map(B::Sub).collect();
      let half = |k: u8| -> Vec<B> { (0..m).filter(|i| i % 2 == k).map(B::Unsub).collect() };
      let come = |k: u8| -> Vec<B> { (0..m).filter(|i| i % 2 == k).map(B::Sub).collect() };
      let most: Vec<B> = (1..m).map(B::Unsub).collect();
      add(&one, &Source::Hot, all.clone(), vec![half(0), half(1)], vec![], ends);
      add(&one, &Source::Hot, all.clone(), vec![half(0), half(1), vec![B::Sub(m), e(10)]], vec![], ends);
      add(&one, &Source::Hot, vec![], vec![come(0), come(1)], vec![e(10)], ends);
      add(&one, &Source::Hot, vec![], vec![come(0), come(1), vec![e(10), e(11)]], (0..m).map(B::Unsub).collect(), ends);
      add(&one, &Source::Hot, all.clone(), vec![most, vec![e(10), e(11)]], vec![B::Sub(m)], stays);
      add(&one, &Source::Hot, all, vec![half(1), vec![e(10), B::Emit(Ev::Done)]], vec![], stays);
      add(&one, &Source::Thread(vec![nx(1), nx(2), Ev::Done]), vec![], vec![come(0), come(1)], vec![], scripted);
      let churn: Vec<B> = (1..m).flat_map(|i| [B::Sub(i), B::Unsub(i)]).collect();
      add(&one, &Source::Hot, vec![], vec![churn.clone(), vec![B::Sub(m), e(10), B::Unsub(m)]], vec![], ends);
      add(&one, &Source::Hot, vec![B::Sub(0)], vec![churn, vec![e(10), e(11)]], vec![B::Sub(m)], stays);
    }
    for &n in ctx.pick(&[9i64, 17, 33][..], &[5, 8, 9, 16, 17, 32, 33, 65, 101, 129]) {
      let many: Vec<B> = (10..10 + n).map(e).collect();
      add(&one, &Source::Hot, vec![B::Sub(0)], vec![vec![B::Sub(1), B::Unsub(1)], many.clone()], vec![B::Sub(3)], stays);
      let mut pre = vec![B::Sub(0)];
      pre.extend(many);
      add(&one, &Source::Hot, pre, vec![vec![B::Sub(1)], vec![e(1000)]], vec![B::Sub(3)], stays);
      let script: Vec<Ev> = (1..=n).map(nx).collect();
      add(&one, &Source::Thread(script.clone()), vec![B::Sub(0)], vec![vec![B::Sub(1), B::Sub(2)]], vec![], stays);
      add(&one, &Source::Thread(script), vec![], vec![vec![B::Sub(1), B::Unsub(1)], vec![B::Sub(2)]], vec![], scripted);
    }
    // somebody stays: the others see the items of one shared subscription
    let come: Vec<Vec<B>> = vec![
      vec![B::Sub(1)],
      vec![B::Sub(1), B::Unsub(1)],
      vec![B::Sub(1), B::Sub(2)],
      vec![B::Sub1(1), B::Sub(2)],
    ];
    for m in &come {
      for o in [vec![e(10)], vec![e(10), e(11)], vec![e(10), e(11), e(12)], vec![e(10), B::Emit(Ev::Done)], vec![e(10), B::Emit(Ev::Err(7))]] {
        add(&hi, &Source::Hot, vec![B::Sub(0)], vec![m.clone(), o.clone()], vec![], stays);
        add(&hi, &Source::Hot, vec![B::Sub(0), e(5)], vec![m.clone(), o.clone()], vec![], stays);
        add(&lo, &Source::Hot, vec![B::Sub(0), e(5)], vec![m.clone(), o.clone(), vec![B::Sub(3)]], vec![], stays);
      }
      for s in [vec![nx(1)], vec![nx(1), nx(2)], vec![nx(1), nx(2), nx(3)]] {
        add(&hi, &Source::Thread(s.clone()), vec![B::Sub(0)], vec![m.clone()], vec![], stays);
        add(&lo, &Source::Thread(s), vec![B::Sub(0)], vec![m.clone(), vec![B::Sub(3)]], vec![], stays);
      }
      if kind == 2 {
        for s in [vec![nx(1), Ev::Done], vec![nx(1), nx(2), Ev::Err(7)]] {
          add(&hi, &Source::Thread(s.clone()), vec![B::Sub(0)], vec![m.clone()], vec![B::Sub(3)], stays);
        }
        add(&hi, &Source::Hot, vec![B::Sub(0)], vec![m.clone(), vec![e(10), e(11)]], vec![B::Sub(3)], stays);
        add(&hi, &Source::Hot, vec![B::Sub(0)], vec![m.clone(), vec![e(10), B::Emit(Ev::Done)]], vec![B::Sub(3)], stays);
        add(&lo, &Source::Hot, vec![B::Sub(0)], vec![m.clone(), vec![e(10)], vec![e(20)]], vec![B::Sub(3)], stays);
      }
    }
  }
  // publish
  for src in [Source::Hot, Source::Thread(vec![nx(10), nx(11)]), Source::Thread(vec![nx(10), Ev::Done]), Source::Cold(vec![nx(10), nx(11), Ev::Done])] {
    let hot = src == Source::Hot;
    let em = |v: Vec<B>| if hot { v } else { vec![] };
    for (pre, ths) in [
      (vec![B::Sub(0)], vec![vec![B::Connect(0)], em(vec![e(10), e(11)])]),
      (vec![B::Sub(0)], vec![vec![B::Connect(0), B::Disc(0)], em(vec![e(10), e(11)])]),
      (vec![B::Sub(0), B::Connect(0)], vec![vec![B::Disc(0)], em(vec![e(10), e(11)])]),
      (vec![B::Sub(0), B::Connect(0)], vec![vec![B::Sub(1)], em(vec![e(10), e(11)])]),
      (vec![B::Sub(0), B::Connect(0)], vec![vec![B::Unsub(0), B::Sub(1)], em(vec![e(10), e(11), B::Emit(Ev::Done)])]),
      (vec![B::Sub(0)], vec![vec![B::Sub(1), B::Connect(0)], em(vec![e(10), e(11)])]),
      (vec![B::Sub(0)], vec![vec![B::Connect(0)], vec![B::Sub(1)], em(vec![e(10)])]),
      (vec![B::Sub(0)], vec![vec![B::Connect(0)], vec![B::Unsub(0)], em(vec![e(10)])]),
      (vec![B::Sub(0), B::Connect(0)], vec![vec![B::Disc(0)], vec![B::Sub(1)], em(vec![e(10)])]),
      (vec![B::Sub(0), B::Sub1(1), B::Connect(0)], vec![vec![B::Disc(0)], em(vec![e(10), B::Emit(Ev::Err(3))])]),
      (vec![B::Sub(0), B::Connect(0)], vec![em(vec![e(10)]), em(vec![e(20), B::Emit(Ev::Done)])]),
    ] {
      let ths: Vec<Vec<B>> = ths.into_iter().filter(|t| !t.is_empty()).collect();
      let c = SH::new(0, src.clone(), pre, ths.clone());
      let j: J = if c.all().any(|b| matches!(b, B::Sub1(_))) { ends } else { connected };
      scens.push(scen_b(if ths.len() > 2 { &lo } else { &hi }, c, j));
    }
  }
  explore_all(ctx, scens, &any);
  ctx.assume("replay() may keep or drop its history when the last subscriber of a hot source leaves; connecting a connected publish() may connect again or not");
}
fn any(f: &vstd::rt::Failure) -> bool {
  crate::conc::any(f)
}
