//! Pipelines fed, subscribed and unsubscribed from several threads: every schedule
//! up to a deviation bound, judged from the log of the execution.
use std::collections::BTreeMap;
use crate::ast::*;
use crate::core::*;
use crate::log::{self, Log, K, R};
use crate::real::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::Arc;
use vstd::rt::{self, Config, Failure, Kind, ObjId};

/// one action of a thread
#[derive(Clone, Debug, PartialEq)]
pub enum A {
  Emit(usize, Ev),
  Sub(usize),
  Unsub(usize),
  /// milliseconds of virtual time
  Sleep(u64),
  /// records is_subscribed
  Look(usize),
}
pub fn show_a(a: &A) -> String {
  match a {
    A::Emit(l, e) => format!("s{}:{}", l, show(e)),
    A::Sub(k) => format!("sub{}", k),
    A::Unsub(k) => format!("unsub{}", k),
    A::Sleep(ms) => format!("sleep{}", ms),
    A::Look(k) => format!("is_subscribed{}", k),
  }
}

#[derive(Clone, Debug)]
pub struct CC {
  pub prog: N,
  pub leaves: Vec<Leaf>,
  /// by the main thread before anybody else runs
  pub pre: Vec<A>,
  /// the first one is the main thread's
  pub threads: Vec<Vec<A>>,
  /// by the main thread when all others have come to rest
  pub post: Vec<A>,
  /// subscriber, n-th callback: what it does inside the callback
  pub react: Vec<(usize, usize, A)>,
  /// callbacks take this long
  pub slow: u64,
}
impl CC {
  pub fn new(prog: N, leaves: Vec<Leaf>, threads: Vec<Vec<A>>) -> CC {
    CC { prog, leaves, pre: vec![A::Sub(0)], threads, post: vec![], react: vec![], slow: 0 }
  }
  pub fn show(&self) -> String {
    let case = Case::new(self.prog.clone(), self.leaves.clone(), vec![]);
    let l = |xs: &Vec<A>| xs.iter().map(show_a).collect::<Vec<_>>().join(" ");
    let mut s = format!("{}; pre {}", case.show(), l(&self.pre));
    for (i, t) in self.threads.iter().enumerate() {
      s += &format!("; {} {}", if i == 0 { "main".to_string() } else { format!("T{}", i) }, l(t));
    }
    if !self.post.is_empty() {
      s += &format!("; post {}", l(&self.post));
    }
    for (w, n, a) in &self.react {
      s += &format!("; in callback #{} of sub{}: {}", n, w, show_a(a));
    }
    if self.slow > 0 {
      s += &format!("; callbacks take {}ms", self.slow);
    }
    s
  }
  pub fn subs(&self) -> usize {
    let mut n = 0;
    let mut see = |a: &A| {
      if let A::Sub(k) | A::Unsub(k) | A::Look(k) = a {
        n = n.max(k + 1)
      }
    };
    self.pre.iter().for_each(&mut see);
    self.threads.iter().flatten().for_each(&mut see);
    self.post.iter().for_each(&mut see);
    self.react.iter().for_each(|r| see(&r.2));
    n
  }
}

/// what an execution of a CC leaves behind
pub struct Res {
  pub log: Vec<R>,
  pub env: E,
  pub handles: Hs,
  pub live: usize,
}
pub struct Hs(Sh<Vec<Option<Subscription<'static>>>>);
impl std::ops::Deref for Hs {
  type Target = Vec<Option<Subscription<'static>>>;
  fn deref(&self) -> &Self::Target {
    self.0.get()
  }
}
impl Res {
  pub fn drop_handles(&self) {
    self.handles.0.get().clear()
  }
}

struct Run {
  env: E,
  log: Log,
  o: Ob,
  hid: Vec<ObjId>,
  handles: Sh<Vec<Option<Subscription<'static>>>>,
  count: Sh<Vec<usize>>,
  react: Vec<(usize, usize, A)>,
  slow: u64,
}

fn act(r: &Arc<Run>, a: &A) {
  match a {
    A::Emit(l, ev) => hot(&r.env, *l, *ev),
    A::Sleep(ms) => rt::sleep(*ms * 1_000_000),
    A::Look(k) => {
      rt::op(&r.hid[*k], false, 403);
      let h = r.handles.get()[*k].clone();
      if let Some(h) = h {
        r.log.push(K::M("looks", *k as i64));
        let b = h.is_subscribed();
        r.log.push(K::M(if b { "sees alive" } else { "sees ended" }, *k as i64));
      }
    }
    A::Unsub(k) => {
      rt::op(&r.hid[*k], false, 401);
      let h = r.handles.get()[*k].clone();
      if let Some(h) = h {
        r.log.push(K::M("unsub starts", *k as i64));
        h.unsubscribe();
        r.log.push(K::M("unsub returned", *k as i64));
      }
    }
    A::Sub(k) => {
      let k = *k;
      let cb = move |ev: Ev, r: &Arc<Run>| {
        r.log.push(K::Cb(k, ev));
        r.count.get()[k] += 1;
        let n = r.count.get()[k];
        for (w, m, a) in r.react.iter() {
          if *w == k && *m == n {
            act(r, a);
          }
        }
        if r.slow > 0 {
          rt::sleep(r.slow * 1_000_000);
        }
        r.log.mark(K::Ce(k));
      };
      let (r1, r2, r3) = (r.clone(), r.clone(), r.clone());
      r.log.push(K::M("sub starts", k as i64));
      let s = r.o.subscribe(
        tk!(|x: Val| cb(Ev::Next(x.n), &r1)),
        tk!(|e: RxError| cb(Ev::Err(boom_id(&e)), &r2)),
        tk!(|| cb(Ev::Done, &r3)),
      );
      r.log.push(K::M("sub returned", k as i64));
      rt::op(&r.hid[k], true, 402);
      r.handles.get()[k] = Some(s);
    }
  }
}

impl Drop for Res {
  fn drop(&mut self) {
    if std::thread::panicking() {
      return;
    }
    // sources own observers, which own the callbacks, which own the sources
    std::mem::take(self.handles.0.get()).into_iter().flatten().for_each(|h| h.unsubscribe());
    for l in self.env.st.get().iter_mut() {
      l.obs.clear();
      l.subject = None;
    }
  }
}

/// run it to quiescence
pub fn run(cc: &CC) -> Res {
  let log = log::new();
  let env = Env::with_log(&cc.leaves, Some(log.clone()));
  let n = cc.subs();
  let run = Arc::new(Run {
    o: build(&env, &cc.prog),
    env: env.clone(),
    log: log.clone(),
    hid: (0..n).map(|_| ObjId::new()).collect(),
    handles: Sh::new(vec![None; n]),
    count: Sh::new(vec![0; n]),
    react: cc.react.clone(),
    slow: cc.slow,
  });
  for a in &cc.pre {
    act(&run, a);
  }
  let ths: Vec<_> = cc
    .threads
    .iter()
    .skip(1)
    .map(|t| {
      let (run, t) = (run.clone(), t.clone());
      vstd::thread::spawn(move || t.iter().for_each(|a| act(&run, a)))
    })
    .collect();
  if let Some(t) = cc.threads.first() {
    t.iter().for_each(|a| act(&run, a));
  }
  for t in ths {
    let _ = t.join();
  }
  let rest = || {
    rt::quiesce();
    log.mark(K::M("live", rt::live_threads().len() as i64));
  };
  rest();
  for a in &cc.post {
    act(&run, a);
    rest();
  }
  let handles = std::mem::take(run.handles.get());
  Res { log: log.take(), env, handles: Hs(Sh::new(handles)), live: rt::live_threads().len() }
}

pub type Jdg = fn(&CC, &Res) -> Option<String>;

/// a scenario that runs `cc` and judges it
pub fn scen_cc(cfg: &Config, cc: CC, judge: Jdg) -> Scen {
  let name = cc.show();
  let threads = cc.leaves.iter().filter(|l| matches!(l, Leaf::Thread(_) | Leaf::Timed(_))).count() * 2 + cc.threads.len();
  let mut heavy = cc.prog.has_co(&|c| matches!(c, Co::SeqEq | Co::Zip | Co::Combine)) as usize;
  cc.prog.walk(&mut |n| {
    if matches!(n, N::U(Op::ObserveOnNt | Op::SubscribeOnNt | Op::DebounceMs(_) | Op::TimeoutMs(_), _)) {
      heavy += 3
    }
  });
  let w = (threads + heavy) as u32 * 10 + cc.threads.iter().map(|t| t.len() as u32).sum::<u32>();
  let judge = WITH.read().unwrap().unwrap_or(judge);
  let mut s = scen(name, cfg.clone(), move || {
    let r = run(&cc);
    if let Some(m) = judge(&cc, &r) {
      verdict(m);
    }
  });
  s.weight = w;
  s
}
/// the judge to use instead, when a check runs the scenarios of another
pub static WITH: std::sync::RwLock<Option<Jdg>> = std::sync::RwLock::new(None);
pub fn em(l: usize, s: &[Ev]) -> Vec<A> {
  s.iter().map(|e| A::Emit(l, *e)).collect()
}
pub fn oracle(f: &Failure) -> bool {
  f.kind == Kind::Oracle
}
pub fn any(f: &Failure) -> bool {
  f.kind != Kind::Machinery
}
pub fn blocked(f: &Failure) -> bool {
  matches!(f.kind, Kind::Deadlock | Kind::Livelock)
}

// ---------------------------------------------------------------- oracles

/// at most one terminal, and nothing whose emission started after its callback returned
pub fn contract(l: &[R], who: usize) -> Option<String> {
  let c = log::cbs(l, who);
  let terms: Vec<_> = c.iter().filter(|x| x.1.terminal()).collect();
  if terms.len() > 1 {
    return Some(format!("subscriber {} gets {} terminals: {}", who, terms.len(), show_evs(&log::got(l, who))));
  }
  if let Some((i, _)) = terms.first() {
    if let Some(e) = log::cb_end(l, *i) {
      let org = log::origins(l);
      for (j, ev) in &c {
        if *j > *i {
          if let Some(o) = org[*j] {
            if o > e {
              return Some(format!("subscriber {} gets {} although it began to be emitted after the terminal callback had returned: {}", who, show(ev), show_evs(&log::got(l, who))));
            }
          }
        }
      }
    }
  }
  None
}

pub fn j_contract(cc: &CC, r: &Res) -> Option<String> {
  (0..cc.subs()).find_map(|w| contract(&r.log, w))
}

/// after unsubscribe (or a terminal) has returned: nothing that starts to be emitted later
pub fn after_unsub(prog: &N, l: &[R], who: usize) -> Option<String> {
  let u = log::find(l, "unsub returned", who as i64)?;
  let org = log::origins(l);
  let at_u = l[u].at;
  for (j, ev) in log::cbs(l, who) {
    if j <= u {
      continue;
    }
    // by thread: the emission this callback runs inside of
    let by_thread = org[j].map(|o| o > u).unwrap_or(false);
    // by value: an item that was handed over later than that
    let by_value = match ev {
      Ev::Next(n) => {
        l.iter().position(|r| matches!(r.k, K::Em(_, Ev::Next(m)) if m == n)).map(|o| o > u).unwrap_or(false)
          || log::find(l, "pulled", n).map(|o| o > u).unwrap_or(false)
      }
      // or a terminal that no source had begun to emit
      _ if prog.has_op(&|o| matches!(o, Op::Take(_) | Op::First | Op::ElementAt(_) | Op::TakeWhile(_) | Op::All(_) | Op::Contains(_) | Op::TimeoutMs(_)))
        || prog.has_co(&|c| matches!(c, Co::TakeUntil | Co::SeqEq | Co::Zip)) =>
      {
        false
      }
      _ => l.iter().any(|r| matches!(r.k, K::Em(_, e) if e == ev)) && !l[..u].iter().any(|r| matches!(r.k, K::Em(_, e) if e == ev)),
    };
    if by_thread || by_value {
      return Some(format!("subscriber {} gets {} although it began to be emitted after unsubscribe had returned", who, show(&ev)));
    }
    let _ = at_u;
  }
  None
}

// ---------------------------------------------------------------- C19

use crate::gen::src;
pub fn co(c: Co, ns: Vec<N>) -> N {
  N::C(c, ns)
}

/// programs two racing sources feed
pub fn racers() -> Vec<(N, usize, Vec<A>)> {
  let two = |c: Co| co(c, vec![src(0), src(1)]);
  let s0 = vec![A::Sub(0)];
  let mut v: Vec<(N, usize, Vec<A>)> = vec![];
  for c in [Co::Merge, Co::Zip, Co::Amb, Co::TakeUntil, Co::SkipUntil, Co::Sample, Co::Combine, Co::Concat, Co::SeqEq, Co::Switch] {
    v.push((two(c), 2, s0.clone()));
  }
  // inner sources of flat_map, and the outer one against an inner one
  let fm = src(2).u(Op::FlatMap(vec![src(0), src(1)]));
  v.push((fm, 3, vec![A::Sub(0), A::Emit(2, Ev::Next(0)), A::Emit(2, Ev::Next(1)), A::Emit(2, Ev::Done)]));
  let fm1 = src(0).u(Op::FlatMap(vec![src(1)]));
  v.push((fm1, 2, vec![A::Sub(0), A::Emit(0, Ev::Next(0))]));
  v
}

pub fn leaves(n: usize) -> Vec<Leaf> {
  vec![Leaf::Hot; n]
}

/// what may lie downstream of a racing combination
pub fn downstream() -> Vec<Op> {
  vec![
    Op::Map(0),
    Op::Take(1),
    Op::Take(2),
    Op::TakeLast(1),
    Op::TakeWhile(2),
    Op::First,
    Op::Last,
    Op::ElementAt(2),
    Op::Distinct,
    Op::Scan(0),
    Op::Reduce(0),
    Op::Count,
    Op::SumAndCount,
    Op::Max,
    Op::All(1),
    Op::Contains(20),
    Op::DefaultIfEmpty(5),
    Op::IgnoreElements,
    Op::StartWith(vec![1]),
    Op::Buffer(2),
    Op::Window(2),
    Op::GroupBy(0),
    Op::Materialize,
    Op::MatDemat,
    Op::Tap,
    Op::Retry(1),
    Op::RetryWhen(0),
    Op::OnErr(vec![N::Just(7)]),
    Op::FlatMap(vec![N::Just(7)]),
    Op::RefCount,
    Op::Replay,
    Op::SkipLast(1),
    Op::SkipWhile(2),
    Op::Skip(1),
    Op::Filter(0),
  ]
}

pub fn c19(ctx: &Ctx) {
  let cfg = Config { bound: ctx.pick(2, 3), ..Config::default() };
  let mut scens = vec![];
  let base = |k: i64| -> Vec<Vec<Ev>> {
    vec![
      vec![Ev::Next(k), Ev::Done],
      vec![Ev::Next(k), Ev::Err(k)],
      vec![Ev::Done],
      vec![Ev::Err(k)],
      vec![Ev::Next(k), Ev::Next(k + 1)],
      vec![Ev::Next(k), Ev::Next(k + 1), Ev::Err(k)],
    ]
  };
  for (p, n, pre) in racers() {
    for (i, a) in base(10).iter().enumerate() {
      for (j, b) in base(20).iter().enumerate() {
        if i == 4 && j == 4 {
          continue;
        }
        let mut c = CC::new(p.clone(), leaves(n), vec![em(0, a), em(1, b)]);
        c.pre = pre.clone();
        scens.push(scen_cc(&cfg, c, j_contract));
      }
    }
  }
  // operators downstream of the race
  let ends = |k: i64| [vec![Ev::Next(k), Ev::Done], vec![Ev::Next(k), Ev::Err(k)]];
  for op in downstream() {
    for c in ctx.pick(vec![Co::Merge], vec![Co::Merge, Co::Zip, Co::Amb, Co::TakeUntil]) {
      let p = co(c, vec![src(0), src(1)]).u(op.clone());
      for (i, a) in ends(10).iter().enumerate() {
        for (j, b) in ends(20).iter().enumerate() {
          if c == Co::Merge && i < j && ctx.quick() {
            continue;
          }
          scens.push(scen_cc(&cfg, CC::new(p.clone(), leaves(2), vec![em(0, a), em(1, b)]), j_contract));
        }
      }
    }
  }
  // operators upstream of it
  for op in [Op::Map(0), Op::Take(1), Op::Last, Op::Materialize, Op::Retry(2), Op::OnErr(vec![N::Just(7)]), Op::Buffer(2), Op::RefCount] {
    for c in [Co::Merge, Co::Zip, Co::Amb, Co::TakeUntil] {
      let p = co(c, vec![src(0).u(op.clone()), src(1)]);
      for a in ends(10).iter() {
        for b in ends(20).iter() {
          scens.push(scen_cc(&cfg, CC::new(p.clone(), leaves(2), vec![em(0, a), em(1, b)]), j_contract));
        }
      }
    }
  }
  // three inputs, three threads
  for c in [Co::Merge, Co::Zip, Co::Amb] {
    for t in [[Ev::Done, Ev::Done, Ev::Done], [Ev::Err(1), Ev::Err(2), Ev::Err(3)], [Ev::Done, Ev::Err(2), Ev::Done]] {
      let p = co(c, vec![src(0), src(1), src(2)]);
      let ths = vec![em(0, &[Ev::Next(10), t[0]]), em(1, &[t[1]]), em(2, &[t[2]])];
      scens.push(scen_cc(&Config { bound: 2, ..cfg.clone() }, CC::new(p, leaves(3), ths), j_contract));
    }
  }
  // nested combinations
  for p in [
    co(Co::Merge, vec![co(Co::TakeUntil, vec![src(0), src(1)]), src(2)]),
    co(Co::TakeUntil, vec![co(Co::Merge, vec![src(0), src(1)]), src(2)]),
    co(Co::Zip, vec![co(Co::Merge, vec![src(0), src(1)]), src(2)]),
    co(Co::Amb, vec![co(Co::Merge, vec![src(0), src(1)]), src(2)]),
    co(Co::Merge, vec![co(Co::Amb, vec![src(0), src(1)]), src(2)]),
  ] {
    for (t, u) in [(Ev::Done, Ev::Done), (Ev::Err(1), Ev::Err(2)), (Ev::Done, Ev::Err(2)), (Ev::Err(1), Ev::Done)] {
      let mut c = CC::new(p.clone(), leaves(3), vec![em(0, &[Ev::Next(10), t]), em(2, &[Ev::Next(30), u])]);
      c.post = em(1, &[Ev::Next(20), Ev::Done]);
      scens.push(scen_cc(&cfg, c, j_contract));
      scens.push(scen_cc(&cfg, CC::new(p.clone(), leaves(3), vec![em(0, &[t]), em(1, &[Ev::Next(20), t]), em(2, &[u])]), j_contract));
    }
  }
  // a subject whose next and terminals are called concurrently
  let scr: Vec<(Vec<Ev>, Vec<Ev>)> = vec![
    (vec![Ev::Next(10), Ev::Next(11)], vec![Ev::Done]),
    (vec![Ev::Next(10), Ev::Next(11)], vec![Ev::Err(2)]),
    (vec![Ev::Done], vec![Ev::Err(2)]),
    (vec![Ev::Done], vec![Ev::Done]),
    (vec![Ev::Err(1)], vec![Ev::Err(2)]),
    (vec![Ev::Next(10), Ev::Done], vec![Ev::Next(20), Ev::Err(2)]),
    (vec![Ev::Next(10), Ev::Done], vec![Ev::Next(20), Ev::Done]),
    (vec![Ev::Done, Ev::Next(10)], vec![Ev::Next(20), Ev::Err(2)]),
  ];
  for kind in 0..4 {
    for (a, b) in &scr {
      for p in [src(0), src(0).u(Op::Map(0)), src(0).u(Op::RefCount), src(0).u(Op::Scan(0))] {
        let mut c = CC::new(p.clone(), vec![Leaf::Subj(kind)], vec![em(0, a), em(0, b)]);
        scens.push(scen_cc(&cfg, c.clone(), j_contract));
        if p == src(0) {
          c.pre = vec![A::Sub(0), A::Sub(1)];
          scens.push(scen_cc(&cfg, c.clone(), j_contract));
          // subscribing while it ends
          c.pre = vec![];
          c.threads.push(vec![A::Sub(0)]);
          scens.push(scen_cc(&cfg, c, j_contract));
        }
      }
    }
  }
  // many inputs, many items, few deviations
  let one = Config { bound: 1, max_steps: 4_000_000, ..Config::default() };
  for c in [Co::Merge, Co::Zip, Co::Amb, Co::Combine] {
    for &k in ctx.pick(&[4usize, 5, 9][..], &[4, 5, 6, 8, 9, 12]) {
      let p = co(c, (0..k).map(src).collect());
      for e in 0..4 {
        let t = |i: usize| match e {
          0 => Ev::Done,
          1 => Ev::Err(i as i64),
          2 => if i == 0 { Ev::Err(1) } else { Ev::Done },
          _ => if i + 2 >= k { Ev::Err(i as i64) } else { Ev::Done },
        };
        for items in [0, 1] {
          for groups in [3, 4] {
            let mut ths = vec![vec![]; groups];
            for i in 0..k {
              let mut v = vec![Ev::Next(i as i64 * 10 + 10); items];
              v.push(t(i));
              ths[i % groups].extend(em(i, &v));
            }
            scens.push(scen_cc(&one, CC::new(p.clone(), leaves(k), ths), j_contract));
          }
        }
      }
    }
  }
  for (p, n, pre) in racers() {
    for &k in ctx.pick(&[9i64, 33][..], &[5, 9, 17, 33, 65]) {
      for (a, b) in [(Ev::Done, Ev::Done), (Ev::Err(1), Ev::Err(2)), (Ev::Done, Ev::Err(2)), (Ev::Err(1), Ev::Done)] {
        let long = |from: i64, t: Ev| -> Vec<Ev> { (from..from + k).map(Ev::Next).chain([t]).collect() };
        let mut c = CC::new(p.clone(), leaves(n), vec![em(0, &long(10, a)), em(1, &long(200, b))]);
        c.pre = pre.clone();
        scens.push(scen_cc(&one, c.clone(), j_contract));
        c.threads[1] = em(1, &[b]);
        scens.push(scen_cc(&one, c, j_contract));
      }
    }
  }
  for kind in 0..4 {
    for m in [5usize, 9, 17] {
      for (a, b) in &scr {
        let mut c = CC::new(src(0), vec![Leaf::Subj(kind)], vec![em(0, a), em(0, b), vec![A::Sub(m)]]);
        c.pre = (0..m).map(A::Sub).collect();
        scens.push(scen_cc(&one, c, j_contract));
      }
    }
  }
  // inputs that are subscribed while others already emit
  for c in [Co::Merge, Co::Zip, Co::Amb, Co::TakeUntil, Co::SkipUntil, Co::Sample, Co::Concat, Co::SeqEq] {
    for (a, b) in [(Ev::Done, Ev::Done), (Ev::Err(1), Ev::Err(2)), (Ev::Done, Ev::Err(2)), (Ev::Err(1), Ev::Done)] {
      let l = vec![Leaf::Thread(vec![Ev::Next(10), a]), Leaf::Thread(vec![Ev::Next(20), b])];
      scens.push(scen_cc(&cfg, CC::new(co(c, vec![src(0), src(1)]), l, vec![]), j_contract));
    }
  }
  explore_all(ctx, scens, &oracle);
  ctx.assume("an event counts as started when its source calls next/error/complete; a callback is attributed to the innermost emission open on its thread");
}

// ---------------------------------------------------------------- C11

pub fn items(l: &[R], leaf: usize) -> Vec<i64> {
  l.iter().filter_map(|r| if let K::Em(k, Ev::Next(n)) = r.k { (k == leaf).then_some(n) } else { None }).collect()
}
pub fn nexts(got: &[Ev]) -> Vec<i64> {
  got.iter().filter_map(|e| if let Ev::Next(n) = e { Some(*n) } else { None }).collect()
}
/// exactly one complete, after everything else
pub fn one_complete(got: &[Ev]) -> Option<String> {
  if got.iter().filter(|e| e.terminal()).count() != 1 || got.last() != Some(&Ev::Done) {
    return Some(format!("expected every item and then one complete, got {}", show_evs(got)));
  }
  None
}
/// what each input contributes, by where its items come from (hundreds: the input)
fn by_input(xs: &[i64]) -> Vec<Vec<i64>> {
  let mut v = vec![vec![]; 10];
  for x in xs {
    v[(*x / 100).clamp(0, 9) as usize].push(*x);
  }
  v
}

fn j_union(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  if let Some(m) = one_complete(&g) {
    return Some(m);
  }
  let got = by_input(&nexts(&g));
  for k in 0..cc.leaves.len() {
    let sent = items(&r.log, k);
    if sent.is_empty() || sent[0] < 100 {
      continue;
    }
    let i = (sent[0] / 100) as usize;
    if got[i] != sent {
      return Some(format!("source s{} emitted {:?} but {:?} of it arrives, in {}", k, sent, got[i], show_evs(&g)));
    }
  }
  let n: usize = got.iter().map(|x| x.len()).sum();
  let all: usize = (0..cc.leaves.len()).map(|k| items(&r.log, k)).filter(|x| x.first().map(|y| *y >= 100).unwrap_or(false)).map(|x| x.len()).sum();
  if n != all {
    return Some(format!("{} items emitted, {} delivered: {}", all, n, show_evs(&g)));
  }
  None
}
/// flat_map whose outer items (100 and more) race: each gets all of the inner source's
fn j_outer(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  if let Some(m) = one_complete(&g) {
    return Some(m);
  }
  let n: usize = (0..cc.leaves.len()).map(|k| items(&r.log, k).into_iter().filter(|x| *x >= 100).count()).sum();
  let mut by: BTreeMap<i64, usize> = BTreeMap::new();
  for x in nexts(&g) {
    *by.entry(x).or_default() += 1;
  }
  for x in [7, 8] {
    if n > 0 && by.remove(&x) != Some(n) {
      return Some(format!("{} outer items, the inner item {} is not delivered as often: {}", n, x, show_evs(&g)));
    }
  }
  if !by.is_empty() {
    return Some(format!("items nobody emitted: {:?} in {}", by.keys().collect::<Vec<_>>(), show_evs(&g)));
  }
  None
}
/// concat also keeps the inputs apart
fn j_concat(cc: &CC, r: &Res) -> Option<String> {
  if let Some(m) = j_union(cc, r) {
    return Some(m);
  }
  let g = nexts(&log::got(&r.log, 0));
  if g.windows(2).any(|w| w[0] / 100 > w[1] / 100) {
    return Some(format!("items of a later input before those of an earlier one: {:?}", g));
  }
  None
}
fn j_zip(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  if let Some(m) = one_complete(&g) {
    return Some(m);
  }
  let ins: Vec<Vec<i64>> = (0..cc.leaves.len()).map(|k| items(&r.log, k)).collect();
  let n = ins.iter().map(|x| x.len()).min().unwrap_or(0);
  let mut want: Vec<i64> = (0..n).map(|i| enc_list(&ins.iter().map(|x| x[i]).collect::<Vec<_>>())).collect();
  let mut got = nexts(&g);
  want.sort();
  got.sort();
  if got != want {
    return Some(format!("zip delivers {} tuples {:?}, expected {:?} from {:?}", got.len(), got, want, ins));
  }
  None
}
fn j_amb(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  if let Some(m) = one_complete(&g) {
    return Some(m);
  }
  let got = nexts(&g);
  if !(0..cc.leaves.len()).any(|k| items(&r.log, k) == got) {
    return Some(format!("amb delivers {:?}, which is not what exactly one input emitted", got));
  }
  None
}
/// amb over inputs that may fail: still only one of them
fn j_amb_one(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  let full = |k: usize| -> Vec<Ev> { r.log.iter().filter_map(|x| if let K::Em(l, e) = x.k { (l == k).then_some(e) } else { None }).collect() };
  if !(0..cc.leaves.len()).any(|k| full(k).starts_with(&g)) {
    return Some(format!("amb delivers {}, which no single input emitted", show_evs(&g)));
  }
  j_contract(cc, r)
}
fn j_take<const N: usize>(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  let n = nexts(&g).len();
  if n > N {
    return Some(format!("take({}) delivers {} items: {}", N, n, show_evs(&g)));
  }
  let sent: usize = (0..cc.leaves.len()).map(|k| items(&r.log, k).len()).sum();
  if sent >= N && !g.iter().any(|e| e.terminal()) {
    return Some(format!("take({}) never ends although {} items were emitted: {}", N, sent, show_evs(&g)));
  }
  let mut u = nexts(&g);
  u.sort();
  u.dedup();
  if u.len() != n {
    return Some(format!("an item twice: {}", show_evs(&g)));
  }
  j_contract(cc, r)
}

pub fn c11(ctx: &Ctx) {
  let b2 = Config { bound: ctx.pick(3, 4), ..Config::default() };
  let b1 = Config { bound: ctx.pick(2, 3), ..Config::default() };
  let mut scens = vec![];
  let sc = |k: i64, n: i64, t: Ev| -> Vec<Ev> {
    let mut v: Vec<Ev> = (0..n).map(|i| Ev::Next(k * 100 + i)).collect();
    v.push(t);
    v
  };
  let n_of = |k: usize| -> Vec<N> { (0..k).map(src).collect() };
  let lens2: Vec<(i64, i64)> = vec![(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 3)];
  for (c, j) in [(Co::Merge, j_union as Jdg), (Co::Zip, j_zip), (Co::Amb, j_amb)] {
    let p = co(c, n_of(2));
    for (x, y) in &lens2 {
      // two hot inputs, each on its own thread
      scens.push(scen_cc(&b2, CC::new(p.clone(), leaves(2), vec![em(0, &sc(1, *x, Ev::Done)), em(1, &sc(2, *y, Ev::Done))]), j));
      if *x + *y <= 4 {
        // inputs that start a thread when subscribed
        let l = vec![Leaf::Thread(sc(1, *x, Ev::Done)), Leaf::Thread(sc(2, *y, Ev::Done))];
        let cfg = if *x + *y <= 2 { &b2 } else { &b1 };
        scens.push(scen_cc(cfg, CC::new(p.clone(), l, vec![]), j));
        // one hot, one threaded
        let l = vec![Leaf::Thread(sc(1, *x, Ev::Done)), Leaf::Hot];
        scens.push(scen_cc(cfg, CC::new(p.clone(), l, vec![em(1, &sc(2, *y, Ev::Done))]), j));
        // subjects as inputs
        let l = vec![Leaf::HotSubject, Leaf::HotSubject];
        scens.push(scen_cc(cfg, CC::new(p.clone(), l, vec![em(0, &sc(1, *x, Ev::Done)), em(1, &sc(2, *y, Ev::Done))]), j));
        // on new-thread schedulers
        let it = |k: i64, n: i64| N::Pulled(0, (0..n).map(|i| k * 100 + i).collect()).u(Op::SubscribeOnNt);
        if *x + *y <= 3 {
          let c2 = CC::new(co(c, vec![it(1, *x), it(2, *y)]), vec![], vec![]);
          let jj: Jdg = match c {
            Co::Merge => j_pulled_union,
            Co::Zip => j_pulled_zip,
            _ => j_pulled_amb,
          };
          scens.push(scen_cc(&b1, c2, jj));
        }
      }
    }
    // three inputs
    let p = co(c, n_of(3));
    for ns in [[1, 1, 1], [0, 1, 1], [1, 0, 2], [2, 1, 1]] {
      let ths = (0..3).map(|k| em(k, &sc(k as i64 + 1, ns[k], Ev::Done))).collect();
      scens.push(scen_cc(if ns.iter().sum::<i64>() <= 3 { &b2 } else { &b1 }, CC::new(p.clone(), leaves(3), ths), j));
      let l = (0..3).map(|k| Leaf::Thread(sc(k as i64 + 1, ns[k], Ev::Done))).collect();
      scens.push(scen_cc(&b1, CC::new(p.clone(), l, vec![]), j));
    }
    // under other operators
    for op in [Op::Map(0), Op::ObserveOn, Op::RefCount, Op::MatDemat, Op::Retry(1), Op::Skip(0), Op::DefaultIfEmpty(9)] {
      let q = co(c, n_of(2)).u(op.clone());
      let jj: Jdg = if op == Op::Map(0) { j_contract } else { j };
      scens.push(scen_cc(&b2, CC::new(q, leaves(2), vec![em(0, &sc(1, 2, Ev::Done)), em(1, &sc(2, 1, Ev::Done))]), jj));
    }
    // operators above the inputs
    for op in [Op::ObserveOn, Op::RefCount, Op::MatDemat, Op::Retry(1)] {
      let q = co(c, vec![src(0).u(op.clone()), src(1).u(op.clone())]);
      scens.push(scen_cc(&b2, CC::new(q, leaves(2), vec![em(0, &sc(1, 2, Ev::Done)), em(1, &sc(2, 1, Ev::Done))]), j));
    }
  }
  // nested: conservation through two levels
  for (p, j) in [
    (co(Co::Merge, vec![co(Co::Merge, n_of(2)), src(2)]), j_union as Jdg),
    (co(Co::Merge, vec![src(0), co(Co::Merge, vec![src(1), src(2)])]), j_union),
  ] {
    for ns in [[1, 1, 1], [2, 1, 1], [0, 0, 1]] {
      let ths = (0..3).map(|k| em(k, &sc(k as i64 + 1, ns[k], Ev::Done))).collect();
      scens.push(scen_cc(&b2, CC::new(p.clone(), leaves(3), ths), j));
    }
  }
  // flat_map: inner sources racing each other and the outer one
  for (x, y) in &lens2 {
    let p = src(2).u(Op::FlatMap(vec![src(0), src(1)]));
    let mut c = CC::new(p.clone(), leaves(3), vec![em(0, &sc(1, *x, Ev::Done)), em(1, &sc(2, *y, Ev::Done))]);
    c.pre = vec![A::Sub(0), A::Emit(2, Ev::Next(0)), A::Emit(2, Ev::Next(1)), A::Emit(2, Ev::Done)];
    scens.push(scen_cc(&b2, c.clone(), j_union));
    // the outer one ends last, on a third thread
    c.pre.pop();
    c.threads.push(em(2, &[Ev::Done]));
    scens.push(scen_cc(if *x + *y <= 2 { &b2 } else { &b1 }, c, j_union));
    // inner sources start threads of their own while the outer goes on
    if *x + *y <= 3 {
      let l = vec![Leaf::Thread(sc(1, *x, Ev::Done)), Leaf::Thread(sc(2, *y, Ev::Done)), Leaf::Hot];
      let c = CC::new(p.clone(), l, vec![em(2, &[Ev::Next(0), Ev::Next(1), Ev::Done])]);
      scens.push(scen_cc(&b1, c, j_union));
      let l = vec![Leaf::Thread(sc(1, *x, Ev::Done)), Leaf::Thread(sc(2, *y, Ev::Done)), Leaf::Thread(vec![Ev::Next(0), Ev::Next(1), Ev::Done])];
      scens.push(scen_cc(&b1, CC::new(p.clone(), l, vec![]), j_union));
    }
  }
  // flat_map's outer items racing each other
  for (x, y) in [(1, 1), (2, 1), (2, 2)] {
    let cfg = if x + y <= 2 { &b2 } else { &b1 };
    let merged = co(Co::Merge, n_of(2));
    for inner in [N::Iter(vec![7, 8]), src(2)] {
      let fm = |o: N| o.u(Op::FlatMap(vec![inner.clone()]));
      let post = if inner == src(2) { vec![A::Emit(2, Ev::Next(7)), A::Emit(2, Ev::Next(8)), A::Emit(2, Ev::Done)] } else { vec![] };
      let mut ls = leaves(3);
      let mut c = CC::new(fm(merged.clone()), ls.clone(), vec![em(0, &sc(1, x, Ev::Done)), em(1, &sc(2, y, Ev::Done))]);
      c.post = post.clone();
      scens.push(scen_cc(cfg, c, j_outer));
      // one Subject, two producers
      ls[0] = Leaf::HotSubject;
      for l2 in [Leaf::Hot, Leaf::HotSubject] {
        ls[2] = l2;
        let mut it = sc(1, x, Ev::Done);
        it.pop();
        let mut it2 = sc(2, y, Ev::Done);
        it2.pop();
        let mut c = CC::new(fm(src(0)), ls.clone(), vec![em(0, &it), em(0, &it2)]);
        c.post = vec![A::Emit(0, Ev::Done)];
        c.post.extend(post.clone());
        scens.push(scen_cc(cfg, c, j_outer));
      }
      let mut ls = leaves(3);
      ls[0] = Leaf::Thread(sc(1, x, Ev::Done));
      ls[1] = Leaf::Thread(sc(2, y, Ev::Done));
      if inner != src(2) {
        scens.push(scen_cc(&b1, CC::new(fm(merged.clone()), ls, vec![]), j_outer));
      } else if x + y == 2 {
        ls[2] = Leaf::Thread(vec![Ev::Next(7), Ev::Next(8), Ev::Done]);
        scens.push(scen_cc(&b1, CC::new(fm(merged.clone()), ls, vec![]), j_outer));
      }
    }
  }
  // operators between which let everything through
  let through = [Op::TakeLast(9), Op::SkipLast(0), Op::Tap, Op::Distinct, Op::SkipWhile(4), Op::TakeWhile(3), Op::Filter(3), Op::Take(9)];
  for op in through.iter().chain(&[Op::Skip(0), Op::StartWith(vec![])]) {
    for (x, y) in [(1, 1), (2, 1)] {
      let c = CC::new(co(Co::Merge, n_of(2)).u(op.clone()), leaves(2), vec![em(0, &sc(1, x, Ev::Done)), em(1, &sc(2, y, Ev::Done))]);
      scens.push(scen_cc(&b2, c, j_union));
    }
  }
  // concat: each input on its own thread, the next subscribed from the previous one's
  for ns in [vec![1, 1], vec![0, 1], vec![1, 0], vec![2, 2], vec![0, 0], vec![1, 1, 1], vec![0, 0, 1], vec![2, 1, 1]] {
    let k = ns.len();
    let l: Vec<Leaf> = (0..k).map(|i| Leaf::Thread(sc(i as i64 + 1, ns[i], Ev::Done))).collect();
    scens.push(scen_cc(&b2, CC::new(co(Co::Concat, n_of(k)), l.clone(), vec![]), j_concat));
    let mut l2 = l.clone();
    l2[0] = Leaf::Cold { scripts: vec![sc(1, ns[0], Ev::Done)], polite: true };
    scens.push(scen_cc(&b2, CC::new(co(Co::Concat, n_of(k)), l2, vec![]), j_concat));
    if k == 2 {
      let mut l3 = l.clone();
      l3[0] = Leaf::Hot;
      scens.push(scen_cc(&b2, CC::new(co(Co::Concat, n_of(k)), l3, vec![em(0, &sc(1, ns[0], Ev::Done))]), j_concat));
      // replaying inputs, so that nothing is missed however early they emit
      let mut c = CC::new(co(Co::Concat, n_of(k)), vec![Leaf::Subj(2), Leaf::Subj(2)], vec![em(0, &sc(1, ns[0], Ev::Done)), em(1, &sc(2, ns[1], Ev::Done))]);
      scens.push(scen_cc(&b2, c.clone(), j_concat));
      c.pre = vec![];
      c.threads.push(vec![A::Sub(0)]);
      scens.push(scen_cc(&b2, c, j_concat));
    }
  }
  // amb with failing inputs
  for (t, u) in [(Ev::Err(1), Ev::Done), (Ev::Err(1), Ev::Err(2)), (Ev::Done, Ev::Err(2))] {
    for (x, y) in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1)] {
      scens.push(scen_cc(&b2, CC::new(co(Co::Amb, n_of(2)), leaves(2), vec![em(0, &sc(1, x, t)), em(1, &sc(2, y, u))]), j_amb_one));
      let l = vec![Leaf::Thread(sc(1, x, t)), Leaf::Thread(sc(2, y, u))];
      scens.push(scen_cc(&b1, CC::new(co(Co::Amb, n_of(2)), l, vec![]), j_amb_one));
    }
  }
  // take over a race
  for (x, y) in [(1, 1), (2, 1), (2, 2), (3, 2)] {
    for (t, u) in [(Ev::Done, Ev::Done), (Ev::Err(1), Ev::Done), (Ev::Err(1), Ev::Err(2))] {
      for (op, j) in [(Op::Take(1), j_take::<1> as Jdg), (Op::Take(2), j_take::<2>), (Op::First, j_take::<1>)] {
        let q = co(Co::Merge, n_of(2)).u(op);
        let c = CC::new(q.clone(), leaves(2), vec![em(0, &sc(1, x, t)), em(1, &sc(2, y, u))]);
        scens.push(scen_cc(&b2, c, j));
        if x + y <= 3 {
          let l = vec![Leaf::Thread(sc(1, x, t)), Leaf::Thread(sc(2, y, u))];
          scens.push(scen_cc(&b1, CC::new(q, l, vec![]), j));
        }
      }
      // one subject, two producers
      for (op, j) in [(Op::Take(1), j_take::<1> as Jdg), (Op::Take(2), j_take::<2>)] {
        let c = CC::new(src(0).u(op), vec![Leaf::HotSubject], vec![em(0, &sc(1, x, t)), em(0, &sc(2, y, u))]);
        scens.push(scen_cc(&b2, c, j));
      }
    }
  }
  // many inputs, many items, few deviations
  let one = Config { bound: 1, max_steps: 4_000_000, ..Config::default() };
  for (c, j) in [(Co::Merge, j_union as Jdg), (Co::Zip, j_zip), (Co::Amb, j_amb)] {
    for &k in ctx.pick(&[4usize, 5, 7, 9][..], &[4, 5, 6, 7, 8, 9]) {
      let p = co(c, n_of(k));
      for n in [0i64, 1, 2] {
        // threads that end are followed by any other: their number is what costs
        if k < 6 {
          let ths: Vec<Vec<A>> = (0..k).map(|i| em(i, &sc(i as i64 + 1, n, Ev::Done))).collect();
          scens.push(scen_cc(&one, CC::new(p.clone(), leaves(k), ths), j));
        }
        // all but two by one thread
        let mut ths = vec![vec![], em(k - 2, &sc(k as i64 - 1, n, Ev::Done)), em(k - 1, &sc(k as i64, n, Ev::Done))];
        for i in 0..k - 2 {
          ths[0].extend(em(i, &sc(i as i64 + 1, n, Ev::Done)));
        }
        scens.push(scen_cc(if k < 6 && !ctx.quick() { &b1 } else { &one }, CC::new(p.clone(), leaves(k), ths), j));
        let l = (0..k)
          .map(|i| {
            let s = sc(i as i64 + 1, n, Ev::Done);
            if i < 3 { Leaf::Thread(s) } else { Leaf::Cold { scripts: vec![s], polite: true } }
          })
          .collect();
        let cold_first = c == Co::Amb;
        if !cold_first {
          scens.push(scen_cc(&one, CC::new(p.clone(), l, vec![]), j));
        }
      }
    }
    let p = co(c, n_of(2));
    for &n in ctx.pick(&[5i64, 9, 17, 33][..], &[4, 5, 6, 8, 9, 12, 16, 17, 32, 33, 64, 65, 99]) {
      let cfg = if n < 10 && !ctx.quick() { &b1 } else { &one };
      for m in [n, 1, 0] {
        scens.push(scen_cc(cfg, CC::new(p.clone(), leaves(2), vec![em(0, &sc(1, n, Ev::Done)), em(1, &sc(2, m, Ev::Done))]), j));
        let l = vec![Leaf::Thread(sc(1, n, Ev::Done)), Leaf::Thread(sc(2, m, Ev::Done))];
        scens.push(scen_cc(&one, CC::new(p.clone(), l, vec![]), j));
      }
    }
  }
  for &k in ctx.pick(&[4usize, 6, 9][..], &[4, 5, 6, 7, 8, 9]) {
    // inner sources, all there at once or arriving while others end
    let p = src(9).u(Op::FlatMap(n_of(k)));
    let outer: Vec<A> = (0..k as i64).map(|i| A::Emit(9, Ev::Next(i))).collect();
    for n in [1i64, 2] {
      let mut ths = vec![vec![]; 3];
      for i in 0..k {
        ths[i % 3].extend(em(i, &sc(i as i64 + 1, n, Ev::Done)));
      }
      let mut c = CC::new(p.clone(), leaves(10), ths);
      c.pre = vec![A::Sub(0)];
      c.pre.extend(outer.clone());
      c.threads.push(vec![A::Emit(9, Ev::Done)]);
      scens.push(scen_cc(&one, c, j_union));
      let mut l: Vec<Leaf> = (0..10)
        .map(|i| {
          let s = sc(i as i64 + 1, n, Ev::Done);
          if i % 3 == 0 { Leaf::Thread(s) } else { Leaf::Cold { scripts: vec![s], polite: true } }
        })
        .collect();
      l[9] = Leaf::Hot;
      let mut ths = vec![outer.clone()];
      ths[0].push(A::Emit(9, Ev::Done));
      scens.push(scen_cc(&one, CC::new(p.clone(), l, ths), j_union));
      // one after another
      let l: Vec<Leaf> = (0..k).map(|i| Leaf::Thread(sc(i as i64 + 1, n, Ev::Done))).collect();
      scens.push(scen_cc(&one, CC::new(co(Co::Concat, n_of(k)), l, vec![]), j_concat));
    }
  }
  for &n in ctx.pick(&[9i64, 33][..], &[5, 8, 9, 16, 17, 32, 33, 65, 99]) {
    for inner in [N::Iter(vec![7, 8]), N::Just(7)] {
      let j: Jdg = if inner == N::Just(7) { j_contract } else { j_outer };
      let q = co(Co::Merge, n_of(2)).u(Op::FlatMap(vec![inner]));
      scens.push(scen_cc(&one, CC::new(q, leaves(3), vec![em(0, &sc(1, n, Ev::Done)), em(1, &sc(2, n, Ev::Done))]), j));
    }
    for (a, b) in [(n, n), (n, 0), (1, n)] {
      let l = vec![Leaf::Thread(sc(1, a, Ev::Done)), Leaf::Thread(sc(2, b, Ev::Done))];
      scens.push(scen_cc(&one, CC::new(co(Co::Concat, n_of(2)), l, vec![]), j_concat));
    }
  }
  for (op, j) in [(Op::Take(5), j_take::<5> as Jdg), (Op::Take(9), j_take::<9>), (Op::Take(17), j_take::<17>), (Op::Take(33), j_take::<33>)] {
    for n in [3i64, 5, 9, 17] {
      let c = CC::new(co(Co::Merge, n_of(2)).u(op.clone()), leaves(2), vec![em(0, &sc(1, n, Ev::Done)), em(1, &sc(2, n, Ev::Done))]);
      scens.push(scen_cc(if n < 6 && !ctx.quick() { &b1 } else { &one }, c, j));
      let c = CC::new(src(0).u(op.clone()), vec![Leaf::HotSubject], vec![em(0, &sc(1, n, Ev::Done)), em(0, &sc(2, n, Ev::Err(3)))]);
      scens.push(scen_cc(&one, c, j));
    }
  }
  // never two terminals, whatever fails
  for c in [Co::Merge, Co::Zip, Co::Combine, Co::Concat] {
    for (t, u) in [(Ev::Err(1), Ev::Done), (Ev::Err(1), Ev::Err(2)), (Ev::Done, Ev::Err(2))] {
      for (x, y) in [(0, 0), (1, 1), (2, 1)] {
        scens.push(scen_cc(&b2, CC::new(co(c, n_of(2)), leaves(2), vec![em(0, &sc(1, x, t)), em(1, &sc(2, y, u))]), j_contract));
      }
    }
  }
  explore_all(ctx, scens, &any);
}

/// inputs that are iterators on schedulers: what was pulled is what was emitted
fn pulled(r: &Res) -> Vec<i64> {
  log::mine(&r.log, "pulled").into_iter().map(|x| x.1).collect()
}
fn j_pulled_union(_: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  if let Some(m) = one_complete(&g) {
    return Some(m);
  }
  let (p, q) = (by_input(&pulled(r)), by_input(&nexts(&g)));
  if p != q {
    return Some(format!("inputs produced {:?}, delivered were {:?}", p, q));
  }
  None
}
fn want_iters(cc: &CC) -> Vec<Vec<i64>> {
  let mut v = vec![];
  cc.prog.walk(&mut |n| {
    if let N::Pulled(_, xs) = n {
      v.push(xs.clone())
    }
  });
  v
}
fn j_pulled_zip(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  if let Some(m) = one_complete(&g) {
    return Some(m);
  }
  let ins = want_iters(cc);
  let n = ins.iter().map(|x| x.len()).min().unwrap_or(0);
  let mut want: Vec<i64> = (0..n).map(|i| enc_list(&ins.iter().map(|x| x[i]).collect::<Vec<_>>())).collect();
  let mut got = nexts(&g);
  want.sort();
  got.sort();
  if got != want {
    return Some(format!("zip delivers {} tuples, expected {} from {:?}", got.len(), want.len(), ins));
  }
  None
}
fn j_pulled_amb(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  if let Some(m) = one_complete(&g) {
    return Some(m);
  }
  if !want_iters(cc).contains(&nexts(&g)) {
    return Some(format!("amb delivers {}, which is not what exactly one input emitted", show_evs(&g)));
  }
  None
}
