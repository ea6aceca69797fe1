//! Schedulers, the operators that use them, timers and to_vec.
use crate::ast::*;
use crate::conc::*;
use crate::core::*;
use crate::gen::{self, src};
use crate::log::{self, Log, K, R};
use crate::real::*;
use crate::refi;
use crate::val::*;
use another_rxrust::prelude::*;
use another_rxrust::schedulers::schedulers::IScheduler;
use std::collections::HashMap;
use std::future::Future;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;
use vstd::rt::{self, Config, ObjId};

// ---------------------------------------------------------------- C08

#[derive(Clone, Copy, Debug, PartialEq)]
enum P {
  Post,
  Abort,
  /// milliseconds
  Sleep(u64),
  /// until all others have come to rest
  Rest,
}
fn show_p(p: &[P]) -> String {
  p.iter()
    .map(|p| match p {
      P::Post => "post".into(),
      P::Abort => "abort".into(),
      P::Sleep(n) => format!("sleep{}", n),
      P::Rest => "rest".to_string(),
    })
    .collect::<Vec<_>>()
    .join(" ")
}
#[derive(Clone, Debug)]
struct SC {
  /// the first one is the main thread's
  threads: Vec<Vec<P>>,
  /// done inside the n-th task that runs
  inside: Vec<Vec<P>>,
  /// tasks take this long
  slow: u64,
  default: bool,
}
impl SC {
  fn show(&self) -> String {
    let mut s = if self.default { "default scheduler".to_string() } else { "new-thread scheduler".to_string() };
    for (i, t) in self.threads.iter().enumerate() {
      s += &format!("; {} {}", if i == 0 { "main".to_string() } else { format!("T{}", i) }, show_p(t));
    }
    for (i, t) in self.inside.iter().enumerate() {
      if !t.is_empty() {
        s += &format!("; in task #{}: {}", i + 1, show_p(t));
      }
    }
    if self.slow > 0 {
      s += &format!("; tasks take {}ms", self.slow);
    }
    s
  }
}
trait Sch: Clone + Send + Sync + 'static {
  fn put<F: Fn() + Send + Sync + Clone + 'static>(&self, f: F);
  fn stop(&self);
}
impl Sch for schedulers::NewThreadScheduler<'static> {
  fn put<F: Fn() + Send + Sync + Clone + 'static>(&self, f: F) {
    self.post(f)
  }
  fn stop(&self) {
    self.abort()
  }
}
impl Sch for schedulers::DefaultScheduler {
  fn put<F: Fn() + Send + Sync + Clone + 'static>(&self, f: F) {
    self.post(f)
  }
  fn stop(&self) {
    self.abort()
  }
}
struct SR<S> {
  /// taken away in the end: it may own tasks, which own this
  s: Sh<Option<Arc<S>>>,
  log: Log,
  o: ObjId,
  next: Sh<i64>,
  ran: Sh<usize>,
  inside: Vec<Vec<P>>,
  slow: u64,
}
fn sdo<S: Sch>(r: &Arc<SR<S>>, p: &P) {
  match p {
    P::Sleep(ms) => rt::sleep(ms * 1_000_000),
    P::Rest => {
      rt::quiesce();
      r.log.mark(K::M("rested", 0));
    }
    P::Abort => {
      r.log.push(K::M("abort", 0));
      let s = r.s.get().clone();
      s.iter().for_each(|s| s.stop());
      r.log.mark(K::M("aborted", 0));
    }
    P::Post => {
      rt::op(&r.o, true, 501);
      let id = *r.next.get();
      *r.next.get() += 1;
      r.log.mark(K::M("post", id));
      let r2 = r.clone();
      let s = r.s.get().clone();
      let Some(s) = s else { return };
      s.put(move || {
        r2.log.push(K::M("task", id));
        let n = *r2.ran.get();
        *r2.ran.get() += 1;
        if r2.slow > 0 {
          rt::sleep(r2.slow * 1_000_000);
        }
        if let Some(l) = r2.inside.get(n) {
          l.iter().for_each(|p| sdo(&r2, p));
        }
        r2.log.push(K::M("task end", id));
      });
      r.log.mark(K::M("posted", id));
    }
  }
}
fn srun<S: Sch>(s: S, c: &SC) -> (Vec<R>, usize) {
  let r = Arc::new(SR { s: Sh::new(Some(Arc::new(s))), log: log::new(), o: ObjId::new(), next: Sh::new(0), ran: Sh::new(0), inside: c.inside.clone(), slow: c.slow });
  let ths: Vec<_> = c
    .threads
    .iter()
    .skip(1)
    .map(|t| {
      let (r, t) = (r.clone(), t.clone());
      vstd::thread::spawn(move || t.iter().for_each(|p| sdo(&r, p)))
    })
    .collect();
  c.threads[0].iter().for_each(|p| sdo(&r, p));
  for t in ths {
    let _ = t.join();
  }
  rt::quiesce();
  rt::sleep((1_000 + c.slow * 500) * 1_000_000);
  rt::quiesce();
  r.s.get().take();
  (r.log.take(), rt::live_threads().len())
}
fn j_sched(c: &SC, l: &[R], live: usize) -> Option<String> {
  let at = |m: &str| -> HashMap<i64, usize> { log::mine(l, m).into_iter().map(|(i, n)| (n, i)).collect() };
  let (post, posted, begin, end) = (at("post"), at("posted"), at("task"), at("task end"));
  let begins = log::mine(l, "task");
  if begins.len() != begin.len() {
    return Some("a task ran twice".into());
  }
  let first_abort = l.iter().position(|r| matches!(r.k, K::M("abort", _)));
  let aborted = l.iter().position(|r| matches!(r.k, K::M("aborted", _)));
  for (n, b) in &begin {
    if !end.contains_key(n) {
      return Some(format!("task {} never ends", n));
    }
    if b < &post[n] {
      return Some(format!("task {} runs before it was posted", n));
    }
  }
  if c.default {
    for (n, p) in &post {
      match (begin.get(n), end.get(n)) {
        (Some(b), Some(e)) if b > p && e < &posted[n] && l[*b].t == l[*p].t => {}
        _ => return Some(format!("the default scheduler does not run task {} inside post", n)),
      }
    }
    return None;
  }
  // one at a time, on one thread, which is not a poster's
  for (i, n) in &begins {
    for (m, e) in &end {
      if m != n && begin[m] < *i && e > i {
        return Some(format!("task {} begins while task {} is in progress", n, m));
      }
    }
  }
  let ts: Vec<usize> = begins.iter().map(|x| l[x.0].t).collect();
  if ts.windows(2).any(|w| w[0] != w[1]) {
    return Some(format!("tasks run on several threads: {:?}", ts));
  }
  if let Some(w) = ts.first() {
    for (n, p) in &post {
      let nested = begin.iter().any(|(m, b)| l[*b].t == l[*p].t && b < p && end[m] > *p && m != n);
      if l[*p].t == *w && !nested {
        return Some(format!("task {} runs on the thread that posted it", n));
      }
    }
  }
  for (a, pa) in &posted {
    for (b, pb) in &post {
      if a != b && pa < pb {
        if let Some(bb) = begin.get(b) {
          match begin.get(a) {
            Some(ba) if ba < bb => {}
            None if first_abort.map(|x| x < *bb).unwrap_or(false) => {}
            _ => return Some(format!("task {} runs before task {}, which had been posted earlier", b, a)),
          }
        }
      }
    }
  }
  match first_abort {
    None => {
      for n in post.keys() {
        if !begin.contains_key(n) {
          return Some(format!("task {} is never run although nothing was aborted", n));
        }
      }
    }
    Some(f) => {
      // what was posted and followed by rest before any abort has been run
      for (n, p) in &posted {
        if c.slow == 0 && *p < f && !begin.contains_key(n) && log::mine(l, "rested").iter().any(|(i, _)| *i > *p && *i < f) {
          return Some(format!("task {} has not been run although all was at rest before the abort", n));
        }
      }
    }
  }
  if let Some(e) = aborted {
    let busy = begins.iter().any(|(i, n)| *i < e && end[n] > e);
    let later: Vec<i64> = begins.iter().filter(|x| x.0 > e).map(|x| x.1).collect();
    // one that had been taken already may still begin
    if later.len() > !busy as usize {
      return Some(format!("tasks {:?} begin after abort has returned", later));
    }
    for n in &later {
      if post[n] > e {
        return Some(format!("task {}, posted after abort had returned, runs", n));
      }
    }
    if live > 0 {
      return Some("the worker thread is still there after abort".into());
    }
  }
  None
}
fn scen_s(cfg: &Config, c: SC) -> Scen {
  let w = c.threads.iter().map(|t| t.len() as u32 * 3 + 4).sum::<u32>() + c.inside.iter().map(|t| t.len() as u32 * 2).sum::<u32>();
  let mut s = scen(c.show(), cfg.clone(), move || {
    let (l, live) = if c.default {
      srun(schedulers::default_scheduler()(), &c)
    } else {
      srun(schedulers::new_thread_scheduler()(), &c)
    };
    if let Some(m) = j_sched(&c, &l, live) {
      verdict(m);
    }
  });
  s.weight = w;
  s
}

pub fn c08(ctx: &Ctx) {
  let cfg = Config { bound: ctx.pick(4, 6), spurious: true, ..Config::default() };
  let lo = Config { bound: ctx.pick(3, 4), spurious: true, ..Config::default() };
  let mut scens = vec![];
  use P::*;
  let mains = gen::seqs(&[Post, Abort], ctx.pick(3, 4));
  let others: Vec<Vec<P>> = vec![vec![], vec![Post], vec![Abort], vec![Post, Post], vec![Abort, Post], vec![Post, Abort]];
  let insides: Vec<Vec<Vec<P>>> = vec![
    vec![],
    vec![vec![Post]],
    vec![vec![Abort]],
    vec![vec![Post, Abort]],
    vec![vec![Abort, Post]],
    vec![vec![], vec![Abort]],
    vec![vec![Post, Post], vec![Post]],
    vec![vec![Abort, Abort]],
  ];
  let posts = |v: &Vec<P>| v.iter().filter(|p| **p == Post).count();
  for m in &mains {
    for o in &others {
      for ins in &insides {
        if posts(m) + posts(o) <= ins.iter().rposition(|x| !x.is_empty()).unwrap_or(0) {
          if !(ins.is_empty()) {
            continue;
          }
        }
        let mut th = vec![m.clone()];
        if !o.is_empty() {
          th.push(o.clone());
        }
        let c = SC { threads: th, inside: ins.clone(), slow: 0, default: false };
        scens.push(scen_s(if o.is_empty() { &cfg } else { &lo }, c));
      }
    }
  }
  // tasks that take time, and a poster that waits in between
  for m in [
    vec![Post, Sleep(5), Post],
    vec![Post, Rest, Post],
    vec![Post, Rest, Abort],
    vec![Post, Post, Sleep(5), Abort],
    vec![Post, Post, Sleep(15), Abort, Post],
    vec![Rest, Post, Post],
    vec![Rest, Abort],
    vec![Post, Sleep(5), Abort, Sleep(20), Post],
    vec![Post, Sleep(10), Post, Sleep(10), Abort],
  ] {
    for o in [vec![], vec![Post], vec![Sleep(5), Post], vec![Sleep(5), Abort], vec![Sleep(10), Post, Abort]] {
      for slow in [0, 10] {
        for ins in [vec![], vec![vec![Post]], vec![vec![Abort]]] {
          let mut th = vec![m.clone()];
          if !o.is_empty() {
            th.push(o.clone());
          }
          scens.push(scen_s(&lo, SC { threads: th, inside: ins, slow, default: false }));
        }
      }
    }
  }
  // three threads
  let few: Vec<Vec<P>> = gen::seqs(&[Post, Abort], 2).into_iter().filter(|s| !s.is_empty()).collect();
  let mut trios = vec![];
  for (i, a) in few.iter().enumerate() {
    for (j, b) in few.iter().enumerate() {
      for (k, c) in few.iter().enumerate() {
        // the last two are interchangeable
        if j <= k && (!ctx.quick() || a.len() + b.len() + c.len() <= 5 || i + j == k) {
          trios.push((a.clone(), b.clone(), c.clone()));
        }
      }
    }
  }
  for (a, b, c) in trios {
    for ins in [vec![], vec![vec![Post]], vec![vec![Abort]]] {
      scens.push(scen_s(&lo, SC { threads: vec![a.clone(), b.clone(), c.clone()], inside: ins, slow: 0, default: false }));
    }
  }
  // deeper queues
  for n in 3..=ctx.pick(5, 7) {
    for k in 0..=n {
      let mut m = vec![Post; n];
      m.insert(k, Abort);
      scens.push(scen_s(&cfg, SC { threads: vec![m], inside: vec![], slow: 0, default: false }));
    }
    scens.push(scen_s(&cfg, SC { threads: vec![vec![Post; n]], inside: vec![], slow: 0, default: false }));
  }
  // queues far deeper, few deviations
  let one = Config { bound: 1, spurious: true, max_steps: 4_000_000, ..Config::default() };
  let mut add = |threads: Vec<Vec<P>>, inside: Vec<Vec<P>>, slow: u64| scens.push(scen_s(&one, SC { threads, inside, slow, default: false }));
  for &n in ctx.pick(&[9usize, 17, 33, 65, 129][..], &[8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 257]) {
    add(vec![vec![Post; n]], vec![], 0);
    for k in [0, 1, n / 2, n - 1] {
      let mut m = vec![Post; n];
      m.insert(k, Abort);
      add(vec![m.clone()], vec![], 0);
      m[k] = Rest;
      m.push(Abort);
      add(vec![m], vec![], 0);
      // the k-th task aborts, or posts some more
      let mut ins = vec![vec![]; k];
      ins.push(vec![Abort]);
      add(vec![vec![Post; n]], ins.clone(), 0);
      ins[k] = vec![Post; 3];
      add(vec![vec![Post; n]], ins, 0);
    }
    // each posts the next
    add(vec![vec![Post]], vec![vec![Post]; n], 0);
    add(vec![vec![Post, Post]], vec![vec![Post]; n], 0);
    // one posts all the others
    add(vec![vec![Post]], vec![vec![Post; n]], 0);
    // a queue that fills while a task takes its time
    add(vec![vec![Post; n]], vec![], 10);
    let mut m = vec![Post; n];
    m.extend([Sleep(35), Abort, Post]);
    add(vec![m], vec![], 10);
    if n < 34 || !ctx.quick() {
      add(vec![vec![Post; n], vec![Post; n]], vec![], 0);
      add(vec![vec![Post; n], vec![Post, Abort]], vec![], 0);
      // an idle worker, woken over and over
      add(vec![[Post, Rest].repeat(n)], vec![], 0);
      add(vec![[Post, Sleep(20)].repeat(n), vec![Post; 2]], vec![], 10);
    }
  }
  for k in 4..=ctx.pick(4, 5) {
    add(vec![vec![Post, Post]; k], vec![], 0);
    let mut t = vec![vec![Post]; k];
    t[1].push(Abort);
    add(t, vec![], 0);
  }
  // the default scheduler
  for m in gen::seqs(&[Post, Abort], 3) {
    for ins in &insides {
      scens.push(scen_s(&lo, SC { threads: vec![m.clone(), vec![Post]], inside: ins.clone(), slow: 0, default: true }));
    }
  }
  explore_all(ctx, scens, &any);
  ctx.assume("a task counts as taken from the queue at the latest when it begins; one task taken before abort returned may begin after it");
}

// ---------------------------------------------------------------- C09

fn swap_nt(n: &N) -> N {
  match n {
    N::U(Op::ObserveOnNt, m) => swap_nt(m).u(Op::ObserveOn),
    N::U(Op::SubscribeOnNt, m) => swap_nt(m).u(Op::SubscribeOn),
    N::U(op, m) => swap_nt(m).u(op.clone()),
    N::C(c, ns) => N::C(*c, ns.iter().map(swap_nt).collect()),
    n => n.clone(),
  }
}
thread_local! {
  static REF: std::cell::RefCell<HashMap<String, Vec<Ev>>> = Default::default();
}
/// what the same pipeline delivers without threads, given what its sources did emit
fn expected(cc: &CC, l: &[R]) -> Vec<Ev> {
  let hot: Vec<Step> = l
    .iter()
    .filter_map(|r| match r.k {
      K::Em(k, e) if matches!(cc.leaves[k], Leaf::Hot | Leaf::HotSubject) => Some(Step::Emit(k, e)),
      _ => None,
    })
    .collect();
  let ls = cc
    .leaves
    .iter()
    .map(|x| match x {
      Leaf::Thread(s) => Leaf::Cold { scripts: vec![s.clone()], polite: false },
      Leaf::Timed(s) => Leaf::Cold { scripts: vec![s.iter().map(|x| x.1).collect()], polite: false },
      x => x.clone(),
    })
    .collect();
  let case = Rc::new(Case::new(swap_nt(&unpull(&cc.prog)), ls, hot));
  let key = case.show();
  if let Some(v) = REF.with(|r| r.borrow().get(&key).cloned()) {
    return v;
  }
  let out = refi::run_ref(&case, 0);
  let v: Vec<Ev> = out.recs[0].iter().map(|x| x.1).collect();
  REF.with(|r| {
    let mut r = r.borrow_mut();
    if r.len() > 1000 {
      r.clear();
    }
    r.insert(key, v.clone());
  });
  v
}
fn unpull(n: &N) -> N {
  match n {
    N::Pulled(_, xs) => N::Iter(xs.clone()),
    N::U(op, m) => unpull(m).u(op.clone()),
    N::C(c, ns) => N::C(*c, ns.iter().map(unpull).collect()),
    n => n.clone(),
  }
}
fn emitters(l: &[R]) -> Vec<usize> {
  l.iter().filter(|r| matches!(r.k, K::Em(..) | K::M("pulled", _))).map(|r| r.t).collect()
}
/// all callbacks of a subscriber on one thread, which is no emitter's, one at a time
fn one_worker(l: &[R], who: usize) -> Option<String> {
  let c = log::cbs(l, who);
  let em = emitters(l);
  for (i, ev) in &c {
    let t = l[*i].t;
    if t == 0 || em.contains(&t) {
      return Some(format!("{} is delivered on thread {}, where the source emits", show(ev), t));
    }
    if t != l[c[0].0].t {
      return Some(format!("callbacks run on threads {} and {}", l[c[0].0].t, t));
    }
  }
  overlap(l, who)
}
fn overlap(l: &[R], who: usize) -> Option<String> {
  let c = log::cbs(l, who);
  for (k, (i, _)) in c.iter().enumerate() {
    if let Some((j, ev)) = c.get(k + 1) {
      match log::cb_end(l, *i) {
        Some(e) if e < *j => {}
        _ => return Some(format!("the callback for {} begins while the one before is running", show(ev))),
      }
    }
  }
  None
}
fn j_same(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  let e = expected(cc, &r.log);
  if g != e {
    return Some(format!("delivered {}, the source's events make {}", show_evs(&g), show_evs(&e)));
  }
  None
}
fn j_obs(cc: &CC, r: &Res) -> Option<String> {
  j_same(cc, r).or_else(|| one_worker(&r.log, 0))
}
fn j_obs2(cc: &CC, r: &Res) -> Option<String> {
  j_obs(cc, r).or_else(|| {
    let (a, b) = (log::got(&r.log, 0), log::got(&r.log, 1));
    if a != b {
      return Some(format!("the second subscriber gets {} instead of {}", show_evs(&b), show_evs(&a)));
    }
    one_worker(&r.log, 1)
  })
}
/// several producers: everything, per producer in order, on one worker
fn j_obs_union(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  if let Some(m) = one_complete(&g) {
    return Some(m);
  }
  for k in 0..cc.leaves.len() {
    let s = items(&r.log, k);
    let h: Vec<i64> = nexts(&g).into_iter().filter(|x| s.contains(x)).collect();
    if h != s {
      return Some(format!("source s{} emitted {:?}, delivered of it was {:?}", k, s, h));
    }
  }
  one_worker(&r.log, 0)
}
fn worker_not_main(l: &[R], who: usize) -> Option<String> {
  let mut ts: Vec<usize> = log::cbs(l, who).iter().map(|x| l[x.0].t).collect();
  ts.dedup();
  if ts.len() > 1 || ts.contains(&0) {
    return Some(format!("callbacks run on threads {:?}", ts));
  }
  overlap(l, who)
}
/// the source's subscription and its emissions are on one worker, not the main thread
fn j_son(cc: &CC, r: &Res) -> Option<String> {
  if let Some(m) = j_same(cc, r) {
    return Some(m);
  }
  let mut ts: Vec<usize> = log::mine(&r.log, "subscribed").iter().map(|x| r.log[x.0].t).collect();
  ts.extend(r.log.iter().filter(|x| matches!(x.k, K::M("pulled", _))).map(|x| x.t));
  ts.dedup();
  if ts.contains(&0) || ts.len() > 1 {
    return Some(format!("the source is subscribed (or pulled) on threads {:?}", ts));
  }
  worker_not_main(&r.log, 0)
}
/// the same, where some operator in between moves callbacks elsewhere
fn j_son_obs(cc: &CC, r: &Res) -> Option<String> {
  if let Some(m) = j_same(cc, r) {
    return Some(m);
  }
  let ts: Vec<usize> = log::mine(&r.log, "subscribed").iter().map(|x| r.log[x.0].t).collect();
  if ts.contains(&0) {
    return Some("the source is subscribed on the main thread".into());
  }
  one_worker(&r.log, 0)
}
/// a hot source that emits while the worker is still subscribing: a gap-free end
fn j_son_hot(_: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  let sub = log::find(&r.log, "registered", 0)?;
  let all: Vec<(usize, Ev)> = r.log.iter().enumerate().filter_map(|(i, x)| if let K::Em(0, e) = x.k { Some((i, e)) } else { None }).collect();
  let evs: Vec<Ev> = all.iter().map(|x| x.1).collect();
  let must: Vec<Ev> = all.iter().filter(|x| x.0 > sub).map(|x| x.1).collect();
  if !evs.ends_with(&g) || g.len() < must.len() {
    return Some(format!("source emitted {}, {} of it after the subscription, delivered was {}", show_evs(&evs), must.len(), show_evs(&g)));
  }
  None
}
fn j_unsub(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  let e = expected(cc, &r.log);
  if !e.starts_with(&g) {
    return Some(format!("delivered {}, which is no prefix of {}", show_evs(&g), show_evs(&e)));
  }
  after_unsub(&cc.prog, &r.log, 0).or_else(|| overlap(&r.log, 0))
}

pub fn c09(ctx: &Ctx) {
  let hi = Config { bound: ctx.pick(3, 4), ..Config::default() };
  let lo = Config { bound: ctx.pick(2, 3), ..Config::default() };
  let min = Config { bound: ctx.pick(1, 2), ..Config::default() };
  let mut scens = vec![];
  let n = Ev::Next;
  let scripts: Vec<Vec<Ev>> = vec![
    vec![n(1), n(2), Ev::Done],
    vec![n(1), n(2), Ev::Err(3)],
    vec![Ev::Done],
    vec![Ev::Err(3)],
    vec![n(1), n(2)],
    vec![n(1), n(2), n(3), n(4), Ev::Done],
    vec![n(1)],
    vec![],
  ];
  let on = || src(0).u(Op::ObserveOnNt);
  // the plain operator, every way of feeding it
  for s in &scripts {
    for leaf in [Leaf::Hot, Leaf::HotSubject] {
      scens.push(scen_cc(&hi, CC::new(on(), vec![leaf.clone()], vec![em(0, s)]), j_obs));
      scens.push(scen_cc(&lo, CC::new(on(), vec![leaf.clone()], vec![vec![], em(0, s)]), j_obs));
      let mut c = CC::new(on(), vec![leaf.clone()], vec![em(0, s)]);
      c.pre = vec![A::Sub(0), A::Sub(1)];
      scens.push(scen_cc(&lo, c, j_obs2));
      // the terminal from another thread than the items
      if s.len() > 1 {
        let mut c = CC::new(on(), vec![leaf.clone()], vec![em(0, &s[..s.len() - 1])]);
        c.post = em(0, &s[s.len() - 1..]);
        scens.push(scen_cc(&hi, c, j_obs));
      }
    }
    for polite in [true, false] {
      scens.push(scen_cc(&hi, CC::new(on(), vec![Leaf::Cold { scripts: vec![s.clone()], polite }], vec![]), j_obs));
    }
    scens.push(scen_cc(&lo, CC::new(on(), vec![Leaf::Thread(s.clone())], vec![]), j_obs));
    // callbacks that take longer than the source
    for slow in [5, 20] {
      let l = Leaf::Timed(s.iter().map(|e| (10, *e)).collect());
      let mut c = CC::new(on(), vec![l], vec![]);
      c.slow = slow;
      c.post = vec![A::Sleep(500)];
      scens.push(scen_cc(&lo, c, j_obs));
      let mut c = CC::new(on(), leaves(1), vec![em(0, s)]);
      c.slow = slow;
      c.post = vec![A::Sleep(500)];
      scens.push(scen_cc(&hi, c, j_obs));
    }
    // one after the other
    for p in [on().u(Op::ObserveOnNt), on().u(Op::Map(0)).u(Op::ObserveOnNt), on().u(Op::ObserveOnNt).u(Op::ObserveOnNt)] {
      let k = if p == on().u(Op::ObserveOnNt).u(Op::ObserveOnNt) { &min } else { &lo };
      scens.push(scen_cc(k, CC::new(p, leaves(1), vec![em(0, s)]), j_obs));
    }
  }
  for n in 5..=ctx.pick(6, 9) {
    let mut s: Vec<Ev> = (0..n).map(Ev::Next).collect();
    s.push(Ev::Done);
    scens.push(scen_cc(&lo, CC::new(on(), leaves(1), vec![em(0, &s)]), j_obs));
  }
  // far more of them, few deviations
  let one = Config { bound: 1, max_steps: 4_000_000, ..Config::default() };
  for &k in ctx.pick(&[9i64, 17, 33, 65][..], &[8, 9, 16, 17, 32, 33, 64, 65, 100, 129]) {
    for t in [Some(Ev::Done), Some(Ev::Err(3)), None] {
      let s: Vec<Ev> = (0..k).map(Ev::Next).chain(t).collect();
      scens.push(scen_cc(&one, CC::new(on(), leaves(1), vec![em(0, &s)]), j_obs));
      scens.push(scen_cc(&one, CC::new(on(), vec![Leaf::Thread(s.clone())], vec![]), j_obs));
      let cold = vec![Leaf::Cold { scripts: vec![s.clone()], polite: true }];
      scens.push(scen_cc(&one, CC::new(on(), cold.clone(), vec![]), j_obs));
      scens.push(scen_cc(&one, CC::new(src(0).u(Op::SubscribeOnNt), cold.clone(), vec![]), j_son));
      scens.push(scen_cc(&one, CC::new(on().u(Op::Map(0)).u(Op::ObserveOnNt), leaves(1), vec![em(0, &s)]), j_obs));
      scens.push(scen_cc(&one, CC::new(src(0).u(Op::SubscribeOnNt).u(Op::ObserveOnNt), cold, vec![]), j_son_obs));
      let mut c = CC::new(on(), leaves(1), vec![em(0, &s)]);
      c.slow = 20;
      c.post = vec![A::Sleep(20 * (k as u64 + 2))];
      scens.push(scen_cc(&one, c, j_obs));
      let mut m = em(0, &s);
      m.insert(k as usize / 2, A::Unsub(0));
      scens.push(scen_cc(&one, CC::new(on(), leaves(1), vec![m]), j_unsub));
      let mut c = CC::new(on(), leaves(1), vec![em(0, &s)]);
      c.react = vec![(0, k as usize / 2, A::Unsub(0))];
      scens.push(scen_cc(&one, c, j_unsub));
    }
    let sc = |p: i64| -> Vec<Ev> { (0..k).map(|i| n(p * 1000 + i)).chain([Ev::Done]).collect() };
    let p = co(Co::Merge, vec![src(0), src(1)]).u(Op::ObserveOnNt);
    scens.push(scen_cc(&one, CC::new(p, leaves(2), vec![em(0, &sc(1)), em(1, &sc(2))]), j_obs_union));
    scens.push(scen_cc(&one, CC::new(N::Pulled(0, (0..k).collect()).u(Op::SubscribeOnNt), vec![], vec![]), j_son));
  }
  // several subscribers, several workers in a row
  for k in ctx.pick(3..=4usize, 3..=5) {
    let s = &scripts[0];
    let mut c = CC::new(on(), leaves(1), vec![em(0, s)]);
    c.pre = (0..k).map(A::Sub).collect();
    scens.push(scen_cc(&one, c, j_obs2));
    let mut p = on();
    for _ in 1..k {
      p = p.u(Op::ObserveOnNt);
    }
    scens.push(scen_cc(&one, CC::new(p, leaves(1), vec![em(0, s)]), j_obs));
    let mut p = src(0);
    for _ in 0..k {
      p = p.u(Op::SubscribeOnNt);
    }
    scens.push(scen_cc(&one, CC::new(p, vec![Leaf::Cold { scripts: vec![s.clone()], polite: true }], vec![]), j_son));
  }
  // operators before and after it
  let pass = |o: &Op| !matches!(o, Op::StartWith(_) | Op::Tap);
  for op in gen::ops_rep() {
    for s in scripts.iter().take(4) {
      if op != Op::Tap {
        scens.push(scen_cc(&lo, CC::new(src(0).u(op.clone()).u(Op::ObserveOnNt), leaves(1), vec![em(0, s)]), j_obs));
      }
      if pass(&op) {
        scens.push(scen_cc(&lo, CC::new(on().u(op.clone()), leaves(1), vec![em(0, s)]), j_obs));
        scens.push(scen_cc(&min, CC::new(on().u(op.clone()).u(Op::ObserveOnNt), leaves(1), vec![em(0, s)]), j_obs));
      }
    }
  }
  if !ctx.quick() {
    for a in gen::ops_rep() {
      for b in gen::ops_rep() {
        if pass(&a) && pass(&b) {
          let s = &scripts[0];
          scens.push(scen_cc(&min, CC::new(src(0).u(a.clone()).u(Op::ObserveOnNt).u(b.clone()), leaves(1), vec![em(0, s)]), j_obs));
        }
      }
    }
  }
  for op in [Op::RefCount, Op::Replay, Op::Retry(1), Op::OnErr(vec![N::Iter(vec![6, 7])])] {
    for s in scripts.iter().take(4) {
      scens.push(scen_cc(&lo, CC::new(on().u(op.clone()), leaves(1), vec![em(0, s)]), j_obs));
      scens.push(scen_cc(&lo, CC::new(src(0).u(op.clone()).u(Op::ObserveOnNt), leaves(1), vec![em(0, s)]), j_obs));
    }
  }
  // attempts on fresh workers
  for rs in [vec![vec![n(1), Ev::Err(1)], vec![n(2), n(3), Ev::Done]], vec![vec![Ev::Err(1)], vec![n(2), Ev::Err(2)]], vec![vec![n(1), Ev::Err(1)], vec![Ev::Done]]] {
    let l = vec![Leaf::Cold { scripts: rs, polite: true }];
    scens.push(scen_cc(&lo, CC::new(on().u(Op::Retry(2)), l.clone(), vec![]), j_same));
    scens.push(scen_cc(&lo, CC::new(src(0).u(Op::Retry(2)).u(Op::ObserveOnNt), l.clone(), vec![]), j_obs));
    scens.push(scen_cc(&lo, CC::new(src(0).u(Op::SubscribeOnNt).u(Op::Retry(2)), l, vec![]), j_same));
  }
  // several producers
  for (x, y) in [(1, 1), (2, 1), (2, 2), (0, 1)] {
    let sc = |k: i64, m: i64| -> Vec<Ev> { (0..m).map(|i| n(k * 100 + i)).chain([Ev::Done]).collect() };
    let p = co(Co::Merge, vec![src(0), src(1)]).u(Op::ObserveOnNt);
    scens.push(scen_cc(&lo, CC::new(p.clone(), leaves(2), vec![em(0, &sc(1, x)), em(1, &sc(2, y))]), j_obs_union));
    let mut c = CC::new(on(), vec![Leaf::HotSubject], vec![em(0, &sc(1, x)[..x as usize]), em(0, &sc(2, y)[..y as usize])]);
    c.post = em(0, &[Ev::Done]);
    scens.push(scen_cc(&lo, c, j_obs_one_subject));
    let q = co(Co::Merge, vec![src(0).u(Op::ObserveOnNt), src(1).u(Op::ObserveOnNt)]);
    scens.push(scen_cc(&min, CC::new(q, leaves(2), vec![[em(0, &sc(1, x)), em(1, &sc(2, y))].concat()]), j_union_any));
  }
  // unsubscribing
  for s in [&scripts[0], &scripts[1], &scripts[5]] {
    for p in [on(), on().u(Op::Map(0)), src(0).u(Op::Scan(0)).u(Op::ObserveOnNt), on().u(Op::ObserveOnNt), on().u(Op::Last), on().u(Op::Take(1))] {
      let k = if s.len() > 3 { &min } else { &lo };
      for i in 0..=s.len() {
        // in the middle of what the main thread does
        let mut m = em(0, s);
        m.insert(i, A::Unsub(0));
        scens.push(scen_cc(&lo, CC::new(p.clone(), leaves(1), vec![m]), j_unsub));
      }
      scens.push(scen_cc(k, CC::new(p.clone(), leaves(1), vec![vec![A::Unsub(0)], em(0, s)]), j_unsub));
      scens.push(scen_cc(k, CC::new(p.clone(), leaves(1), vec![em(0, s), vec![A::Unsub(0)]]), j_unsub));
      for nth in 1..=2 {
        let mut c = CC::new(p.clone(), leaves(1), vec![em(0, s)]);
        c.react = vec![(0, nth, A::Unsub(0))];
        scens.push(scen_cc(k, c, j_unsub));
      }
      let mut c = CC::new(p.clone(), leaves(1), vec![vec![A::Sleep(15), A::Unsub(0), A::Emit(0, n(9))], em(0, s)]);
      c.slow = 10;
      c.post = vec![A::Sleep(500)];
      scens.push(scen_cc(&min, c, j_unsub));
    }
  }
  // subscribe_on
  let iters: Vec<Vec<i64>> = vec![vec![], vec![1], vec![1, 2], vec![1, 2, 3]];
  for xs in &iters {
    let p = N::Pulled(0, xs.clone());
    scens.push(scen_cc(&hi, CC::new(p.clone().u(Op::SubscribeOnNt), vec![], vec![]), j_son));
    scens.push(scen_cc(&lo, CC::new(p.clone().u(Op::ObserveOnNt), vec![], vec![]), j_obs));
    scens.push(scen_cc(&lo, CC::new(p.clone().u(Op::SubscribeOnNt).u(Op::ObserveOnNt), vec![], vec![]), j_son_obs));
    scens.push(scen_cc(&lo, CC::new(p.clone().u(Op::SubscribeOnNt).u(Op::SubscribeOnNt), vec![], vec![]), j_son));
    for op in gen::ops_rep() {
      if op != Op::Tap && !matches!(op, Op::StartWith(_)) {
        scens.push(scen_cc(&min, CC::new(p.clone().u(op.clone()).u(Op::SubscribeOnNt), vec![], vec![]), j_son));
        scens.push(scen_cc(&min, CC::new(p.clone().u(Op::SubscribeOnNt).u(op.clone()), vec![], vec![]), j_son));
      }
    }
  }
  for s in &scripts {
    let p = src(0).u(Op::SubscribeOnNt);
    for polite in [true, false] {
      let l = vec![Leaf::Cold { scripts: vec![s.clone()], polite }];
      scens.push(scen_cc(&hi, CC::new(p.clone(), l.clone(), vec![]), j_son));
      let mut c = CC::new(p.clone(), l.clone(), vec![]);
      c.pre.push(A::Sub(1));
      scens.push(scen_cc(&lo, c, j_son2));
      scens.push(scen_cc(&lo, CC::new(p.clone().u(Op::ObserveOnNt), l.clone(), vec![]), j_son_obs));
      scens.push(scen_cc(&lo, CC::new(src(0).u(Op::ObserveOnNt).u(Op::SubscribeOnNt), l.clone(), vec![]), j_son_obs));
      let mut c = CC::new(p.clone(), l.clone(), vec![]);
      c.slow = 10;
      c.post = vec![A::Sleep(500)];
      scens.push(scen_cc(&lo, c, j_son));
      // unsubscribing meanwhile
      scens.push(scen_cc(&hi, CC::new(p.clone(), l.clone(), vec![vec![A::Unsub(0)]]), j_unsub));
      scens.push(scen_cc(&lo, CC::new(p.clone().u(Op::Map(0)), l.clone(), vec![vec![A::Unsub(0)]]), j_unsub));
      let mut c = CC::new(p.clone(), l.clone(), vec![]);
      c.react = vec![(0, 1, A::Unsub(0))];
      scens.push(scen_cc(&lo, c, j_unsub));
    }
    // a hot source, subscribed by the worker while it emits
    scens.push(scen_cc(&lo, CC::new(p.clone(), leaves(1), vec![em(0, s)]), j_son_hot));
    // and one that emits once the worker is done subscribing
    let mut c = CC::new(p.clone(), leaves(1), vec![]);
    c.post = em(0, s);
    scens.push(scen_cc(&lo, c, j_same));
  }
  let l = vec![Leaf::Endless];
  scens.push(scen_cc(&lo, CC::new(src(0).u(Op::SubscribeOnNt).u(Op::Take(3)), l.clone(), vec![]), j_son));
  scens.push(scen_cc(&lo, CC::new(src(0).u(Op::Take(3)).u(Op::SubscribeOnNt), l.clone(), vec![]), j_son));
  explore_all(ctx, scens, &any);
}
fn j_son2(cc: &CC, r: &Res) -> Option<String> {
  if let Some(m) = j_same(cc, r) {
    return Some(m);
  }
  let (a, b) = (log::got(&r.log, 0), log::got(&r.log, 1));
  if a != b {
    return Some(format!("the second subscriber gets {} instead of {}", show_evs(&b), show_evs(&a)));
  }
  worker_not_main(&r.log, 0).or_else(|| worker_not_main(&r.log, 1))
}
fn j_obs_one_subject(_: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  if let Some(m) = one_complete(&g) {
    return Some(m);
  }
  let sent = items(&r.log, 0);
  for k in [1, 2] {
    let f = |xs: Vec<i64>| xs.into_iter().filter(|x| x / 100 == k).collect::<Vec<_>>();
    if f(sent.clone()) != f(nexts(&g)) {
      return Some(format!("{:?} was emitted, {} delivered", sent, show_evs(&g)));
    }
  }
  one_worker(&r.log, 0)
}
fn j_union_any(cc: &CC, r: &Res) -> Option<String> {
  let g = log::got(&r.log, 0);
  if let Some(m) = one_complete(&g) {
    return Some(m);
  }
  for k in 0..cc.leaves.len() {
    let s = items(&r.log, k);
    let h: Vec<i64> = nexts(&g).into_iter().filter(|x| s.contains(x)).collect();
    if h != s {
      return Some(format!("source s{} emitted {:?}, delivered of it was {:?}", k, s, h));
    }
  }
  None
}

// ---------------------------------------------------------------- C15

/// the timer periods of a pipeline
fn periods(n: &N) -> u64 {
  let mut p = 0;
  n.walk(&mut |n| match n {
    N::Interval(d) | N::Timer(d) => p += d,
    N::U(Op::DelayMs(d) | Op::DebounceMs(d) | Op::TimeoutMs(d), _) => p += d,
    _ => {}
  });
  p
}
/// when all subscriptions have ended, and one period has gone by, no thread is left
fn j_gone(cc: &CC, r: &Res) -> Option<String> {
  let l = &r.log;
  let mut end = 0;
  let mut n = 0;
  for w in 0..100 {
    if log::find(l, "sub starts", w).is_none() {
      continue;
    }
    n += 1;
    let t = log::cbs(l, w as usize).iter().find(|x| x.1.terminal()).map(|x| l[x.0].at);
    let u = log::find(l, "unsub returned", w).map(|i| l[i].at);
    match t.into_iter().chain(u).min() {
      Some(x) => end = end.max(x),
      None => return Some(format!("(the scenario does not end subscription {})", w)),
    }
  }
  let last_sub = log::mine(l, "sub returned").last().map(|x| l[x.0].at).unwrap_or(0);
  let due = end.max(last_sub) + (periods(&cc.prog) + cc.slow) * 1_000_000;
  for (i, live) in log::mine(l, "live") {
    if l[i].at >= due && live > 0 {
      return Some(format!(
        "{} thread(s) still there {}ms after the end of {} subscription(s), a period is {}ms",
        live,
        (l[i].at - end) / 1_000_000,
        n,
        periods(&cc.prog)
      ));
    }
  }
  if r.live > 0 {
    return Some(format!("{} thread(s) left over", r.live));
  }
  None
}

pub fn c15(ctx: &Ctx) {
  let hi = Config { bound: ctx.pick(2, 3), ..Config::default() };
  let lo = Config { bound: ctx.pick(1, 2), ..Config::default() };
  let zero = Config { bound: ctx.pick(0, 1), ..Config::default() };
  let mut scens = vec![];
  let n = Ev::Next;
  let iv = || N::Interval(10);
  // sources that start threads, and operators that do
  let ops = [Op::ObserveOnNt, Op::SubscribeOnNt, Op::DebounceMs(7), Op::TimeoutMs(13), Op::DelayMs(3)];
  let mut progs: Vec<N> = vec![iv(), N::Timer(10)];
  for op in &ops {
    progs.push(src(0).u(op.clone()));
  }
  for a in &ops {
    for b in &ops {
      progs.push(src(0).u(a.clone()).u(b.clone()));
    }
    progs.push(iv().u(a.clone()));
    progs.push(N::Timer(10).u(a.clone()));
    progs.push(src(0).u(a.clone()).u(Op::Map(0)));
    progs.push(src(0).u(a.clone()).u(Op::RefCount));
    progs.push(src(0).u(a.clone()).u(Op::Replay));
    progs.push(src(0).u(Op::Map(0)).u(a.clone()));
    progs.push(src(0).u(a.clone()).u(Op::Retry(2)));
    progs.push(src(0).u(Op::FlatMap(vec![N::Just(1).u(a.clone())])));
  }
  progs.push(iv().u(Op::RefCount));
  progs.push(iv().u(Op::Replay));
  progs.push(src(0).u(Op::FlatMap(vec![iv()])));
  progs.push(src(0).u(Op::FlatMap(vec![N::Timer(10)])));
  progs.push(iv().u(Op::FlatMap(vec![N::Timer(7)])));
  progs.push(src(0).u(Op::OnErr(vec![iv()])));
  for c in [Co::Merge, Co::Zip, Co::Combine, Co::Concat, Co::Amb, Co::TakeUntil, Co::SkipUntil, Co::Sample, Co::SeqEq, Co::Switch] {
    progs.push(co(c, vec![iv(), src(0)]));
    progs.push(co(c, vec![src(0), iv()]));
    progs.push(co(c, vec![src(0).u(Op::ObserveOnNt), src(0).u(Op::ObserveOnNt)]));
    progs.push(co(c, vec![N::Timer(7), iv()]));
  }
  let evs: Vec<Vec<A>> = vec![
    vec![],
    vec![A::Emit(0, n(1)), A::Emit(0, Ev::Done)],
    vec![A::Emit(0, n(1)), A::Emit(0, Ev::Err(1))],
    vec![A::Emit(0, n(1)), A::Sleep(5), A::Emit(0, n(2)), A::Sleep(11), A::Emit(0, Ev::Done)],
    vec![A::Sleep(5), A::Emit(0, Ev::Done)],
    vec![A::Emit(0, n(1)), A::Sleep(30), A::Emit(0, n(2))],
  ];
  let (hi1, lo1) = (hi, lo);
  for (i, p) in progs.iter().enumerate() {
    // the operators by themselves go deeper
    let mut busy = 0;
    p.walk(&mut |n| busy += matches!(n, N::Interval(_) | N::Timer(_) | N::U(Op::ObserveOnNt | Op::SubscribeOnNt | Op::DebounceMs(_) | Op::TimeoutMs(_), _)) as u32);
    let more = |c: &Config| Config { bound: c.bound + (i < 7) as u32 + (busy < 2) as u32, ..c.clone() };
    let (hi, lo) = (more(&hi1), more(&lo1));
    // at most one period after it was unsubscribed, wherever that falls
    for e in &evs {
      let uses_src = {
        let mut u = false;
        p.walk(&mut |n| u |= matches!(n, N::Src(_)));
        u
      };
      if !uses_src && !e.is_empty() {
        continue;
      }
      let fast = e.iter().all(|a| matches!(a, A::Emit(..)));
      for t in if fast { vec![0, 5, 10, 15] } else { vec![5, 12] } {
        let mut c = CC::new(p.clone(), leaves(1), vec![e.clone()]);
        if t > 0 {
          c.threads[0].push(A::Sleep(t));
        }
        c.threads[0].push(A::Unsub(0));
        let d = periods(p);
        c.post = vec![A::Sleep(d), A::Sleep(3 * d + 20)];
        let cfg = if t == 0 && e.len() < 2 { &hi } else { &lo };
        scens.push(scen_cc(cfg, c.clone(), j_gone));
        // from another thread than the one that emits
        if !e.is_empty() && t > 0 && fast {
          c.threads = vec![vec![A::Sleep(t), A::Unsub(0)], e.clone()];
          scens.push(scen_cc(&lo, c, j_gone));
        }
      }
      // ended by what is downstream
      for op in [Op::Take(1), Op::First, Op::Take(2)] {
        let mut c = CC::new(p.clone().u(op.clone()), leaves(1), vec![e.clone()]);
        let d = periods(p);
        c.threads[0].push(A::Sleep(35));
        c.threads[0].push(A::Unsub(0));
        c.post = vec![A::Sleep(d), A::Sleep(3 * d + 20)];
        scens.push(scen_cc(&lo, c, j_gone));
      }
      // from within its own callback
      let mut c = CC::new(p.clone(), leaves(1), vec![e.clone()]);
      c.react = vec![(0, 1, A::Unsub(0))];
      let d = periods(p);
      c.threads[0].push(A::Sleep(25));
      c.threads[0].push(A::Unsub(0));
      c.post = vec![A::Sleep(d), A::Sleep(3 * d + 20)];
      scens.push(scen_cc(&lo, c, j_gone));
    }
    // again and again
    let mut c = CC::new(p.clone(), leaves(1), vec![]);
    let d = periods(p);
    c.pre = vec![];
    for k in 0..3 {
      c.pre.extend([A::Sub(k), A::Emit(0, n(1)), A::Sleep(12), A::Unsub(k)]);
    }
    c.post = vec![A::Sleep(d), A::Sleep(3 * d + 20)];
    scens.push(scen_cc(&zero, c.clone(), j_gone));
    // several at once
    c.pre = vec![A::Sub(0), A::Sub(1), A::Emit(0, n(1)), A::Sleep(12), A::Unsub(1), A::Unsub(0)];
    scens.push(scen_cc(&zero, c, j_gone));
  }
  // many of everything
  let many: Vec<N> = ops.iter().map(|o| src(0).u(o.clone())).chain([iv(), iv().u(Op::RefCount), src(0).u(Op::ObserveOnNt).u(Op::RefCount), src(0).u(Op::FlatMap(vec![iv()])), src(0).u(Op::FlatMap(vec![N::Timer(10)]))]).collect();
  for p in &many {
    let d = periods(p);
    let post = |c: &mut CC| c.post = vec![A::Sleep(d), A::Sleep(3 * d + 20)];
    let flat = p.has_op(&|o| matches!(o, Op::FlatMap(_)));
    for &k in ctx.pick(&[4usize, 9, 33][..], &[4, 5, 8, 9, 16, 17, 33, 65]) {
      // one after the other, or at once
      let mut c = CC::new(p.clone(), leaves(1), vec![]);
      c.pre = (0..k).flat_map(|i| [A::Sub(i), A::Emit(0, n(1)), A::Sleep(if i % 2 == 0 { 0 } else { 12 }), A::Unsub(i)]).collect();
      post(&mut c);
      scens.push(scen_cc(&zero, c, j_gone));
      if k < 6 && !flat {
        let mut c = CC::new(p.clone(), leaves(1), vec![]);
        c.pre = (0..k).map(A::Sub).chain([A::Emit(0, n(1)), A::Sleep(12)]).chain((0..k).rev().map(A::Unsub)).collect();
        post(&mut c);
        scens.push(scen_cc(&Config { bound: 0, ..Config::default() }, c, j_gone));
      }
      // after so many items or ticks
      let mut c = CC::new(p.clone(), leaves(1), vec![]);
      let items = if flat { k.min(4) } else { k };
      c.pre = vec![A::Sub(0)];
      c.pre.extend((0..items).flat_map(|i| [A::Emit(0, n(i as i64)), A::Sleep(if flat { 1 } else if i % 3 == 2 { 9 } else { 0 })]));
      let mut c2 = c.clone();
      c.pre.extend([A::Sleep(k as u64 * 10 + 5), A::Unsub(0)]);
      post(&mut c);
      scens.push(scen_cc(&zero, c, j_gone));
      if !matches!(p, N::Interval(_)) && !p.has_op(&|o| matches!(o, Op::FlatMap(_) | Op::RefCount)) {
        for e in [Ev::Done, Ev::Err(1)] {
          let mut c = c2.clone();
          c.pre.extend([A::Emit(0, e), A::Sleep(9), A::Unsub(0)]);
          post(&mut c);
          scens.push(scen_cc(&zero, c, j_gone));
        }
      }
      // ended in a callback far into it
      c2.react = vec![(0, k / 2 + 1, A::Unsub(0))];
      c2.pre.extend([A::Sleep(k as u64 * 10 + 5), A::Unsub(0)]);
      post(&mut c2);
      scens.push(scen_cc(&zero, c2, j_gone));
    }
  }
  explore_all(ctx, scens, &any);
  ctx.assume("at most one period: of a pipeline with several timers, the sum of theirs");
}

// ---------------------------------------------------------------- C16

type Mk = Arc<dyn Fn(Ob) -> Ob + Send + Sync>;
/// microseconds
#[derive(Clone)]
struct TC {
  name: String,
  mk: Mk,
  /// the source: after so long, this
  script: Vec<(u64, Ev)>,
  unsub_at: Option<u64>,
  until: u64,
  /// how many subscribers, and how long between them
  subs: (usize, u64),
}
const US: u64 = 1_000;
struct TR {
  log: Vec<R>,
}
fn trun(c: &TC) -> TR {
  let log = log::new();
  let env = Env::with_log(&[Leaf::Hot], Some(log.clone()));
  let o = (c.mk)(build(&env, &src(0)));
  let mut hs = vec![];
  for k in 0..c.subs.0 {
    if k > 0 {
      rt::sleep(c.subs.1 * US);
    }
    log.push(K::M("sub", k as i64));
    let (l1, l2, l3) = (log.clone(), log.clone(), log.clone());
    hs.push(o.subscribe(
      move |x: Val| l1.push(K::Cb(k, Ev::Next(x.n))),
      move |e| l2.push(K::Cb(k, Ev::Err(boom_id(&e)))),
      move || l3.push(K::Cb(k, Ev::Done)),
    ));
  }
  let t0 = rt::now();
  let th = {
    let (env, script) = (env.clone(), c.script.clone());
    vstd::thread::spawn(move || {
      for (d, ev) in script {
        rt::sleep(d * US);
        hot(&env, 0, ev);
      }
    })
  };
  if let Some(u) = c.unsub_at {
    rt::sleep(u * US);
    log.push(K::M("unsub", 0));
    hs.iter().for_each(|h| h.unsubscribe());
    log.push(K::M("unsubscribed", 0));
  }
  let passed = rt::now() - t0;
  rt::sleep((c.until * US).saturating_sub(passed));
  let _ = th.join();
  rt::quiesce();
  hs.iter().for_each(|h| h.unsubscribe());
  TR { log: log.take() }
}
fn tgot(r: &TR, who: usize) -> Vec<(u64, Ev)> {
  log::cbs(&r.log, who).into_iter().map(|(i, e)| (r.log[i].at / US, e)).collect()
}
fn show_t(v: &[(u64, Ev)]) -> String {
  v.iter().map(|(t, e)| format!("{}us:{}", t, show(e))).collect::<Vec<_>>().join(" ")
}
fn tscen(cfg: &Config, c: TC, judge: impl Fn(&TC, &TR) -> Option<String> + Send + Sync + 'static) -> Scen {
  let mut name = c.name.clone();
  if !c.script.is_empty() {
    name += &format!("; source {}", c.script.iter().map(|(d, e)| format!("+{}us {}", d, show(e))).collect::<Vec<_>>().join(", "));
  }
  if let Some(u) = c.unsub_at {
    name += &format!("; unsubscribed at {}us", u);
  }
  if c.subs.0 > 1 {
    name += &format!("; {} subscribers {}us apart", c.subs.0, c.subs.1);
  }
  let w = c.script.len() as u32 + c.until as u32 / 1000;
  let mut s = scen(name, cfg.clone(), move || {
    let r = trun(&c);
    if let Some(m) = judge(&c, &r) {
      verdict(m);
    }
  });
  s.weight = w;
  s
}
/// compare what came with what had to come before the unsubscription
fn exact(c: &TC, r: &TR, k: usize, want: Vec<(u64, Ev)>) -> Option<String> {
  let g = tgot(r, k);
  let cut = |v: &[(u64, Ev)], t: u64| v.iter().filter(|x| x.0 < t).copied().collect::<Vec<_>>();
  let u = log::find(&r.log, "unsub", 0).map(|i| r.log[i].at / US);
  let u2 = log::find(&r.log, "unsubscribed", 0).map(|i| r.log[i].at / US);
  // all of them had subscribed then; an end of time that falls on an event leaves it out
  let t = u.unwrap_or(subscribed_at(r, c.subs.0 - 1) + c.until);
  let (a, b) = (cut(&g, t), cut(&want, t));
  if a != b {
    return Some(format!("subscriber {} gets {}\nexpected {}", k, show_t(&a), show_t(&b)));
  }
  if let Some(t) = u2 {
    if let Some(x) = g.iter().find(|x| x.0 > t) {
      return Some(format!("{} arrives after unsubscribe", show_t(&[*x])));
    }
  }
  None
}
fn subscribed_at(r: &TR, k: usize) -> u64 {
  r.log[log::find(&r.log, "sub", k as i64).unwrap()].at / US
}
fn ems(r: &TR) -> Vec<(u64, Ev)> {
  r.log.iter().filter_map(|x| if let K::Em(_, e) = x.k { Some((x.at / US, e)) } else { None }).collect()
}
/// timeout when the subscriber is busy for `busy` with item `slow`: the source is held up meanwhile, so its
/// next event comes after it; the time is counted from when the item came or from when it was handled
fn slow_timeout(r: &TR, d: u64, slow: i64, busy: u64) -> Option<String> {
  let mut got = tgot(r, 0);
  let e = ems(r);
  let text = || format!("emitted {}\ndelivered {}", show_t(&e), show_t(&tgot(r, 0)));
  let at = got.iter().position(|x| x.1 == Ev::Err(TIMED_OUT));
  // one that goes off while the subscriber is still at it
  if let (Some(i), Some(k)) = (at, e.iter().position(|x| x.1 == Ev::Next(slow))) {
    if (e[k].0 + d..e[k].0 + busy).contains(&got[i].0) && i + 1 >= got.len() && i >= k {
      return None;
    }
  }
  let end = got.pop_if(|x| x.1 == Ev::Err(TIMED_OUT));
  if got.len() > e.len() || got.iter().zip(&e).any(|(a, b)| a.1 != b.1) {
    return Some(format!("delivers something else\n{}", text()));
  }
  for (g, e) in got.iter().zip(&e) {
    if g.0 != e.0 + if e.1 == Ev::Next(slow) { busy } else { 0 } {
      return Some(format!("{} does not come in time\n{}", show(&e.1), text()));
    }
  }
  let Some(last) = got.last().copied() else { return (end.is_some() || !e.is_empty()).then(text) };
  if last.1.terminal() {
    return end.map(|_| format!("times out after the end\n{}", text()));
  }
  let em = e[got.len() - 1].0;
  let next = e.get(got.len()).map(|x| x.0);
  match end {
    None => Some(format!("no time-out after {}\n{}", show_t(&[last]), text())),
    Some(x) if x.0 <= em + d - 1 => Some(format!("times out within the time\n{}", text())),
    Some(x) if x.0 > last.0 + d => Some(format!("times out late\n{}", text())),
    Some(x) if next.is_some_and(|n| n < x.0) => Some(format!("an item is missing\n{}", text())),
    _ => None,
  }
}
/// only what was emitted, in that order, none twice
fn sub_order(r: &TR) -> Option<String> {
  let e: Vec<i64> = ems(r).iter().filter_map(|x| if let Ev::Next(n) = x.1 { Some(n) } else { None }).collect();
  let g: Vec<i64> = tgot(r, 0).iter().filter_map(|x| if let Ev::Next(n) = x.1 { Some(n) } else { None }).collect();
  let mut it = e.iter();
  for x in &g {
    if !it.any(|y| y == x) {
      return Some(format!("emitted {:?}, delivered {:?}: out of order, twice, or never emitted", e, g));
    }
  }
  None
}

/// only items of source 0, none twice, and in order unless several threads fire the trigger or emit items
fn j_sample(_: &CC, r: &Res) -> Option<String> {
  let e: Vec<(i64, usize)> = r.log.iter().filter_map(|x| if let K::Em(0, Ev::Next(n)) = x.k { Some((n, x.t)) } else { None }).collect();
  let g: Vec<i64> = log::got(&r.log, 0).iter().filter_map(|x| if let Ev::Next(n) = x { Some(*n) } else { None }).collect();
  for (i, x) in g.iter().enumerate() {
    if !e.iter().any(|y| y.0 == *x) {
      return Some(format!("delivers {} which the source did not emit: {:?}", x, g));
    }
    if g[..i].contains(x) {
      return Some(format!("delivers {} twice: {:?}", x, g));
    }
  }
  let mut trig: Vec<usize> = r.log.iter().filter_map(|x| if let K::Em(k, _) = x.k { (k > 0).then_some(x.t) } else { None }).collect();
  trig.sort();
  trig.dedup();
  if trig.len() < 2 && e.iter().all(|x| x.1 == e[0].1) {
    let mut it = e.iter();
    for x in &g {
      if !it.any(|y| y.0 == *x) {
        return Some(format!("emitted {:?}, delivered {:?}: out of order", e.iter().map(|x| x.0).collect::<Vec<_>>(), g));
      }
    }
  }
  None
}

pub fn c16(ctx: &Ctx) {
  let cfg = Config { bound: ctx.pick(2, 3), ..Config::default() };
  let any_time = Config { early_timers: true, bound: ctx.pick(1, 2), ..cfg.clone() };
  let mut scens = vec![];
  let us = Duration::from_micros;
  let ds: Vec<u64> = vec![1, 700, 1_500, 10_000, 1_000_000];
  let nt = || schedulers::new_thread_scheduler();
  for &d in &ds {
    // interval, with every place to unsubscribe: before, at and between ticks
    let wraps: Vec<(&str, Arc<dyn Fn(Ob) -> Ob + Send + Sync>)> = vec![
      ("", Arc::new(|o| o)),
      (".map", Arc::new(|o: Ob| o.map(|x: Val| v(x.n)))),
      (".filter", Arc::new(|o: Ob| o.filter(|_| true))),
      (".ref_count", Arc::new(|o: Ob| o.ref_count().observable())),
    ];
    for (wn, wrap) in &wraps {
      for (i, u) in [None, Some(d / 2), Some(d), Some(d + d / 2), Some(2 * d), Some(3 * d + d / 3)].into_iter().enumerate() {
        if u == Some(0) || (i > 1 && !wn.is_empty()) {
          continue;
        }
        let wrap = wrap.clone();
        let shared = *wn == ".ref_count";
        let c = TC {
          name: format!("interval({}us){}", d, wn),
          mk: Arc::new(move |_| wrap(observables::interval(us(d), nt()).map(|x: u64| v(x as i64)))),
          script: vec![],
          unsub_at: u,
          until: d * ctx.pick(12, 24) + d / 2,
          subs: (1, 0),
        };
        let j = move |c: &TC, r: &TR, k: usize| {
          let s = subscribed_at(r, k);
          exact(c, r, k, (1..40).map(|i| (s + i as u64 * d, Ev::Next(i - 1))).collect())
        };
        scens.push(tscen(&cfg, c.clone(), move |c, r| j(c, r, 0)));
        if !shared && d > 2 {
          for off in [d / 3, d] {
            let c2 = TC { subs: (2, off), ..c.clone() };
            scens.push(tscen(&cfg, c2, move |c, r| j(c, r, 0).or_else(|| j(c, r, 1))));
          }
        }
      }
    }
    for k in (1..4usize).chain([8]) {
      let c = TC {
        name: format!("interval({}us).take({})", d, k),
        mk: Arc::new(move |_| observables::interval(us(d), nt()).take(k).map(|x: u64| v(x as i64))),
        script: vec![],
        unsub_at: None,
        until: d * (k as u64 + 3),
        subs: (1, 0),
      };
      let want = move |s: u64| -> Vec<(u64, Ev)> {
        let mut w: Vec<(u64, Ev)> = (1..=k as u64).map(|i| (s + i * d, Ev::Next(i as i64 - 1))).collect();
        w.push((s + k as u64 * d, Ev::Done));
        w
      };
      scens.push(tscen(&cfg, c.clone(), move |c, r| exact(c, r, 0, want(subscribed_at(r, 0)))));
      // the default scheduler: subscribe blocks
      let c2 = TC {
        name: format!("interval({}us, default_scheduler).take({})", d, k),
        mk: Arc::new(move |_| observables::interval(us(d), schedulers::default_scheduler()).take(k).map(|x: u64| v(x as i64))),
        ..c
      };
      scens.push(tscen(&cfg, c2, move |c, r| exact(c, r, 0, want(subscribed_at(r, 0)))));
    }
    // timer
    for u in [None, Some(d / 2), Some(d + 1)] {
      if u == Some(0) {
        continue;
      }
      for def in [false, true] {
        if def && u.is_some() {
          continue;
        }
        let c = TC {
          name: format!("timer({}us{})", d, if def { ", default_scheduler" } else { "" }),
          mk: Arc::new(move |_| {
            if def {
              observables::timer(us(d), schedulers::default_scheduler()).map(|_| v(0))
            } else {
              observables::timer(us(d), nt()).map(|_| v(0))
            }
          }),
          script: vec![],
          unsub_at: u,
          until: 4 * d + 10,
          subs: (1, 0),
        };
        let j = move |c: &TC, r: &TR, k: usize| {
          let s = subscribed_at(r, k);
          exact(c, r, k, vec![(s + d, Ev::Next(0)), (s + d, Ev::Done)])
        };
        scens.push(tscen(&cfg, c.clone(), move |c, r| j(c, r, 0)));
        let c2 = TC { subs: (2, d / 2), ..c };
        scens.push(tscen(&cfg, c2, move |c, r| j(c, r, 0).or_else(|| j(c, r, 1))));
      }
    }
  }
  // scripts: gaps before up to 3 items and the end
  let endings = |g: u64| vec![vec![], vec![(g, Ev::Done)], vec![(g, Ev::Err(4))]];
  let mk_scripts = |gaps: &[u64], max: usize| -> Vec<Vec<(u64, Ev)>> {
    let mut out = vec![];
    for gs in gen::seqs(gaps, max) {
      for g in gaps {
        for e in endings(*g) {
          if e.is_empty() && *g != gaps[0] {
            continue;
          }
          let mut s: Vec<(u64, Ev)> = gs.iter().enumerate().map(|(i, g)| (*g, Ev::Next(i as i64 + 1))).collect();
          s.extend(e);
          out.push(s);
        }
      }
    }
    out
  };
  let total = |s: &Vec<(u64, Ev)>| s.iter().map(|x| x.0).sum::<u64>();
  let one = Config { bound: ctx.pick(0, 1), max_steps: 4_000_000, ..Config::default() };
  // many items, the gaps taken in turn
  let long = |gaps: &[u64]| -> Vec<Vec<(u64, Ev)>> {
    let mut out = vec![];
    for &k in ctx.pick(&[8usize, 17, 65][..], &[5, 8, 9, 16, 17, 33, 65, 129]) {
      for g in gaps.iter().map(|g| vec![*g]).chain([gaps.to_vec()]) {
        for e in endings(gaps[1]) {
          let mut s: Vec<(u64, Ev)> = (0..k).map(|i| (g[i % g.len()], Ev::Next(i as i64 + 1))).collect();
          s.extend(e);
          out.push(s);
        }
      }
    }
    out
  };
  // long periods, many ticks
  for d in [1u64, 700, 1_000_000, 60_000_000, 3_600_000_000] {
    for &k in ctx.pick(&[33u64, 130, 300][..], &[17, 33, 65, 101, 129, 257, 300, 600]) {
      let c = TC {
        name: format!("interval({}us), {} ticks", d, k),
        mk: Arc::new(move |_| observables::interval(us(d), nt()).map(|x: u64| v(x as i64))),
        script: vec![],
        unsub_at: Some(k * d + d / 2),
        until: d * (k + 3),
        subs: (1, 0),
      };
      let ticks = move |s: u64, n: u64| -> Vec<(u64, Ev)> { (1..=n).map(|i| (s + i * d, Ev::Next(i as i64 - 1))).collect() };
      if d > 1 {
        scens.push(tscen(&one, c.clone(), move |c, r| exact(c, r, 0, ticks(subscribed_at(r, 0), k + 3))));
        let c2 = TC { subs: (3, d / 4), ..c.clone() };
        scens.push(tscen(&one, c2, move |c, r| (0..3).find_map(|w| exact(c, r, w, ticks(subscribed_at(r, w), k + 3)))));
      }
      for def in [false, true] {
        let c = TC {
          name: format!("interval({}us{}).take({})", d, if def { ", default_scheduler" } else { "" }, k),
          mk: Arc::new(move |_| {
            if def {
              observables::interval(us(d), schedulers::default_scheduler()).take(k as usize).map(|x: u64| v(x as i64))
            } else {
              observables::interval(us(d), nt()).take(k as usize).map(|x: u64| v(x as i64))
            }
          }),
          unsub_at: None,
          ..c.clone()
        };
        scens.push(tscen(&one, c, move |c, r| {
          let s = subscribed_at(r, 0);
          let mut w = ticks(s, k);
          w.push((s + k * d, Ev::Done));
          exact(c, r, 0, w)
        }));
      }
    }
    let c = TC { name: format!("timer({}us), long", d), mk: Arc::new(move |_| observables::timer(us(d), nt()).map(|_| v(0))), script: vec![], unsub_at: None, until: 4 * d + 10, subs: (3, d / 4) };
    scens.push(tscen(&one, c, move |c, r| {
      (0..3).find_map(|w| {
        let s = subscribed_at(r, w);
        exact(c, r, w, vec![(s + d, Ev::Next(0)), (s + d, Ev::Done)])
      })
    }));
  }
  for &d in &[700u64, 1_500, 10_000, 5_000_000, 90_000_000] {
    // delay
    let few = d < 20_000;
    let mut delays: Vec<(Vec<(u64, Ev)>, &Config)> = long(&[0, d / 2, d + d / 4]).into_iter().map(|s| (s, &one)).collect();
    delays.extend(mk_scripts(&[0, d / 2, d + d / 4], if few { ctx.pick(3, 4) } else { 1 }).into_iter().map(|s| (s, &cfg)));
    for (s, cfg) in delays {
      let u = total(&s);
      let mut us_ = vec![None, Some(d / 2 + 1), Some(d + d / 2 + 3)];
      if s.len() > 2 && ctx.quick() {
        us_.truncate(1);
      }
      for un in us_ {
        let c = TC {
          name: format!("delay({}us)", d),
          mk: Arc::new(move |o| o.delay(us(d))),
          script: s.clone(),
          unsub_at: un,
          until: u + d * (s.len() as u64 + 2),
          subs: (1, 0),
        };
        scens.push(tscen(cfg, c, move |c, r| {
          let e = ems(r);
          let mut want: Vec<(u64, Ev)> = e.iter().filter(|x| !x.1.terminal()).map(|x| (x.0 + d, x.1)).collect();
          let g = tgot(r, 0);
          if let Some(t) = e.iter().find(|x| x.1.terminal()) {
            // with or without a delay of its own; an error may overtake
            match g.iter().find(|x| x.1.terminal()) {
              Some(x) if x.1 == t.1 && (x.0 == t.0 || x.0 == t.0 + d) => {
                if x.1 != Ev::Done {
                  want.retain(|w| w.0 <= x.0);
                }
                want.push(*x);
              }
              None if c.unsub_at.is_some() => {}
              x => return Some(format!("the end {} arrives as {:?}", show_t(&[*t]), x)),
            }
          }
          exact(c, r, 0, want)
        }));
      }
    }
    // timeout: gaps shorter and longer than d, never exactly d
    let mut outs: Vec<(Vec<(u64, Ev)>, &Config)> = long(&[d / 3, d - 1]).into_iter().map(|s| (s, &one)).collect();
    for (mut s, c) in outs.clone() {
      let k = s.len();
      s[k / 2].0 = d + 1;
      outs.push((s.clone(), c));
      s[k / 2].0 = d / 3;
      s[k - 1].0 = d + 1;
      outs.push((s, c));
    }
    outs.extend(mk_scripts(&[d / 3, d - 1, d + 1, 2 * d + d / 3], if few { ctx.pick(2, 3) } else { 1 }).into_iter().map(|s| (s, &cfg)));
    for (s, cfg) in outs {
      let u = total(&s);
      let pad = 0;
      let c = TC {
        name: format!("timeout({}us)", d),
        mk: Arc::new(move |o| o.timeout(us(d), nt())),
        script: s.clone(),
        unsub_at: None,
        until: u + 3 * d + pad,
        subs: (1, 0),
      };
      let want = move |e: Vec<(u64, Ev)>| -> Vec<(u64, Ev)> {
        let mut w: Vec<(u64, Ev)> = vec![];
        for x in e {
          if let Some(l) = w.last() {
            if x.0 > l.0 + d {
              w.push((l.0 + d, Ev::Err(TIMED_OUT)));
              return w;
            }
          }
          w.push(x);
          if x.1.terminal() {
            return w;
          }
        }
        if let Some(l) = w.last().copied() {
          w.push((l.0 + d, Ev::Err(TIMED_OUT)));
        }
        w
      };
      scens.push(tscen(cfg, c.clone(), move |c, r| exact(c, r, 0, want(ems(r)))));
      if s.len() <= 2 {
        for un in [d / 2 + 1, d + 3, 2 * d - 5] {
          let c = TC { unsub_at: Some(un), ..c.clone() };
          scens.push(tscen(cfg, c, move |c, r| exact(c, r, 0, want(ems(r)))));
        }
        // the subscriber needs a while for one item; only shorter than what is left before the next, or longer
        for slow in [1, 2] {
          for (busy, sn) in [(d / 4, "d/4"), (d + d / 3, "4d/3"), (2 * d + d / 4, "9d/4")] {
            let c = TC {
              name: format!("timeout({}us).do({} for item {})", d, sn, slow),
              mk: Arc::new(move |o| {
                o.timeout(us(d), nt()).map(move |x: Val| {
                  if x.n == slow {
                    rt::sleep(busy * US);
                  }
                  v(x.n)
                })
              }),
              until: u + 8 * d,
              ..c.clone()
            };
            scens.push(tscen(cfg, c, move |_, r| slow_timeout(r, d, slow, busy)));
          }
        }
        let c = TC { name: format!("timeout({}us).map", d), mk: Arc::new(move |o| o.timeout(us(d), nt()).map(|x: Val| v(x.n))), ..c.clone() };
        scens.push(tscen(cfg, c, move |c, r| exact(c, r, 0, want(ems(r)))));
      }
    }
  }
  // debounce and sample: every schedule, ties and early timers included
  let d = 1_000;
  for s in mk_scripts(&[0, 300, 1_000, 1_700], ctx.pick(2, 3)) {
    let u = total(&s);
    for (nm, mk) in [
      ("debounce(1000us)", Arc::new(move |o: Ob| o.debounce(us(d), nt())) as Mk),
      ("sample(interval(1000us))", Arc::new(move |o: Ob| o.sample(observables::interval(us(d), nt())))),
      ("sample(interval(300us))", Arc::new(move |o: Ob| o.sample(observables::interval(us(300), nt())))),
      ("debounce(1000us).observe_on", Arc::new(move |o: Ob| o.debounce(us(d), nt()).observe_on(nt()))),
    ] {
      let c = TC { name: nm.to_string(), mk, script: s.clone(), unsub_at: None, until: u + 3 * d, subs: (1, 0) };
      scens.push(tscen(&any_time, c, |_, r| sub_order(r)));
    }
  }
  let early = Config { early_timers: true, ..one.clone() };
  for s in long(&[0, 300, 1_700]) {
    let u = total(&s);
    if s.len() > 20 && ctx.quick() {
      continue;
    }
    for (nm, mk) in [
      ("debounce(1000us)", Arc::new(move |o: Ob| o.debounce(us(d), nt())) as Mk),
      ("sample(interval(1000us))", Arc::new(move |o: Ob| o.sample(observables::interval(us(d), nt())))),
      ("debounce(1000us).observe_on", Arc::new(move |o: Ob| o.debounce(us(d), nt()).observe_on(nt()))),
    ] {
      let c = TC { name: nm.to_string(), mk, script: s.clone(), unsub_at: None, until: u + 3 * d, subs: (1, 0) };
      scens.push(tscen(&early, c, |_, r| sub_order(r)));
    }
  }
  for (nm, mk) in [
    ("delay(1000us).debounce(1000us)", Arc::new(move |o: Ob| o.delay(us(d)).debounce(us(d), nt())) as Mk),
    ("debounce(500us).sample(interval(700us))", Arc::new(move |o: Ob| o.debounce(us(500), nt()).sample(observables::interval(us(700), nt())))),
  ] {
    for s in mk_scripts(&[0, 600], ctx.pick(2, 3)) {
      let u = total(&s);
      let c = TC { name: nm.to_string(), mk: mk.clone(), script: s, unsub_at: None, until: u + 5 * d, subs: (1, 0) };
      scens.push(tscen(&any_time, c, |_, r| sub_order(r)));
    }
  }
  // sample with a trigger driven from threads, and from inside the subscriber
  let smp = || N::C(Co::Sample, vec![src(0), src(1)]);
  let fire = |k: i64| A::Emit(1, Ev::Next(100 + k));
  let it = |k: i64| A::Emit(0, Ev::Next(k));
  let deep = Config { bound: ctx.pick(2, 3), ..Config::default() };
  let progs = vec![
    (smp(), 2),
    (N::U(Op::Filter(3), Box::new(smp())), 2),
    (N::C(Co::Sample, vec![N::U(Op::Filter(3), Box::new(src(0))), src(1)]), 2),
    (N::C(Co::Sample, vec![src(0), N::U(Op::Filter(3), Box::new(src(1)))]), 2),
    (N::C(Co::Sample, vec![smp(), src(2)]), 3),
    (N::C(Co::Sample, vec![src(0), N::C(Co::Merge, vec![src(1), src(2)])]), 3),
    (N::U(Op::DebounceMs(2), Box::new(smp())), 2),
    (N::C(Co::Sample, vec![N::U(Op::DebounceMs(2), Box::new(src(0))), src(1)]), 2),
  ];
  let ends = [vec![], vec![A::Emit(0, Ev::Done)], vec![A::Emit(0, Ev::Err(4))]];
  for (n, nl) in &progs {
    let mapped = n.has_op(&|o| matches!(o, Op::Filter(_)));
    if mapped && ctx.quick() {
      continue;
    }
    let leaves = vec![Leaf::Hot; *nl];
    let mk = |threads: Vec<Vec<A>>, react: Vec<(usize, usize, A)>| {
      let mut c = CC::new(n.clone(), leaves.clone(), threads);
      c.react = react;
      if n.has_op(&|o| matches!(o, Op::DebounceMs(_))) {
        // else it would never hand anything on
        c.post = vec![A::Sleep(6)];
        if nl == &2 && matches!(n, N::C(..)) {
          c.post.extend([fire(55), A::Sleep(1), fire(56)]);
        }
      }
      c
    };
    let ntrig = |l: usize, k: i64| A::Emit(l, Ev::Next(100 + k));
    let last = nl - 1;
    for e in &ends {
      let with = |mut v: Vec<A>| {
        v.extend(e.clone());
        v
      };
      // one trigger thread, one source thread
      let mut list = vec![
        mk(vec![vec![], with(vec![it(1), it(2)]), vec![fire(1), ntrig(last, 2), fire(3)]], vec![]),
        // two trigger threads
        mk(vec![vec![], with(vec![it(1), it(2)]), vec![fire(1)], vec![ntrig(last, 2)]], vec![]),
        mk(vec![with(vec![it(1)]), vec![fire(1)], vec![fire(2)]], vec![]),
        // the trigger fires again from inside the subscriber
        mk(vec![with(vec![it(1), fire(1), ntrig(last, 2), it(2), fire(3), it(3), ntrig(last, 4)])], vec![(0, 1, fire(9))]),
        mk(vec![with(vec![it(1), fire(1), it(2), fire(3), ntrig(last, 4), it(3)])], vec![(0, 1, fire(9)), (0, 2, ntrig(last, 8))]),
        // as does the source
        mk(vec![with(vec![it(1), fire(1), ntrig(last, 5), it(2), fire(3), ntrig(last, 4)])], vec![(0, 1, it(9)), (0, 2, fire(8))]),
        mk(vec![with(vec![it(1), fire(1), ntrig(last, 5), it(2), fire(3), ntrig(last, 4)])], vec![(0, 1, it(9)), (0, 1, fire(7)), (0, 2, fire(8))]),
        mk(vec![vec![], with(vec![it(1), it(2)]), vec![fire(1), ntrig(last, 2)]], vec![(0, 1, fire(7))]),
      ];
      for cc in list.drain(..) {
        scens.push(scen_cc(&deep, cc, j_sample));
      }
    }
  }
  for react in [vec![], vec![(0, 1, it(9))], vec![(0, 1, it(9)), (0, 2, it(10))]] {
    for n in [N::U(Op::DebounceMs(2), Box::new(src(0))), N::U(Op::Filter(3), Box::new(N::U(Op::DebounceMs(2), Box::new(src(0)))))] {
      for t in [vec![it(1), it(2), A::Sleep(3)], vec![it(1), A::Sleep(3), it(2), A::Sleep(4), it(3), A::Sleep(3)], vec![it(1), A::Sleep(2), it(2), A::Sleep(2), A::Emit(0, Ev::Done)]] {
        let mut c = CC::new(n.clone(), vec![Leaf::Hot], vec![t]);
        c.react = react.clone();
        c.post = vec![A::Unsub(0)];
        scens.push(scen_cc(&any_time, c, j_sample));
      }
    }
  }
  explore_all(ctx, scens, &any);
  ctx.assume("virtual time: computing takes no time, a sleep of d ends exactly d later");
}

// ---------------------------------------------------------------- C18

struct Parker {
  m: vstd::sync::Mutex<bool>,
  c: vstd::sync::Condvar,
  log: Log,
}
impl Parker {
  fn new(log: &Log) -> Arc<Parker> {
    Arc::new(Parker { m: vstd::sync::Mutex::new(false), c: vstd::sync::Condvar::new(), log: log.clone() })
  }
  fn park(&self) {
    let mut g = self.m.lock().unwrap();
    while !*g {
      g = self.c.wait(g).unwrap();
    }
    *g = false;
  }
}
impl Wake for Parker {
  fn wake(self: Arc<Self>) {
    self.log.push(K::M("woken", 0));
    *self.m.lock().unwrap() = true;
    self.c.notify_one();
  }
}
type Fut = std::pin::Pin<Box<dyn Future<Output = Result<Arc<vstd::sync::RwLock<Vec<Val>>>, RxError>>>>;
/// wakes by polling on the spot
struct Inline {
  fut: vstd::sync::Mutex<Option<Force<Fut>>>,
  again: vstd::sync::Mutex<bool>,
  done: Arc<Parker>,
  res: Sh<Option<Poll<Vec<Ev>>>>,
  log: Log,
}
fn one_poll(log: &Log, f: &mut Fut, w: &Waker) -> Poll<Vec<Ev>> {
  log.push(K::M("poll", 0));
  let r = f.as_mut().poll(&mut Context::from_waker(w));
  match r {
    Poll::Pending => {
      log.mark(K::M("pending", 0));
      Poll::Pending
    }
    Poll::Ready(x) => {
      log.mark(K::M("ready", 0));
      Poll::Ready(match x {
        Ok(v) => v.read().unwrap().iter().map(|x| Ev::Next(x.n)).chain([Ev::Done]).collect(),
        Err(e) => vec![Ev::Err(boom_id(&e))],
      })
    }
  }
}
impl Inline {
  fn go(self: &Arc<Inline>) {
    loop {
      let r = match self.fut.try_lock() {
        Ok(mut g) => match g.as_mut() {
          Some(f) => {
            let r = one_poll(&self.log, &mut f.0, &Waker::from(self.clone()));
            if r.is_ready() {
              // not to be polled again
              *g = None;
            }
            r
          }
          None => return,
        },
        Err(_) => {
          *self.again.lock().unwrap() = true;
          // whoever polls looks at `again` afterwards; it may have just done so
          if self.fut.try_lock().is_err() {
            return;
          }
          continue;
        }
      };
      if r.is_ready() {
        *self.res.get() = Some(r);
        self.done.clone().wake();
        return;
      }
      let mut a = self.again.lock().unwrap();
      if !*a {
        return;
      }
      *a = false;
    }
  }
}
impl Wake for Inline {
  fn wake(self: Arc<Self>) {
    self.log.push(K::M("woken", 0));
    self.go();
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
  /// poll, park until woken, poll again
  Plain,
  /// a poll or two too many, then as above
  Eager(usize),
  /// polled with one waker first, and only another one is waited for
  Change,
  /// the waker polls on the waking thread
  Inline,
  /// polled first on another thread
  Move,
  /// time goes by before the first poll
  Late(u64),
}
#[derive(Clone, Debug)]
struct VC {
  prog: N,
  leaves: Vec<Leaf>,
  /// what others do, meanwhile
  threads: Vec<Vec<A>>,
  how: How,
}
fn vrun(c: &VC) -> Option<String> {
  let log = log::new();
  let env = Env::with_log(&c.leaves, Some(log.clone()));
  let o = build(&env, &c.prog);
  let mut f: Fut = {
    let fut = o.to_vec();
    // Observable::to_vec borrows nothing it keeps
    unsafe { std::mem::transmute::<std::pin::Pin<Box<dyn Future<Output = _>>>, Fut>(Box::pin(fut)) }
  };
  let ths: Vec<_> = c
    .threads
    .iter()
    .map(|t| {
      let (env, t) = (env.clone(), t.clone());
      vstd::thread::spawn(move || {
        for a in &t {
          match a {
            A::Emit(l, e) => hot(&env, *l, *e),
            A::Sleep(ms) => rt::sleep(ms * 1_000_000),
            _ => {}
          }
        }
      })
    })
    .collect();
  let wait = |f: &mut Fut| -> Vec<Ev> {
    let p = Parker::new(&log);
    loop {
      match one_poll(&log, f, &Waker::from(p.clone())) {
        Poll::Ready(v) => return v,
        Poll::Pending => p.park(),
      }
    }
  };
  let out = match c.how {
    How::Plain => wait(&mut f),
    How::Late(ms) => {
      rt::sleep(ms * 1_000_000);
      wait(&mut f)
    }
    How::Eager(n) => {
      let p = Parker::new(&log);
      let mut r = None;
      for _ in 0..n {
        if let Poll::Ready(v) = one_poll(&log, &mut f, &Waker::from(p.clone())) {
          r = Some(v);
          break;
        }
      }
      match r {
        Some(v) => v,
        None => {
          loop {
            p.park();
            if let Poll::Ready(v) = one_poll(&log, &mut f, &Waker::from(p.clone())) {
              break v;
            }
          }
        }
      }
    }
    How::Change => {
      let first = Parker::new(&log);
      match one_poll(&log, &mut f, &Waker::from(first)) {
        Poll::Ready(v) => v,
        Poll::Pending => wait(&mut f),
      }
    }
    How::Move => {
      let ff = Force(f);
      let slot: Arc<Sh<Option<Vec<Ev>>>> = Arc::new(Sh::new(None));
      let back: Arc<Sh<Option<Force<Fut>>>> = Arc::new(Sh::new(None));
      let (s2, b2, l2) = (slot.clone(), back.clone(), log.clone());
      let t = vstd::thread::spawn(move || {
        let ff = ff;
        let mut f = ff;
        let p = Parker::new(&l2);
        if let Poll::Ready(v) = one_poll(&l2, &mut f.0, &Waker::from(p)) {
          *s2.get() = Some(v);
        }
        *b2.get() = Some(f);
      });
      let _ = t.join();
      match slot.get().take() {
        Some(v) => v,
        None => wait(&mut back.get().take().unwrap().0),
      }
    }
    How::Inline => {
      let i = Arc::new(Inline {
        fut: vstd::sync::Mutex::new(Some(Force(f))),
        again: vstd::sync::Mutex::new(false),
        done: Parker::new(&log),
        res: Sh::new(None),
        log: log.clone(),
      });
      i.go();
      i.done.park();
      match i.res.get().take() {
        Some(Poll::Ready(v)) => v,
        _ => return Some("no result".into()),
      }
    }
  };
  for t in ths {
    let _ = t.join();
  }
  rt::quiesce();
  judge_vec(c, &log.take(), &out)
}
fn judge_vec(c: &VC, l: &[R], out: &[Ev]) -> Option<String> {
  let single = c.leaves.len() == 1 && matches!(c.prog, N::Src(_) | N::U(Op::ObserveOnNt | Op::SubscribeOnNt | Op::Map(_), _));
  // terminal emissions of the leaves, by start and by end
  let starts: Vec<usize> = l.iter().enumerate().filter(|(_, r)| matches!(r.k, K::Em(_, e) if e.terminal())).map(|x| x.0).collect();
  let polls = log::mine(l, "poll");
  let ends: Vec<(usize, &str)> = l
    .iter()
    .enumerate()
    .filter_map(|(i, r)| match r.k {
      K::M("pending", _) => Some((i, "pending")),
      K::M("ready", _) => Some((i, "ready")),
      _ => None,
    })
    .collect();
  if ends.iter().filter(|e| e.1 == "ready").count() != 1 {
    return Some("the future does not resolve exactly once".into());
  }
  if single {
    let ready = ends.iter().find(|e| e.1 == "ready").unwrap().0;
    if starts.first().map(|s| *s > ready).unwrap_or(true) {
      return Some("ready before the source has terminated".into());
    }
    // a poll that starts after the terminal has been delivered
    let s = starts[0];
    let t = l[s].t;
    let done = l.iter().enumerate().skip(s).find(|(_, r)| r.t == t && matches!(r.k, K::Ee(_))).map(|x| x.0);
    let sync = !matches!(c.prog, N::U(Op::ObserveOnNt, _));
    if let (Some(d), true) = (done, sync) {
      for (p, _) in &polls {
        let tp = l[*p].t;
        let e = ends.iter().find(|e| e.0 > *p && l[e.0].t == tp);
        if *p > d && matches!(e, Some((_, "pending"))) {
          return Some("pending although the source had terminated before the poll".into());
        }
      }
    }
  }
  // what it yields
  let sent: Vec<Vec<Ev>> = (0..c.leaves.len()).map(|k| l.iter().filter_map(|r| if let K::Em(j, e) = r.k { (j == k).then_some(e) } else { None }).collect()).collect();
  let want = |evs: &[Ev]| -> Vec<Ev> {
    let end = evs.iter().position(|e| e.terminal()).unwrap_or(evs.len() - 1);
    match evs[end] {
      Ev::Err(e) => vec![Ev::Err(e)],
      _ => evs[..=end].to_vec(),
    }
  };
  match &c.prog {
    N::U(Op::Map(k), _) => {
      let w: Vec<Ev> = want(&sent[0]).into_iter().map(|e| if let Ev::Next(n) = e { Ev::Next(fmap(*k, n)) } else { e }).collect();
      if out != w {
        return Some(format!("yields {} instead of {}", show_evs(out), show_evs(&w)));
      }
    }
    N::C(Co::Merge, _) => {
      if let Some(Ev::Err(e)) = out.first() {
        if !sent.iter().flatten().any(|x| *x == Ev::Err(*e)) {
          return Some(format!("yields an error nobody emitted: {}", e));
        }
      } else {
        for s in &sent {
          let s: Vec<Ev> = s.iter().filter(|e| !e.terminal()).copied().collect();
          let h: Vec<Ev> = out.iter().filter(|e| s.contains(e)).copied().collect();
          if s != h {
            return Some(format!("emitted {}, in the vector {}", show_evs(&s), show_evs(&h)));
          }
        }
        if out.len() - 1 != sent.iter().flatten().filter(|e| !e.terminal()).count() {
          return Some(format!("yields {}", show_evs(out)));
        }
      }
    }
    N::U(Op::Take(n), m) if matches!(**m, N::Interval(_)) => {
      let w: Vec<Ev> = (0..*n as i64).map(Ev::Next).chain([Ev::Done]).collect();
      if out != w {
        return Some(format!("yields {} instead of {}", show_evs(out), show_evs(&w)));
      }
    }
    N::U(Op::Take(n), _) => {
      let w: Vec<Ev> = sent[0].iter().take(*n).copied().chain([Ev::Done]).collect();
      if out != w {
        return Some(format!("yields {} instead of {}", show_evs(out), show_evs(&w)));
      }
    }
    N::Iter(xs) => {
      let w: Vec<Ev> = xs.iter().map(|x| Ev::Next(*x)).chain([Ev::Done]).collect();
      if out != w {
        return Some(format!("yields {} instead of {}", show_evs(out), show_evs(&w)));
      }
    }
    _ => {
      let w = want(&sent[0]);
      if out != w {
        return Some(format!("yields {} instead of {}", show_evs(out), show_evs(&w)));
      }
    }
  }
  None
}

pub fn c18(ctx: &Ctx) {
  let hi = Config { bound: ctx.pick(4, 6), spurious: true, ..Config::default() };
  let lo = Config { bound: ctx.pick(3, 4), ..Config::default() };
  let mut scens = vec![];
  let n = Ev::Next;
  let hows = [How::Plain, How::Eager(1), How::Eager(2), How::Eager(3), How::Change, How::Inline, How::Move];
  let scripts: Vec<Vec<Ev>> = vec![
    vec![Ev::Done],
    vec![Ev::Err(3)],
    vec![n(1), Ev::Done],
    vec![n(1), Ev::Err(3)],
    vec![n(1), n(2), Ev::Done],
    vec![n(1), n(2), Ev::Err(3)],
    vec![n(1), n(2), n(3), Ev::Done],
    vec![n(1), Ev::Done, n(2), Ev::Err(5)],
    vec![n(1), Ev::Err(3), n(2), Ev::Done],
  ];
  let mut add = |cfg: &Config, c: VC| {
    let case = Case::new(c.prog.clone(), c.leaves.clone(), vec![]);
    let mut nm = format!("{}.to_vec() polled {:?}", case.show(), c.how);
    for (i, t) in c.threads.iter().enumerate() {
      nm += &format!("; T{} {}", i + 1, t.iter().map(show_a).collect::<Vec<_>>().join(" "));
    }
    let w = c.threads.iter().map(|t| t.len()).sum::<usize>() + 3 * c.leaves.len() + if c.how == How::Move { 9 } else { 0 };
    let mut s = scen(nm, cfg.clone(), move || {
      if let Some(m) = vrun(&c) {
        verdict(m);
      }
    });
    s.weight = w as u32;
    scens.push(s);
  };
  for how in hows {
    for s in &scripts {
      // hot, on another thread; in one go or with pauses
      for leaf in [Leaf::Hot, Leaf::HotSubject] {
        add(&hi, VC { prog: src(0), leaves: vec![leaf], threads: vec![em(0, s)], how });
      }
      add(&hi, VC { prog: src(0), leaves: vec![Leaf::Thread(s.clone())], threads: vec![], how });
      add(&hi, VC { prog: src(0), leaves: vec![Leaf::Timed(s.iter().map(|e| (5, *e)).collect())], threads: vec![], how });
      add(&hi, VC { prog: src(0), leaves: vec![Leaf::Cold { scripts: vec![s.clone()], polite: true }], threads: vec![], how });
      add(&lo, VC { prog: src(0).u(Op::Map(0)), leaves: leaves(1), threads: vec![em(0, s)], how });
      if !s[..s.len() - 1].iter().any(|e| e.terminal()) {
        add(&lo, VC { prog: src(0).u(Op::ObserveOnNt), leaves: leaves(1), threads: vec![em(0, s)], how });
        add(&lo, VC { prog: src(0).u(Op::SubscribeOnNt), leaves: vec![Leaf::Cold { scripts: vec![s.clone()], polite: true }], threads: vec![], how });
      }
      for ms in [3, 5, 12] {
        if how == How::Plain {
          add(&hi, VC { prog: src(0), leaves: vec![Leaf::Timed(s.iter().map(|e| (5, *e)).collect())], threads: vec![], how: How::Late(ms) });
        }
      }
    }
    // two producers, two terminals
    for (a, b) in [(Ev::Done, Ev::Done), (Ev::Done, Ev::Err(2)), (Ev::Err(1), Ev::Err(2))] {
      add(&lo, VC { prog: co(Co::Merge, vec![src(0), src(1)]), leaves: leaves(2), threads: vec![em(0, &[n(1), a]), em(1, &[n(11), b])], how });
    }
    add(&lo, VC { prog: src(0).u(Op::Take(2)), leaves: leaves(1), threads: vec![em(0, &[n(1), n(2), n(3)])], how });
    add(&lo, VC { prog: N::Interval(5).u(Op::Take(2)), leaves: vec![], threads: vec![], how });
    add(&lo, VC { prog: N::Iter(vec![1, 2, 3]), leaves: vec![], threads: vec![], how });
  }
  // many items, many polls
  let one = Config { bound: 1, max_steps: 4_000_000, ..Config::default() };
  for &k in ctx.pick(&[8i64, 17, 33, 65, 129][..], &[5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 257, 300]) {
    for how in [How::Plain, How::Eager(5), How::Eager(9), How::Eager(20), How::Change, How::Inline, How::Move] {
      for t in [Ev::Done, Ev::Err(3)] {
        let s: Vec<Ev> = (1..=k).map(n).chain([t]).collect();
        add(&one, VC { prog: src(0), leaves: leaves(1), threads: vec![em(0, &s)], how });
        add(&one, VC { prog: src(0), leaves: vec![Leaf::Cold { scripts: vec![s.clone()], polite: true }], threads: vec![], how });
        add(&one, VC { prog: src(0), leaves: vec![Leaf::Timed(s.iter().map(|e| (5, *e)).collect())], threads: vec![], how });
        add(&one, VC { prog: src(0).u(Op::ObserveOnNt), leaves: leaves(1), threads: vec![em(0, &s)], how });
      }
      let half: Vec<Ev> = (1..=k).map(n).collect();
      let rest: Vec<Ev> = (1001..=1000 + k).map(n).collect();
      add(&one, VC { prog: co(Co::Merge, vec![src(0), src(1)]), leaves: leaves(2), threads: vec![em(0, &[&half[..], &[Ev::Done]].concat()), em(1, &[&rest[..], &[Ev::Done]].concat())], how });
    }
  }
  explore_all(ctx, scens, &any);
  ctx.assume("the future is polled by one task at a time, as Future requires; a task polls again when its latest waker has been woken");
}
