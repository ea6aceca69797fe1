//! How subscriptions end (C05, C06, C17) and that everything returns (C07): the
//! sequential spaces of seq.rs, and the schedules of several threads.
use crate::ast::*;
use crate::conc::*;
use crate::core::*;
use crate::gen::src;
use crate::log::{self, K};
use crate::val::*;
use crate::{sched, seq, share, subj};
use vstd::rt::{self, Config};

/// which subscribers' subscriptions are over, as the callbacks and calls tell
fn over(r: &Res, w: usize) -> bool {
  log::find(&r.log, "unsub returned", w as i64).is_some() || log::cbs(&r.log, w).iter().any(|c| c.1.terminal())
}
fn all_over(cc: &CC, r: &Res) -> bool {
  let began = |w: usize| log::find(&r.log, "sub starts", w as i64).is_some();
  (0..cc.subs()).any(began) && (0..cc.subs()).all(|w| !began(w) || over(r, w))
}

// ---------------------------------------------------------------- C05

fn j_stop(cc: &CC, r: &Res) -> Option<String> {
  for w in 0..cc.subs() {
    if let Some(m) = after_unsub(&cc.prog, &r.log, w) {
      return Some(m);
    }
    let l = &r.log;
    if let Some(Some(h)) = r.handles.get(w) {
      if h.is_subscribed() == over(r, w) {
        return Some(format!("subscriber {}'s is_subscribed() is {} when all is over, although it has{} ended", w, h.is_subscribed(), if over(r, w) { "" } else { " not" }));
      }
    }
    // what other threads saw meanwhile
    let us = log::find(l, "unsub starts", w as i64).unwrap_or(usize::MAX);
    let ur = log::find(l, "unsub returned", w as i64).unwrap_or(usize::MAX);
    let term = log::cbs(l, w).iter().find(|c| c.1.terminal()).map(|c| c.0);
    let term_end = term.and_then(|i| log::cb_end(l, i)).unwrap_or(usize::MAX);
    let sees: Vec<(usize, bool)> = log::mine(l, "sees alive").into_iter().map(|x| (x, true)).chain(log::mine(l, "sees ended").into_iter().map(|x| (x, false))).filter(|((_, n), _)| *n == w as i64).map(|((i, _), b)| (i, b)).collect();
    for (i, alive) in sees {
      // when it began to look
      let from = l[..i].iter().rposition(|x| x.t == l[i].t && x.k == K::M("looks", w as i64)).unwrap_or(i);
      if alive && (from > ur || from > term_end) {
        return Some(format!("subscriber {}'s is_subscribed() is true after its end", w));
      }
      // an end may be under way: seen by the subscription before by the subscriber
      let open = l[..i].iter().map(|x| match x.k {
        K::Em(..) | K::M("sub starts", _) => 1,
        K::Ee(_) | K::M("sub returned", _) => -1,
        _ => 0,
      });
      if !alive && i < us && term.is_none() && open.sum::<i32>() == 0 && !async_prog(&cc.prog) {
        return Some(format!("subscriber {}'s is_subscribed() is false although nothing has ended it", w));
      }
    }
  }
  None
}

fn async_prog(p: &N) -> bool {
  p.has_op(&|o| matches!(o, Op::ObserveOn | Op::SubscribeOn | Op::ObserveOnNt | Op::DebounceMs(_) | Op::TimeoutMs(_) | Op::DelayMs(_)))
}
// ---------------------------------------------------------------- C06

fn j_dead(cc: &CC, r: &Res) -> Option<String> {
  if !all_over(cc, r) {
    return None;
  }
  for (k, l) in r.env.st.get().iter().enumerate() {
    let n = l.obs.clone().iter().filter(|o| o.1.is_subscribed()).count();
    if n > 0 {
      return Some(format!("every subscription has ended but source s{} still sees {} subscribed observers", k, n));
    }
    if let Some(h) = l.subject.as_ref().and_then(|s| s.held()) {
      if h > 0 {
        return Some(format!("every subscription has ended but Subject s{} still holds {} observers", k, h));
      }
    }
  }
  None
}
/// the subscription goes on, but source K is no longer needed
fn j_dead_leaf<const K: usize>(cc: &CC, r: &Res) -> Option<String> {
  let st = &r.env.st.get()[K];
  let n = st.obs.clone().iter().filter(|o| o.1.is_subscribed()).count();
  if n > 0 {
    return Some(format!("source s{} is not needed any more but still sees a subscribed observer", K));
  }
  if let Some(h) = st.subject.as_ref().and_then(|s| s.held()) {
    if h > 0 {
      return Some(format!("Subject s{} is not needed any more but still holds {} observers", K, h));
    }
  }
  j_dead(cc, r)
}
fn j_dead_0_1(cc: &CC, r: &Res) -> Option<String> {
  j_dead_leaf::<0>(cc, r).or_else(|| j_dead_leaf::<1>(cc, r))
}
/// one attempt at a time
fn j_one_alive(cc: &CC, r: &Res) -> Option<String> {
  for (k, l) in r.env.st.get().iter().enumerate() {
    let n = l.obs.clone().iter().filter(|o| o.1.is_subscribed()).count().max(l.subject.as_ref().and_then(|s| s.held()).unwrap_or(0));
    if n > 1 {
      return Some(format!("source s{} has {} live observers", k, n));
    }
  }
  j_dead(cc, r)
}
/// amb: only the winner is alive when the loser has tried again
fn j_one_source(cc: &CC, r: &Res) -> Option<String> {
  let n: usize = r.env.st.get().iter().map(|l| l.obs.clone().iter().filter(|o| o.1.is_subscribed()).count()).sum();
  if n > 1 {
    return Some(format!("{} sources of amb are still subscribed", n));
  }
  j_dead(cc, r)
}

// ---------------------------------------------------------------- C17

fn j_free(cc: &CC, r: &Res) -> Option<String> {
  if !all_over(cc, r) {
    return None;
  }
  // threads that wait for their time to come
  if r.live > 0 {
    rt::sleep(10_000_000_000);
    rt::quiesce();
  }
  // the caller drops what is the caller's
  r.drop_handles();
  for (k, l) in r.env.st.get().iter_mut().enumerate() {
    l.obs.clear();
    // these keep items for those to come
    if matches!(cc.leaves[k], Leaf::Subj(1 | 2)) {
      l.subject = None;
    }
  }
  let n = live_tokens();
  if n != 0 {
    return Some(format!("{} callbacks, closures or items are still owned by something after everything has ended and been dropped", n));
  }
  None
}

// ---------------------------------------------------------------- families

/// these programs have many more schedules than the others
fn sc(cfg: &Config, cc: CC, j: Jdg) -> Scen {
  let heavy = cc.prog.has_op(&|o| matches!(o, Op::GroupBy(_) | Op::Window(_))) || cc.prog.has_co(&|c| matches!(c, Co::SeqEq));
  scen_cc(&Config { bound: if heavy { (cfg.bound - 1).max(1) } else { cfg.bound }, ..cfg.clone() }, cc, j)
}
const N1: Ev = Ev::Next(10);
const N2: Ev = Ev::Next(11);

/// programs over one source
fn singles() -> Vec<N> {
  let mut v: Vec<N> = vec![src(0)];
  let mut ops = downstream();
  ops.extend([Op::ObserveOn, Op::SubscribeOn, Op::Timestamp, Op::MapToAny, Op::TimeInterval, Op::OnErr(vec![N::Never]), Op::FlatMap(vec![N::Never]), Op::TakeLast(2), Op::Retry(0)]);
  ops.extend([Op::ObserveOnNt, Op::DelayMs(3), Op::DebounceMs(3), Op::TimeoutMs(30)]);
  for o in ops {
    v.push(src(0).u(o));
  }
  v
}
fn family(ctx: &Ctx, j: Jdg) -> Vec<Scen> {
  let hi = Config { bound: ctx.pick(2, 4), ..Config::default() };
  let lo = Config { bound: ctx.pick(2, 3), ..Config::default() };
  let min = Config { bound: ctx.pick(1, 2), ..Config::default() };
  let mut v = vec![];
  let late = vec![A::Emit(0, Ev::Next(90)), A::Unsub(0), A::Emit(0, Ev::Next(91))];
  let unsub = vec![A::Unsub(0)];
  for p in singles() {
    let timed = p.has_op(&|o| matches!(o, Op::ObserveOnNt | Op::DebounceMs(_) | Op::TimeoutMs(_) | Op::DelayMs(_)));
    let cfg = if timed { &min } else { &hi };
    for leaf in [Leaf::Hot, Leaf::HotSubject] {
      for s in [vec![N1, N2], vec![N1, Ev::Done], vec![N1, Ev::Err(7)], vec![Ev::Done]] {
        if leaf == Leaf::HotSubject && (s.len() < 2 || timed) {
          continue;
        }
        // unsubscribed from another thread
        let mut c = CC::new(p.clone(), vec![leaf.clone()], vec![em(0, &s), unsub.clone()]);
        c.post = late.clone();
        v.push(sc(cfg, c.clone(), j));
        // seen from a third
        if !timed && s.len() > 1 {
          c.threads = vec![em(0, &s), vec![A::Look(0), A::Unsub(0), A::Look(0)]];
          v.push(sc(&lo, c.clone(), j));
          c.threads = vec![em(0, &s), vec![A::Look(0), A::Look(0)]];
          v.push(sc(&lo, c.clone(), j));
        }
        // twice
        c.threads = vec![em(0, &s), vec![A::Unsub(0), A::Unsub(0), A::Look(0)]];
        v.push(sc(&min, c.clone(), j));
        // while it subscribes
        c.pre = vec![];
        c.threads = vec![vec![A::Sub(0)], em(0, &s)];
        v.push(sc(cfg, c.clone(), j));
        c.threads = vec![vec![A::Sub(0), A::Unsub(0)], em(0, &s)];
        v.push(sc(cfg, c.clone(), j));
        // from within
        for k in 1..=2 {
          c.pre = vec![A::Sub(0)];
          c.threads = vec![em(0, &s[..1]), em(0, &s[1..])];
          c.react = vec![(0, k, A::Unsub(0))];
          v.push(sc(&lo, c.clone(), j));
        }
      }
    }
    for s in [vec![N1, N2, Ev::Done], vec![N1, Ev::Err(7)]] {
      // would try again for ever
      if p.has_op(&|o| matches!(o, Op::Retry(0))) && s.len() == 2 {
        continue;
      }
      let mut c = CC::new(p.clone(), vec![Leaf::Thread(s)], vec![unsub.clone()]);
      c.post = vec![A::Unsub(0), A::Look(0)];
      v.push(sc(cfg, c.clone(), j));
      c.threads = vec![];
      c.react = vec![(0, 1, A::Unsub(0))];
      v.push(sc(cfg, c, j));
    }
  }
  // several sources
  for (p, n, pre) in racers() {
    let post = |c: &mut CC| {
      for k in 0..n {
        c.post.push(A::Emit(k, Ev::Next(90 + k as i64)));
      }
      c.post.push(A::Unsub(0));
      for k in 0..n {
        c.post.push(A::Emit(k, Ev::Next(95 + k as i64)));
      }
    };
    for leaf in [Leaf::Hot, Leaf::HotSubject] {
      if leaf == Leaf::HotSubject && p.has_op(&|o| matches!(o, Op::FlatMap(_))) {
        continue;
      }
      for (a, b) in [
        (vec![N1], vec![Ev::Next(20)]),
        (vec![N1, Ev::Done], vec![Ev::Next(20)]),
        (vec![Ev::Done], vec![Ev::Next(20), Ev::Done]),
        (vec![Ev::Err(7)], vec![Ev::Next(20), Ev::Next(21)]),
        (vec![N1, N2], vec![Ev::Err(7)]),
        (vec![Ev::Err(7)], vec![Ev::Err(8)]),
      ] {
        let ls = vec![leaf.clone(); n];
        let mut c = CC::new(p.clone(), ls, vec![em(0, &a), em(1, &b), unsub.clone()]);
        c.pre = pre.clone();
        post(&mut c);
        v.push(sc(&min, c.clone(), j));
        // nobody unsubscribes
        c.threads = vec![em(0, &a), em(1, &b)];
        v.push(sc(&hi, c.clone(), j));
        c.threads = vec![em(0, &a), unsub.clone()];
        v.push(sc(&lo, c.clone(), j));
        // while it subscribes to its sources
        c.pre = vec![];
        c.threads = vec![vec![A::Sub(0)], em(0, &a), em(1, &b)];
        v.push(sc(&min, c.clone(), j));
        c.threads = vec![vec![A::Sub(0)], em(0, &a)];
        v.push(sc(&hi, c.clone(), j));
        c.threads = vec![vec![A::Sub(0)], em(1, &b)];
        v.push(sc(&hi, c.clone(), j));
        // from within
        c.pre = pre.clone();
        c.threads = vec![em(0, &a), em(1, &b)];
        c.react = vec![(0, 1, A::Unsub(0))];
        v.push(sc(&lo, c.clone(), j));
      }
    }
    if n == 2 && !p.has_op(&|o| matches!(o, Op::FlatMap(_))) {
      for (a, b) in [(vec![N1, Ev::Done], vec![Ev::Next(20), Ev::Done]), (vec![Ev::Err(7)], vec![Ev::Next(20), Ev::Next(21)]), (vec![N1, N2], vec![Ev::Err(7)])] {
        let mut c = CC::new(p.clone(), vec![Leaf::Thread(a), Leaf::Thread(b)], vec![unsub.clone()]);
        c.post = vec![A::Unsub(0)];
        v.push(sc(&min, c.clone(), j));
        c.threads = vec![];
        v.push(sc(&min, c, j));
      }
    }
    // something downstream that has had enough
    for op in [Op::Take(1), Op::First, Op::ElementAt(2), Op::TakeWhile(2), Op::Contains(20), Op::All(1), Op::Retry(2), Op::OnErr(vec![N::Never])] {
      for (a, b) in [(vec![N1, N2], vec![Ev::Next(20), Ev::Next(21)]), (vec![N1, Ev::Err(7)], vec![Ev::Next(20), Ev::Done])] {
        let mut c = CC::new(p.clone().u(op.clone()), leaves(n), vec![em(0, &a), em(1, &b)]);
        c.pre = pre.clone();
        post(&mut c);
        v.push(sc(&lo, c.clone(), j));
        if ctx.quick() {
          continue;
        }
        c.threads.push(unsub.clone());
        v.push(sc(&min, c.clone(), j));
      }
    }
  }
  v
}
/// one source is no longer needed while the subscription goes on
fn partial(ctx: &Ctx) -> Vec<Scen> {
  let hi = Config { bound: ctx.pick(3, 5), ..Config::default() };
  let mut v = vec![];
  let done_with = [Op::Take(1), Op::First, Op::ElementAt(1), Op::TakeWhile(4), Op::Contains(10), Op::All(4)];
  for op in done_with {
    for (c, k) in [(Co::Merge, 2), (Co::Combine, 2)] {
      for leaf in [Leaf::Hot, Leaf::HotSubject] {
        let p = co(c, vec![src(0).u(op.clone()), src(1)]);
        let ths = vec![em(0, &[N1, N2]), em(1, &[Ev::Next(20), Ev::Next(21)][..k])];
        v.push(sc(&hi, CC::new(p.clone(), vec![leaf.clone(); 2], ths.clone()), j_dead_leaf::<0>));
        let p = src(0).u(op.clone()).u(Op::Map(0)).u(Op::SelfMerge);
        let _ = p;
        // two producers into the source that is to be left
        let ths = vec![em(0, &[N1]), em(0, &[N2]), em(1, &[Ev::Next(20)])];
        let p = co(c, vec![src(0).u(op.clone()), src(1)]);
        v.push(sc(&Config { bound: ctx.pick(2, 3), ..hi.clone() }, CC::new(p, vec![leaf.clone(); 2], ths), j_dead_leaf::<0>));
      }
    }
  }
  // take_until: both sides
  for leaf in [Leaf::Hot, Leaf::HotSubject] {
    for b in [vec![Ev::Next(20)], vec![Ev::Next(20), Ev::Next(21)]] {
      let p = co(Co::Merge, vec![co(Co::TakeUntil, vec![src(0), src(1)]), src(2)]);
      let ths = vec![em(0, &[N1, N2]), em(1, &b)];
      let mut c = CC::new(p, vec![leaf.clone(); 3], ths);
      c.post = em(2, &[Ev::Next(30)]);
      v.push(sc(&hi, c, j_dead_0_1));
    }
    for (a, b) in [(vec![Ev::Err(7)], vec![Ev::Next(20), Ev::Next(21)]), (vec![N1, Ev::Err(7)], vec![Ev::Next(20), Ev::Err(8)])] {
      for c in [Co::Merge, Co::Zip, Co::Combine, Co::Concat] {
        // the siblings of an input that fails, the whole being retried or replaced
        let p = co(c, vec![src(0), src(1)]).u(Op::OnErr(vec![src(2)]));
        let ths = vec![em(0, &a), em(1, &b)];
        let mut k = CC::new(p, vec![leaf.clone(); 3], ths.clone());
        k.post = em(2, &[Ev::Next(30)]);
        v.push(sc(&hi, k, j_dead_0_1));
        let p = co(c, vec![src(0), src(1)]).u(Op::Retry(3));
        v.push(sc(&hi, CC::new(p, vec![leaf.clone(); 2], ths), j_one_alive));
      }
    }
  }
  for s in [vec![Ev::Err(1)], vec![N1, Ev::Err(1)], vec![Ev::Err(1), Ev::Err(2)]] {
    for op in [Op::Retry(3), Op::RetryWhen(1), Op::Retry(0)] {
      for t in [vec![N2], vec![Ev::Err(9)]] {
        v.push(sc(&hi, CC::new(src(0).u(op.clone()), leaves(1), vec![em(0, &s), em(0, &t)]), j_one_alive));
      }
    }
  }
  for (a, b) in [(vec![N1], vec![Ev::Next(20)]), (vec![N1, N2], vec![Ev::Next(20), Ev::Next(21)]), (vec![N1], vec![])] {
    let p = co(Co::Amb, vec![src(0), src(1)]);
    let mut c = CC::new(p, leaves(2), vec![em(0, &a), em(1, &b)]);
    c.post = vec![A::Emit(0, Ev::Next(90)), A::Emit(1, Ev::Next(91))];
    v.push(sc(&hi, c.clone(), j_one_source));
    c.prog = c.prog.u(Op::Map(0));
    v.push(sc(&hi, c, j_one_source));
  }
  v
}
/// scenarios of other checks under the judge of this one
fn borrowed(ctx: &Ctx, j: Jdg, bound: u32, from: &[fn(&Ctx)]) -> Vec<Scen> {
  *WITH.write().unwrap() = Some(j);
  let mut v = vec![];
  for f in from {
    v.extend(ctx.borrow(f));
  }
  *WITH.write().unwrap() = None;
  for s in v.iter_mut() {
    s.cfg.bound = s.cfg.bound.min(bound);
  }
  v
}
pub fn c05(ctx: &Ctx) {
  seq::c05_seq(ctx);
  let mut v = family(ctx, j_stop);
  v.extend(borrowed(ctx, j_stop, ctx.pick(1, 2), &[conc::c11, conc::c19, sched::c15, subj::c12]));
  explore_all(ctx, v, &oracle);
}
pub fn c06(ctx: &Ctx) {
  seq::c06(ctx);
  let mut v = family(ctx, j_dead);
  v.extend(partial(ctx));
  v.extend(borrowed(ctx, j_dead, ctx.pick(1, 2), &[conc::c11, conc::c19, sched::c15]));
  explore_all(ctx, v, &oracle);
}
pub fn c17(ctx: &Ctx) {
  seq::c17_seq(ctx);
  let mut v = family(ctx, j_free);
  v.extend(borrowed(ctx, j_free, ctx.pick(1, 2), &[conc::c11, conc::c19, sched::c09, sched::c15, subj::c12]));
  explore_all(ctx, v, &oracle);
}
fn j_none(_: &CC, _: &Res) -> Option<String> {
  None
}
pub fn c07(ctx: &Ctx) {
  seq::c07_seq(ctx);
  QUIET.store(true, std::sync::atomic::Ordering::SeqCst);
  let mut v = family(ctx, j_none);
  v.extend(partial(ctx));
  v.extend(borrowed(ctx, j_none, ctx.pick(1, 3), &[conc::c11, conc::c19, subj::c10, share::c13]));
  v.extend(borrowed(ctx, j_none, ctx.pick(2, 3), &[subj::c12]));
  v.extend(borrowed(ctx, j_none, ctx.pick(1, 2), &[sched::c08, sched::c09, sched::c15, sched::c16, sched::c18]));
  explore_all(ctx, v, &blocked);
}
use crate::conc;
