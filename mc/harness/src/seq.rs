//! Checks over sequential histories: every program x input x history in the bounds,
//! run on the library and compared with the reference.
use crate::ast::*;
use crate::core::*;
use crate::gen::*;
use crate::real::run_real;
use crate::refi::run_ref;
use crate::val::*;
use std::rc::Rc;
use std::sync::Arc;
use vstd::rt::{Engine, Kind};

type Fams = Vec<Family>;

// ---------------------------------------------------------------- judges

fn show_rec(r: &[(u32, Ev)]) -> String {
  let s: Vec<String> = r.iter().map(|(st, e)| format!("{}@{}", show(e), st)).collect();
  format!("[{}]", s.join(" "))
}
fn show_recs(rs: &[Vec<(u32, Ev)>]) -> String {
  rs.iter().map(|r| show_rec(r)).collect::<Vec<_>>().join(" / ")
}

#[derive(Clone, Copy, Default)]
struct Eq {
  subs: bool,
  taps: bool,
}
fn ended(r: &[(u32, Ev)]) -> bool {
  r.iter().any(|x| x.1.terminal())
}
fn differ(a: &Out, r: &Out, eq: Eq) -> Option<String> {
  if a.recs != r.recs {
    return Some(format!(
      "the subscriber received {}, the definition gives {} (item@step; ! error, | complete)",
      show_recs(&a.recs),
      show_recs(&r.recs)
    ));
  }
  if eq.subs && a.subs != r.subs {
    return Some(format!("subscriptions per source {:?}, the definition gives {:?}", a.subs, r.subs));
  }
  if eq.taps {
    let extra_ok = r.recs.iter().all(|x| ended(x));
    let pre = a.taps.len() >= r.taps.len() && a.taps[..r.taps.len()] == r.taps[..];
    if !pre || (a.taps.len() > r.taps.len() && !extra_ok) {
      return Some(format!("tap saw {}, the definition gives {}", show_rec(&a.taps), show_rec(&r.taps)));
    }
  }
  None
}
fn must_run(a: &Out) -> Option<String> {
  a.fail.clone().or_else(|| if a.runaway { Some("the source was never stopped".into()) } else { None })
}
/// the library's output is the reference's, under one of the open readings
fn judge_equal(case: &Arc<Case>, eng: &mut Engine, eq: Eq) -> Option<String> {
  if case.prog.replay_again() {
    return None; // C13's
  }
  let rc = Rc::new((**case).clone());
  let r0 = run_ref(&rc, 0);
  if r0.runaway {
    return None;
  }
  let a = run_real(eng, case);
  if let Some(f) = must_run(&a) {
    return Some(f);
  }
  let d = differ(&a, &r0, eq)?;
  for p in policies(&case.prog) {
    if p != 0 && differ(&a, &run_ref(&rc, p), eq).is_none() {
      return None;
    }
  }
  Some(d)
}
fn eq_judge(eq: Eq) -> impl Fn(&Arc<Case>, &mut Engine) -> Option<String> + Send + Sync {
  move |c, e| judge_equal(c, e, eq)
}

/// window_with_count, group_by: the outer observable and every inner one, each subscribed to on its own
fn judge_split(case: &Arc<Case>, eng: &mut Engine) -> Option<String> {
  let a = run_real(eng, case);
  if let Some(f) = &a.fail {
    return Some(f.clone());
  }
  let (op, below) = match &case.prog {
    N::U(op, n) => (op.clone(), (**n).clone()),
    _ => unreachable!(),
  };
  let mut up = (**case).clone();
  up.prog = below;
  up.split = false;
  let up = crate::refi::run_ref(&std::rc::Rc::new(up), 0);
  let mut outer: Vec<(u32, Ev)> = vec![];
  let mut inner: Vec<Vec<(u32, Ev)>> = vec![];
  let mut open: Vec<(i64, usize)> = vec![]; // key, number
  for (at, e) in &up.recs[0] {
    match e {
      Ev::Next(x) => {
        let k = match &op {
          Op::GroupBy(k) => key(*k, *x),
          _ => 0,
        };
        let i = match open.iter().find(|o| o.0 == k) {
          Some(o) => o.1,
          None => {
            outer.push((*at, Ev::Next(inner.len() as i64)));
            open.push((k, inner.len()));
            inner.push(vec![]);
            inner.len() - 1
          }
        };
        inner[i].push((*at, *e));
        if let Op::Window(n) = &op {
          if inner[i].len() == *n {
            inner[i].push((*at, Ev::Done));
            open.clear();
          }
        }
      }
      end => {
        open.drain(..).for_each(|o| inner[o.1].push((*at, *end)));
        outer.push((*at, *end));
      }
    }
  }
  // a window may be opened before its first item comes
  let mut got = a.recs.clone();
  while got.len() > 1 && !got.last().unwrap().iter().any(|e| matches!(e.1, Ev::Next(_))) {
    got.pop();
    let i = got.len() as i64 - 1;
    got[0].retain(|e| e.1 != Ev::Next(i));
  }
  let only = |v: &Vec<(u32, Ev)>| -> Vec<Ev> { v.iter().map(|e| e.1).collect() };
  if got.len() - 1 != inner.len() || only(&got[0]) != only(&outer) || (1..got.len()).any(|i| got[i] != inner[i - 1]) {
    let mut want = vec![outer];
    want.extend(inner);
    return Some(format!("the outer and the inner observables give {}, expected {}", show_recs(&a.recs), show_recs(&want)));
  }
  None
}
fn splits(q: bool) -> Fams {
  let over_ = |n: N| -> Vec<N> {
    let mut v: Vec<N> = (1..4).map(|k| n.clone().u(Op::Window(k))).collect();
    v.extend((0..3).map(|k| n.clone().u(Op::GroupBy(k))));
    v
  };
  let mut one = over_(src(0));
  for o in rep_plus() {
    if !matches!(o, Op::Window(_) | Op::GroupBy(_)) {
      one.extend(over_(src(0).u(o)));
    }
  }
  let s = |n: usize| scripts(&[0, 1, 2], n);
  let split = |c: &mut Case| c.split = true;
  let mut f: Fams = vec![];
  f.push(each_case("split-cold", one.clone(), cold1(s(if q { 4 } else { 6 })), split));
  f.push(each_case("split-hot", one.clone(), hot1(Leaf::Hot, s(if q { 4 } else { 6 })), split));
  f.push(each_case("split-subject", one, hot1(Leaf::HotSubject, s(if q { 3 } else { 5 })), split));
  let mut two = vec![];
  for c in [Co::Merge, Co::Concat] {
    two.extend(over_(over(c, 2)));
  }
  f.push(each_case("split-combine", two, hots(2, interleave(2, if q { 4 } else { 6 }, Items::Bits)), split));
  f
}

/// next* (error | complete)? and nothing after
pub fn grammar(r: &[(u32, Ev)]) -> Option<String> {
  let t = r.iter().position(|x| x.1.terminal())?;
  if t + 1 < r.len() {
    return Some(format!("the subscriber received {}: something after the terminal", show_rec(r)));
  }
  None
}
fn judge_grammar(case: &Arc<Case>, eng: &mut Engine) -> Option<String> {
  let a = run_real(eng, case);
  a.recs.iter().find_map(|r| grammar(r))
}

/// when (in steps) each subscriber was told to stop; self-unsubscription by record index
fn unsub_step(case: &Case, k: usize) -> Option<u32> {
  case.steps.iter().position(|s| *s == Step::Unsub(k)).map(|i| i as u32 + 1)
}
/// the step subscriber k subscribed in
fn sub_step(case: &Case, k: usize) -> u32 {
  if k == 0 {
    return 0;
  }
  let mut n = 0;
  for (i, s) in case.steps.iter().enumerate() {
    if *s == Step::Sub {
      n += 1;
      if n == k {
        return i as u32 + 1;
      }
    }
  }
  u32::MAX
}
fn judge_unsub(case: &Arc<Case>, eng: &mut Engine) -> Option<String> {
  let a = run_real(eng, case);
  if a.fail.is_some() {
    // blocking is C07's; an unsubscribe that never returns stops nothing
    return a.fail.clone();
  }
  for (k, r) in a.recs.iter().enumerate() {
    let mut stop = unsub_step(case, k).unwrap_or(u32::MAX);
    if k == 0 {
      if let Some(i) = case.self_unsub {
        // inside subscribe itself there is no handle yet
        if let Some((st, _)) = r.get(i).filter(|x| x.0 > 0) {
          stop = stop.min(*st);
          let at = a.stamps[0][i];
          if let Some(j) = (i + 1..r.len()).find(|&j| a.stamps[0][j] > at) {
            return Some(format!(
              "the subscriber unsubscribed in its callback for item #{} and then received {} from an emission that started later; all: {}",
              i + 1,
              show(&r[j].1),
              show_rec(r)
            ));
          }
        }
      }
    }
    if let Some(x) = r.iter().find(|x| x.0 > stop) {
      return Some(format!("unsubscribed in step {} but received {} in step {}; all: {}", stop, show(&x.1), x.0, show_rec(r)));
    }
    let term = r.iter().find(|x| x.1.terminal()).map(|x| x.0).unwrap_or(u32::MAX);
    let born = sub_step(case, k);
    for (i, l) in a.live.iter().enumerate() {
      let i = i as u32;
      if i < born {
        continue;
      }
      let want = i < stop && i < term;
      if let Some(got) = l.get(k) {
        if *got != want {
          return Some(format!(
            "is_subscribed() of subscriber {} is {} after step {} (terminal in step {:?}, unsubscribed in step {:?}); received {}",
            k, got, i, term, stop, show_rec(r)
          ));
        }
      }
    }
  }
  None
}

/// every source subscribed on behalf of a finished subscription finds out in time
fn judge_teardown(case: &Arc<Case>, eng: &mut Engine) -> Option<String> {
  if case.prog.replay_again() {
    return None;
  }
  let rc = Rc::new((**case).clone());
  let r0 = run_ref(&rc, 0);
  if r0.runaway {
    return None;
  }
  let a = run_real(eng, case);
  if a.runaway {
    return Some("an endless source was never stopped".into());
  }
  if a.fail.is_some() {
    return if a.fail_kind == Some(Kind::Livelock) { Some(format!("an endless source was never stopped: {}", a.fail.unwrap())) } else { None };
  }
  let mut worst = None;
  let mut matched = false;
  for p in policies(&case.prog) {
    let r = if p == 0 { r0_clone(&rc) } else { run_ref(&rc, p) };
    if r.recs != a.recs {
      continue;
    }
    matched = true;
    match teardown_diff(&a, &r) {
      None => return None,
      w => worst = worst.or(w),
    }
  }
  if matched {
    return worst;
  }
  // the output is not what the definition gives (another property's business): judge
  // only what must hold for the output that there was
  let mut end = 0;
  for (k, r) in a.recs.iter().enumerate() {
    let t = r.iter().find(|x| x.1.terminal()).map(|x| x.0).unwrap_or(u32::MAX);
    end = end.max(t.min(unsub_step(case, k).unwrap_or(u32::MAX)));
  }
  let amb = case.prog.has_co(&|c| c == Co::Amb);
  for p in &a.probes {
    if p.step > end && p.live == Live::Yes && !amb {
      return Some(format!(
        "the subscription ended in step {} but source s{} still sees is_subscribed() = true in step {}; received {}",
        end,
        p.leaf,
        p.step,
        show_recs(&a.recs)
      ));
    }
  }
  None
}
fn r0_clone(rc: &Rc<Case>) -> Out {
  run_ref(rc, 0)
}
fn teardown_diff(a: &Out, r: &Out) -> Option<String> {
  use std::collections::HashMap;
  let mut want: HashMap<(usize, u32, u32, u32), Live> = HashMap::new();
  for p in &r.probes {
    want.insert((p.leaf, p.sub, p.step, p.nth), p.live.clone());
  }
  for p in &a.probes {
    if p.live == Live::No {
      continue;
    }
    let w = want.get(&(p.leaf, p.sub, p.step, p.nth)).cloned().unwrap_or(Live::No);
    if w == Live::No {
      return Some(format!(
        "source s{} (its subscription #{}) sees is_subscribed() = true before emitting {} in step {} although what it was subscribed for has ended; received {}",
        p.leaf,
        p.sub as i64 + 1,
        show(&p.ev),
        p.step,
        show_recs(&a.recs)
      ));
    }
  }
  for (i, (ha, hr)) in a.held.iter().zip(&r.held).enumerate() {
    for (l, (x, y)) in ha.iter().zip(hr).enumerate() {
      if let (Some(x), Some(y)) = (x, y) {
        if x > y {
          return Some(format!(
            "after step {} the Subject s{} holds {} observer(s), {} still wanted; received {}",
            i,
            l,
            x,
            y,
            show_recs(&a.recs)
          ));
        }
      }
    }
  }
  None
}

/// after the end (a terminal, or an unsubscribe inside one of the user's functions):
/// nothing is delivered, and (teardown) nothing upstream is still subscribed
fn judge_inside(teardown: bool) -> impl Fn(&Arc<Case>, &mut Engine) -> Option<String> + Send + Sync {
  move |case, eng| {
    let a = run_real(eng, case);
    if a.fail.is_some() {
      return None; // blocking is C07's
    }
    let r = &a.recs[0];
    let term = r.iter().find(|x| x.1.terminal()).map(|x| x.0).unwrap_or(u32::MAX);
    let stop = a.inside_end.unwrap_or(u32::MAX);
    if let Some(x) = r.iter().find(|x| x.0 > stop) {
      return Some(format!("unsubscribed (in a function) in step {} but received {} in step {}; all: {}", stop, show(&x.1), x.0, show_rec(r)));
    }
    let end = term.min(stop);
    for (i, l) in a.live.iter().enumerate() {
      if l[0] != ((i as u32) < end) {
        return Some(format!("is_subscribed() is {} after step {} (ended in step {}); received {}", l[0], i, end, show_rec(r)));
      }
    }
    if !teardown {
      return None;
    }
    let amb = case.prog.has_co(&|c| c == Co::Amb);
    for p in &a.probes {
      if p.step > end && p.live == Live::Yes && !(amb && stop == u32::MAX) {
        return Some(format!("the subscription ended in step {} but source s{} still sees is_subscribed() = true in step {}; received {}", end, p.leaf, p.step, show_rec(r)));
      }
    }
    for (i, h) in a.held.iter().enumerate() {
      for (l, x) in h.iter().enumerate() {
        if i as u32 >= end && x.unwrap_or(0) > 0 && !(amb && stop == u32::MAX) {
          return Some(format!("after step {} the Subject s{} holds {} observer(s) of a subscription that ended in step {}; received {}", i, l, x.unwrap(), end, show_rec(r)));
        }
      }
    }
    None
  }
}
/// everything given to a finished subscription is released
fn judge_release(case: &Arc<Case>, eng: &mut Engine) -> Option<String> {
  let a = run_real(eng, case);
  if a.fail.is_some() || a.runaway {
    return None;
  }
  let all_ended = a.recs.iter().enumerate().all(|(k, r)| {
    ended(r)
      || unsub_step(case, k).is_some()
      // those that came from inside were made to leave
      || (!case.inside.is_empty() && k > case.steps.iter().filter(|s| matches!(s, Step::Sub)).count())
      || (k == 0 && case.self_unsub.map(|i| r.get(i).map(|x| x.0 > 0).unwrap_or(false)).unwrap_or(false))
  });
  if all_ended && a.tokens != 0 {
    return Some(format!(
      "{} callback(s), closure(s) or item(s) are still owned after the subscription ended and every handle was dropped; received {}",
      a.tokens,
      show_recs(&a.recs)
    ));
  }
  None
}

fn judge_returns(case: &Arc<Case>, eng: &mut Engine) -> Option<String> {
  if case.prog.replay_again() {
    return None; // may well retry forever
  }
  let rc = Rc::new((**case).clone());
  if run_ref(&rc, 0).runaway {
    return None;
  }
  let a = run_real(eng, case);
  must_run(&a)
}
fn judge_returns_noref(case: &Arc<Case>, eng: &mut Engine) -> Option<String> {
  let a = run_real(eng, case);
  must_run(&a)
}

// ---------------------------------------------------------------- families

/// program x (leaves, steps): the product of two lists
fn product(name: &str, progs: Vec<N>, inputs: Vec<(Vec<Leaf>, Vec<Step>)>) -> Family {
  let (p, i) = (progs.len(), inputs.len());
  // inputs vary slowest: short inputs first
  family(name, p * i, move |k| {
    let (l, s) = &inputs[k / p];
    Case::new(progs[k % p].clone(), l.clone(), s.clone())
  })
}
fn cold1(scripts: Vec<Vec<Ev>>) -> Vec<(Vec<Leaf>, Vec<Step>)> {
  scripts.into_iter().map(|s| (vec![cold(s)], vec![])).collect()
}
fn hot1(leaf: Leaf, scripts: Vec<Vec<Ev>>) -> Vec<(Vec<Leaf>, Vec<Step>)> {
  scripts.into_iter().map(|s| (vec![leaf.clone()], emits(0, &s))).collect()
}
fn hots(k: usize, steps: Vec<Vec<Step>>) -> Vec<(Vec<Leaf>, Vec<Step>)> {
  steps.into_iter().map(|s| (vec![Leaf::Hot; k], s)).collect()
}
fn singles(ops: &[Op], base: N) -> Vec<N> {
  ops.iter().map(|o| base.clone().u(o.clone())).collect()
}
fn pairs(a: &[Op], b: &[Op], base: N) -> Vec<N> {
  let mut v = vec![];
  for x in a {
    for y in b {
      v.push(base.clone().u(x.clone()).u(y.clone()));
    }
  }
  v
}
fn triples(a: &[Op], b: &[Op], c: &[Op], base: N) -> Vec<N> {
  let mut v = vec![];
  for p in pairs(a, b, base) {
    for z in c {
      v.push(p.clone().u(z.clone()));
    }
  }
  v
}
fn creations() -> Vec<N> {
  vec![
    N::Just(1),
    N::Iter(vec![]),
    N::Iter(vec![2]),
    N::Iter(vec![2, 0, 1]),
    N::Range(0, 0),
    N::Range(1, 1),
    N::Range(-1, 4),
    N::Range(2, 3),
    N::Empty,
    N::Never,
    N::Throw(3),
    N::Start(1),
    N::FromOk(2),
    N::FromErr(4),
    N::Repeat(1),
    N::Endless(0),
    N::Defer(Box::new(N::Iter(vec![0, 1]))),
    N::Defer(Box::new(N::Throw(6))),
    N::Defer(Box::new(N::Defer(Box::new(N::Just(2))))),
    N::Defer(Box::new(N::Never)),
  ]
}
/// combinator programs over two sources with an operator at each place
fn nest_down(cos: &[Co], k: usize, ops: &[Op]) -> Vec<N> {
  let mut v = vec![];
  for c in cos {
    for o in ops {
      v.push(over(*c, k).u(o.clone()));
    }
  }
  v
}
fn nest_up(cos: &[Co], ops: &[Op]) -> Vec<N> {
  let mut v = vec![];
  for c in cos {
    for o in ops {
      v.push(N::C(*c, vec![src(0).u(o.clone()), src(1)]));
      v.push(N::C(*c, vec![src(0), src(1).u(o.clone())]));
    }
  }
  v
}
fn nest_co() -> Vec<N> {
  let mut v = vec![];
  for a in COS {
    for b in COS {
      v.push(N::C(a, vec![N::C(b, vec![src(0), src(1)]), src(2)]));
      v.push(N::C(a, vec![src(0), N::C(b, vec![src(1), src(2)])]));
    }
  }
  v
}
fn flat_maps() -> Vec<N> {
  vec![
    src(0).u(Op::FlatMap(vec![src(1)])),
    src(0).u(Op::FlatMap(vec![src(1), N::Iter(vec![7, 8])])),
    src(0).u(Op::FlatMap(vec![N::Just(7), src(1)])),
    src(0).u(Op::FlatMap(vec![N::Empty, src(1)])),
    src(0).u(Op::FlatMap(vec![src(1), N::Throw(8)])),
    src(0).u(Op::FlatMap(vec![src(1), N::Never])),
    src(0).u(Op::FlatMap(vec![src(1), N::Repeat(3).u(Op::Take(2))])),
  ]
}
fn twos() -> Vec<N> {
  let mut v: Vec<N> = COS.iter().map(|c| over(*c, 2)).collect();
  v.extend(flat_maps());
  v
}

/// lengths, parameters, numbers of sources, of subscribers and of attempts far beyond the exhaustive families:
/// a few elements of each.  `exact`: only what the reference describes
fn large(q: bool, exact: bool) -> Fams {
  let mut f = long(q, exact);
  f.extend(wides(q));
  f.extend(crowds(q, exact));
  f
}
fn large_ones() -> Vec<N> {
  let mut one = vec![src(0)];
  one.extend(singles(&all_ops_plus(), src(0)));
  one.extend(singles(&ops_large(), src(0)));
  one
}
fn long(q: bool, exact: bool) -> Fams {
  let mut f: Fams = vec![];
  let one = large_ones();
  let few = [17usize, 33, 65, 130];
  f.push(product("long-cold", one.clone(), cold1(longs(&lengths(q), if q { 3 } else { 6 }, &ENDS))));
  f.push(product("long-hot", one.clone(), hot1(Leaf::Hot, longs(&[10, 17, 33, 65, 100, 130, 257, 300], 3, &ENDS))));
  for k in 0..if exact { 0 } else { 4u8 } {
    f.push(product(&format!("long-subj{}", k), one.clone(), hot1(Leaf::Subj(k), longs(&[17, 65, 257], 1, &ENDS))));
  }
  let rep = rep_plus();
  f.push(product("long-2", pairs(&rep, &rep, src(0)), cold1(longs(&few, if q { 1 } else { 5 }, &ENDS))));
  let mut lo = vec![];
  for n in [17usize, 100] {
    for e in ENDS {
      let h = emits(0, &longs(&[n], 1, &[e])[0]);
      for at in [0, 1, n / 2, n - 1, n] {
        let mut h = h.clone();
        h.insert(at, Step::Unsub(0));
        lo.push((vec![Leaf::Hot], h));
      }
    }
  }
  f.push(product("long-unsub", one, lo));
  f
}
fn wides(q: bool) -> Fams {
  let mut f: Fams = vec![];
  let nary: Vec<Co> = NARY.iter().copied().filter(|c| *c != Co::SeqEq).collect();
  for k in if q { vec![5, 6, 9, 17] } else { vec![5, 6, 7, 8, 9, 10, 16, 17, 33] } {
    f.push(product(&format!("wide-{}", k), nary.iter().map(|c| over(*c, k)).collect(), hots(k, wide(k, false))));
    f.push(product(&format!("wide-equal-{}", k), vec![over(Co::SeqEq, k), over(Co::Combine, k)], hots(k, wide(k, true))));
    // all of them inner observables
    let fm = src(0).u(Op::FlatMap((1..=k).map(N::Src).collect()));
    let mut v = vec![];
    for h in wide(k, false) {
      for outer_ends in [false, true] {
        let mut s: Vec<Step> = (0..k).map(|j| Step::Emit(0, Ev::Next(j as i64))).collect();
        if outer_ends {
          s.push(Step::Emit(0, Ev::Done));
        }
        s.extend(h.iter().map(|st| if let Step::Emit(l, e) = st { Step::Emit(l + 1, *e) } else { st.clone() }));
        if !outer_ends {
          s.push(Step::Emit(0, Ev::Done));
        }
        v.push((vec![Leaf::Hot; k + 1], s));
      }
    }
    f.push(product(&format!("wide-inner-{}", k), vec![fm], v));
  }
  let not_seq: Vec<N> = COS.iter().filter(|c| **c != Co::SeqEq).map(|c| over(*c, 2)).collect();
  let sizes: Vec<usize> = if q { vec![9, 17, 33, 65, 129, 257] } else { vec![7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1025] };
  f.push(product("lead", not_seq, hots(2, leads(&sizes, false))));
  f.push(product("lead-equal", vec![over(Co::SeqEq, 2), over(Co::Combine, 2)], hots(2, leads(&sizes, true))));
  f.push(product("lead-flat-map", flat_maps(), hots(2, leads(&[9, 17, 33], false))));
  f
}
fn crowds(q: bool, exact: bool) -> Fams {
  let mut f: Fams = vec![];
  let one = large_ones();
  for n in if q { vec![5, 9, 17] } else { vec![4, 5, 6, 7, 8, 9, 16, 17, 33, 65] } {
    let but: Vec<N> = one.iter().filter(|p| !exact || !p.has_op(&|o| matches!(o, Op::RefCount | Op::Replay))).cloned().collect();
    f.push(product(&format!("crowd-{}", n), but, hots(1, crowd(n))));
    for k in 0..if exact { 0 } else { 4u8 } {
      let v = crowd(n).into_iter().map(|h| (vec![Leaf::Subj(k)], h)).collect();
      f.push(product(&format!("crowd-{}-subj{}", n, k), vec![src(0), src(0).u(Op::Map(0)), src(0).u(Op::RefCount), src(0).u(Op::Replay)], v));
    }
  }
  f
}
/// many attempts
fn many_attempts(q: bool) -> Fams {
  let mut v = vec![];
  for n in if q { vec![5usize, 6, 8, 9, 10, 16, 17, 33] } else { vec![5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100] } {
    for op in [Op::Retry(n), Op::Retry(0), Op::RetryWhen(1), Op::RetryWhen(2)] {
      for fails in [n - 2, n - 1, n, n + 1] {
        for items in 0..3i64 {
          for last in [vec![Ev::Next(9), Ev::Done], vec![Ev::Err(5)], vec![Ev::Next(9)]] {
            if last == [Ev::Err(5)] && matches!(op, Op::Retry(0) | Op::RetryWhen(1)) {
              continue; // for ever
            }
            let mut scripts: Vec<Vec<Ev>> = (0..fails)
              .map(|k| {
                let mut s: Vec<Ev> = (0..items).map(|j| Ev::Next(10 * k as i64 + j)).collect();
                s.push(Ev::Err(k as i64 % 2));
                s
              })
              .collect();
            scripts.push(last);
            for prog in [src(0).u(op.clone()), src(0).u(Op::Map(0)).u(op.clone()).u(Op::Take(20)), src(0).u(Op::Scan(0)).u(op.clone())] {
              v.push(Case::new(prog, vec![Leaf::Cold { scripts: scripts.clone(), polite: true }], vec![]));
            }
          }
        }
        // the same with a hot source
        for prog in [src(0).u(op.clone()), src(0).u(Op::Buffer(2)).u(op.clone())] {
          let mut h = vec![];
          for k in 0..fails {
            h.extend([Step::Emit(0, Ev::Next(k as i64)), Step::Emit(0, Ev::Err(k as i64 % 2))]);
          }
          h.extend([Step::Emit(0, Ev::Next(91)), Step::Emit(0, Ev::Done)]);
          v.push(Case::new(prog, vec![Leaf::Hot], h));
        }
      }
    }
  }
  vec![family_of("many-attempts", v)]
}

// ---------------------------------------------------------------- C02

pub fn c02(ctx: &Ctx) {
  let eq = Eq { subs: true, taps: true };
  let all = ops_all();
  let rep = ops_rep();
  let mut f: Fams = vec![];
  let creat = creations();
  f.push(product("creation", creat.clone(), vec![(vec![], vec![])]));
  f.push(product("op-hot", singles(&all, src(0)), hot1(Leaf::Hot, scripts(&[0, 1, 2], 4))));
  f.push(product("op-cold", singles(&all, src(0)), cold1(scripts(&[0, 1, 2], ctx.pick(7, 9)))));
  f.push(product("op-bits", singles(&all, src(0)), cold1(scripts(&[0, 1], ctx.pick(8, 11)))));
  f.push(product("op-signs", singles(&all, src(0)), cold1(scripts(&[-2, 0, 3], ctx.pick(5, 7)))));
  f.push(product("op-subject", singles(&all, src(0)), hot1(Leaf::HotSubject, scripts(&[0, 1, 2], ctx.pick(3, 5)))));
  f.push(product(
    "creation-more",
    vec![N::Range(-3, 8), N::Range(5, 5), N::Range(i32::MAX as i64, 3), N::Just(-1), N::Iter((0..40).collect()), N::Start(-1), N::FromOk(-1)]
      .into_iter()
      .flat_map(|c| {
        let mut v = singles(&all, c.clone());
        v.push(c);
        v
      })
      .collect(),
    vec![(vec![], vec![])],
  ));
  let mut cr = vec![];
  for c in &creat {
    cr.extend(singles(&all, c.clone()));
  }
  f.push(product("creation-op", cr, vec![(vec![], vec![])]));
  let mut cr = vec![];
  for c in &creat {
    cr.extend(pairs(&all, &rep, c.clone()));
  }
  f.push(product("creation-op2", cr, vec![(vec![], vec![])]));
  f.push(product("op2-cold", pairs(&all, &all, src(0)), cold1(scripts(&[0, 1, 2], ctx.pick(2, 4)))));
  f.push(product("op2-hot", pairs(&all, &all, src(0)), hot1(Leaf::Hot, scripts(&[0, 1, 2], ctx.pick(3, 4)))));
  f.push(product("op2-long", pairs(&rep, &rep, src(0)), cold1(scripts(&[0, 1, 2], ctx.pick(4, 7)))));
  f.push(product(
    "op3",
    if ctx.quick() { triples(&rep, &rep, &rep, src(0)) } else { triples(&all, &all, &all, src(0)) },
    cold1(scripts(&[0, 1, 2], ctx.pick(3, 3)).into_iter().filter(|s| s.len() >= 3).collect()),
  ));
  if !ctx.quick() {
    f.push(product("op3-long", triples(&rep, &rep, &rep, src(0)), cold1(scripts(&[0, 1, 2], 5))));
  }
  let pass = ops_pass();
  f.push(product("pass", singles(&pass, src(0)), hot1(Leaf::Hot, scripts(&[0, 1, 2], 3))));
  f.extend(large(ctx.quick(), true));
  sweep(ctx, f, &eq_judge(eq));
  sweep(ctx, splits(ctx.quick()), &judge_split);
}

// ---------------------------------------------------------------- C01

/// programs over one source used by the grammar, error, teardown and release checks
fn all_ops_plus() -> Vec<Op> {
  let mut v = ops_all();
  v.extend(ops_pass());
  v.extend([Op::Retry(2), Op::RetryWhen(2), Op::OnErr(vec![N::Iter(vec![6, 7]), N::Throw(9), N::Empty])]);
  v.push(Op::FlatMap(vec![N::Iter(vec![7, 8]), N::Empty]));
  v.extend([Op::SelfConcat, Op::SelfMerge, Op::SelfZip]);
  v
}
fn rep_plus() -> Vec<Op> {
  let mut v = ops_rep();
  v.extend([Op::ObserveOn, Op::RefCount, Op::Replay, Op::Retry(2), Op::OnErr(vec![N::Iter(vec![6, 7])])]);
  v.push(Op::FlatMap(vec![N::Iter(vec![7, 8]), N::Empty]));
  v
}

pub fn c01(ctx: &Ctx) {
  let q = ctx.quick();
  let plus = all_ops_plus();
  let rep = rep_plus();
  let mut f: Fams = vec![];
  let raw_cold = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> { raw(n).into_iter().map(|s| (vec![heedless(s)], vec![])).collect() };
  let raw_hot = |l: Leaf, n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    raw(n).into_iter().filter(|s| s.len() == n).map(|s| (vec![l.clone()], emits(0, &s))).collect()
  };
  let mut one = vec![src(0)];
  one.extend(singles(&plus, src(0)));
  f.push(product("one-cold", one.clone(), raw_cold(if q { 5 } else { 7 })));
  f.push(product("one-hot", one.clone(), raw_hot(Leaf::Hot, if q { 5 } else { 7 })));
  f.push(product("one-subject", one.clone(), raw_hot(Leaf::HotSubject, if q { 4 } else { 6 })));
  f.push(product("two-cold", pairs(&rep, &rep, src(0)), raw_cold(if q { 4 } else { 5 })));
  f.push(product("two-hot", pairs(&rep, &rep, src(0)), raw_hot(Leaf::Hot, if q { 4 } else { 5 })));
  f.push(product("two-all", pairs(&plus, &plus, src(0)), raw_cold(if q { 3 } else { 4 })));
  // several misbehaving sources into one combinator
  let h2 = |n: usize| hots(2, interleave_raw(2, n));
  let c2 = twos();
  f.push(product("combine-2", c2.clone(), h2(if q { 5 } else { 7 })));
  f.push(product("combine-3", nary3(), hots(3, interleave_raw(3, if q { 4 } else { 5 }))));
  f.push(product("combine-down", nest_down(&COS, 2, &rep), h2(if q { 4 } else { 5 })));
  f.push(product("combine-up", nest_up(&COS, &rep), h2(if q { 4 } else { 5 })));
  f.push(product("combine-nested", nest_co(), hots(3, interleave_raw(3, if q { 3 } else { 5 }))));
  let mut fm = vec![];
  for p in flat_maps() {
    for o in &rep {
      fm.push(p.clone().u(o.clone()));
    }
  }
  f.push(product("flat-map-down", fm, h2(if q { 4 } else { 5 })));
  f.push(product("combine-cold", c2.clone(), {
    let mut v = vec![];
    for a in raw(if q { 3 } else { 4 }) {
      for b in raw(if q { 2 } else { 3 }) {
        v.push((vec![heedless(a.clone()), heedless(b)], vec![]));
      }
    }
    v
  }));
  // operators with threads and time, driven in the middle of their waiting
  let timed: Vec<(Vec<Leaf>, Vec<Step>)> = raw(if q { 4 } else { 5 })
    .into_iter()
    .map(|s| {
      let mut st = emits(0, &s);
      st.push(Step::Wait(40));
      (vec![Leaf::Hot], st)
    })
    .collect();
  let times = ops_time();
  f.push(product("time", singles(&times, src(0)), timed.clone()));
  let mut tp = pairs(&times, &rep, src(0));
  tp.extend(pairs(&rep, &times, src(0)));
  let timed3: Vec<_> = timed.iter().filter(|t| t.1.len() <= if q { 4 } else { 5 }).cloned().collect();
  f.push(product("time-2", tp, timed3));
  reentrant(&mut f, q);
  inside(&mut f, q, true, |_, _| true);
  f.extend(large(q, false));
  sweep(ctx, f, &judge_grammar);
}
/// a callback of the subscriber makes the sources emit: nested deliveries
fn reentrant(f: &mut Fams, q: bool) {
  let plus = all_ops_plus();
  let rep = rep_plus();
  let mut one = vec![src(0)];
  one.extend(singles(&plus, src(0)));
  let raw1 = |l: Leaf, n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    raw(n).into_iter().filter(|s| s.len() == n).map(|s| (vec![l.clone()], emits(0, &s))).collect()
  };
  let evs = [Ev::Next(1), Ev::Done, Ev::Err(7)];
  for at in 0..3usize {
    for ev in evs {
      let set = move |c: &mut Case| c.react = vec![(at, 0, ev)];
      let nm = |s: &str| format!("{}-in-{}-{}", s, at, show(&ev));
      f.push(each_case(&nm("re-hot"), one.clone(), raw1(Leaf::Hot, if q { 3 } else { 5 }), set));
      f.push(each_case(&nm("re-subject"), one.clone(), raw1(Leaf::HotSubject, if q { 3 } else { 4 }), set));
      for k in 1..4u8 {
        f.push(each_case(&nm(&format!("re-subj{}", k)), one.clone(), raw1(Leaf::Subj(k), if q { 2 } else { 4 }), set));
      }
      f.push(each_case(&nm("re-two"), pairs(&rep, &rep, src(0)), raw1(Leaf::Hot, if q { 2 } else { 4 }), set));
      for l in 0..2 {
        let set = move |c: &mut Case| c.react = vec![(at, l, ev), (at, 1 - l, Ev::Next(8))];
        let nm = |s: &str| format!("{}-in-{}-s{}-{}", s, at, l, show(&ev));
        f.push(each_case(&nm("re-combine"), twos(), hots(2, interleave_raw(2, if q { 3 } else { 4 })), set));
        if !q {
          f.push(each_case(&nm("re-combine-down"), nest_down(&COS, 2, &rep), hots(2, interleave_raw(2, 3)), set));
          f.push(each_case(&nm("re-combine-up"), nest_up(&COS, &rep), hots(2, interleave_raw(2, 3)), set));
        }
      }
    }
  }
  // several reactions of one subscriber
  let sets: Vec<Vec<(usize, usize, Ev)>> = vec![
    vec![(1, 0, Ev::Next(1)), (2, 0, Ev::Next(2)), (3, 0, Ev::Done), (0, 0, Ev::Next(3))],
    vec![(1, 0, Ev::Next(1)), (1, 0, Ev::Err(7)), (0, 0, Ev::Next(3)), (0, 0, Ev::Done)],
    vec![(1, 0, Ev::Done), (1, 0, Ev::Next(3)), (0, 0, Ev::Err(7))],
  ];
  for (i, r) in sets.into_iter().enumerate() {
    let r2 = r.clone();
    f.push(each_case(&format!("re-many-{}", i), one.clone(), raw1(Leaf::Hot, if q { 3 } else { 4 }), move |c| c.react = r.clone()));
    f.push(each_case(&format!("re-many-subject-{}", i), one.clone(), raw1(Leaf::HotSubject, if q { 2 } else { 4 }), move |c| c.react = r2.clone()));
  }
}
/// the user's functions re-enter the library: those given to operators, and the callbacks
fn inside(f: &mut Fams, q: bool, stateful: bool, want: impl Fn(Place, Inside) -> bool) {
  let plus = all_ops_plus();
  let rep = rep_plus();
  let mut one = vec![src(0)];
  one.extend(singles(&plus, src(0)));
  one.extend(flat_maps());
  let exact = |l: Leaf, n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    raw(n).into_iter().filter(|s| s.len() == n).map(|s| (vec![l.clone(), Leaf::Hot], emits(0, &s))).collect()
  };
  let acts = [
    Inside::Emit(0, Ev::Next(1)),
    Inside::Emit(0, Ev::Done),
    Inside::Emit(0, Ev::Err(7)),
    Inside::Emit(1, Ev::Next(8)),
    Inside::Emit(1, Ev::Done),
    Inside::Unsub,
    Inside::Sub,
  ];
  for place in [Place::Function, Place::Callback] {
    for n in 1..if q { 3 } else { 4usize } {
      for act in acts {
        if !want(place, act) || place == Place::Callback && matches!(act, Inside::Emit(..)) {
          continue; // the latter are the re- families
        }
        let set = move |c: &mut Case| c.inside = vec![(place, n, act)];
        let nm = |s: &str| format!("{}-{:?}-{}-{:?}", s, place, n, act);
        // scan and reduce call their function under their lock: see fold-reenters
        let but = |v: Vec<N>| -> Vec<N> {
          let folds = |p: &N| show_n(p).contains("Scan(") || show_n(p).contains("Reduce(");
          v.into_iter().filter(|p| !(place == Place::Function && matches!(act, Inside::Emit(..)) && folds(p))).collect()
        };
        let one = but(one.clone());
        f.push(each_case(&nm("in-hot"), one.clone(), exact(Leaf::Hot, if q { 3 } else { 4 }), set));
        f.push(each_case(&nm("in-subject"), one.clone(), exact(Leaf::HotSubject, if q { 2 } else { 4 }), set));
        if stateful {
          for k in 1..4u8 {
            f.push(each_case(&nm(&format!("in-subj{}", k)), one.clone(), exact(Leaf::Subj(k), if q { 2 } else { 3 }), set));
          }
        }
        f.push(each_case(&nm("in-two"), but(pairs(&rep, &rep, src(0))), exact(Leaf::Hot, if q { 2 } else { 3 }), set));
        f.push(each_case(&nm("in-combine"), twos(), hots(2, interleave_raw(2, 3)), set));
        if !q {
          f.push(each_case(&nm("in-combine-down"), but(nest_down(&COS, 2, &rep)), hots(2, interleave_raw(2, 3)), set));
          f.push(each_case(&nm("in-combine-up"), but(nest_up(&COS, &rep)), hots(2, interleave_raw(2, 3)), set));
        }
      }
    }
  }
  let folds: Vec<N> = [Op::Scan(0), Op::Reduce(0)].iter().map(|o| src(0).u(o.clone())).collect();
  for (name, act) in [("next", Inside::Emit(0, Ev::Next(1))), ("complete", Inside::Emit(0, Ev::Done))] {
    for leaf in [Leaf::Hot, Leaf::HotSubject] {
      let steps = emits(0, &[Ev::Next(0), Ev::Next(0)]);
      let set = move |c: &mut Case| c.inside = vec![(Place::Function, 1, act)];
      let nm = format!("fold-reenters-{}-{}", name, if leaf == Leaf::Hot { "hot" } else { "subject" });
      f.push(each_case(&nm, folds.clone(), vec![(vec![leaf], steps)], set));
    }
  }
}
/// every interleaving of these scripts, one per source
fn merges(scripts: &[Vec<Ev>]) -> Vec<Vec<Step>> {
  fn go(at: &mut Vec<usize>, scripts: &[Vec<Ev>], cur: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    let mut over = true;
    for l in 0..scripts.len() {
      if at[l] < scripts[l].len() {
        over = false;
        cur.push(Step::Emit(l, scripts[l][at[l]]));
        at[l] += 1;
        go(at, scripts, cur, out);
        at[l] -= 1;
        cur.pop();
      }
    }
    if over {
      out.push(cur.clone());
    }
  }
  let mut out = vec![];
  go(&mut vec![0; scripts.len()], scripts, &mut vec![], &mut out);
  out
}
/// k sources of m items each: all ends (errors: of one source only), all interleavings.
/// `equal`: the sources' items are the same but, in a second set, for the last one of source 0
fn whole(k: usize, m: usize, equal: bool) -> Vec<(Vec<Leaf>, Vec<Step>)> {
  let mut v = vec![];
  for odd in 0..if equal { 2 } else { 1 } {
    for ends in seqs(&ENDS, k).into_iter().filter(|e| e.len() == k) {
      if ends.iter().filter(|e| matches!(e, Some(Ev::Err(_)))).count() > 1 {
        continue;
      }
      let scripts: Vec<Vec<Ev>> = ends
        .iter()
        .enumerate()
        .map(|(l, e)| {
          let mut s: Vec<Ev> = (0..m)
            .map(|j| Ev::Next(if !equal { (10 * l + j) as i64 } else if odd == 1 && l == 0 && j + 1 == m { 99 } else { j as i64 }))
            .collect();
          s.extend(e.clone());
          s
        })
        .collect();
      v.extend(hots(k, merges(&scripts)));
    }
  }
  v
}
fn flat_map3() -> Vec<N> {
  vec![
    src(0).u(Op::FlatMap(vec![src(1), src(2), src(3)])),
    src(0).u(Op::FlatMap(vec![src(1), src(2), src(3)])).u(Op::Take(3)),
    src(0).u(Op::FlatMap(vec![src(1).u(Op::Take(1)), src(2).u(Op::Scan(0)), src(3)])),
  ]
}
/// for flat_map3: the outer source starts one to three inner ones, then anything
fn with_inners(q: bool) -> Vec<(Vec<Leaf>, Vec<Step>)> {
  let mut v = vec![];
  for n in 1..4 {
    for h in interleave(4, if q { 4 } else { 5 }, Items::Serial) {
      let mut s: Vec<Step> = (0..n).map(|k| Step::Emit(0, Ev::Next(k))).collect();
      s.extend(h);
      v.push((vec![Leaf::Hot; 4], s));
    }
  }
  v
}
fn nary3() -> Vec<N> {
  let mut v: Vec<N> = NARY.iter().map(|c| over(*c, 3)).collect();
  v.push(src(0).u(Op::FlatMap(vec![src(1), src(2)])));
  v
}

// ---------------------------------------------------------------- C03

/// mixtures of cold and hot sources, with the histories that drive the hot ones
fn mixed(items: Items) -> Vec<(Vec<Leaf>, Vec<Step>)> {
  let mut v = vec![];
  let val = |l: i64, k: i64| match items {
    Items::Serial => 10 * l + k,
    Items::Bits => k % 2,
  };
  let scr = |l: i64| -> Vec<Vec<Ev>> {
    let mut out = vec![];
    for n in 0..3 {
      for e in ENDS {
        let mut s: Vec<Ev> = (0..n).map(|k| Ev::Next(val(l, k))).collect();
        s.extend(e.map(|e| if let Ev::Err(_) = e { Ev::Err(l) } else { e }));
        out.push(s);
      }
    }
    out
  };
  for a in scr(0) {
    for b in scr(1) {
      v.push((vec![cold(a.clone()), cold(b.clone())], vec![]));
      v.push((vec![cold(a.clone()), Leaf::Hot], emits(1, &b)));
      v.push((vec![Leaf::Hot, cold(b.clone())], emits(0, &a)));
    }
  }
  for a in scr(0) {
    v.push((vec![cold(a.clone()), Leaf::Endless], vec![]));
    v.push((vec![Leaf::Endless, cold(a.clone())], vec![]));
    v.push((vec![Leaf::Endless, Leaf::Hot], emits(1, &a)));
    v.push((vec![Leaf::Hot, Leaf::Endless], emits(0, &a)));
  }
  v
}

/// every way to make each of n sources cold or hot, at least one of them cold
fn mixes(n: usize, max: usize, hot_len: usize, items: Items) -> Vec<(Vec<Leaf>, Vec<Step>)> {
  let val = |l: usize, k: i64| match items {
    Items::Serial => 10 * l as i64 + k,
    Items::Bits => k % 2,
  };
  let scr = |l: usize| -> Vec<Vec<Ev>> {
    let mut out = vec![];
    for n in 0..=max {
      for e in ENDS {
        let mut s: Vec<Ev> = (0..n).map(|k| Ev::Next(val(l, k as i64))).collect();
        s.extend(e.map(|e| if let Ev::Err(_) = e { Ev::Err(l as i64) } else { e }));
        out.push(s);
      }
    }
    out
  };
  let mut v = vec![];
  for mask in 0..(1usize << n) - 1 {
    let hot: Vec<usize> = (0..n).filter(|l| mask >> l & 1 == 1).collect();
    let mut leaves: Vec<Vec<Leaf>> = vec![vec![]];
    for l in 0..n {
      let choice: Vec<Leaf> = if hot.contains(&l) { vec![Leaf::Hot] } else { scr(l).into_iter().map(cold).collect() };
      leaves = leaves
        .into_iter()
        .flat_map(|p| {
          choice.iter().map(move |c| {
            let mut p = p.clone();
            p.push(c.clone());
            p
          })
          .collect::<Vec<_>>()
        })
        .collect();
    }
    let steps: Vec<Vec<Step>> = if hot.is_empty() {
      vec![vec![]]
    } else {
      interleave(hot.len(), hot_len, items)
        .into_iter()
        .map(|h| {
          h.into_iter()
            .map(|s| match s {
              Step::Emit(l, e) => Step::Emit(
                hot[l],
                match e {
                  Ev::Next(x) if items == Items::Serial => Ev::Next(x + 10 * (hot[l] - l) as i64),
                  Ev::Err(_) => Ev::Err(hot[l] as i64),
                  e => e,
                },
              ),
              s => s,
            })
            .collect()
        })
        .collect()
    };
    for l in &leaves {
      for st in &steps {
        v.push((l.clone(), st.clone()));
      }
    }
  }
  v
}

pub fn c03(ctx: &Ctx) {
  let q = ctx.quick();
  let eq = Eq { subs: true, taps: false };
  let rep = rep_plus();
  let mut f: Fams = vec![];
  let c2 = twos();
  let not_seq: Vec<Co> = COS.iter().copied().filter(|c| *c != Co::SeqEq).collect();
  f.push(product("pairwise", c2.clone(), hots(2, interleave(2, if q { 7 } else { 9 }, Items::Serial))));
  f.push(product("pairwise-subject", c2.clone(), {
    interleave(2, if q { 5 } else { 7 }, Items::Serial).into_iter().map(|s| (vec![Leaf::HotSubject; 2], s)).collect()
  }));
  f.push(product("pairwise-bits", c2.clone(), hots(2, interleave(2, if q { 6 } else { 7 }, Items::Bits))));
  f.push(product("mixed", c2.clone(), mixed(Items::Serial)));
  f.push(product("mixed-bits", c2.clone(), mixed(Items::Bits)));
  f.push(product("three", nary3(), hots(3, interleave(3, if q { 5 } else { 7 }, Items::Serial))));
  f.push(product("three-bits", vec![over(Co::SeqEq, 3), over(Co::Combine, 3)], hots(3, interleave(3, if q { 5 } else { 6 }, Items::Bits))));
  f.push(product("four", NARY.iter().map(|c| over(*c, 4)).collect(), hots(4, interleave(4, if q { 5 } else { 6 }, Items::Serial))));
  for (k, m) in if q { vec![(2, 3), (3, 2), (4, 1)] } else { vec![(2, 5), (3, 3), (4, 1)] } {
    f.push(product(&format!("whole-{}x{}", k, m), NARY.iter().map(|c| over(*c, k)).collect(), whole(k, m, false)));
    f.push(product(&format!("whole-equal-{}x{}", k, m), vec![over(Co::SeqEq, k), over(Co::Combine, k)], whole(k, m, true)));
  }
  f.push(product("flat-map-3", flat_map3(), with_inners(q)));
  f.push(product("one-input", NARY.iter().map(|c| over(*c, 1)).collect(), hots(1, interleave(1, 4, Items::Bits))));
  f.push(product("down", nest_down(&not_seq, 2, &rep), hots(2, interleave(2, if q { 5 } else { 6 }, Items::Serial))));
  f.push(product("down-bits", nest_down(&[Co::SeqEq, Co::Merge], 2, &rep), hots(2, interleave(2, if q { 4 } else { 5 }, Items::Bits))));
  f.push(product("up", nest_up(&not_seq, &rep), hots(2, interleave(2, if q { 5 } else { 6 }, Items::Serial))));
  f.push(product("up-bits", nest_up(&COS, &rep), hots(2, interleave(2, if q { 4 } else { 5 }, Items::Bits))));
  f.push(product("nested", nest_co(), hots(3, interleave(3, if q { 5 } else { 6 }, Items::Serial))));
  let mut fm = vec![];
  for p in flat_maps() {
    for o in &rep {
      fm.push(p.clone().u(o.clone()));
    }
  }
  for o in &rep {
    fm.push(src(0).u(Op::FlatMap(vec![src(1).u(o.clone()), N::Iter(vec![7, 8])])));
    fm.push(src(0).u(o.clone()).u(Op::FlatMap(vec![src(1), N::Iter(vec![7, 8])])));
  }
  f.push(product("flat-map", fm, hots(2, interleave(2, if q { 5 } else { 6 }, Items::Serial))));
  // some sources cold, some hot
  let many: Vec<N> = NARY.iter().map(|c| over(*c, 4)).collect();
  f.push(product("three-mixed", nary3(), mixes(3, if q { 2 } else { 3 }, if q { 3 } else { 4 }, Items::Serial)));
  f.push(product("three-mixed-bits", vec![over(Co::SeqEq, 3), over(Co::Combine, 3)], mixes(3, 2, if q { 2 } else { 3 }, Items::Bits)));
  f.push(product("four-mixed", many, mixes(4, 1, if q { 2 } else { 3 }, Items::Serial)));
  f.push(product("nested-mixed", nest_co(), mixes(3, 1, if q { 2 } else { 3 }, Items::Serial)));
  f.push(product("down-mixed", nest_down(&not_seq, 2, &rep), mixes(2, 2, if q { 2 } else { 3 }, Items::Serial)));
  f.push(product("up-mixed", nest_up(&COS, &rep), mixes(2, 2, if q { 2 } else { 3 }, Items::Serial)));
  let mut fm = flat_maps();
  for o in &rep {
    fm.push(src(0).u(Op::FlatMap(vec![src(1).u(o.clone()), N::Iter(vec![7, 8])])));
    fm.push(src(0).u(o.clone()).u(Op::FlatMap(vec![src(1), N::Iter(vec![7, 8])])));
  }
  f.push(product("flat-map-mixed", fm, mixes(2, 2, if q { 2 } else { 3 }, Items::Serial)));
  // ready_set_go: nothing the action emits is missed
  let mut rsg = vec![];
  let mut progs = twos();
  progs.push(src(0));
  progs.extend(nest_down(&[Co::Merge, Co::Zip], 2, &rep));
  for p in progs {
    for h in interleave(2, if q { 4 } else { 5 }, Items::Serial) {
      for cut in [h.len(), 2.min(h.len())] {
        let mut c = Case::new(p.clone(), vec![Leaf::HotSubject; 2], h[cut..].to_vec());
        c.rsg = Some(
          h[..cut]
            .iter()
            .map(|s| match s {
              Step::Emit(l, e) => (*l, *e),
              _ => unreachable!(),
            })
            .collect(),
        );
        rsg.push(c);
      }
    }
  }
  f.push(family_of("ready-set-go", rsg));
  f.extend(wides(q));
  sweep(ctx, f, &eq_judge(eq));
}

// ---------------------------------------------------------------- C04

/// scripts of one attempt
fn attempts(max: usize) -> Vec<Vec<Ev>> {
  let mut v = vec![];
  for n in 0..=max {
    for e in [Some(Ev::Err(0)), Some(Ev::Err(1)), Some(Ev::Err(2)), Some(Ev::Done), None] {
      let mut s: Vec<Ev> = (0..n).map(|k| Ev::Next(k as i64)).collect();
      s.extend(e);
      v.push(s);
    }
  }
  v
}
/// every assignment of a script to each of the first n subscriptions
fn plans(n: usize, max: usize) -> Vec<Vec<Vec<Ev>>> {
  seqs_exact(&attempts(max), n)
}

pub fn c04(ctx: &Ctx) {
  let q = ctx.quick();
  let eq = Eq { subs: true, taps: true };
  let all = ops_all();
  let rep = rep_plus();
  let rec = ops_rec(1);
  let mut f: Fams = vec![];
  let err_hot = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    let mut v = vec![];
    for s in seqs(&[0, 1, 2], n) {
      for e in [5, 9] {
        let mut t: Vec<Ev> = s.iter().map(|x| Ev::Next(*x)).collect();
        t.push(Ev::Err(e));
        v.push((vec![Leaf::Hot], emits(0, &t)));
      }
    }
    v
  };
  let mut one = singles(&all, src(0));
  one.extend(singles(&ops_pass(), src(0)));
  f.push(product("through", one, err_hot(if q { 4 } else { 6 })));
  f.push(product("through-2", pairs(&all, &all, src(0)), err_hot(if q { 2 } else { 4 })));
  f.push(product("through-3", triples(&rep, &rep, &rep, src(0)), err_hot(if q { 1 } else { 2 })));
  f.push(product(
    "creation",
    {
      let mut v = vec![];
      for c in [N::Throw(3), N::FromErr(4), N::Defer(Box::new(N::Throw(6)))] {
        v.push(c.clone());
        v.extend(singles(&all, c.clone()));
        v.extend(singles(&rec, c.clone()));
      }
      v
    },
    vec![(vec![cold(vec![]), cold(vec![Ev::Next(7), Ev::Done])], vec![])],
  ));
  // combinators with an error from every source at every moment
  f.push(product("combine", twos(), hots(2, interleave(2, if q { 6 } else { 8 }, Items::Serial))));
  f.push(product("combine-3", nary3(), hots(3, interleave(3, if q { 4 } else { 6 }, Items::Serial))));
  f.push(product("combine-down", nest_down(&COS, 2, &rep), hots(2, interleave(2, 4, Items::Serial))));
  // resubscription: a script per attempt
  let plan_cold = |n: usize, m: usize, polite: bool| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    plans(n, m)
      .into_iter()
      .map(|p| (vec![Leaf::Cold { scripts: p, polite }, cold(vec![Ev::Next(6), Ev::Next(7), Ev::Done])], vec![]))
      .collect()
  };
  f.push(product("retry", singles(&rec, src(0)), plan_cold(if q { 3 } else { 4 }, 2, true)));
  f.push(product("retry-heedless", singles(&rec, src(0)), plan_cold(3, 1, false)));
  let finite: Vec<Op> = rec.iter().filter(|o| **o != Op::Retry(0) && **o != Op::RetryWhen(1)).cloned().collect();
  f.push(product("retry-2", pairs(&finite, &finite, src(0)), plan_cold(if q { 2 } else { 4 }, 1, true)));
  f.push(product("retry-up", pairs(&rep, &finite, src(0)), plan_cold(2, if q { 1 } else { 2 }, true)));
  f.push(product("retry-down", pairs(&finite, &rep, src(0)), plan_cold(2, if q { 1 } else { 2 }, true)));
  if !q {
    f.push(product("retry-3", triples(&finite, &rep, &finite, src(0)), plan_cold(2, 1, true)));
  }
  // hot sources, resubscribed in the middle of their life; a hot fallback
  f.push(product("retry-hot", singles(&rec, src(0)), hots(2, interleave_raw(2, if q { 5 } else { 7 }))));
  f.push(product("retry-subject", singles(&rec, src(0)), {
    interleave_raw(2, if q { 4 } else { 6 }).into_iter().map(|s| (vec![Leaf::HotSubject, Leaf::HotSubject], s)).collect()
  }));
  f.push(product("retry-hot-2", pairs(&finite, &finite, src(0)), hots(2, interleave_raw(2, if q { 4 } else { 5 }))));
  // retry over combinators
  f.push(product("retry-combine", nest_down(&COS, 2, &finite), {
    let mut v = vec![];
    for a in plans(2, 1) {
      for b in plans(if q { 1 } else { 2 }, 1) {
        v.push((vec![Leaf::Cold { scripts: a.clone(), polite: true }, Leaf::Cold { scripts: b.clone(), polite: true }], vec![]));
      }
    }
    v
  }));
  f.push(product("through-long", large_ones(), cold1(longs(&lengths(q), 1, &[Some(Ev::Err(5))]))));
  f.extend(wides(q));
  f.extend(many_attempts(q));
  sweep(ctx, f, &eq_judge(eq));
  sweep(ctx, splits(ctx.quick()), &judge_split);
}

// ---------------------------------------------------------------- C05

fn with_unsub(inputs: Vec<(Vec<Leaf>, Vec<Step>)>, twice: bool) -> Vec<(Vec<Leaf>, Vec<Step>)> {
  let mut v = vec![];
  for (l, s) in inputs {
    for mut t in everywhere(&s, &Step::Unsub(0)) {
      if twice {
        t.push(Step::Unsub(0));
      }
      v.push((l.clone(), t));
    }
  }
  v
}
fn each_case(name: &str, progs: Vec<N>, inputs: Vec<(Vec<Leaf>, Vec<Step>)>, f: impl Fn(&mut Case) + Send + Sync + 'static) -> Family {
  let fam = product(name, progs, inputs);
  let at = fam.at;
  family(name, fam.n, move |i| {
    let mut c = at(i);
    f(&mut c);
    c
  })
}

pub fn c05_seq(ctx: &Ctx) {
  let q = ctx.quick();
  let plus = all_ops_plus();
  let rep = rep_plus();
  let mut f: Fams = vec![];
  let raw1 = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    raw(n).into_iter().filter(|s| s.len() == n).map(|s| (vec![Leaf::Hot], emits(0, &s))).collect()
  };
  let rawc = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> { raw(n).into_iter().map(|s| (vec![heedless(s)], vec![Step::Unsub(0), Step::Unsub(0)])).collect() };
  let mut one = vec![src(0)];
  one.extend(singles(&plus, src(0)));
  f.push(product("one-hot", one.clone(), with_unsub(raw1(4), true)));
  f.push(product("one-cold", one.clone(), rawc(if q { 4 } else { 6 })));
  f.push(product("one-creation", {
    let mut v = creations();
    v.retain(|n| !matches!(n, N::Repeat(_) | N::Endless(_)));
    v
  }, vec![(vec![], vec![Step::Unsub(0), Step::Unsub(0)])]));
  f.push(product("one-subject", one.clone(), with_unsub(raw(3).into_iter().map(|s| (vec![Leaf::HotSubject], emits(0, &s))).collect(), false)));
  f.push(each_case("using", one.clone(), with_unsub(raw1(3), true), |c| c.using = true));
  f.push(product("two-hot", pairs(&rep, &rep, src(0)), with_unsub(raw1(if q { 3 } else { 4 }), false)));
  f.push(product("combine", twos(), with_unsub(hots(2, interleave_raw(2, if q { 4 } else { 5 })), false)));
  f.push(product("combine-3", nary3(), with_unsub(hots(3, interleave_raw(3, if q { 3 } else { 4 })), false)));
  f.push(product("combine-down", nest_down(&COS, 2, &rep), with_unsub(hots(2, interleave_raw(2, 3)), false)));
  f.push(product("combine-up", nest_up(&COS, &rep), with_unsub(hots(2, interleave_raw(2, 3)), false)));
  // from inside the callback
  for k in 0..3usize {
    let n = ["self-1", "self-2", "self-3"][k];
    f.push(each_case(n, one.clone(), raw1(if q { 4 } else { 5 }), move |c| c.self_unsub = Some(k)));
    let n = ["self-combine-1", "self-combine-2", "self-combine-3"][k];
    f.push(each_case(n, twos(), hots(2, interleave_raw(2, if q { 4 } else { 5 })), move |c| c.self_unsub = Some(k)));
    let n = ["self-two-1", "self-two-2", "self-two-3"][k];
    f.push(each_case(n, pairs(&rep, &rep, src(0)), raw1(if q { 3 } else { 4 }), move |c| c.self_unsub = Some(k)));
    let n = ["self-inner-1", "self-inner-2", "self-inner-3"][k];
    f.push(each_case(
      n,
      vec![
        src(0).u(Op::FlatMap(vec![src(1)])),
        src(0).u(Op::FlatMap(vec![src(1)])).u(Op::Map(0)),
        src(0).u(Op::FlatMap(vec![src(1).u(Op::Scan(0))])),
        N::C(Co::Concat, vec![src(0), src(1)]),
        src(0).u(Op::OnErr(vec![src(1)])),
      ],
      {
        let mut v = vec![];
        for h in raw(3) {
          for c in raw(3) {
            v.push((vec![Leaf::Hot, heedless(c)], emits(0, &h)));
          }
        }
        v
      },
      move |c| c.self_unsub = Some(k),
    ));
  }
  // two subscribers to one observable: each handle stops its own
  f.push(product("two-subscribers", one, {
    let mut v = vec![];
    for h in raw(3).into_iter().filter(|s| s.len() == 3) {
      for k in 0..2 {
        let mut s = vec![Step::Sub];
        s.extend(emits(0, &h));
        for at in 1..=s.len() {
          let mut t = s.clone();
          t.insert(at, Step::Unsub(k));
          v.push((vec![Leaf::Hot], t));
        }
      }
    }
    v
  }));
  // operators with threads
  f.push(product("time", singles(&ops_time(), src(0)), {
    let mut v = vec![];
    for (l, s) in with_unsub(raw1(3), false) {
      let mut t = s.clone();
      t.push(Step::Wait(40));
      v.push((l, t));
    }
    v
  }));
  f.extend(large(q, true));
  sweep(ctx, f, &judge_unsub);
  // from inside the user's functions
  let mut g: Fams = vec![];
  inside(&mut g, q, false, |_, a| a == Inside::Unsub);
  sweep(ctx, g, &judge_inside(false));
}

// ---------------------------------------------------------------- C06

pub fn c06(ctx: &Ctx) {
  let q = ctx.quick();
  let plus = all_ops_plus();
  let rep = rep_plus();
  let mut f: Fams = vec![];
  let raw1 = |l: Leaf, n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    raw(n).into_iter().filter(|s| s.len() == n).map(|s| (vec![l.clone()], emits(0, &s))).collect()
  };
  let rawc = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> { raw(n).into_iter().map(|s| (vec![heedless(s)], vec![])).collect() };
  let subj = |v: Vec<Vec<Step>>, k: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> { v.into_iter().map(|s| (vec![Leaf::HotSubject; k], s)).collect() };
  let mut one = vec![src(0)];
  one.extend(singles(&plus, src(0)));
  f.push(product("one-hot", one.clone(), raw1(Leaf::Hot, if q { 4 } else { 6 })));
  f.push(product("one-cold", one.clone(), rawc(if q { 4 } else { 6 })));
  f.push(product("one-subject", one.clone(), raw1(Leaf::HotSubject, if q { 4 } else { 5 })));
  f.push(product("one-unsub", one.clone(), with_unsub(raw1(Leaf::Hot, 3), false)));
  f.push(product("one-unsub-subject", one.clone(), with_unsub(raw1(Leaf::HotSubject, 3), false)));
  f.push(each_case("one-self", one.clone(), raw1(Leaf::Hot, 3), |c| c.self_unsub = Some(1)));
  f.push(product("one-endless", one.clone(), vec![(vec![Leaf::Endless], vec![])]));
  f.push(product("two-cold", pairs(&rep, &rep, src(0)), rawc(if q { 3 } else { 4 })));
  f.push(product("two-hot", pairs(&rep, &rep, src(0)), raw1(Leaf::Hot, if q { 3 } else { 5 })));
  f.push(product("two-subject", pairs(&rep, &rep, src(0)), raw1(Leaf::HotSubject, 3)));
  f.push(product("two-endless", pairs(&plus, &rep, src(0)), vec![(vec![Leaf::Endless], vec![])]));
  let mut end3 = triples(&rep, &rep, &[Op::Take(2), Op::First, Op::Contains(1), Op::TakeWhile(2)], src(0));
  end3.extend(triples(&[Op::Take(2), Op::First, Op::ElementAt(2)], &rep, &rep, src(0)));
  f.push(product("three-endless", end3, vec![(vec![Leaf::Endless], vec![])]));
  let mut cr = vec![];
  for c in [N::Repeat(1), N::Endless(0)] {
    cr.extend(pairs(&plus, &rep, c));
  }
  f.push(product("creation-endless", cr, vec![(vec![], vec![])]));
  f.push(product("combine", twos(), hots(2, interleave_raw(2, if q { 5 } else { 6 }))));
  f.push(product("combine-bits", twos(), hots(2, interleave(2, if q { 5 } else { 6 }, Items::Bits))));
  f.push(product("combine-subject", twos(), subj(interleave_raw(2, if q { 4 } else { 5 }), 2)));
  f.push(product("combine-mixed", twos(), mixed(Items::Serial)));
  f.push(product("combine-unsub", twos(), with_unsub(hots(2, interleave_raw(2, 3)), false)));
  f.push(product("combine-3", nary3(), hots(3, interleave_raw(3, if q { 4 } else { 5 }))));
  f.push(product("combine-down", nest_down(&COS, 2, &rep), hots(2, interleave_raw(2, if q { 3 } else { 4 }))));
  f.push(product("combine-up", nest_up(&COS, &rep), hots(2, interleave_raw(2, if q { 3 } else { 4 }))));
  f.push(product("combine-nested", nest_co(), hots(3, interleave(3, if q { 3 } else { 4 }, Items::Serial))));
  f.push(product("flat-map-3", flat_map3(), with_inners(q)));
  f.push(product("flat-map-3-unsub", flat_map3(), with_unsub(with_inners(q).into_iter().filter(|h| h.1.len() < if q { 6 } else { 7 }).collect(), false)));
  // retry's failed attempts
  let finite: Vec<Op> = ops_rec(1).into_iter().filter(|o| *o != Op::Retry(0) && *o != Op::RetryWhen(1)).collect();
  let mut rp = singles(&finite, src(0));
  rp.extend(pairs(&finite, &rep, src(0)));
  rp.extend(pairs(&rep, &finite, src(0)));
  f.push(product("retry", rp, hots(2, interleave_raw(2, if q { 3 } else { 4 }))));
  f.extend(large(q, true));
  f.extend(many_attempts(q));
  sweep(ctx, f, &judge_teardown);
  let mut g: Fams = vec![];
  inside(&mut g, q, false, |_, a| a != Inside::Sub);
  sweep(ctx, g, &judge_inside(true));
}

// ---------------------------------------------------------------- C14

pub fn c14(ctx: &Ctx) {
  let q = ctx.quick();
  let eq = Eq { subs: true, taps: true };
  let mut one_ops = ops_all();
  one_ops.extend([Op::ObserveOn, Op::SubscribeOn, Op::Timestamp]);
  one_ops.extend(ops_rec(1).into_iter().filter(|o| *o != Op::Retry(0) && *o != Op::RetryWhen(1)));
  one_ops.push(Op::FlatMap(vec![src(1), N::Iter(vec![7, 8])]));
  one_ops.extend([Op::SelfConcat, Op::SelfMerge, Op::SelfZip, Op::SelfFlat]);
  let rep: Vec<Op> = rep_plus().into_iter().filter(|o| !matches!(o, Op::RefCount | Op::Replay)).collect();
  let mut f: Fams = vec![];
  // sequential: the second (third) subscription starts after the first has ended or not
  let c = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    let mut v = vec![];
    for s in scripts(&[0, 1, 2], n) {
      v.push((vec![cold(s), cold(vec![Ev::Next(6), Ev::Done])], vec![Step::Sub, Step::Sub]));
    }
    v
  };
  // another script at each subscription
  let varied: Vec<(Vec<Leaf>, Vec<Step>)> = {
    let mut v = vec![];
    for a in scripts(&[0, 1], 2) {
      for b in scripts(&[0, 1], 2) {
        v.push((vec![Leaf::Cold { scripts: vec![a.clone(), b.clone()], polite: true }, cold(vec![Ev::Next(6), Ev::Done])], vec![Step::Sub, Step::Sub]));
      }
    }
    v
  };
  // interleaved with the events of a hot source, subscribed at every moment
  let h = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    let mut v = vec![];
    for s in scripts(&[0, 1], n) {
      let e = emits(0, &s);
      for t in everywhere(&e, &Step::Sub) {
        v.push((vec![Leaf::Hot, cold(vec![Ev::Next(6), Ev::Done])], t));
      }
    }
    v
  };
  // one of two subscribers leaves
  let hu = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    let mut v = vec![];
    for s in scripts(&[0, 1], n) {
      let e = emits(0, &s);
      for k in 0..2 {
        for mut t in everywhere(&e, &Step::Unsub(k)) {
          t.insert(0, Step::Sub);
          v.push((vec![Leaf::Hot, cold(vec![Ev::Next(6), Ev::Done])], t));
        }
      }
    }
    v
  };
  let one = singles(&one_ops, src(0));
  f.push(product("one-cold", one.clone(), c(if q { 4 } else { 6 })));
  f.push(product("one-varied", one.clone(), varied.clone()));
  f.push(product("one-hot", one.clone(), h(if q { 3 } else { 5 })));
  f.push(product("one-unsub", one.clone(), hu(if q { 2 } else { 3 })));
  f.push(product("two-cold", pairs(&rep, &rep, src(0)), c(if q { 3 } else { 4 })));
  f.push(product("two-all-cold", pairs(&one_ops, &one_ops, src(0)), c(if q { 1 } else { 3 })));
  f.push(product("two-hot", pairs(&rep, &rep, src(0)), h(if q { 2 } else { 3 })));
  // resubscribed by the library itself
  let selves = [Op::SelfConcat, Op::SelfMerge, Op::SelfZip, Op::SelfFlat, Op::Retry(2), Op::Retry(3), Op::OnErr(vec![src(0)])];
  f.push(product("self-cold", pairs(&one_ops, &selves, src(0)), c(if q { 3 } else { 4 })));
  f.push(product("self-varied", pairs(&one_ops, &selves, src(0)), varied.clone()));
  f.push(product("self-2-cold", triples(&rep, &rep, &selves, src(0)), c(if q { 2 } else { 3 })));
  // combinators
  let mut co = twos();
  co.extend(nest_down(&COS, 2, &selves));
  let mut sn = vec![];
  for o in &selves {
    for p in flat_maps() {
      sn.push(p.u(o.clone()));
    }
  }
  co.extend(sn);
  f.push(product("combine-mixed", co.clone(), {
    let mut v = mixed(Items::Serial);
    v.retain(|(l, _)| !l.contains(&Leaf::Endless));
    for (_, s) in v.iter_mut() {
      s.insert(0, Step::Sub);
      s.push(Step::Sub);
    }
    v
  }));
  f.push(product("combine-hot", co, {
    let mut v = vec![];
    for s in interleave(2, if q { 3 } else { 4 }, Items::Serial) {
      for t in everywhere(&s, &Step::Sub) {
        v.push((vec![Leaf::Hot; 2], t));
      }
    }
    v
  }));
  let mut creat = vec![];
  for c in creations() {
    creat.push(c.clone());
    creat.extend(singles(&one_ops, c));
  }
  f.push(product("creation", creat, vec![(vec![cold(vec![]), cold(vec![Ev::Next(6), Ev::Done])], vec![Step::Sub, Step::Sub])]));
  f.extend(crowds(q, true));
  f.push(product("crowd-cold", one, {
    let mut v = vec![];
    for s in longs(&[3, 17], 3, &ENDS) {
      for n in [4usize, 8, 16] {
        v.push((vec![cold(s.clone()), cold(vec![Ev::Next(6), Ev::Done])], vec![Step::Sub; n]));
      }
    }
    v
  }));
  sweep(ctx, f, &eq_judge(eq));
}

// ---------------------------------------------------------------- C17

pub fn c17_seq(ctx: &Ctx) {
  let q = ctx.quick();
  let plus = all_ops_plus();
  let rep = rep_plus();
  let mut f: Fams = vec![];
  let raw1 = |l: Leaf, n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    raw(n).into_iter().filter(|s| s.len() == n).map(|s| (vec![l.clone()], emits(0, &s))).collect()
  };
  let rawc = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> { raw(n).into_iter().map(|s| (vec![heedless(s)], vec![])).collect() };
  let rawcu = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> { raw(n).into_iter().map(|s| (vec![heedless(s)], vec![Step::Unsub(0)])).collect() };
  let mut one = vec![src(0)];
  one.extend(singles(&plus, src(0)));
  f.push(product("one-cold", one.clone(), rawc(if q { 4 } else { 6 })));
  f.push(product("one-cold-unsub", one.clone(), rawcu(if q { 4 } else { 6 })));
  f.push(product("one-hot", one.clone(), with_unsub(raw1(Leaf::Hot, 3), false)));
  f.push(product("one-hot-end", one.clone(), raw1(Leaf::Hot, if q { 4 } else { 6 })));
  f.push(product("one-subject", one.clone(), with_unsub(raw1(Leaf::HotSubject, 3), false)));
  f.push(each_case("one-using", one.clone(), with_unsub(raw1(Leaf::Hot, 2), false), |c| c.using = true));
  f.push(each_case("one-self", one.clone(), raw1(Leaf::Hot, 3), |c| c.self_unsub = Some(1)));
  f.push(product("one-endless", one.clone(), vec![(vec![Leaf::Endless], vec![])]));
  let mut cr = creations();
  for c in creations() {
    cr.extend(singles(&plus, c));
  }
  cr.retain(|n| !run_ref(&Rc::new(Case::new(n.clone(), vec![], vec![])), 0).runaway);
  f.push(product("creation", cr, vec![(vec![], vec![]), (vec![], vec![Step::Unsub(0)])]));
  f.push(product("two-cold", pairs(&rep, &rep, src(0)), rawc(if q { 3 } else { 4 })));
  f.push(product("two-hot", pairs(&rep, &rep, src(0)), with_unsub(raw1(Leaf::Hot, if q { 2 } else { 3 }), false)));
  f.push(product("combine", twos(), with_unsub(hots(2, interleave_raw(2, if q { 3 } else { 4 })), false)));
  f.push(product("combine-end", twos(), hots(2, interleave_raw(2, if q { 4 } else { 6 }))));
  f.push(product("combine-bits", twos(), hots(2, interleave(2, if q { 5 } else { 6 }, Items::Bits))));
  f.push(product("combine-mixed", twos(), mixed(Items::Serial)));
  f.push(product("combine-mixed-unsub", twos(), with_unsub(mixed(Items::Serial), false)));
  f.push(product("combine-3", nary3(), with_unsub(hots(3, interleave_raw(3, if q { 2 } else { 3 })), false)));
  f.push(product("combine-down", nest_down(&COS, 2, &rep), with_unsub(hots(2, interleave_raw(2, if q { 2 } else { 3 })), false)));
  f.push(product("combine-up", nest_up(&COS, &rep), with_unsub(hots(2, interleave_raw(2, if q { 2 } else { 3 })), false)));
  f.push(product("combine-nested", nest_co(), with_unsub(hots(3, interleave(3, if q { 2 } else { 3 }, Items::Serial)), false)));
  let finite: Vec<Op> = ops_rec(1).into_iter().filter(|o| *o != Op::Retry(0) && *o != Op::RetryWhen(1)).collect();
  let mut rp = singles(&finite, src(0));
  rp.extend(pairs(&finite, &rep, src(0)));
  rp.extend(pairs(&rep, &finite, src(0)));
  f.push(product("retry", rp, with_unsub(hots(2, interleave_raw(2, 2)), false)));
  // several subscriptions of one observable, all ended
  f.push(product("two-subscribers", one, {
    let mut v = vec![];
    for h in raw(3).into_iter().filter(|s| s.len() == 3) {
      let mut s = emits(0, &h);
      s.insert(1, Step::Sub);
      s.push(Step::Unsub(1));
      s.push(Step::Unsub(0));
      v.push((vec![Leaf::Hot], s.clone()));
      v.push((vec![Leaf::HotSubject], s));
    }
    v
  }));
  let timed: Vec<(Vec<Leaf>, Vec<Step>)> = with_unsub(raw1(Leaf::Hot, if q { 2 } else { 3 }), false)
    .into_iter()
    .map(|(l, mut s)| {
      s.push(Step::Wait(40));
      (l, s)
    })
    .collect();
  let times = ops_time();
  let mut tp = singles(&times, src(0));
  tp.extend(pairs(&times, &rep, src(0)));
  tp.extend(pairs(&rep, &times, src(0)));
  f.push(product("time", tp, timed));
  reentrant(&mut f, q);
  inside(&mut f, q, false, |_, _| true);
  // the sources here hold items of their own
  f.retain(|x| !x.name.starts_with("re-subj") || x.name.starts_with("re-subject"));
  f.extend(large(q, true));
  f.extend(many_attempts(q));
  sweep(ctx, f, &judge_release);
}

// ---------------------------------------------------------------- C07

pub fn c07_seq(ctx: &Ctx) {
  let q = ctx.quick();
  let plus = all_ops_plus();
  let rep = rep_plus();
  let mut f: Fams = vec![];
  let raw1 = |l: Leaf, n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> {
    raw(n).into_iter().filter(|s| s.len() == n).map(|s| (vec![l.clone()], emits(0, &s))).collect()
  };
  let rawc = |n: usize| -> Vec<(Vec<Leaf>, Vec<Step>)> { raw(n).into_iter().map(|s| (vec![heedless(s)], vec![])).collect() };
  let mut one = vec![src(0)];
  one.extend(singles(&plus, src(0)));
  f.push(product("one-cold", one.clone(), rawc(if q { 4 } else { 6 })));
  f.push(product("one-hot", one.clone(), with_unsub(raw1(Leaf::Hot, 3), true)));
  f.push(product("one-subject", one.clone(), with_unsub(raw1(Leaf::HotSubject, 3), true)));
  f.push(each_case("one-self-1", one.clone(), raw1(Leaf::Hot, 3), |c| c.self_unsub = Some(0)));
  f.push(each_case("one-self-2", one.clone(), raw1(Leaf::HotSubject, 3), |c| c.self_unsub = Some(1)));
  f.push(product("one-endless", one.clone(), vec![(vec![Leaf::Endless], vec![])]));
  let mut cr = vec![];
  for c in creations() {
    cr.extend(pairs(&plus, &rep, c));
  }
  f.push(product("creation", cr, vec![(vec![], vec![Step::Unsub(0)])]));
  f.push(product("two-cold", pairs(&rep, &rep, src(0)), rawc(3)));
  f.push(product("two-endless", pairs(&plus, &rep, src(0)), vec![(vec![Leaf::Endless], vec![])]));
  f.push(product("two-hot", pairs(&rep, &rep, src(0)), with_unsub(raw1(Leaf::HotSubject, if q { 2 } else { 3 }), false)));
  f.push(product("combine", twos(), with_unsub(hots(2, interleave_raw(2, if q { 3 } else { 4 })), false)));
  f.push(product("combine-mixed", twos(), with_unsub(mixed(Items::Serial), false)));
  f.push(product("combine-down", nest_down(&COS, 2, &rep), with_unsub(hots(2, interleave_raw(2, 2)), false)));
  f.push(product("combine-up", nest_up(&COS, &rep), with_unsub(hots(2, interleave_raw(2, 2)), false)));
  f.push(product("combine-nested", nest_co(), with_unsub(hots(3, interleave(3, if q { 2 } else { 3 }, Items::Serial)), false)));
  let finite: Vec<Op> = ops_rec(1).into_iter().filter(|o| *o != Op::Retry(0) && *o != Op::RetryWhen(1)).collect();
  let mut rp = singles(&finite, src(0));
  rp.extend(pairs(&finite, &rep, src(0)));
  rp.extend(pairs(&rep, &finite, src(0)));
  f.push(product("retry", rp, with_unsub(hots(2, interleave_raw(2, 2)), false)));
  sweep(ctx, f, &judge_returns);
  let timed: Vec<(Vec<Leaf>, Vec<Step>)> = with_unsub(raw1(Leaf::Hot, if q { 2 } else { 3 }), false)
    .into_iter()
    .map(|(l, mut s)| {
      s.push(Step::Wait(40));
      (l, s)
    })
    .collect();
  let times = ops_time();
  let mut tp = singles(&times, src(0));
  tp.extend(pairs(&times, &rep, src(0)));
  tp.extend(pairs(&rep, &times, src(0)));
  let mut f = vec![product("time", tp, timed)];
  reentrant(&mut f, q);
  inside(&mut f, q, true, |_, _| true);
  f.extend(large(q, false));
  f.extend(many_attempts(q));
  sweep(ctx, f, &judge_returns_noref);
}
