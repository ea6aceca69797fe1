//! The same programs built from the library and run under the controlled runtime.
use crate::ast::*;
use crate::log::{Log, K};
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};
use std::sync::Arc;
use std::time::Duration;
use vstd::rt::{self, Engine, ObjId};

pub type Ob = Observable<'static, Val>;

#[derive(Clone)]
pub enum Sj {
  Plain(subjects::Subject<'static, Val>),
  Behavior(subjects::BehaviorSubject<'static, Val>),
  Replay(subjects::ReplaySubject<'static, Val>),
  Async(subjects::AsyncSubject<'static, Val>),
}
impl Sj {
  pub fn new(kind: u8) -> Sj {
    match kind {
      0 => Sj::Plain(subjects::Subject::new()),
      1 => Sj::Behavior(subjects::BehaviorSubject::new(v(0))),
      2 => Sj::Replay(subjects::ReplaySubject::new()),
      _ => Sj::Async(subjects::AsyncSubject::new()),
    }
  }
  pub fn emit(&self, ev: Ev) {
    macro_rules! go {
      ($s:expr) => {
        match ev {
          Ev::Next(n) => $s.next(v(n)),
          Ev::Err(e) => $s.error(boom(e)),
          Ev::Done => $s.complete(),
        }
      };
    }
    match self {
      Sj::Plain(s) => go!(s),
      Sj::Behavior(s) => go!(s),
      Sj::Replay(s) => go!(s),
      Sj::Async(s) => go!(s),
    }
  }
  pub fn observable(&self) -> Ob {
    match self {
      Sj::Plain(s) => s.observable(),
      Sj::Behavior(s) => s.observable(),
      Sj::Replay(s) => s.observable(),
      Sj::Async(s) => s.observable(),
    }
  }
  pub fn held(&self) -> Option<usize> {
    match self {
      Sj::Plain(s) => s.verif_observer_count(),
      _ => None,
    }
  }
}

pub struct LeafSt {
  pub subs: u32,
  pub obs: Vec<(u32, Observer<'static, Val>)>,
  pub subject: Option<Sj>,
}
pub struct Env {
  pub leaves: Vec<Leaf>,
  pub st: Sh<Vec<LeafSt>>,
  pub step: Sh<u32>,
  pub probes: Sh<Vec<Probe>>,
  pub taps: Sh<Vec<(u32, Ev)>>,
  pub runaway: Sh<bool>,
  /// one per source: what its threads share
  pub oid: Vec<ObjId>,
  /// concurrent runs: record here instead of probing
  pub log: Option<Log>,
  /// what happens inside the user's functions
  pub inside: Sh<Option<Box<Reenter>>>,
  /// what the subscribers of inner observables receive, if they are to be subscribed to on their own
  pub split: Sh<Option<Vec<Rec>>>,
}
pub struct Reenter {
  plan: Vec<(Place, usize, Inside)>,
  calls: [usize; 2],
  o: Ob,
  own: Option<Subscription<'static>>,
  /// what the subscribers that come from inside receive
  recs: Vec<Rec>,
  left: Vec<Subscription<'static>>,
  end: Option<u32>,
}
pub type E = Arc<Env>;
const CAP: usize = 400;

macro_rules! tk {
  (|$x:pat_param| $e:expr) => {{
    let t = Tok::new();
    move |$x| {
      let _ = &t;
      $e
    }
  }};
  (|$x:ident : $t:ty| $e:expr) => {{
    let t = Tok::new();
    move |$x: $t| {
      let _ = &t;
      $e
    }
  }};
  (|$x:ident : $t:ty, $y:ident : $u:ty| $e:expr) => {{
    let t = Tok::new();
    move |$x: $t, $y: $u| {
      let _ = &t;
      $e
    }
  }};
  (|| $e:expr) => {{
    let t = Tok::new();
    move || {
      let _ = &t;
      $e
    }
  }};
}
pub(crate) use tk;
/// a function the user hands to an operator
macro_rules! uf {
  ($env:expr, |$x:ident : $t:ty| $e:expr) => {{
    let env = $env.clone();
    tk!(|$x: $t| {
      env.called(Place::Function);
      $e
    })
  }};
  ($env:expr, || $e:expr) => {{
    let env = $env.clone();
    tk!(|| {
      env.called(Place::Function);
      $e
    })
  }};
}

pub fn emit(o: &Observer<'static, Val>, ev: Ev) {
  match ev {
    Ev::Next(n) => o.next(v(n)),
    Ev::Err(e) => o.error(boom(e)),
    Ev::Done => o.complete(),
  }
}

impl Env {
  pub fn new(leaves: &[Leaf]) -> E {
    Env::with_log(leaves, None)
  }
  pub fn with_log(leaves: &[Leaf], log: Option<Log>) -> E {
    Arc::new(Env {
      leaves: leaves.to_vec(),
      st: Sh::new(
        leaves
          .iter()
          .map(|l| LeafSt {
            subs: 0,
            obs: vec![],
            subject: match l {
              Leaf::HotSubject => Some(Sj::new(0)),
              Leaf::Subj(k) => Some(Sj::new(*k)),
              _ => None,
            },
          })
          .collect(),
      ),
      step: Sh::new(0),
      probes: Sh::new(vec![]),
      taps: Sh::new(vec![]),
      runaway: Sh::new(false),
      oid: leaves.iter().map(|_| ObjId::new()).collect(),
      log,
      inside: Sh::new(None),
      split: Sh::new(None),
    })
  }
  /// one of the user's functions is being called
  fn called(self: &Arc<Env>, p: Place) {
    let r = match self.inside.get() {
      Some(r) => r,
      None => return,
    };
    let k = &mut r.calls[p as usize];
    *k += 1;
    let n = *k;
    let acts: Vec<Inside> = r.plan.iter().filter(|x| x.0 == p && x.1 == n).map(|x| x.2).collect();
    for a in acts {
      rt::note(|| format!("inside: {:?}", a));
      match a {
        Inside::Emit(l, ev) => hot(self, l, ev),
        Inside::Unsub => {
          let s = self.inside.get().as_mut().and_then(|r| r.own.clone());
          if let Some(s) = s {
            s.unsubscribe();
            let st = *self.step.get();
            if let Some(r) = self.inside.get() {
              r.end = r.end.or(Some(st));
            }
          }
        }
        Inside::Sub => {
          let rec: Rec = Arc::new(Sh::new(vec![]));
          let (r1, r2, r3) = (rec.clone(), rec.clone(), rec.clone());
          let o = {
            let r = self.inside.get().as_mut().unwrap();
            r.recs.push(rec);
            r.o.clone()
          };
          let (e1, e2, e3) = (self.clone(), self.clone(), self.clone());
          let s = o.subscribe(
            tk!(|x: Val| r1.get().push((*e1.step.get(), 0, Ev::Next(x.n)))),
            tk!(|e: RxError| r2.get().push((*e2.step.get(), 0, Ev::Err(boom_id(&e))))),
            tk!(|| r3.get().push((*e3.step.get(), 0, Ev::Done))),
          );
          if let Some(r) = self.inside.get() {
            r.left.push(s);
          }
        }
      }
    }
  }
  fn attempt(&self, leaf: usize, sub: u32, nth: u32, o: &Observer<'static, Val>, ev: Ev) -> bool {
    if self.log.is_some() {
      return true;
    }
    let a = o.is_subscribed();
    self.probes.get().push(Probe { leaf, sub, step: *self.step.get(), nth, ev, live: if a { Live::Yes } else { Live::No } });
    a
  }
  fn tapped(&self, ev: Ev) {
    match &self.log {
      Some(_) => {}
      None => self.taps.get().push((*self.step.get(), ev)),
    }
  }
  fn start(&self, k: usize, o: &Observer<'static, Val>) -> u32 {
    if !o.is_subscribed() {
      return u32::MAX;
    }
    if let Some(l) = &self.log {
      l.push(K::M("subscribed", k as i64));
    }
    rt::op(&self.oid[k], true, 301);
    let st = &mut self.st.get()[k];
    st.subs += 1;
    st.subs - 1
  }
}

fn leaf(env: &E, k: usize) -> Ob {
  let e = env.clone();
  match &env.leaves[k] {
    Leaf::Cold { scripts, polite } => {
      let scripts = scripts.clone();
      let polite = *polite;
      let t = Tok::new();
      Observable::create(move |s| {
        let _ = &t;
        let sub = e.start(k, &s);
        let sc = &scripts[(sub as usize).min(scripts.len() - 1)];
        for (i, ev) in sc.iter().enumerate() {
          let a = e.attempt(k, sub, i as u32, &s, *ev);
          if !a && polite {
            break;
          }
          logged(&e, k, *ev, || emit(&s, *ev));
        }
      })
    }
    Leaf::Endless => Observable::create(move |s| {
      let sub = e.start(k, &s);
      let mut i = 0;
      while s.is_subscribed() {
        if i > CAP {
          *e.runaway.get() = true;
          break;
        }
        e.attempt(k, sub, i as u32, &s, Ev::Next(i as i64));
        s.next(v(i as i64));
        i += 1;
      }
    }),
    Leaf::Hot => Observable::create(move |s| {
      let sub = e.start(k, &s);
      rt::op(&e.oid[k], true, 302);
      e.st.get()[k].obs.push((sub, s));
      if let Some(l) = &e.log {
        l.mark(K::M("registered", k as i64));
      }
    }),
    Leaf::HotSubject | Leaf::Subj(_) => {
      let o = env.st.get()[k].subject.as_ref().unwrap().observable();
      observables::defer(move || {
        rt::op(&e.oid[k], true, 303);
        e.st.get()[k].subs += 1;
        o.clone()
      })
    }
    Leaf::Thread(script) => {
      let script: Vec<(u64, Ev)> = script.iter().map(|e| (0, *e)).collect();
      threaded(e, k, script)
    }
    Leaf::Timed(script) => threaded(e, k, script.clone()),
  }
}

/// every subscription starts a thread that emits the script
fn threaded(e: E, k: usize, script: Vec<(u64, Ev)>) -> Ob {
  let t = Tok::new();
  Observable::create(move |s| {
    let _ = &t;
    e.start(k, &s);
    rt::op(&e.oid[k], true, 304);
    e.st.get()[k].obs.push((0, s.clone()));
    let (e, script) = (e.clone(), script.clone());
    vstd::thread::spawn(move || {
      for (d, ev) in script {
        if d > 0 {
          rt::sleep(d * 1_000_000);
        }
        logged(&e, k, ev, || emit(&s, ev));
      }
    });
  })
}

/// an emission, between its log records
pub fn logged(e: &E, k: usize, ev: Ev, f: impl FnOnce()) {
  match &e.log {
    Some(l) => {
      l.push(K::Em(k, ev));
      f();
      l.mark(K::Ee(k));
    }
    None => f(),
  }
}

pub fn hot(env: &E, k: usize, ev: Ev) {
  match env.leaves[k] {
    Leaf::HotSubject | Leaf::Subj(_) => {
      let s = env.st.get()[k].subject.as_ref().unwrap().clone();
      logged(env, k, ev, || s.emit(ev));
    }
    _ => logged(env, k, ev, || {
      rt::op(&env.oid[k], true, 305);
      let obs: Vec<(u32, Observer<'static, Val>)> = env.st.get()[k].obs.clone();
      for (sub, o) in obs {
        env.attempt(k, sub, 0, &o, ev);
        emit(&o, ev);
      }
    }),
  }
}

pub fn build(env: &E, n: &N) -> Ob {
  match n {
    N::Src(k) => leaf(env, *k),
    N::Just(x) => observables::just(v(*x)),
    N::Iter(xs) => observables::from_iter(xs.iter().map(|x| v(*x)).collect::<Vec<_>>().into_iter()),
    N::Range(a, c) => observables::range(*a, *c).map(tk!(|x: i64| v(x))),
    N::Empty => observables::empty(),
    N::Never => observables::never(),
    N::Throw(e) => observables::error(boom(*e)),
    N::Start(x) => {
      let x = *x;
      observables::start(uf!(env, || v(x)))
    }
    N::FromOk(x) => observables::from_result(Ok::<Val, Boom>(v(*x))),
    N::FromErr(e) => observables::from_result(Err::<Val, Boom>(Boom::new(*e))),
    N::Repeat(x) => observables::repeat(v(*x)),
    N::Endless(x) => {
      let x = *x;
      observables::from_iter((0i64..).map(move |i| v(x + i)))
    }
    N::Pulled(k, xs) => {
      let (e, k, xs) = (env.clone(), *k, xs.clone());
      observables::defer(tk!(|| {
        let e = e.clone();
        observables::from_iter(xs.clone().into_iter().map(move |x| {
          if let Some(l) = &e.log {
            l.push(K::M("pulled", x));
          }
          let _ = k;
          v(x)
        }))
      }))
    }
    N::Interval(ms) => observables::interval(Duration::from_millis(*ms), schedulers::new_thread_scheduler()).map(tk!(|x: u64| v(x as i64))),
    N::Timer(ms) => observables::timer(Duration::from_millis(*ms), schedulers::new_thread_scheduler()).map(tk!(|_x: ()| v(0))),
    N::Defer(m) => {
      let e = env.clone();
      let m = m.clone();
      observables::defer(uf!(env, || build(&e, &m)))
    }
    N::U(op, m) => unary(env, op, build(env, m)),
    N::C(co, ns) => comb(env, *co, ns.iter().map(|n| build(env, n)).collect()),
  }
}

fn mat(m: &Material<Val>) -> (i64, i64) {
  match m {
    Material::Next(x) => (0, x.n),
    Material::Error(e) => (1, boom_id(e)),
    Material::Complete => (2, 0),
  }
}

/// flatten a stream of observables into items tagged with the index of the inner one
fn indexed(env: &E, mk: impl Fn() -> Observable<'static, Ob> + Send + Sync + 'static, tag_end: bool) -> Ob {
  if env.split.get().is_some() {
    let env = env.clone();
    return mk().map(tk!(|w: Ob| {
      let r: Rec = Arc::new(Sh::new(vec![]));
      let all = env.split.get().as_mut().unwrap();
      let i = all.len() as i64;
      all.push(r.clone());
      let (e1, e2, e3, r1, r2, r3) = (env.clone(), env.clone(), env.clone(), r.clone(), r.clone(), r);
      w.subscribe(
        move |x: Val| r1.get().push((*e1.step.get(), 0, Ev::Next(x.n))),
        move |e| r2.get().push((*e2.step.get(), 0, Ev::Err(boom_id(&e)))),
        move || r3.get().push((*e3.step.get(), 0, Ev::Done)),
      );
      v(i)
    }));
  }
  observables::defer(tk!(|| {
    let next = Arc::new(AtomicI64::new(0));
    mk().flat_map(tk!(|w: Ob| {
      let i = next.fetch_add(1, Relaxed);
      let any = AtomicBool::new(false);
      w.materialize()
        .filter(tk!(|m: Material<Val>| match m {
          Material::Next(_) => {
            any.store(true, Relaxed);
            true
          }
          Material::Error(_) => false,
          // an empty trailing window is not observable
          Material::Complete => any.load(Relaxed),
        }))
        .map(tk!(|m: Material<Val>| {
          let (k, n) = mat(&m);
          v(enc_idx(if k == 0 || tag_end { i } else { 0 }, k, n))
        }))
    }))
  }))
}

fn unary(env: &E, op: &Op, o: Ob) -> Ob {
  match op {
    Op::Map(k) => {
      let k = *k;
      o.map(uf!(env, |x: Val| v(fmap(k, x.n))))
    }
    Op::Filter(k) => {
      let k = *k;
      o.filter(uf!(env, |x: Val| pred(k, x.n)))
    }
    Op::Take(n) => o.take(*n),
    Op::TakeLast(n) => o.take_last(*n),
    Op::TakeWhile(k) => {
      let k = *k;
      o.take_while(uf!(env, |x: Val| pred(k, x.n)))
    }
    Op::Skip(n) => o.skip(*n),
    Op::SkipLast(n) => o.skip_last(*n),
    Op::SkipWhile(k) => {
      let k = *k;
      o.skip_while(uf!(env, |x: Val| pred(k, x.n)))
    }
    Op::First => o.first(),
    Op::Last => o.last(),
    Op::ElementAt(n) => o.element_at(*n),
    Op::Distinct => o.distinct_until_changed(),
    Op::Scan(k) => {
      let k = *k;
      o.scan(uf!(env, |p: (Val, Val)| v(fold(k, p.0.n, p.1.n))))
    }
    Op::Reduce(k) => {
      let k = *k;
      o.reduce(uf!(env, |p: (Val, Val)| v(fold(k, p.0.n, p.1.n))))
    }
    Op::Count => o.count().map(uf!(env, |c: usize| v(c as i64))),
    Op::Sum => o.sum(),
    Op::SumAndCount => o.sum_and_count().map(uf!(env, |p: (Val, usize)| v(enc_pair(p.0.n, p.1 as i64)))),
    Op::Min => o.min(),
    Op::Max => o.max(),
    Op::All(k) => {
      let k = *k;
      o.all(uf!(env, |x: Val| pred(k, x.n))).map(uf!(env, |b: bool| v(b as i64)))
    }
    Op::Contains(t) => o.contains(v(*t)).map(uf!(env, |b: bool| v(b as i64))),
    Op::DefaultIfEmpty(y) => o.default_if_empty(v(*y)),
    Op::IgnoreElements => o.ignore_elements(),
    Op::StartWith(xs) => o.start_with(xs.iter().map(|x| v(*x)).collect::<Vec<_>>().into_iter()),
    Op::Buffer(n) => o.buffer_with_count(*n).map(uf!(env, |xs: Vec<Val>| {
      let ns: Vec<i64> = xs.iter().map(|x| x.n).collect();
      v(enc_list(&ns))
    })),
    Op::Window(n) => {
      let n = *n;
      indexed(env, move || o.window_with_count(n), true)
    }
    Op::GroupBy(k) => {
      let k = *k;
      {
        let e = env.clone();
        indexed(env, move || o.group_by(uf!(e, |x: Val| key(k, x.n))), false)
      }
    }
    Op::Materialize => o.materialize().map(uf!(env, |m: Material<Val>| {
      let (k, n) = mat(&m);
      v(enc_mat(k, n))
    })),
    Op::MatDemat => o.materialize().dematerialize(),
    Op::Demat => o
      .map(uf!(env, |x: Val| match x.n {
        2 => Material::Complete,
        3 => Material::Error(boom(77)),
        _ => Material::Next(x),
      }))
      .dematerialize(),
    Op::Tap => {
      let (a, b, c) = (env.clone(), env.clone(), env.clone());
      o.tap(
        uf!(env, |x: Val| a.tapped(Ev::Next(x.n))),
        uf!(env, |e: RxError| b.tapped(Ev::Err(boom_id(&e)))),
        uf!(env, || c.tapped(Ev::Done)),
      )
    }
    Op::MapToAny => o
      .map_to_any()
      .map(uf!(env, |a: Arc<Box<dyn std::any::Any + Send + Sync + 'static>>| v(a.downcast_ref::<Val>().map(|x| x.n).unwrap_or(-99)))),
    Op::Retry(n) => o.retry(*n),
    Op::RetryWhen(p) => {
      let p = *p;
      o.retry_when(uf!(env, |e: RxError| again(p, boom_id(&e))))
    }
    Op::OnErr(ns) => {
      let ns = ns.clone();
      let env = env.clone();
      o.on_error_resume_next(uf!(env, |e: RxError| build(&env, &ns[boom_id(&e).rem_euclid(ns.len() as i64) as usize])))
    }
    Op::FlatMap(ns) => {
      let ns = ns.clone();
      let env = env.clone();
      o.flat_map(uf!(env, |x: Val| build(&env, &ns[x.n.rem_euclid(ns.len() as i64) as usize])))
    }
    Op::RefCount => o.ref_count().observable(),
    Op::Replay => o.replay().observable(),
    Op::ObserveOn => o.observe_on(schedulers::default_scheduler()),
    Op::SubscribeOn => o.subscribe_on(schedulers::default_scheduler()),
    Op::SelfConcat => o.concat(&[o.clone()]),
    Op::SelfMerge => o.merge(&[o.clone()]),
    Op::SelfZip => comb(env, Co::Zip, vec![o.clone(), o]),
    Op::SelfFlat => {
      let o2 = o.clone();
      o.flat_map(uf!(env, |x: Val| {
        let _ = x;
        o2.clone()
      }))
    }
    Op::DelayMs(d) => o.delay(Duration::from_millis(*d)),
    Op::DebounceMs(d) => o.debounce(Duration::from_millis(*d), schedulers::new_thread_scheduler()),
    Op::TimeoutMs(d) => o.timeout(Duration::from_millis(*d), schedulers::new_thread_scheduler()),
    Op::Delay => o.delay(Duration::from_millis(3)),
    Op::Debounce => o.debounce(Duration::from_millis(3), schedulers::new_thread_scheduler()),
    Op::Timeout => o.timeout(Duration::from_millis(3), schedulers::new_thread_scheduler()),
    Op::TimeInterval => o.time_interval().map(uf!(env, |d: Duration| v(d.as_millis() as i64))),
    Op::ObserveOnNt => o.observe_on(schedulers::new_thread_scheduler()),
    Op::SubscribeOnNt => o.subscribe_on(schedulers::new_thread_scheduler()),
    Op::Timestamp => o.timestamp().map(uf!(env, |p: (vstd::time::SystemTime, Val)| p.1)),
  }
}

fn comb(env: &E, co: Co, os: Vec<Ob>) -> Ob {
  let (o, rest) = os.split_first().unwrap();
  match co {
    Co::Merge => o.merge(rest),
    Co::Concat => o.concat(rest),
    Co::Zip => o.zip(rest).map(uf!(env, |xs: Vec<Val>| {
      let ns: Vec<i64> = xs.iter().map(|x| x.n).collect();
      v(enc_list(&ns))
    })),
    Co::Combine => o.combine_latest(
      rest,
      uf!(env, |xs: Vec<Val>| {
        let ns: Vec<i64> = xs.iter().map(|x| x.n).collect();
        v(enc_list(&ns))
      }),
    ),
    Co::Amb => o.amb(rest),
    Co::SeqEq => o.sequence_equal(rest).map(uf!(env, |b: bool| v(b as i64))),
    Co::TakeUntil => o.take_until(rest[0].clone()),
    Co::SkipUntil => o.skip_until(rest[0].clone()),
    Co::Sample => o.sample(rest[0].clone()),
    Co::Switch => o.switch_on_next(rest[0].clone()),
  }
}

type Rec = Arc<Sh<Vec<(u32, u32, Ev)>>>;
enum Handle {
  Plain(Subscription<'static>),
  Guard(Option<utils::Using<'static>>),
}

/// let the threads a step started finish what they can
fn settle() {
  if rt::thread_count() > 1 {
    rt::quiesce();
  }
}

fn body(case: &Case, out: &mut Out) {
  let env = Env::new(&case.leaves);
  // subscriptions that are neither ended nor left: they would leak
  let mut open: Vec<Subscription<'static>> = vec![];
  let base = live_tokens();
  {
    if case.split {
      *env.split.get() = Some(vec![]);
    }
    let mut o = build(&env, &case.prog);
    if let Some(a) = &case.rsg {
      let a = a.clone();
      let e = env.clone();
      o = utils::ready_set_go(
        tk!(|| for (l, ev) in &a {
          hot(&e, *l, *ev);
        }),
        o,
      );
    }
    if !case.inside.is_empty() {
      *env.inside.get() = Some(Box::new(Reenter { plan: case.inside.clone(), calls: [0; 2], o: o.clone(), own: None, recs: vec![], left: vec![], end: None }));
    }
    let mut handles: Vec<(Handle, Subscription<'static>)> = vec![];
    let mut recs: Vec<Rec> = vec![];
    let subscribe = |handles: &mut Vec<(Handle, Subscription<'static>)>, recs: &mut Vec<Rec>| {
      let r: Rec = Arc::new(Sh::new(vec![]));
      recs.push(r.clone());
      let (r1, r2, r3) = (r.clone(), r.clone(), r);
      let (e1, e2, e3) = (env.clone(), env.clone(), env.clone());
      let own: Arc<Sh<Option<Subscription<'static>>>> = Arc::new(Sh::new(None));
      let own2 = own.clone();
      let first = handles.is_empty();
      let su = if handles.is_empty() { case.self_unsub } else { None };
      let re: Arc<Vec<(usize, usize, Ev)>> = Arc::new(if handles.is_empty() { case.react.clone() } else { vec![] });
      let (re1, re2, re3) = (re.clone(), re.clone(), re);
      let react = |env: &E, re: &Vec<(usize, usize, Ev)>, n: usize, end: bool| {
        for (k, l, ev) in re {
          if *k == n || end && *k == 0 {
            rt::note(|| format!("in the callback, source s{} emits {}", l, show(ev)));
            hot(env, *l, *ev);
          }
        }
      };
      let s = o.subscribe(
        tk!(|x: Val| {
          r1.get().push((*e1.step.get(), e1.probes.get().len() as u32, Ev::Next(x.n)));
          rt::note(|| format!("subscriber gets {}", x.n));
          if su.map(|k| k + 1 == r1.get().len()).unwrap_or(false) {
            if let Some(s) = own2.get().take() {
              s.unsubscribe();
            }
          }
          if !re1.is_empty() {
            let n = r1.get().len();
            react(&e1, &re1, n, false);
          }
          if first {
            e1.called(Place::Callback);
          }
        }),
        tk!(|e: RxError| {
          rt::note(|| format!("subscriber gets error {:?}", boom_id(&e)));
          r2.get().push((*e2.step.get(), e2.probes.get().len() as u32, Ev::Err(boom_id(&e))));
          if !re2.is_empty() {
            let n = r2.get().len();
            react(&e2, &re2, n, true);
          }
          if first {
            e2.called(Place::Callback);
          }
        }),
        tk!(|| {
          rt::note(|| "subscriber gets complete".to_string());
          r3.get().push((*e3.step.get(), e3.probes.get().len() as u32, Ev::Done));
          if !re3.is_empty() {
            let n = r3.get().len();
            react(&e3, &re3, n, true);
          }
          if first {
            e3.called(Place::Callback);
          }
        }),
      );
      if su.is_some() {
        *own.get() = Some(s.clone());
      }
      if first {
        if let Some(r) = env.inside.get() {
          r.own = Some(s.clone());
        }
      }
      let h = if case.using { Handle::Guard(Some(utils::Using::new(s.clone()))) } else { Handle::Plain(s.clone()) };
      handles.push((h, s));
    };
    let snap = |out: &mut Out, handles: &Vec<(Handle, Subscription<'static>)>| {
      out.live.push(handles.iter().map(|h| h.1.is_subscribed()).collect());
      out.held.push(env.st.get().iter().map(|l| l.subject.as_ref().and_then(|s| s.held())).collect());
    };
    subscribe(&mut handles, &mut recs);
    settle();
    snap(out, &handles);
    for (i, st) in case.steps.iter().enumerate() {
      *env.step.get() = i as u32 + 1;
      match st {
        Step::Emit(l, ev) => {
          rt::note(|| format!("source s{} emits {}", l, show(ev)));
          hot(&env, *l, *ev)
        }
        Step::Wait(ms) => rt::sleep(*ms * 1_000_000),
        Step::Sub => subscribe(&mut handles, &mut recs),
        Step::Unsub(k) => {
          rt::note(|| format!("unsubscribe({})", k));
          match &mut handles[*k].0 {
            Handle::Plain(s) => s.unsubscribe(),
            Handle::Guard(g) => {
              // the second time round there is nothing left to drop
              if g.take().is_none() {
                handles[*k].1.unsubscribe();
              }
            }
          }
        }
      }
      settle();
      snap(out, &handles);
    }
    if let Some(r) = env.inside.get().take() {
      // they leave before the handles are dropped
      r.left.iter().for_each(|s| s.unsubscribe());
      out.inside_end = r.end;
      recs.extend(r.recs.iter().cloned());
    }
    if let Some(r) = env.split.get().take() {
      recs.extend(r);
    }
    out.recs = recs.iter().map(|r| r.get().iter().map(|x| (x.0, x.2)).collect()).collect();
    for (k, h) in handles.iter().enumerate() {
      let ended = out.recs[k].last().map(|x| x.1.terminal()).unwrap_or(false);
      if !ended && !case.steps.contains(&Step::Unsub(k)) && !(k == 0 && case.self_unsub.is_some()) {
        open.push(h.1.clone());
      }
    }
    out.stamps = recs.iter().map(|r| r.get().iter().map(|x| x.1).collect()).collect();
  }
  for l in env.st.get().iter_mut() {
    l.obs.clear();
  }
  out.tokens = live_tokens() - base;
  out.probes = std::mem::take(env.probes.get());
  out.taps = std::mem::take(env.taps.get());
  out.subs = env.st.get().iter().map(|l| l.subs).collect();
  out.runaway = *env.runaway.get();
  out.tidying = true;
  if rt::thread_count() == 1 {
    open.iter().for_each(|s| s.unsubscribe());
  }
}

/// One execution of a case on the real library (default schedule, every library
/// operation through the runtime: self-deadlock, endless loops and panics are seen).
pub fn run_real(eng: &mut Engine, case: &Arc<Case>) -> Out {
  let slot: Arc<Sh<Out>> = Arc::new(Sh::new(Out::default()));
  let s2 = slot.clone();
  let c = case.clone();
  let f = eng.run_default(move || body(&c, s2.get()));
  let mut out = std::mem::take(slot.get());
  if let (Some(f), false) = (f, out.tidying) {
    out.fail = Some(format!("{:?}: {}", f.kind, f.msg));
    out.fail_kind = Some(f.kind);
  }
  out
}
