//! Reference interpreter: a small single-threaded push implementation of the
//! operators' ReactiveX definitions, written independently of the library.
use crate::ast::*;
use crate::val::*;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;

pub struct O {
  alive: Cell<bool>,
  /// amb loser: tolerated attempts to emit
  grace: Cell<bool>,
  f: RefCell<Option<Rc<dyn Fn(Ev)>>>,
  kids: RefCell<Vec<Rc<O>>>,
}
impl O {
  fn new(f: impl Fn(Ev) + 'static) -> Rc<O> {
    Rc::new(O { alive: Cell::new(true), grace: Cell::new(false), f: RefCell::new(Some(Rc::new(f))), kids: RefCell::new(vec![]) })
  }
  fn emit(&self, ev: Ev) {
    if !self.alive.get() {
      return;
    }
    if ev.terminal() {
      self.alive.set(false);
      let f = self.f.borrow_mut().take();
      if let Some(f) = f {
        f(ev);
      }
      self.drop_kids();
    } else {
      let f = self.f.borrow().clone();
      if let Some(f) = f {
        f(ev);
      }
    }
  }
  fn next(&self, x: i64) {
    self.emit(Ev::Next(x))
  }
  fn done(&self) {
    self.emit(Ev::Done)
  }
  fn kill(&self) {
    self.grace_off();
    self.alive.set(false);
    let f = self.f.borrow_mut().take();
    drop(f);
    self.drop_kids();
  }
  fn grace_off(&self) {
    self.grace.set(false);
    for k in self.kids.borrow().iter() {
      k.grace_off();
    }
  }
  /// an amb loser: out of the game, but may notice only when it next emits
  fn lose(&self) {
    self.alive.set(false);
    self.grace.set(true);
    *self.f.borrow_mut() = None;
    for k in self.kids.borrow().iter() {
      k.lose();
    }
  }
  fn drop_kids(&self) {
    let ks: Vec<Rc<O>> = self.kids.borrow_mut().drain(..).collect();
    for k in ks {
      k.kill();
    }
  }
  fn kid(&self, k: &Rc<O>) {
    if self.alive.get() {
      self.kids.borrow_mut().push(k.clone());
    } else {
      k.kill();
    }
  }
}

pub struct LeafSt {
  subs: Cell<u32>,
  obs: RefCell<Vec<(u32, Rc<O>)>>,
}
pub struct Env {
  case: Rc<Case>,
  pol: u32,
  step: Cell<u32>,
  leaves: Vec<LeafSt>,
  probes: RefCell<Vec<Probe>>,
  taps: RefCell<Vec<(u32, Ev)>>,
  runaway: Cell<bool>,
}
type E = Rc<Env>;

const CAP: usize = 400;

impl Env {
  fn pol(&self, b: u32) -> bool {
    self.pol & b != 0
  }
  fn attempt(&self, leaf: usize, sub: u32, nth: u32, o: &Rc<O>, ev: Ev) -> bool {
    let a = o.alive.get();
    let live = if a {
      Live::Yes
    } else if o.grace.replace(false) {
      Live::Maybe
    } else {
      Live::No
    };
    self.probes.borrow_mut().push(Probe { leaf, sub, step: self.step.get(), nth, ev, live });
    a
  }
}

fn leaf(env: &E, k: usize, o: &Rc<O>) {
  let st = &env.leaves[k];
  let sub = st.subs.get();
  st.subs.set(sub + 1);
  match &env.case.leaves[k] {
    Leaf::Cold { scripts, polite } => {
      let sc = &scripts[(sub as usize).min(scripts.len() - 1)];
      for (i, ev) in sc.iter().enumerate() {
        let a = env.attempt(k, sub, i as u32, o, *ev);
        if !a && *polite {
          break;
        }
        o.emit(*ev);
      }
    }
    Leaf::Endless => {
      let mut i = 0;
      while o.alive.get() {
        if i > CAP {
          env.runaway.set(true);
          break;
        }
        env.attempt(k, sub, i as u32, o, Ev::Next(i as i64));
        o.next(i as i64);
        i += 1;
      }
    }
    Leaf::Hot | Leaf::HotSubject | Leaf::Subj(_) | Leaf::Thread(_) | Leaf::Timed(_) => st.obs.borrow_mut().push((sub, o.clone())),
  }
}

fn hot(env: &E, k: usize, ev: Ev) {
  // a Subject lets go of its observers with the terminal it hands them
  let obs: Vec<(u32, Rc<O>)> = if env.case.leaves[k] == Leaf::HotSubject && ev.terminal() {
    env.leaves[k].obs.borrow_mut().drain(..).collect()
  } else {
    env.leaves[k].obs.borrow().clone()
  };
  for (sub, o) in obs {
    env.attempt(k, sub, 0, &o, ev);
    o.emit(ev);
  }
}

fn sub1(env: &E, n: &N, down: &Rc<O>, f: impl Fn(Ev) + 'static) {
  let c = O::new(f);
  down.kid(&c);
  sub(env, n, &c);
}

pub fn sub(env: &E, n: &N, o: &Rc<O>) {
  if !o.alive.get() {
    return;
  }
  match n {
    N::Src(k) => leaf(env, *k, o),
    N::Just(x) | N::Start(x) | N::FromOk(x) => {
      o.next(*x);
      o.done();
    }
    N::Iter(xs) => {
      for x in xs {
        o.next(*x);
      }
      o.done();
    }
    N::Range(a, c) => {
      for i in 0..*c {
        o.next(a + i);
      }
      o.done();
    }
    N::Empty => o.done(),
    N::Never => {}
    // no sequential reference
    N::Interval(_) | N::Timer(_) => {}
    N::Pulled(_, xs) => {
      for x in xs {
        o.next(*x);
      }
      o.done();
    }
    N::Throw(e) | N::FromErr(e) => o.emit(Ev::Err(*e)),
    N::Repeat(_) | N::Endless(_) => {
      let mut i = 0;
      while o.alive.get() {
        if i > CAP as i64 {
          env.runaway.set(true);
          break;
        }
        match n {
          N::Repeat(x) => o.next(*x),
          N::Endless(x) => o.next(x + i),
          _ => unreachable!(),
        }
        i += 1;
      }
    }
    N::Defer(m) => sub(env, m, o),
    N::U(op, m) => unary(env, op, m, o),
    N::C(co, ns) => comb(env, *co, ns, o),
  }
}

/// a child that maps each item to any number of items and keeps the terminal
fn each(env: &E, m: &N, d: &Rc<O>, f: impl Fn(i64, &Rc<O>) + 'static, end: impl Fn(&Rc<O>) + 'static) {
  let d2 = d.clone();
  sub1(env, m, d, move |ev| match ev {
    Ev::Next(x) => f(x, &d2),
    Ev::Done => {
      end(&d2);
      d2.done()
    }
    e => d2.emit(e),
  })
}
fn nothing(_: &Rc<O>) {}

fn unary(env: &E, op: &Op, m: &N, d: &Rc<O>) {
  match op {
    Op::Map(k) => {
      let k = *k;
      each(env, m, d, move |x, d| d.next(fmap(k, x)), nothing)
    }
    Op::Filter(k) => {
      let k = *k;
      each(env, m, d, move |x, d| if pred(k, x) { d.next(x) }, nothing)
    }
    Op::Take(n) => takes(env, m, d, *n),
    Op::First => takes(env, m, d, 1),
    Op::TakeLast(n) => take_last(env, m, d, *n),
    Op::Last => take_last(env, m, d, 1),
    Op::TakeWhile(k) => {
      let k = *k;
      each(
        env,
        m,
        d,
        move |x, d| {
          if pred(k, x) {
            d.next(x)
          } else {
            d.drop_kids();
            d.done()
          }
        },
        nothing,
      )
    }
    Op::Skip(n) => {
      let left = Cell::new(*n);
      each(
        env,
        m,
        d,
        move |x, d| {
          if left.get() > 0 {
            left.set(left.get() - 1)
          } else {
            d.next(x)
          }
        },
        nothing,
      )
    }
    Op::SkipLast(n) => {
      let n = *n;
      let q = RefCell::new(VecDeque::new());
      each(
        env,
        m,
        d,
        move |x, d| {
          q.borrow_mut().push_back(x);
          let y = if q.borrow().len() > n { q.borrow_mut().pop_front() } else { None };
          if let Some(y) = y {
            d.next(y)
          }
        },
        nothing,
      )
    }
    Op::SkipWhile(k) => {
      let k = *k;
      let open = Cell::new(false);
      each(
        env,
        m,
        d,
        move |x, d| {
          if !open.get() && !pred(k, x) {
            open.set(true);
          }
          if open.get() {
            d.next(x)
          }
        },
        nothing,
      )
    }
    Op::ElementAt(n) => {
      // 1-based
      let n = *n;
      let seen = Cell::new(0);
      each(
        env,
        m,
        d,
        move |x, d| {
          seen.set(seen.get() + 1);
          if seen.get() == n {
            d.drop_kids();
            d.next(x);
            d.done();
          }
        },
        nothing,
      )
    }
    Op::Distinct => {
      let last = Cell::new(None);
      each(
        env,
        m,
        d,
        move |x, d| {
          if last.get() != Some(x) {
            last.set(Some(x));
            d.next(x)
          }
        },
        nothing,
      )
    }
    Op::Scan(k) => {
      let k = *k;
      let acc = Cell::new(None);
      each(
        env,
        m,
        d,
        move |x, d| {
          let a = match acc.get() {
            None => x,
            Some(a) => fold(k, a, x),
          };
          acc.set(Some(a));
          d.next(a)
        },
        nothing,
      )
    }
    Op::Reduce(k) => {
      let k = *k;
      collect(env, m, d, move |xs| if xs.is_empty() { vec![] } else { vec![xs[1..].iter().fold(xs[0], |a, x| fold(k, a, *x))] })
    }
    Op::Count => collect(env, m, d, |xs| vec![xs.len() as i64]),
    Op::Sum => collect(env, m, d, |xs| if xs.is_empty() { vec![] } else { vec![xs.iter().fold(0i64, |a, x| a.wrapping_add(*x))] }),
    Op::SumAndCount => collect(env, m, d, |xs| {
      if xs.is_empty() {
        vec![]
      } else {
        vec![enc_pair(xs.iter().fold(0i64, |a, x| a.wrapping_add(*x)), xs.len() as i64)]
      }
    }),
    Op::Min => collect(env, m, d, |xs| xs.iter().min().copied().into_iter().collect()),
    Op::Max => collect(env, m, d, |xs| xs.iter().max().copied().into_iter().collect()),
    Op::All(k) => {
      let k = *k;
      each(
        env,
        m,
        d,
        move |x, d| {
          if !pred(k, x) {
            d.drop_kids();
            d.next(0);
            d.done()
          }
        },
        |d| d.next(1),
      )
    }
    Op::Contains(t) => {
      let t = *t;
      each(
        env,
        m,
        d,
        move |x, d| {
          if x == t {
            d.drop_kids();
            d.next(1);
            d.done()
          }
        },
        |d| d.next(0),
      )
    }
    Op::DefaultIfEmpty(y) => {
      let y = *y;
      let any = Rc::new(Cell::new(false));
      let any2 = any.clone();
      each(
        env,
        m,
        d,
        move |x, d| {
          any.set(true);
          d.next(x)
        },
        move |d| {
          if !any2.get() {
            d.next(y)
          }
        },
      )
    }
    Op::IgnoreElements => each(env, m, d, |_, _| {}, nothing),
    Op::StartWith(xs) => {
      for x in xs {
        d.next(*x);
      }
      if d.alive.get() {
        each(env, m, d, |x, d| d.next(x), nothing)
      }
    }
    Op::Buffer(n) => {
      let n = *n;
      let buf = Rc::new(RefCell::new(vec![]));
      let buf2 = buf.clone();
      each(
        env,
        m,
        d,
        move |x, d| {
          buf.borrow_mut().push(x);
          if buf.borrow().len() >= n {
            let b: Vec<i64> = buf.borrow_mut().drain(..).collect();
            d.next(enc_list(&b))
          }
        },
        move |d| {
          let b: Vec<i64> = buf2.borrow_mut().drain(..).collect();
          if !b.is_empty() {
            d.next(enc_list(&b))
          }
        },
      )
    }
    Op::Window(n) => {
      let n = *n;
      // (index of the current window, items in it)
      let st = Rc::new(Cell::new((0i64, 0usize)));
      let st2 = st.clone();
      each(
        env,
        m,
        d,
        move |x, d| {
          let (i, c) = st.get();
          st.set((i, c + 1));
          d.next(enc_idx(i, 0, x));
          if c + 1 >= n {
            st.set((i + 1, 0));
            d.next(enc_idx(i, 2, 0));
          }
        },
        move |d| {
          let (i, c) = st2.get();
          if c > 0 {
            d.next(enc_idx(i, 2, 0))
          }
        },
      )
    }
    Op::GroupBy(k) => {
      let k = *k;
      let keys = Rc::new(RefCell::new(Vec::<i64>::new()));
      let keys2 = keys.clone();
      each(
        env,
        m,
        d,
        move |x, d| {
          let kk = key(k, x);
          let p = keys.borrow().iter().position(|y| *y == kk);
          let i = match p {
            Some(i) => i,
            None => {
              keys.borrow_mut().push(kk);
              keys.borrow().len() - 1
            }
          };
          d.next(enc_idx(i as i64, 0, x))
        },
        move |d| {
          for _ in 0..keys2.borrow().len() {
            d.next(enc_idx(0, 2, 0))
          }
        },
      )
    }
    Op::Materialize => {
      let d2 = d.clone();
      sub1(env, m, d, move |ev| match ev {
        Ev::Next(x) => d2.next(enc_mat(0, x)),
        Ev::Err(e) => {
          d2.next(enc_mat(1, e));
          d2.done()
        }
        Ev::Done => {
          d2.next(enc_mat(2, 0));
          d2.done()
        }
      })
    }
    Op::Demat => each(
      env,
      m,
      d,
      |x, d| match x {
        2 => {
          d.drop_kids();
          d.done()
        }
        3 => {
          d.drop_kids();
          d.emit(Ev::Err(77))
        }
        x => d.next(x),
      },
      nothing,
    ),
    Op::Tap => {
      let e2 = env.clone();
      let d2 = d.clone();
      sub1(env, m, d, move |ev| {
        e2.taps.borrow_mut().push((e2.step.get(), ev));
        d2.emit(ev)
      })
    }
    Op::MatDemat | Op::MapToAny | Op::RefCount | Op::Replay | Op::ObserveOn | Op::SubscribeOn | Op::Timestamp => {
      each(env, m, d, |x, d| d.next(x), nothing)
    }
    Op::SelfConcat => comb(env, Co::Concat, &[m.clone(), m.clone()], d),
    Op::SelfMerge => comb(env, Co::Merge, &[m.clone(), m.clone()], d),
    Op::SelfZip => comb(env, Co::Zip, &[m.clone(), m.clone()], d),
    Op::SelfFlat => unary(env, &Op::FlatMap(vec![m.clone()]), m, d),
    Op::DelayMs(_) | Op::DebounceMs(_) | Op::TimeoutMs(_) | Op::Delay | Op::Debounce | Op::Timeout | Op::TimeInterval | Op::ObserveOnNt | Op::SubscribeOnNt => {
      panic!("no sequential reference for {:?}", op)
    }
    Op::Retry(n) => {
      let n = *n;
      attempt(env, m, d, 1, Rc::new(move |k, _| n == 0 || k < n))
    }
    Op::RetryWhen(p) => {
      let p = *p;
      attempt(env, m, d, 1, Rc::new(move |_, e| again(p, e)))
    }
    Op::OnErr(ns) => {
      let ns = ns.clone();
      let d2 = d.clone();
      let e2 = env.clone();
      sub1(env, m, d, move |ev| match ev {
        Ev::Err(e) => {
          d2.drop_kids();
          let d3 = d2.clone();
          sub1(&e2, &ns[e.rem_euclid(ns.len() as i64) as usize], &d2, move |ev| d3.emit(ev))
        }
        ev => d2.emit(ev),
      })
    }
    Op::FlatMap(ns) => {
      let ns = ns.clone();
      let active = Rc::new(Cell::new(1usize));
      let d2 = d.clone();
      let e2 = env.clone();
      sub1(env, m, d, move |ev| match ev {
        Ev::Next(x) => {
          active.set(active.get() + 1);
          let d3 = d2.clone();
          let a3 = active.clone();
          sub1(&e2, &ns[x.rem_euclid(ns.len() as i64) as usize], &d2, move |ev| match ev {
            Ev::Done => last_out(&a3, &d3),
            ev => d3.emit(ev),
          })
        }
        Ev::Done => last_out(&active, &d2),
        e => d2.emit(e),
      })
    }
  }
}
fn last_out(active: &Rc<Cell<usize>>, d: &Rc<O>) {
  active.set(active.get() - 1);
  if active.get() == 0 {
    d.done()
  }
}
fn takes(env: &E, m: &N, d: &Rc<O>, n: usize) {
  if n == 0 {
    d.done();
    return;
  }
  let left = Cell::new(n);
  each(
    env,
    m,
    d,
    move |x, d| {
      left.set(left.get() - 1);
      if left.get() == 0 {
        d.drop_kids();
        d.next(x);
        d.done()
      } else {
        d.next(x)
      }
    },
    nothing,
  )
}
fn take_last(env: &E, m: &N, d: &Rc<O>, n: usize) {
  collect(env, m, d, move |xs| xs[xs.len() - n.min(xs.len())..].to_vec())
}
fn collect(env: &E, m: &N, d: &Rc<O>, f: impl Fn(&[i64]) -> Vec<i64> + 'static) {
  let xs = Rc::new(RefCell::new(vec![]));
  let xs2 = xs.clone();
  each(
    env,
    m,
    d,
    move |x, _| xs.borrow_mut().push(x),
    move |d| {
      let v: Vec<i64> = xs2.borrow_mut().drain(..).collect();
      for y in f(&v) {
        d.next(y)
      }
    },
  )
}
fn attempt(env: &E, m: &N, d: &Rc<O>, k: usize, more: Rc<dyn Fn(usize, i64) -> bool>) {
  let d2 = d.clone();
  let e2 = env.clone();
  let m2 = m.clone();
  sub1(env, m, d, move |ev| match ev {
    Ev::Err(e) => {
      if k >= 100 && more(k, e) {
        e2.runaway.set(true);
        d2.kill();
      } else if more(k, e) {
        d2.drop_kids();
        attempt(&e2, &m2, &d2, k + 1, more.clone());
      } else {
        d2.emit(ev)
      }
    }
    ev => d2.emit(ev),
  })
}

fn comb(env: &E, co: Co, ns: &[N], d: &Rc<O>) {
  let k = ns.len();
  match co {
    Co::Merge => {
      let active = Rc::new(Cell::new(k));
      for n in ns {
        let d2 = d.clone();
        let a = active.clone();
        if !d.alive.get() {
          break;
        }
        sub1(env, n, d, move |ev| match ev {
          Ev::Done => last_out(&a, &d2),
          ev => d2.emit(ev),
        });
      }
    }
    Co::Concat => concat(env, Rc::new(ns.to_vec()), 0, d),
    Co::Zip => zip(env, ns, d, env.pol(P_ZIP_EARLY), |xs, d| d.next(enc_list(&xs))),
    Co::Combine => {
      let vals = Rc::new(RefCell::new(vec![None; k]));
      let active = Rc::new(Cell::new(k));
      for (i, n) in ns.iter().enumerate() {
        let d2 = d.clone();
        let a = active.clone();
        let vals = vals.clone();
        let early = env.pol(P_COMB_EARLY);
        sub1(env, n, d, move |ev| match ev {
          Ev::Next(x) => {
            vals.borrow_mut()[i] = Some(x);
            let v: Option<Vec<i64>> = vals.borrow().iter().copied().collect();
            if let Some(v) = v {
              d2.next(enc_list(&v))
            }
          }
          Ev::Done => {
            if early && vals.borrow()[i].is_none() {
              d2.done()
            } else {
              last_out(&a, &d2)
            }
          }
          e => d2.emit(e),
        });
      }
    }
    Co::Amb => {
      let win = Rc::new(Cell::new(None));
      let kids: Rc<RefCell<Vec<Rc<O>>>> = Rc::new(RefCell::new(vec![]));
      for (i, _) in ns.iter().enumerate() {
        let d2 = d.clone();
        let win = win.clone();
        let ks = kids.clone();
        let lazy = env.pol(P_AMB_LAZY);
        let c = O::new(move |ev| {
          if win.get().is_none() {
            win.set(Some(i));
            if lazy {
              d2.emit(ev);
              return;
            }
            for (j, c) in ks.borrow().iter().enumerate() {
              if j != i {
                c.lose();
              }
            }
          }
          if win.get() == Some(i) {
            d2.emit(ev)
          } else if lazy {
            let me = ks.borrow()[i].clone();
            me.kill()
          }
        });
        kids.borrow_mut().push(c.clone());
        d.kid(&c);
      }
      let ks: Vec<Rc<O>> = kids.borrow().clone();
      for (n, c) in ns.iter().zip(ks) {
        sub(env, n, &c);
      }
    }
    Co::SeqEq => {
      let q: Rc<RefCell<Vec<(VecDeque<i64>, bool)>>> = Rc::new(RefCell::new(vec![(VecDeque::new(), false); k]));
      for (i, n) in ns.iter().enumerate() {
        let d2 = d.clone();
        let q = q.clone();
        let early = env.pol(P_SEQ_EARLY);
        let rows = env.pol(P_SEQ_ROW);
        sub1(env, n, d, move |ev| {
          match ev {
            Ev::Next(x) => q.borrow_mut()[i].0.push_back(x),
            Ev::Done => q.borrow_mut()[i].1 = true,
            e => {
              d2.emit(e);
              return;
            }
          }
          let verdict = {
            let mut q = q.borrow_mut();
            let mut v = None;
            while q.iter().all(|x| !x.0.is_empty()) {
              let row: Vec<i64> = q.iter_mut().map(|x| x.0.pop_front().unwrap()).collect();
              if row.iter().any(|x| *x != row[0]) {
                v = Some(0);
                break;
              }
            }
            if v.is_none() {
              let ended = q.iter().any(|x| x.1 && x.0.is_empty());
              let extra = q.iter().any(|x| !x.0.is_empty());
              if q.iter().all(|x| x.1) {
                v = Some(!extra as i64);
              } else if rows && ended && q.iter().all(|x| x.1 || !x.0.is_empty()) {
                v = Some(0);
              } else if early && ended && extra {
                v = Some(0);
              }
            }
            v
          };
          if let Some(v) = verdict {
            d2.drop_kids();
            d2.next(v);
            d2.done();
          }
        });
      }
    }
    Co::TakeUntil | Co::SkipUntil | Co::Sample => {
      let open = Rc::new(Cell::new(false));
      let held = Rc::new(Cell::new(None));
      {
        let d2 = d.clone();
        let open = open.clone();
        let held = held.clone();
        let terr = env.pol(P_TRIG_ERR);
        let tdone = env.pol(P_TU_DONE);
        let slot: Rc<RefCell<Option<Rc<O>>>> = Rc::new(RefCell::new(None));
        let slot2 = slot.clone();
        let c = O::new(move |ev| match ev {
          Ev::Next(_) => match co {
            Co::TakeUntil => d2.done(),
            Co::SkipUntil => {
              open.set(true);
              let c = slot2.borrow_mut().take();
              if let Some(c) = c {
                c.kill();
              }
            }
            _ => {
              if let Some(x) = held.take() {
                d2.next(x)
              }
            }
          },
          Ev::Done => {
            if co == Co::TakeUntil && tdone {
              d2.done()
            }
          }
          e => {
            if terr {
              d2.emit(e)
            }
          }
        });
        *slot.borrow_mut() = Some(c.clone());
        d.kid(&c);
        sub(env, &ns[1], &c);
        // (the slot would otherwise keep the child in a cycle)
        if co != Co::SkipUntil {
          slot.borrow_mut().take();
        }
      }
      if !d.alive.get() {
        return;
      }
      let d2 = d.clone();
      sub1(env, &ns[0], d, move |ev| match ev {
        Ev::Next(x) => match co {
          Co::TakeUntil => d2.next(x),
          Co::SkipUntil => {
            if open.get() {
              d2.next(x)
            }
          }
          _ => held.set(Some(x)),
        },
        ev => d2.emit(ev),
      });
    }
    Co::Switch => {
      let on = Rc::new(Cell::new(false));
      let left = Rc::new(Cell::new(2));
      let lazy = env.pol(P_SW_ERR);
      let wait = env.pol(P_SW_DONE);
      let me: Rc<RefCell<Option<Rc<O>>>> = Rc::new(RefCell::new(None));
      let src = {
        let d2 = d.clone();
        let on = on.clone();
        let left = left.clone();
        let me2 = me.clone();
        O::new(move |ev| match ev {
          Ev::Next(x) => {
            if !on.get() {
              d2.next(x)
            } else {
              let s = me2.borrow_mut().take();
              if let Some(s) = s {
                s.kill()
              }
            }
          }
          Ev::Done => last_out(&left, &d2),
          e => d2.emit(e),
        })
      };
      d.kid(&src);
      *me.borrow_mut() = Some(src.clone());
      let tgt = {
        let d2 = d.clone();
        let src = src.clone();
        O::new(move |ev| match ev {
          Ev::Next(x) => {
            on.set(true);
            if !lazy {
              src.kill();
            }
            d2.next(x)
          }
          Ev::Done => {
            if wait && !on.get() {
              last_out(&left, &d2)
            } else {
              d2.done()
            }
          }
          e => d2.emit(e),
        })
      };
      d.kid(&tgt);
      sub(env, &ns[0], &src);
      sub(env, &ns[1], &tgt);
    }
  }
}

fn concat(env: &E, ns: Rc<Vec<N>>, i: usize, d: &Rc<O>) {
  if i == ns.len() {
    d.done();
    return;
  }
  let d2 = d.clone();
  let e2 = env.clone();
  let ns2 = ns.clone();
  sub1(env, &ns[i], d, move |ev| match ev {
    Ev::Done => concat(&e2, ns2.clone(), i + 1, &d2),
    ev => d2.emit(ev),
  })
}

fn zip(env: &E, ns: &[N], d: &Rc<O>, early: bool, f: impl Fn(Vec<i64>, &Rc<O>) + 'static) {
  let k = ns.len();
  let q: Rc<RefCell<Vec<(VecDeque<i64>, bool)>>> = Rc::new(RefCell::new(vec![(VecDeque::new(), false); k]));
  let f = Rc::new(f);
  for (i, n) in ns.iter().enumerate() {
    let d2 = d.clone();
    let q = q.clone();
    let f = f.clone();
    sub1(env, n, d, move |ev| {
      match ev {
        Ev::Next(x) => {
          q.borrow_mut()[i].0.push_back(x);
          let row = {
            let mut q = q.borrow_mut();
            if q.iter().all(|x| !x.0.is_empty()) {
              Some(q.iter_mut().map(|x| x.0.pop_front().unwrap()).collect::<Vec<i64>>())
            } else {
              None
            }
          };
          if let Some(r) = row {
            f(r, &d2)
          }
        }
        Ev::Done => q.borrow_mut()[i].1 = true,
        e => {
          d2.emit(e);
          return;
        }
      }
      let end = {
        let q = q.borrow();
        q.iter().all(|x| x.1) || (early && q.iter().any(|x| x.1 && x.0.is_empty()))
      };
      if end {
        d2.done()
      }
    });
  }
}

/// Run a case on the reference under one reading of the open points.
pub fn run_ref(case: &Rc<Case>, pol: u32) -> Out {
  let env: E = Rc::new(Env {
    case: case.clone(),
    pol,
    step: Cell::new(0),
    leaves: case.leaves.iter().map(|_| LeafSt { subs: Cell::new(0), obs: RefCell::new(vec![]) }).collect(),
    probes: RefCell::new(vec![]),
    taps: RefCell::new(vec![]),
    runaway: Cell::new(false),
  });
  let mut out = Out::default();
  let mut tops: Vec<Rc<O>> = vec![];
  let mut recs: Vec<Rc<RefCell<Vec<(u32, Ev)>>>> = vec![];
  let subscribe = |tops: &mut Vec<Rc<O>>, recs: &mut Vec<Rc<RefCell<Vec<(u32, Ev)>>>>| {
    let r = Rc::new(RefCell::new(vec![]));
    recs.push(r.clone());
    let e2 = env.clone();
    let first = tops.is_empty();
    let me: Rc<RefCell<Option<Rc<O>>>> = Rc::new(RefCell::new(None));
    let me2 = me.clone();
    let su = case.self_unsub;
    let o = O::new(move |ev| {
      r.borrow_mut().push((e2.step.get(), ev));
      if first && su.map(|k| k + 1 == r.borrow().len()).unwrap_or(false) {
        let m = me2.borrow_mut().take();
        if let Some(m) = m {
          m.kill()
        }
      }
    });
    tops.push(o.clone());
    sub(&env, &case.prog, &o);
    if let Some(a) = &case.rsg {
      for (l, ev) in a {
        hot(&env, *l, *ev);
      }
    }
    // the handle exists only once subscribe has returned
    if first && su.is_some() && o.alive.get() {
      *me.borrow_mut() = Some(o.clone());
    }
  };
  let snap = |out: &mut Out, tops: &Vec<Rc<O>>| {
    out.live.push(tops.iter().map(|o| o.alive.get()).collect());
    out.held.push(
      case
        .leaves
        .iter()
        .enumerate()
        .map(|(k, l)| {
          if *l == Leaf::HotSubject {
            Some(env.leaves[k].obs.borrow().iter().filter(|o| o.1.alive.get() || o.1.grace.get()).count())
          } else {
            None
          }
        })
        .collect(),
    );
  };
  subscribe(&mut tops, &mut recs);
  snap(&mut out, &tops);
  for (i, st) in case.steps.iter().enumerate() {
    env.step.set(i as u32 + 1);
    match st {
      Step::Emit(l, ev) => hot(&env, *l, *ev),
      Step::Sub => subscribe(&mut tops, &mut recs),
      Step::Unsub(k) => tops[*k].kill(),
      Step::Wait(_) => {}
    }
    snap(&mut out, &tops);
  }
  for t in &tops {
    t.kill();
  }
  for l in &env.leaves {
    l.obs.borrow_mut().clear();
  }
  out.recs = recs.iter().map(|r| r.borrow().clone()).collect();
  out.probes = env.probes.borrow_mut().drain(..).collect();
  out.taps = env.taps.borrow_mut().drain(..).collect();
  out.subs = env.leaves.iter().map(|l| l.subs.get()).collect();
  out.runaway = env.runaway.get();
  out
}
