//! The explorer against programs whose behaviours are known: run before every
//! exploring check.  A wrong count or a missed failure makes the check untrustworthy.
use crate::val::Sh;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::time::Duration;
use vstd::rt::{self, Config, Engine, Kind};
use vstd::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use vstd::sync::{Condvar, Mutex, RwLock};
use vstd::thread;

fn outcomes(cfg: Config, body: impl Fn() -> i64 + 'static) -> (BTreeSet<i64>, Option<Kind>, u64) {
  let seen = Arc::new(Sh::new(BTreeSet::new()));
  let s2 = seen.clone();
  let body = Arc::new(body);
  let mut e = Engine::new(cfg);
  let (st, f) = e.explore(
    move || {
      let x = body();
      s2.get().insert(x);
    },
    || {},
  );
  let r = seen.get().clone();
  (r, f.map(|f| f.0.kind), st.execs)
}
fn cfg(b: u32) -> Config {
  Config { bound: b, ..Config::default() }
}

pub fn run() -> Result<(), String> {
  let want = |name: &str, got: (BTreeSet<i64>, Option<Kind>, u64), o: &[i64], k: Option<Kind>| -> Result<(), String> {
    if got.1 != k || (k.is_none() && got.0 != o.iter().copied().collect()) {
      return Err(format!("self-test {}: outcomes {:?}, failure {:?} after {} executions; expected {:?}, {:?}", name, got.0, got.1, got.2, o, k));
    }
    Ok(())
  };
  // lost update between two threads
  let upd = || {
    let a = Arc::new(AtomicUsize::new(0));
    let b = a.clone();
    let t = thread::spawn(move || {
      let x = b.load(SeqCst);
      b.store(x + 1, SeqCst);
    });
    let x = a.load(SeqCst);
    a.store(x + 1, SeqCst);
    t.join().unwrap();
    a.load(SeqCst) as i64
  };
  want("lost update, no deviation", outcomes(cfg(0), upd), &[2], None)?;
  want("lost update", outcomes(cfg(1), upd), &[1, 2], None)?;
  want("lost update", outcomes(cfg(3), upd), &[1, 2], None)?;
  // store buffering has three outcomes under sequential consistency
  want(
    "store buffering",
    outcomes(cfg(2), || {
      let (x, y) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
      let (x2, y2) = (x.clone(), y.clone());
      let t = thread::spawn(move || {
        x2.store(1, SeqCst);
        y2.load(SeqCst)
      });
      y.store(1, SeqCst);
      let a = x.load(SeqCst);
      let b = t.join().unwrap();
      (a * 2 + b) as i64
    }),
    &[1, 2, 3],
    None,
  )?;
  // all orders of three threads' two steps each: 6!/(2!2!2!) = 90 traces
  want(
    "three threads",
    outcomes(cfg(6), || {
      let m = Arc::new(Mutex::new(1i64));
      let ts: Vec<_> = (1..=2)
        .map(|i| {
          let m = m.clone();
          thread::spawn(move || {
            for _ in 0..2 {
              let mut g = m.lock().unwrap();
              *g = *g * 3 + i;
            }
          })
        })
        .collect();
      for _ in 0..2 {
        let mut g = m.lock().unwrap();
        *g *= 3;
      }
      ts.into_iter().for_each(|t| t.join().unwrap());
      let r = *m.lock().unwrap();
      r
    }),
    &traces(),
    None,
  )?;
  // who tries a lock may meet it held, even if nothing else is done meanwhile
  want(
    "try_lock",
    outcomes(cfg(2), || {
      let m = Arc::new(Mutex::new(0));
      let m2 = m.clone();
      let t = thread::spawn(move || {
        *m2.lock().unwrap() += 1;
      });
      let r = match m.try_lock() {
        Ok(g) => *g,
        Err(_) => 2,
      };
      t.join().unwrap();
      r
    }),
    &[0, 1, 2],
    None,
  )?;
  // opposite lock orders
  want(
    "deadlock",
    outcomes(cfg(1), || {
      let (a, b) = (Arc::new(Mutex::new(())), Arc::new(Mutex::new(())));
      let (a2, b2) = (a.clone(), b.clone());
      let t = thread::spawn(move || {
        let _x = b2.lock().unwrap();
        let _y = a2.lock().unwrap();
      });
      {
        let _x = a.lock().unwrap();
        let _y = b.lock().unwrap();
      }
      t.join().unwrap();
      0
    }),
    &[],
    Some(Kind::Deadlock),
  )?;
  // read, then read again with a writer queued in between
  want(
    "reader behind a writer",
    outcomes(cfg(1), || {
      let a = Arc::new(RwLock::new(()));
      let a2 = a.clone();
      let t = thread::spawn(move || {
        let _w = a2.write().unwrap();
      });
      {
        let _x = a.read().unwrap();
        let _y = a.read().unwrap();
      }
      t.join().unwrap();
      0
    }),
    &[],
    Some(Kind::Deadlock),
  )?;
  // notification before the wait
  want(
    "lost wake-up",
    outcomes(cfg(2), || {
      let p = Arc::new((AtomicUsize::new(0), Mutex::new(()), Condvar::new()));
      let q = p.clone();
      let t = thread::spawn(move || {
        if q.0.load(SeqCst) == 0 {
          let g = q.1.lock().unwrap();
          let _g = q.2.wait(g).unwrap();
        }
      });
      p.0.store(1, SeqCst);
      p.2.notify_one();
      t.join().unwrap();
      0
    }),
    &[],
    Some(Kind::Deadlock),
  )?;
  // a proper monitor has none
  want(
    "monitor",
    outcomes(Config { spurious: true, ..cfg(3) }, || {
      let p = Arc::new((Mutex::new(0), Condvar::new()));
      let q = p.clone();
      let t = thread::spawn(move || {
        let g = q.0.lock().unwrap();
        let g = q.1.wait_while(g, |n| *n == 0).unwrap();
        *g
      });
      *p.0.lock().unwrap() = 5;
      p.1.notify_one();
      t.join().unwrap()
    }),
    &[5],
    None,
  )?;
  // timers fire in order, ties in both orders
  want(
    "timers",
    outcomes(cfg(1), || {
      let l = Arc::new(Mutex::new(0i64));
      let ts: Vec<_> = [(1, 20), (2, 10), (3, 10)]
        .into_iter()
        .map(|(i, ms)| {
          let l = l.clone();
          thread::spawn(move || {
            thread::sleep(Duration::from_millis(ms));
            let mut g = l.lock().unwrap();
            *g = *g * 10 + i;
          })
        })
        .collect();
      ts.into_iter().for_each(|t| t.join().unwrap());
      let r = *l.lock().unwrap();
      r
    }),
    &[231, 321],
    None,
  )?;
  // an endless producer must not starve the one who stops it
  want(
    "spin",
    outcomes(cfg(1), || {
      let a = Arc::new(AtomicUsize::new(0));
      let b = a.clone();
      let t = thread::spawn(move || while b.load(SeqCst) == 0 {});
      thread::sleep(Duration::from_millis(5));
      a.store(1, SeqCst);
      t.join().unwrap();
      7
    }),
    &[7],
    None,
  )?;
  want(
    "self-deadlock",
    outcomes(cfg(0), || {
      let a = RwLock::new(());
      let _x = a.read().unwrap();
      let _y = a.write().unwrap();
      0
    }),
    &[],
    Some(Kind::Deadlock),
  )?;
  want(
    "livelock",
    outcomes(Config { max_steps: 3000, ..cfg(0) }, || {
      let a = AtomicUsize::new(0);
      while a.load(SeqCst) == 0 {}
      0
    }),
    &[],
    Some(Kind::Livelock),
  )?;
  want("choices", outcomes(cfg(0), || (rt::choose(3) * 10 + rt::choose(2)) as i64), &[0, 1, 10, 11, 20, 21], None)?;
  // every execution starts with statics as they were written, every thread with locals of its own
  let statics = || {
    static A: AtomicUsize = AtomicUsize::new(40);
    static M: Mutex<Vec<i64>> = Mutex::new(Vec::new());
    static L: vstd::sync::LazyLock<RwLock<i64>> = vstd::sync::LazyLock::new(|| RwLock::new(7));
    vstd::thread_local! {
      static T: std::cell::Cell<i64> = const { std::cell::Cell::new(1) };
      static U: std::cell::RefCell<Vec<i64>> = std::cell::RefCell::new(vec![]);
    }
    T.set(5);
    let t = thread::spawn(|| {
      M.lock().unwrap().push(1);
      let x = A.load(SeqCst);
      A.store(x + 1, SeqCst);
      *L.write().unwrap() += 1;
      U.with_borrow_mut(|u| u.push(T.get()));
      U.take()[0]
    });
    M.lock().unwrap().push(2);
    let x = A.load(SeqCst);
    A.store(x + 1, SeqCst);
    *L.write().unwrap() += 1;
    let seen = t.join().unwrap();
    let n = M.lock().unwrap().len();
    if n != 2 || *L.read().unwrap() != 9 || seen != 1 || T.get() != 5 {
      return -1;
    }
    A.load(SeqCst) as i64
  };
  want("statics and locals", outcomes(cfg(0), statics), &[42], None)?;
  want("statics and locals", outcomes(cfg(2), statics), &[41, 42], None)?;
  // with and without state caching: the same outcomes, for many small programs
  let ops = 7usize;
  let total = ops.pow(5);
  let (mut plain, mut cached) = (0, 0);
  for i in (0..total).step_by(29) {
    let mut d = i;
    let mut p = vec![];
    for _ in 0..5 {
      p.push(d % ops);
      d /= ops;
    }
    for b in [1, 2] {
      let (p1, p2) = (p.clone(), p.clone());
      let a = outcomes(Config { cache: false, ..cfg(b) }, move || small(&p1));
      let c = outcomes(cfg(b), move || small(&p2));
      plain += a.2;
      cached += c.2;
      if a.0 != c.0 || a.1 != c.1 {
        return Err(format!("self-test: program {:?}, {} deviations: outcomes {:?} {:?} without caching, {:?} {:?} with", p, b, a.0, a.1, c.0, c.1));
      }
    }
  }
  if cached > plain {
    return Err(format!("self-test: caching explores more executions ({}) than no caching ({})", cached, plain));
  }
  Ok(())
}

/// main takes one step, two threads take two each; the outcome is everything they saw
fn small(p: &[usize]) -> i64 {
  struct S {
    a: AtomicUsize,
    b: AtomicUsize,
    m: Mutex<i64>,
    r: RwLock<i64>,
    c: Condvar,
  }
  fn step(s: &S, op: usize, who: i64, acc: &mut i64) {
    let seen = match op {
      0 => s.a.load(SeqCst) as i64,
      1 => s.a.swap(who as usize, SeqCst) as i64,
      2 => s.b.fetch_add(1, SeqCst) as i64,
      3 => {
        let mut g = s.m.lock().unwrap();
        *g = *g * 5 + who;
        s.c.notify_one();
        *g
      }
      4 => *s.r.read().unwrap(),
      5 => {
        let mut g = s.r.write().unwrap();
        *g = *g * 5 + s.a.load(SeqCst) as i64 + who;
        *g
      }
      _ => {
        let g = s.m.lock().unwrap();
        let (g, t) = s.c.wait_timeout(g, Duration::from_millis(1)).unwrap();
        *g * 2 + t.timed_out() as i64
      }
    };
    *acc = acc.wrapping_mul(1009).wrapping_add(seen + 1);
  }
  let s = Arc::new(S { a: AtomicUsize::new(0), b: AtomicUsize::new(0), m: Mutex::new(0), r: RwLock::new(0), c: Condvar::new() });
  let ts: Vec<_> = [(1, 1, 2), (2, 3, 4)]
    .into_iter()
    .map(|(w, x, y)| {
      let (s, x, y) = (s.clone(), p[x], p[y]);
      thread::spawn(move || {
        let mut acc = w;
        step(&s, x, w, &mut acc);
        step(&s, y, w, &mut acc);
        acc
      })
    })
    .collect();
  let mut acc = 3;
  step(&s, p[0], 3, &mut acc);
  for t in ts {
    acc = acc.wrapping_mul(1_000_003).wrapping_add(t.join().unwrap());
  }
  acc
}

fn traces() -> Vec<i64> {
  let mut out = vec![];
  fn go(left: [u8; 3], x: i64, out: &mut Vec<i64>) {
    if left == [0, 0, 0] {
      out.push(x);
      return;
    }
    for i in 0..3 {
      if left[i] > 0 {
        let mut l = left;
        l[i] -= 1;
        go(l, x * 3 + i as i64, out);
      }
    }
  }
  go([2, 2, 2], 1, &mut out);
  out
}
