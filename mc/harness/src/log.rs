//! What happened in one execution, in the order it happened.  Every record is an
//! event on one shared object, so that executions that differ in the order of
//! records differ for the explorer too.
use crate::val::*;
use std::sync::Arc;
use vstd::rt::{self, ObjId};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
  /// a source starts / has finished handing over an event
  Em(usize, Ev),
  Ee(usize),
  /// a subscriber's callback begins / ends
  Cb(usize, Ev),
  Ce(usize),
  /// anything else: what, which
  M(&'static str, i64),
}
#[derive(Clone, Copy, Debug)]
pub struct R {
  pub t: usize,
  pub at: u64,
  pub k: K,
}
pub struct LogIn {
  o: ObjId,
  v: Sh<Vec<R>>,
}
pub type Log = Arc<LogIn>;

pub fn new() -> Log {
  Arc::new(LogIn { o: ObjId::new(), v: Sh::new(vec![]) })
}
impl LogIn {
  fn add(&self, k: K) {
    self.v.get().push(R { t: rt::current(), at: rt::now(), k });
    rt::note(|| match k {
      K::Em(s, e) => format!("source {} starts to emit {}", s, show(&e)),
      K::Ee(s) => format!("source {} has emitted", s),
      K::Cb(w, e) => format!("subscriber {} gets {}", w, show(&e)),
      K::Ce(w) => format!("subscriber {}'s callback returns", w),
      K::M(m, i) => format!("{} {}", m, i),
    });
  }
  /// with a scheduling point before it
  pub fn push(&self, k: K) {
    rt::op(&self.o, true, 201);
    self.add(k)
  }
  /// without one: belongs to the operation before it
  pub fn mark(&self, k: K) {
    rt::mark(&self.o, true, 202);
    self.add(k)
  }
  pub fn take(&self) -> Vec<R> {
    self.v.get().clone()
  }
  pub fn all(&self) -> &Vec<R> {
    self.v.get()
  }
}

/// Per record: the index of the innermost emission open on its thread.
pub fn origins(l: &[R]) -> Vec<Option<usize>> {
  let mut open: Vec<Vec<usize>> = vec![];
  let mut out = vec![];
  for (i, r) in l.iter().enumerate() {
    if r.t >= open.len() {
      open.resize(r.t + 1, vec![]);
    }
    if let K::Em(..) = r.k {
      open[r.t].push(i);
    }
    out.push(open[r.t].last().copied());
    if let K::Ee(_) = r.k {
      open[r.t].pop();
    }
  }
  out
}
pub fn cbs(l: &[R], who: usize) -> Vec<(usize, Ev)> {
  l.iter().enumerate().filter_map(|(i, r)| if let K::Cb(w, e) = r.k { (w == who).then_some((i, e)) } else { None }).collect()
}
pub fn got(l: &[R], who: usize) -> Vec<Ev> {
  cbs(l, who).into_iter().map(|x| x.1).collect()
}
/// index of the record that ends the callback begun at `i`
pub fn cb_end(l: &[R], i: usize) -> Option<usize> {
  let (t, mut depth) = (l[i].t, 0);
  for (j, r) in l.iter().enumerate().skip(i) {
    if r.t == t {
      match r.k {
        K::Cb(..) => depth += 1,
        K::Ce(_) => {
          depth -= 1;
          if depth == 0 {
            return Some(j);
          }
        }
        _ => {}
      }
    }
  }
  None
}
pub fn find(l: &[R], m: &str, id: i64) -> Option<usize> {
  l.iter().position(|r| matches!(r.k, K::M(x, i) if x == m && i == id))
}
pub fn mine(l: &[R], m: &str) -> Vec<(usize, i64)> {
  l.iter().enumerate().filter_map(|(i, r)| if let K::M(x, n) = r.k { (x == m).then_some((i, n)) } else { None }).collect()
}
