//! Values, events and counted tokens used by every program the harness builds.
use another_rxrust::prelude::RxError;
use std::cell::{Cell, UnsafeCell};
use std::ops::Add;

thread_local! {
  static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// One live owner of something the user handed to the library.  The count is per
/// OS thread: one worker runs all coroutines of an execution.
pub struct Tok(());
impl Tok {
  pub fn new() -> Tok {
    LIVE.with(|l| l.set(l.get() + 1));
    Tok(())
  }
}
impl Clone for Tok {
  fn clone(&self) -> Tok {
    Tok::new()
  }
}
impl Drop for Tok {
  fn drop(&mut self) {
    LIVE.with(|l| l.set(l.get() - 1));
  }
}
pub fn live_tokens() -> i64 {
  LIVE.with(|l| l.get())
}
pub fn reset_tokens() {
  LIVE.with(|l| l.set(0))
}

#[derive(Clone)]
pub struct Val {
  pub n: i64,
  _t: Tok,
}
pub fn v(n: i64) -> Val {
  Val { n, _t: Tok::new() }
}
impl PartialEq for Val {
  fn eq(&self, o: &Val) -> bool {
    self.n == o.n
  }
}
impl Eq for Val {}
impl PartialOrd for Val {
  fn partial_cmp(&self, o: &Val) -> Option<std::cmp::Ordering> {
    self.n.partial_cmp(&o.n)
  }
}
impl std::hash::Hash for Val {
  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
    self.n.hash(h)
  }
}
impl Add for Val {
  type Output = Val;
  fn add(self, o: Val) -> Val {
    v(self.n.wrapping_add(o.n))
  }
}
impl std::fmt::Debug for Val {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{}", self.n)
  }
}

/// The payload of every error the harness injects.
pub struct Boom {
  pub id: i64,
  _t: Tok,
}
impl Boom {
  pub fn new(id: i64) -> Boom {
    Boom { id, _t: Tok::new() }
  }
}
impl std::fmt::Debug for Boom {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "Boom({})", self.id)
  }
}
pub fn boom(id: i64) -> RxError {
  RxError::from_error(Boom::new(id))
}
/// id of a payload; -1: not the type that was put in
pub fn boom_id(e: &RxError) -> i64 {
  match e.downcast_ref::<Boom>() {
    Some(b) => b.id,
    None => match e.downcast_ref::<std::io::Error>() {
      Some(x) if x.kind() == std::io::ErrorKind::TimedOut => TIMED_OUT,
      _ => -1,
    },
  }
}
pub const TIMED_OUT: i64 = -2;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ev {
  Next(i64),
  Err(i64),
  Done,
}
impl Ev {
  pub fn terminal(&self) -> bool {
    !matches!(self, Ev::Next(_))
  }
}
pub fn show(ev: &Ev) -> String {
  match ev {
    Ev::Next(n) => format!("{}", n),
    Ev::Err(e) => format!("!{}", e),
    Ev::Done => "|".into(),
  }
}
pub fn show_evs(evs: &[Ev]) -> String {
  let s: Vec<String> = evs.iter().map(show).collect();
  format!("[{}]", s.join(" "))
}

/// Shared cell for harness data.  All coroutines of an execution run on one OS
/// thread and no borrow is held across a call into the library.
pub struct Sh<T>(UnsafeCell<T>);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Sh<T> {
  pub fn new(t: T) -> Sh<T> {
    Sh(UnsafeCell::new(t))
  }
  #[allow(clippy::mut_from_ref)]
  pub fn get(&self) -> &mut T {
    unsafe { &mut *self.0.get() }
  }
}

/// a value the compiler must not use to derive Send/Sync
pub struct Force<T>(pub T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

// ---- encodings of structured items into i64 (harness side, same on both sides)
pub fn enc_list(xs: &[i64]) -> i64 {
  let mut h: i64 = 3 + xs.len() as i64;
  for x in xs {
    h = h.wrapping_mul(1_000_003).wrapping_add(*x).wrapping_add(17);
  }
  // keep small lists readable: [a b c] of digits
  if xs.len() <= 8 && xs.iter().all(|x| (0..10).contains(x)) {
    let mut d: i64 = 1;
    for x in xs {
      d = d * 10 + x;
    }
    return 7_000_000_000 + d;
  }
  h
}
pub fn enc_pair(a: i64, b: i64) -> i64 {
  a.wrapping_mul(1000).wrapping_add(b).wrapping_add(500_000)
}
/// material: 0 next, 1 error, 2 complete
pub fn enc_mat(kind: i64, n: i64) -> i64 {
  n.wrapping_mul(4).wrapping_add(kind).wrapping_add(40_000)
}
pub fn enc_idx(idx: i64, kind: i64, n: i64) -> i64 {
  enc_mat(kind, n).wrapping_add(idx.wrapping_mul(1_000_000))
}
