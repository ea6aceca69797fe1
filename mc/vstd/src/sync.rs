//! Locks, condition variables, atomics, channels and once-cells of the controlled runtime.
pub use ::std::sync::*;
use crate::rt::{self, ObjId, RawLock};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::marker::PhantomData;
use ::std::ops::{Deref, DerefMut};
use ::std::time::Duration;

// ---------------------------------------------------------------- RwLock

pub struct RwLock<T: ?Sized> {
  raw: RawLock,
  data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized> {
  l: &'a RwLock<T>,
  _p: PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
  l: &'a RwLock<T>,
  _p: PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
  pub const fn new(t: T) -> RwLock<T> {
    RwLock { raw: RawLock::new(), data: UnsafeCell::new(t) }
  }
  pub fn into_inner(self) -> LockResult<T> {
    Ok(self.data.into_inner())
  }
}
impl<T: ?Sized> RwLock<T> {
  pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
    let l = rt::here(self);
    l.raw.acquire(false);
    Ok(RwLockReadGuard { l, _p: PhantomData })
  }
  pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
    let l = rt::here(self);
    l.raw.acquire(true);
    Ok(RwLockWriteGuard { l, _p: PhantomData })
  }
  pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
    let l = rt::here(self);
    if l.raw.try_acquire(false) {
      Ok(RwLockReadGuard { l, _p: PhantomData })
    } else {
      Err(TryLockError::WouldBlock)
    }
  }
  pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
    let l = rt::here(self);
    if l.raw.try_acquire(true) {
      Ok(RwLockWriteGuard { l, _p: PhantomData })
    } else {
      Err(TryLockError::WouldBlock)
    }
  }
  pub fn is_poisoned(&self) -> bool {
    false
  }
  pub fn clear_poison(&self) {}
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    Ok(self.data.get_mut())
  }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.l.data.get() }
  }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.l.data.get() }
  }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    unsafe { &mut *self.l.data.get() }
  }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
  fn drop(&mut self) {
    self.l.raw.release(false)
  }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
  fn drop(&mut self) {
    self.l.raw.release(true)
  }
}
impl<T: Default> Default for RwLock<T> {
  fn default() -> Self {
    RwLock::new(T::default())
  }
}
impl<T> From<T> for RwLock<T> {
  fn from(t: T) -> Self {
    RwLock::new(t)
  }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("RwLock")
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}

// ---------------------------------------------------------------- Mutex

pub struct Mutex<T: ?Sized> {
  raw: RawLock,
  data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
  l: &'a Mutex<T>,
  _p: PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
  pub const fn new(t: T) -> Mutex<T> {
    Mutex { raw: RawLock::new(), data: UnsafeCell::new(t) }
  }
  pub fn into_inner(self) -> LockResult<T> {
    Ok(self.data.into_inner())
  }
}
impl<T: ?Sized> Mutex<T> {
  pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
    let l = rt::here(self);
    l.raw.acquire(true);
    Ok(MutexGuard { l, _p: PhantomData })
  }
  pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
    let l = rt::here(self);
    if l.raw.try_acquire(true) {
      Ok(MutexGuard { l, _p: PhantomData })
    } else {
      Err(TryLockError::WouldBlock)
    }
  }
  pub fn is_poisoned(&self) -> bool {
    false
  }
  pub fn clear_poison(&self) {}
  pub fn get_mut(&mut self) -> LockResult<&mut T> {
    Ok(self.data.get_mut())
  }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
  type Target = T;
  fn deref(&self) -> &T {
    unsafe { &*self.l.data.get() }
  }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
  fn deref_mut(&mut self) -> &mut T {
    unsafe { &mut *self.l.data.get() }
  }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
  fn drop(&mut self) {
    self.l.raw.release(true)
  }
}
impl<T: Default> Default for Mutex<T> {
  fn default() -> Self {
    Mutex::new(T::default())
  }
}
impl<T> From<T> for Mutex<T> {
  fn from(t: T) -> Self {
    Mutex::new(t)
  }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("Mutex")
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}

// ---------------------------------------------------------------- Condvar

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
  pub fn timed_out(&self) -> bool {
    self.0
  }
}

pub struct Condvar {
  obj: ObjId,
}
impl Condvar {
  pub const fn new() -> Condvar {
    Condvar { obj: ObjId::new() }
  }
  pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
    rt::cond_wait(&rt::here(self).obj, &g.l.raw, None);
    Ok(g)
  }
  pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
    while f(&mut *g) {
      if rt::killing() {
        break;
      }
      g = self.wait(g)?;
    }
    Ok(g)
  }
  pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
    let to = rt::cond_wait(&rt::here(self).obj, &g.l.raw, Some(rt::now().saturating_add(d.as_nanos() as u64)));
    Ok((g, WaitTimeoutResult(to)))
  }
  pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
    &self,
    mut g: MutexGuard<'a, T>,
    d: Duration,
    mut f: F,
  ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
    let end = rt::now().saturating_add(d.as_nanos() as u64);
    loop {
      if !f(&mut *g) || rt::killing() {
        return Ok((g, WaitTimeoutResult(false)));
      }
      if rt::now() >= end {
        return Ok((g, WaitTimeoutResult(true)));
      }
      rt::cond_wait(&rt::here(self).obj, &g.l.raw, Some(end));
    }
  }
  pub fn notify_one(&self) {
    rt::cond_notify(&rt::here(self).obj, false)
  }
  pub fn notify_all(&self) {
    rt::cond_notify(&rt::here(self).obj, true)
  }
}
impl Default for Condvar {
  fn default() -> Self {
    Condvar::new()
  }
}
impl fmt::Debug for Condvar {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("Condvar")
  }
}

// ---------------------------------------------------------------- atomics (sequentially consistent)

pub mod atomic {
  pub use ::std::sync::atomic::*;
  use crate::rt::{self, ObjId};
  use ::std::cell::UnsafeCell;

  macro_rules! base {
    ($name:ident, $t:ty) => {
      pub struct $name {
        obj: ObjId,
        v: UnsafeCell<$t>,
      }
      unsafe impl Sync for $name {}
      unsafe impl Send for $name {}
      impl ::std::panic::RefUnwindSafe for $name {}
      impl $name {
        pub const fn new(v: $t) -> Self {
          $name { obj: ObjId::new(), v: UnsafeCell::new(v) }
        }
        #[inline]
        fn rmw(&self, f: impl FnOnce($t) -> $t) -> $t {
          let s = rt::here(self);
          rt::op(&s.obj, true, 31);
          unsafe {
            let old = *s.v.get();
            *s.v.get() = f(old);
            old
          }
        }
        pub fn load(&self, _: Ordering) -> $t {
          let s = rt::here(self);
          rt::op(&s.obj, false, 32);
          unsafe { *s.v.get() }
        }
        pub fn store(&self, v: $t, _: Ordering) {
          self.rmw(|_| v);
        }
        pub fn swap(&self, v: $t, _: Ordering) -> $t {
          self.rmw(|_| v)
        }
        pub fn compare_exchange(&self, c: $t, n: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
          let old = self.rmw(|o| if o == c { n } else { o });
          if old == c {
            Ok(old)
          } else {
            Err(old)
          }
        }
        pub fn compare_exchange_weak(&self, c: $t, n: $t, a: Ordering, b: Ordering) -> Result<$t, $t> {
          self.compare_exchange(c, n, a, b)
        }
        pub fn compare_and_swap(&self, c: $t, n: $t, a: Ordering) -> $t {
          match self.compare_exchange(c, n, a, a) {
            Ok(v) => v,
            Err(v) => v,
          }
        }
        pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
          let mut ok = false;
          let old = self.rmw(|o| match f(o) {
            Some(n) => {
              ok = true;
              n
            }
            None => o,
          });
          if ok {
            Ok(old)
          } else {
            Err(old)
          }
        }
        pub fn into_inner(self) -> $t {
          self.v.into_inner()
        }
        pub fn get_mut(&mut self) -> &mut $t {
          self.v.get_mut()
        }
      }
      impl Default for $name {
        fn default() -> Self {
          $name::new(Default::default())
        }
      }
      impl From<$t> for $name {
        fn from(v: $t) -> Self {
          $name::new(v)
        }
      }
      impl ::std::fmt::Debug for $name {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
          unsafe { (*rt::here(self).v.get()).fmt(f) }
        }
      }
    };
  }
  macro_rules! int {
    ($name:ident, $t:ty) => {
      base!($name, $t);
      impl $name {
        pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
          self.rmw(|o| o.wrapping_add(v))
        }
        pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
          self.rmw(|o| o.wrapping_sub(v))
        }
        pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
          self.rmw(|o| o & v)
        }
        pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
          self.rmw(|o| o | v)
        }
        pub fn fetch_nand(&self, v: $t, _: Ordering) -> $t {
          self.rmw(|o| !(o & v))
        }
        pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
          self.rmw(|o| o ^ v)
        }
        pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
          self.rmw(|o| o.max(v))
        }
        pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
          self.rmw(|o| o.min(v))
        }
      }
    };
  }
  base!(AtomicBool, bool);
  impl AtomicBool {
    pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
      self.rmw(|o| o & v)
    }
    pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
      self.rmw(|o| o | v)
    }
    pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool {
      self.rmw(|o| o ^ v)
    }
    pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool {
      self.rmw(|o| !(o & v))
    }
    pub fn fetch_not(&self, _: Ordering) -> bool {
      self.rmw(|o| !o)
    }
  }
  int!(AtomicU8, u8);
  int!(AtomicU16, u16);
  int!(AtomicU32, u32);
  int!(AtomicU64, u64);
  int!(AtomicUsize, usize);
  int!(AtomicI8, i8);
  int!(AtomicI16, i16);
  int!(AtomicI32, i32);
  int!(AtomicI64, i64);
  int!(AtomicIsize, isize);
}

// ---------------------------------------------------------------- once cells, barrier

pub struct OnceLock<T> {
  m: Mutex<()>,
  v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
  pub const fn new() -> Self {
    OnceLock { m: Mutex::new(()), v: UnsafeCell::new(None) }
  }
  pub fn get(&self) -> Option<&T> {
    let s = rt::here(self);
    let _g = s.m.lock();
    unsafe { (*s.v.get()).as_ref() }
  }
  pub fn set(&self, v: T) -> Result<(), T> {
    let s = rt::here(self);
    let _g = s.m.lock();
    unsafe {
      if (*s.v.get()).is_some() {
        Err(v)
      } else {
        *s.v.get() = Some(v);
        Ok(())
      }
    }
  }
  pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
    let s = rt::here(self);
    let _g = s.m.lock();
    unsafe {
      if (*s.v.get()).is_none() {
        let v = f();
        *s.v.get() = Some(v);
      }
      (*s.v.get()).as_ref().unwrap()
    }
  }
  pub fn get_mut(&mut self) -> Option<&mut T> {
    self.v.get_mut().as_mut()
  }
  pub fn into_inner(self) -> Option<T> {
    self.v.into_inner()
  }
  pub fn take(&mut self) -> Option<T> {
    self.v.get_mut().take()
  }
}
impl<T> From<T> for OnceLock<T> {
  fn from(v: T) -> Self {
    OnceLock { m: Mutex::new(()), v: UnsafeCell::new(Some(v)) }
  }
}
impl<T: Clone> Clone for OnceLock<T> {
  fn clone(&self) -> Self {
    OnceLock { m: Mutex::new(()), v: UnsafeCell::new(self.get().cloned()) }
  }
}
impl<T: PartialEq> PartialEq for OnceLock<T> {
  fn eq(&self, o: &Self) -> bool {
    self.get() == o.get()
  }
}
impl<T: Eq> Eq for OnceLock<T> {}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.get().fmt(f)
  }
}
impl<T> Default for OnceLock<T> {
  fn default() -> Self {
    Self::new()
  }
}

pub struct LazyLock<T, F = fn() -> T> {
  cell: OnceLock<T>,
  f: UnsafeCell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
  pub const fn new(f: F) -> Self {
    LazyLock { cell: OnceLock::new(), f: UnsafeCell::new(Some(f)) }
  }
  pub fn force(this: &Self) -> &T {
    let this = rt::here(this);
    this.cell.get_or_init(|| unsafe { ((*this.f.get()).take().unwrap())() })
  }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
  type Target = T;
  fn deref(&self) -> &T {
    LazyLock::force(self)
  }
}

pub struct Once {
  m: Mutex<bool>,
}
impl Once {
  pub const fn new() -> Once {
    Once { m: Mutex::new(false) }
  }
  pub fn call_once<F: FnOnce()>(&self, f: F) {
    let mut g = self.m.lock().unwrap();
    if !*g {
      f();
      *g = true;
    }
  }
  pub fn is_completed(&self) -> bool {
    *self.m.lock().unwrap()
  }
}

pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
  pub fn is_leader(&self) -> bool {
    self.0
  }
}
pub struct Barrier {
  m: Mutex<(usize, usize)>,
  c: Condvar,
  n: usize,
}
impl Barrier {
  pub const fn new(n: usize) -> Barrier {
    Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n }
  }
  pub fn wait(&self) -> BarrierWaitResult {
    let mut g = self.m.lock().unwrap();
    let gen = g.1;
    g.0 += 1;
    if g.0 < self.n {
      while g.1 == gen && !rt::killing() {
        g = self.c.wait(g).unwrap();
      }
      BarrierWaitResult(false)
    } else {
      g.0 = 0;
      g.1 += 1;
      self.c.notify_all();
      BarrierWaitResult(true)
    }
  }
}

// ---------------------------------------------------------------- channels

pub mod mpsc {
  pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
  use super::{Condvar, Mutex};
  use ::std::collections::VecDeque;
  use ::std::sync::Arc;
  use ::std::time::Duration;

  struct St<T> {
    q: VecDeque<T>,
    senders: usize,
    receiver: bool,
    taken: usize,
  }
  struct Ch<T> {
    m: Mutex<St<T>>,
    c: Condvar,
    cap: Option<usize>,
  }
  pub struct Sender<T>(Arc<Ch<T>>);
  pub struct SyncSender<T>(Arc<Ch<T>>);
  pub struct Receiver<T>(Arc<Ch<T>>);

  fn make<T>(cap: Option<usize>) -> Arc<Ch<T>> {
    Arc::new(Ch {
      m: Mutex::new(St { q: VecDeque::new(), senders: 1, receiver: true, taken: 0 }),
      c: Condvar::new(),
      cap,
    })
  }
  pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = make(None);
    (Sender(c.clone()), Receiver(c))
  }
  pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = make(Some(n));
    (SyncSender(c.clone()), Receiver(c))
  }
  impl<T> Ch<T> {
    fn send(&self, v: T) -> Result<(), SendError<T>> {
      let mut g = self.m.lock().unwrap();
      if let Some(cap) = self.cap {
        while g.receiver && g.q.len() >= cap.max(1) && !crate::rt::killing() {
          g = self.c.wait(g).unwrap();
        }
      }
      if !g.receiver {
        return Err(SendError(v));
      }
      g.q.push_back(v);
      let ticket = g.taken + g.q.len();
      self.c.notify_all();
      if self.cap == Some(0) {
        while g.receiver && g.taken < ticket && !crate::rt::killing() {
          g = self.c.wait(g).unwrap();
        }
      }
      Ok(())
    }
    fn gone(&self) {
      let mut g = self.m.lock().unwrap();
      g.senders -= 1;
      if g.senders == 0 {
        self.c.notify_all();
      }
    }
  }
  macro_rules! sender {
    ($n:ident) => {
      impl<T> $n<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
          self.0.send(v)
        }
      }
      impl<T> Clone for $n<T> {
        fn clone(&self) -> Self {
          self.0.m.lock().unwrap().senders += 1;
          $n(self.0.clone())
        }
      }
      impl<T> Drop for $n<T> {
        fn drop(&mut self) {
          self.0.gone()
        }
      }
    };
  }
  sender!(Sender);
  sender!(SyncSender);
  impl<T> SyncSender<T> {
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
      let mut g = self.0.m.lock().unwrap();
      if !g.receiver {
        return Err(TrySendError::Disconnected(v));
      }
      if g.q.len() >= self.0.cap.unwrap_or(usize::MAX).max(1) {
        return Err(TrySendError::Full(v));
      }
      g.q.push_back(v);
      self.0.c.notify_all();
      Ok(())
    }
  }
  impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
      let mut g = self.0.m.lock().unwrap();
      loop {
        if let Some(v) = g.q.pop_front() {
          g.taken += 1;
          self.0.c.notify_all();
          return Ok(v);
        }
        if g.senders == 0 || crate::rt::killing() {
          return Err(RecvError);
        }
        g = self.0.c.wait(g).unwrap();
      }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
      let mut g = self.0.m.lock().unwrap();
      if let Some(v) = g.q.pop_front() {
        g.taken += 1;
        self.0.c.notify_all();
        return Ok(v);
      }
      if g.senders == 0 {
        Err(TryRecvError::Disconnected)
      } else {
        Err(TryRecvError::Empty)
      }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
      let end = crate::rt::now().saturating_add(d.as_nanos() as u64);
      let mut g = self.0.m.lock().unwrap();
      loop {
        if let Some(v) = g.q.pop_front() {
          g.taken += 1;
          self.0.c.notify_all();
          return Ok(v);
        }
        if g.senders == 0 || crate::rt::killing() {
          return Err(RecvTimeoutError::Disconnected);
        }
        let now = crate::rt::now();
        if now >= end {
          return Err(RecvTimeoutError::Timeout);
        }
        g = self.0.c.wait_timeout(g, Duration::from_nanos(end - now)).unwrap().0;
      }
    }
    pub fn iter(&self) -> Iter<'_, T> {
      Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
      TryIter(self)
    }
  }
  impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
      let q = {
        let mut g = self.0.m.lock().unwrap();
        g.receiver = false;
        self.0.c.notify_all();
        ::std::mem::take(&mut g.q)
      };
      drop(q);
    }
  }
  pub struct Iter<'a, T>(&'a Receiver<T>);
  impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
      self.0.recv().ok()
    }
  }
  pub struct TryIter<'a, T>(&'a Receiver<T>);
  impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
      self.0.try_recv().ok()
    }
  }
  pub struct IntoIter<T>(Receiver<T>);
  impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
      self.0.recv().ok()
    }
  }
  impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
      IntoIter(self)
    }
  }
  impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
      Iter(self)
    }
  }
}
