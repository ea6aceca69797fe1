//! Threads are coroutines of the controlled runtime.
pub use ::std::thread::*;
use crate::rt;
use ::std::io;
use ::std::sync::Arc;
use ::std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(usize);

#[derive(Clone, Debug)]
pub struct Thread {
  id: usize,
  name: Option<Arc<str>>,
}
impl Thread {
  pub fn id(&self) -> ThreadId {
    ThreadId(self.id)
  }
  pub fn name(&self) -> Option<&str> {
    self.name.as_deref()
  }
  pub fn unpark(&self) {
    rt::unpark(self.id)
  }
}

struct Slot<T>(::std::cell::UnsafeCell<Option<T>>);
unsafe impl<T> Sync for Slot<T> {}
unsafe impl<T> Send for Slot<T> {}

pub struct JoinHandle<T> {
  id: usize,
  thread: Thread,
  slot: Arc<Slot<T>>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
  pub fn join(self) -> ::std::thread::Result<T> {
    rt::join(self.id);
    match unsafe { (*self.slot.0.get()).take() } {
      Some(v) => Ok(v),
      None => Err(Box::new("the thread did not finish")),
    }
  }
  pub fn is_finished(&self) -> bool {
    rt::yield_now();
    rt::is_finished(self.id)
  }
  pub fn thread(&self) -> &Thread {
    &self.thread
  }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
  F: FnOnce() -> T + Send + 'static,
  T: Send + 'static,
{
  spawn_named(None, f)
}
fn spawn_named<F, T>(name: Option<String>, f: F) -> JoinHandle<T>
where
  F: FnOnce() -> T + Send + 'static,
  T: Send + 'static,
{
  let slot = Arc::new(Slot(::std::cell::UnsafeCell::new(None)));
  let s2 = slot.clone();
  let id = rt::spawn(
    name,
    Box::new(move || {
      let v = f();
      unsafe { *s2.0.get() = Some(v) };
    }),
  );
  JoinHandle { id, thread: thread(id), slot }
}

#[derive(Debug, Default)]
pub struct Builder {
  name: Option<String>,
}
impl Builder {
  pub fn new() -> Builder {
    Builder { name: None }
  }
  pub fn name(mut self, n: String) -> Builder {
    self.name = Some(n);
    self
  }
  pub fn stack_size(self, _: usize) -> Builder {
    self
  }
  pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
  where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
  {
    Ok(spawn_named(self.name, f))
  }
}

pub fn sleep(d: Duration) {
  rt::sleep(d.as_nanos() as u64)
}
pub fn sleep_ms(ms: u32) {
  rt::sleep(ms as u64 * 1_000_000)
}
pub fn yield_now() {
  rt::yield_now()
}
pub fn current() -> Thread {
  thread(rt::current())
}
pub fn park() {
  rt::park(None)
}
pub fn park_timeout(d: Duration) {
  rt::park(Some(rt::now() + d.as_nanos() as u64))
}

fn thread(id: usize) -> Thread {
  Thread { id, name: rt::thread_name(id).map(Arc::from) }
}

/// one value per thread of the program (they all run on one OS thread)
pub struct LocalKey<T: 'static> {
  init: fn() -> T,
}
impl<T: 'static> LocalKey<T> {
  #[doc(hidden)]
  pub const fn new(init: fn() -> T) -> Self {
    LocalKey { init }
  }
  pub fn with<F, R>(&'static self, f: F) -> R
  where
    F: FnOnce(&T) -> R,
  {
    f(unsafe { &*rt::local(self as *const Self as usize, self.init) })
  }
  pub fn try_with<F, R>(&'static self, f: F) -> ::std::result::Result<R, AccessError>
  where
    F: FnOnce(&T) -> R,
  {
    Ok(self.with(f))
  }
}
impl<T: 'static> LocalKey<::std::cell::Cell<T>> {
  pub fn set(&'static self, v: T) {
    self.with(|c| c.set(v))
  }
  pub fn get(&'static self) -> T
  where
    T: Copy,
  {
    self.with(|c| c.get())
  }
  pub fn take(&'static self) -> T
  where
    T: Default,
  {
    self.with(|c| c.take())
  }
  pub fn replace(&'static self, v: T) -> T {
    self.with(|c| c.replace(v))
  }
}
impl<T: 'static> LocalKey<::std::cell::RefCell<T>> {
  pub fn with_borrow<F, R>(&'static self, f: F) -> R
  where
    F: FnOnce(&T) -> R,
  {
    self.with(|c| f(&c.borrow()))
  }
  pub fn with_borrow_mut<F, R>(&'static self, f: F) -> R
  where
    F: FnOnce(&mut T) -> R,
  {
    self.with(|c| f(&mut c.borrow_mut()))
  }
  pub fn set(&'static self, v: T) {
    self.with(|c| *c.borrow_mut() = v)
  }
  pub fn take(&'static self) -> T
  where
    T: Default,
  {
    self.with(|c| c.take())
  }
  pub fn replace(&'static self, v: T) -> T {
    self.with(|c| c.replace(v))
  }
}

#[macro_export]
macro_rules! thread_local {
  () => {};
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $init:block $(; $($rest:tt)*)?) => {
    $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $init);
    $($crate::thread_local!($($rest)*);)?
  };
  ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $init:expr $(; $($rest:tt)*)?) => {
    $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = $crate::thread::LocalKey::new(|| $init);
    $($crate::thread_local!($($rest)*);)?
  };
}
