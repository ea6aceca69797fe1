//! The controlled runtime: coroutines on one OS thread, a virtual clock, and a
//! stateless explorer (deviation-bounded DFS with happens-before state caching).
//!
//! * Every facade operation of `sync`/`thread`/`time` goes through this module.
//! * A *scheduling point* lies before every operation on an object that more than
//!   one thread is known to use (discovered during exploration; the exploration
//!   restarts when a new shared object shows up) and wherever a thread blocks.
//! * The clock only advances when no thread can run (or after a fairness limit).
use ::std::cell::Cell;
use ::std::collections::{HashMap, HashSet};
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::rc::Rc;
use ::std::sync::atomic::{AtomicU64, Ordering};
use ::std::time::Instant as RealInstant;

// ---------------------------------------------------------------- context switch

#[cfg(not(target_arch = "x86_64"))]
compile_error!("the controlled runtime's context switch is written for x86_64");

::std::arch::global_asm!(
  ".text",
  ".balign 16",
  ".globl vstd_switch",
  "vstd_switch:",
  "push rbp",
  "push rbx",
  "push r12",
  "push r13",
  "push r14",
  "push r15",
  "mov [rdi], rsp",
  "mov rsp, rsi",
  "pop r15",
  "pop r14",
  "pop r13",
  "pop r12",
  "pop rbx",
  "pop rbp",
  "ret",
);
extern "C" {
  fn vstd_switch(save: *mut usize, to: usize);
  fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
  fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
  fn munmap(a: *mut u8, len: usize) -> i32;
}

const STACK: usize = 16 << 20;
/// less than this left on a coroutine's stack counts as runaway recursion
const STACK_RESERVE: usize = 2 << 20;

struct Stack {
  base: *mut u8,
}
impl Stack {
  fn new() -> Stack {
    unsafe {
      // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
      let p = mmap(::std::ptr::null_mut(), STACK, 3, 0x2 | 0x20 | 0x4000, -1, 0);
      assert!(p as isize != -1, "mmap of a coroutine stack failed");
      mprotect(p, 4096, 0);
      Stack { base: p }
    }
  }
  fn top(&self) -> usize {
    (self.base as usize + STACK) & !15
  }
}
impl Drop for Stack {
  fn drop(&mut self) {
    unsafe {
      munmap(self.base, STACK);
    }
  }
}

// ---------------------------------------------------------------- hashing

#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
  let mut h = h.rotate_left(23) ^ v.wrapping_mul(0x9E3779B97F4A7C15);
  h = (h ^ (h >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  h = (h ^ (h >> 27)).wrapping_mul(0x94D049BB133111EB);
  h ^ (h >> 31)
}

#[derive(Default, Clone, Copy)]
pub struct Bh;
pub struct IdHasher(u64);
impl ::std::hash::BuildHasher for Bh {
  type Hasher = IdHasher;
  fn build_hasher(&self) -> IdHasher {
    IdHasher(0)
  }
}
impl ::std::hash::Hasher for IdHasher {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, b: &[u8]) {
    for x in b {
      self.0 = mix(self.0, *x as u64);
    }
  }
  fn write_u64(&mut self, v: u64) {
    self.0 ^= v;
  }
}

// ---------------------------------------------------------------- sync objects

/// Identity and happens-before version of a synchronisation object, assigned at
/// its first use in an execution.
pub struct ObjId {
  epoch: Cell<u64>,
  id: Cell<u64>,
  ver: Cell<u64>,
  racc: Cell<u64>,
  owner: Cell<u32>,
  shared: Cell<bool>,
  tried: Cell<bool>,
}
unsafe impl Sync for ObjId {}
unsafe impl Send for ObjId {}
impl ObjId {
  pub const fn new() -> ObjId {
    ObjId {
      epoch: Cell::new(0),
      id: Cell::new(0),
      ver: Cell::new(0),
      racc: Cell::new(0),
      owner: Cell::new(0),
      shared: Cell::new(false),
      tried: Cell::new(false),
    }
  }
}

/// makes the key of a tried lock in the set of shared objects
const TRIED: u64 = 0x7e57;

/// Lock state; a Mutex only ever uses `writer`.
pub struct RawLock {
  pub obj: ObjId,
  writer: Cell<bool>,
  readers: Cell<u32>,
  wwait: Cell<u32>,
  holder: Cell<u32>,
}
unsafe impl Sync for RawLock {}
unsafe impl Send for RawLock {}
impl RawLock {
  pub const fn new() -> RawLock {
    RawLock {
      obj: ObjId::new(),
      writer: Cell::new(false),
      readers: Cell::new(0),
      wwait: Cell::new(0),
      holder: Cell::new(u32::MAX),
    }
  }
  #[inline]
  fn can_write(&self) -> bool {
    !self.writer.get() && self.readers.get() == 0
  }
  /// Like the futex RwLock of std on Linux: a reader queues behind a waiting writer.
  #[inline]
  fn can_read(&self) -> bool {
    !self.writer.get() && self.wwait.get() == 0
  }
  #[inline]
  fn grant(&self, write: bool, who: usize) {
    if write {
      self.writer.set(true);
    } else {
      self.readers.set(self.readers.get() + 1);
    }
    self.holder.set(who as u32);
  }
  /// A lock last used in an earlier execution belongs to a `static` (or leaked)
  /// object; forget what that execution left in it.
  #[inline]
  fn fresh(&self, e: &Engine) {
    if self.obj.epoch.get() != e.epoch {
      self.writer.set(false);
      self.readers.set(0);
      self.wwait.set(0);
    }
  }
  pub fn acquire(&self, write: bool) {
    let e = match eng() {
      Some(e) => e,
      None => {
        // no runtime: single-threaded use
        assert!(if write { self.can_write() } else { !self.writer.get() }, "lock contended outside the runtime");
        self.grant(write, u32::MAX as usize);
        return;
      }
    };
    self.fresh(e);
    if !e.enter_op() {
      self.grant(write, e.cur);
      return;
    }
    let shared = e.touch(&self.obj);
    let me = e.cur;
    let ok = if write { self.can_write() } else { self.can_read() };
    if !ok || shared || e.consec >= e.cfg.fair {
      e.threads[me].wait = Wait::Lock { l: self, write, queued: false };
      loop {
        e.sched(shared);
        if e.killing {
          if !::std::thread::panicking() {
            resume_unwind(Box::new(KillToken));
          }
          break;
        }
        // we were chosen: either the lock can be granted, or we join the writers' queue
        let ok = if write { self.can_write() } else { self.can_read() };
        match &mut e.threads[me].wait {
          Wait::Lock { queued, .. } => {
            if ok {
              if *queued {
                self.wwait.set(self.wwait.get() - 1);
              }
              break;
            }
            if write && !*queued {
              *queued = true;
              self.wwait.set(self.wwait.get() + 1);
            }
          }
          _ => unreachable!(),
        }
      }
      e.threads[me].wait = Wait::Ready;
    }
    self.grant(write, me);
    e.event(&self.obj, write, 1 + write as u64);
  }
  pub fn try_acquire(&self, write: bool) -> bool {
    if let Some(e) = eng() {
      self.fresh(e);
      if !e.enter_op() {
        self.grant(write, e.cur);
        return true;
      }
      e.tries(&self.obj);
      if e.touch(&self.obj) || e.consec >= e.cfg.fair {
        e.sched_ready();
      }
    }
    let ok = if write { self.can_write() } else { self.can_read() };
    if ok {
      self.grant(write, current());
    }
    if let Some(e) = eng() {
      // a failed attempt also observes the state of the lock
      e.event(&self.obj, true, 5 + ok as u64);
    }
    ok
  }
  /// Releasing is seen by nobody, unless somebody tries the lock: then it is an
  /// operation with a scheduling point of its own, so that the attempt meets it held.
  #[inline]
  pub fn release(&self, write: bool) {
    if self.obj.tried.get() {
      if let Some(e) = eng() {
        if !e.killing && !::std::thread::panicking() && self.obj.epoch.get() == e.epoch && e.cfg.explore {
          e.steps += 1;
          if e.touch(&self.obj) {
            e.sched(true);
          }
        }
      }
    }
    self.let_go(write);
  }
  #[inline]
  fn let_go(&self, write: bool) {
    if write {
      self.writer.set(false);
    } else {
      self.readers.set(self.readers.get().saturating_sub(1));
    }
    if self.obj.tried.get() {
      if let Some(e) = eng() {
        if self.obj.epoch.get() == e.epoch {
          e.event(&self.obj, true, 13);
        }
      }
    }
  }
}

// ---------------------------------------------------------------- statics

extern "C" {
  static __executable_start: u8;
  static _end: u8;
}

/// Objects of `static`s: every execution has its own copy of them, made from the
/// initial value, so that neither earlier executions nor other workers are seen.
#[inline]
pub fn here<T: ?Sized>(x: &T) -> &T {
  let a = x as *const T as *const u8 as usize;
  let (lo, hi) = unsafe { (&__executable_start as *const u8 as usize, &_end as *const u8 as usize) };
  if a.wrapping_sub(lo) < hi - lo {
    moved(x, a)
  } else {
    x
  }
}
#[cold]
fn moved<T: ?Sized>(x: &T, a: usize) -> &T {
  let e = match eng() {
    Some(e) => e,
    None => return x,
  };
  let n = ::std::mem::size_of_val(x);
  let copy = e.statics.entry((a, n)).or_insert_with(|| {
    let mut v = vec![0u128; n.div_ceil(16).max(1)].into_boxed_slice();
    unsafe { ::std::ptr::copy_nonoverlapping(a as *const u8, v.as_mut_ptr() as *mut u8, n) };
    v
  });
  let mut p = x as *const T;
  unsafe {
    *(&mut p as *mut *const T as *mut usize) = copy.as_ptr() as usize;
    &*p
  }
}

/// the current thread's value of a `thread_local!`
pub fn local<T: 'static>(key: usize, init: fn() -> T) -> *const T {
  thread_local! {
    static OUTSIDE: ::std::cell::RefCell<HashMap<(usize, usize), Box<dyn ::std::any::Any>>> = Default::default();
  }
  fn get<T: 'static>(m: &HashMap<(usize, usize), Box<dyn ::std::any::Any>>, k: (usize, usize)) -> Option<*const T> {
    m.get(&k).map(|x| x.downcast_ref::<T>().unwrap() as *const T)
  }
  match eng() {
    Some(e) => {
      let k = (key, e.cur);
      if let Some(p) = get(&e.locals, k) {
        return p;
      }
      let v = Box::new(init());
      let e = eng().unwrap();
      e.locals.entry(k).or_insert(v);
      get(&e.locals, k).unwrap()
    }
    None => {
      let k = (key, 0);
      if let Some(p) = OUTSIDE.with(|m| get(&m.borrow(), k)) {
        return p;
      }
      let v = Box::new(init());
      OUTSIDE.with(|m| {
        m.borrow_mut().entry(k).or_insert(v);
        get(&m.borrow(), k).unwrap()
      })
    }
  }
}

// ---------------------------------------------------------------- engine types

#[derive(Clone, Copy)]
enum Wait {
  Ready,
  Lock { l: *const RawLock, write: bool, queued: bool },
  Cond { obj: u64, cv: usize, seq: u64, until: Option<u64> },
  Join(usize),
  Sleep(u64),
  Park { until: Option<u64> },
  Quiesce,
  Finished,
}

struct Thr {
  stable: u64,
  sp: usize,
  stack: Option<Stack>,
  wait: Wait,
  woken: bool,
  timed_out: bool,
  evs: u64,
  wake_hash: u64,
  touches: u64,
  spawns: u64,
  entry: Option<Box<dyn FnOnce()>>,
  token: bool,
  park_obj: Rc<ObjId>,
  end_hash: u64,
  name: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Config {
  /// how many deviations (preemptions, early timers, spurious wake-ups) an execution may contain
  pub bound: u32,
  /// explore schedules; false = one execution with the default schedule
  pub explore: bool,
  pub max_steps: u64,
  pub fair: u32,
  pub spurious: bool,
  pub early_timers: bool,
  pub hash_seed: u64,
  pub max_execs: u64,
  /// skip what has been explored from an equivalent state
  pub cache: bool,
  pub deadline: Option<RealInstant>,
}
impl Default for Config {
  fn default() -> Config {
    Config {
      bound: 2,
      explore: true,
      max_steps: 30_000,
      fair: 2_000,
      spurious: false,
      early_timers: false,
      hash_seed: 0,
      max_execs: u64::MAX,
      cache: true,
      deadline: None,
    }
  }
}

/// What a candidate of a scheduling point does.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
  Run(usize),
  /// let the clock jump to this thread's wake-up time although others could run
  Timer(usize),
  /// spurious wake-up of a condition-variable wait
  Spurious(usize),
  /// the i-th alternative of a harness choice
  Pick(usize),
}

struct Point {
  n: usize,
  sig: u64,
  chosen: usize,
  cost: u32,
  todo: Vec<(usize, u32)>, // (candidate, cost), explored from the back
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
  Oracle,
  Deadlock,
  Livelock,
  Panic,
  Machinery,
}

#[derive(Clone, Debug)]
pub struct Failure {
  pub kind: Kind,
  pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
  pub execs: u64,
  pub states: u64,
  pub transitions: u64,
  pub max_depth: u64,
  pub bound: u32,
  pub complete: bool,
}

/// A schedule that reproduces an execution.
#[derive(Clone, Debug, Default)]
pub struct Schedule {
  pub bound: u32,
  pub shared: Vec<u64>,
  pub choices: Vec<u16>,
}

pub struct Engine {
  cfg: Config,
  epoch: u64,
  threads: Vec<Thr>,
  cur: usize,
  host_sp: usize,
  clock: u64,
  steps: u64,
  consec: u32,
  hb: u64,
  cond_seq: u64,
  remaining: u32,
  pos: usize,
  points: Vec<Point>,
  recording: bool,
  fixed: Option<Vec<u16>>,
  choices: Vec<u16>,
  visited: HashMap<u64, u32, Bh>,
  shared: HashSet<u64, Bh>,
  newly_shared: bool,
  main_done: bool,
  killing: bool,
  kill_ops: u64,
  failure: Option<Failure>,
  stacks: Vec<Stack>,
  transitions: u64,
  cands: Vec<(Act, u32)>,
  pub log: Vec<String>,
  tracing: bool,
  statics: HashMap<(usize, usize), Box<[u128]>>,
  locals: HashMap<(usize, usize), Box<dyn ::std::any::Any>>,
}

thread_local! {
  static ENGINE: Cell<*mut Engine> = const { Cell::new(::std::ptr::null_mut()) };
  static PANIC_MSG: Cell<Option<String>> = const { Cell::new(None) };
}
static EPOCHS: AtomicU64 = AtomicU64::new(1);
/// ends every exploration at its next execution (memory guard)
pub static STOP: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);

#[inline]
fn eng() -> Option<&'static mut Engine> {
  let p = ENGINE.with(|e| e.get());
  if p.is_null() {
    None
  } else {
    unsafe { Some(&mut *p) }
  }
}

pub struct KillToken;

// ---------------------------------------------------------------- queries

#[inline]
pub fn killing() -> bool {
  match eng() {
    Some(e) => e.killing,
    None => false,
  }
}
#[inline]
pub fn current() -> usize {
  match eng() {
    Some(e) => e.cur,
    None => u32::MAX as usize,
  }
}
pub fn active() -> bool {
  eng().is_some()
}
/// virtual time in nanoseconds
pub fn now() -> u64 {
  match eng() {
    Some(e) => e.clock,
    None => 0,
  }
}
pub fn hash_seed() -> u64 {
  match eng() {
    Some(e) => e.cfg.hash_seed,
    None => 0,
  }
}
pub fn steps() -> u64 {
  eng().map(|e| e.steps).unwrap_or(0)
}
/// threads (other than the caller) that have not finished
pub fn live_threads() -> Vec<usize> {
  let e = eng().unwrap();
  (0..e.threads.len())
    .filter(|&t| t != e.cur && !matches!(e.threads[t].wait, Wait::Finished))
    .collect()
}
pub fn thread_count() -> usize {
  eng().unwrap().threads.len()
}
pub fn is_finished(t: usize) -> bool {
  matches!(eng().unwrap().threads[t].wait, Wait::Finished)
}
pub fn describe(t: usize) -> String {
  eng().unwrap().describe(t)
}
pub fn tracing() -> bool {
  eng().map(|e| e.tracing).unwrap_or(false)
}
/// a line for the replay log (only kept while replaying)
pub fn note(f: impl FnOnce() -> String) {
  if let Some(e) = eng() {
    if e.tracing {
      let s = format!("[t={}ms thread {}] {}", e.clock / 1_000_000, e.cur, f());
      e.log.push(s);
    }
  }
}

impl Engine {
  fn describe(&self, t: usize) -> String {
    match self.threads[t].wait {
      Wait::Ready => format!("thread {} is runnable", t),
      Wait::Lock { l, write, .. } => {
        let l = unsafe { &*l };
        format!(
          "thread {} waits to {} a lock ({}{} readers, {} writers waiting, last acquired by thread {}{})",
          t,
          if write { "write" } else { "read" },
          if l.writer.get() { "write-locked, " } else { "" },
          l.readers.get(),
          l.wwait.get(),
          l.holder.get(),
          if l.holder.get() as usize == t { " = itself" } else { "" }
        )
      }
      Wait::Cond { .. } => format!("thread {} waits on a condition variable", t),
      Wait::Join(u) => format!("thread {} waits for thread {} to end", t, u),
      Wait::Sleep(u) => format!("thread {} sleeps until {}ms", t, u / 1_000_000),
      Wait::Park { .. } => format!("thread {} is parked", t),
      Wait::Quiesce => format!("thread {} waits for quiescence", t),
      Wait::Finished => format!("thread {} has finished", t),
    }
  }
  fn describe_all(&self) -> String {
    (0..self.threads.len())
      .filter(|&t| !matches!(self.threads[t].wait, Wait::Finished))
      .map(|t| self.describe(t))
      .collect::<Vec<_>>()
      .join("; ")
  }

  /// can this thread take a step (a queueing writer's attempt counts as one)
  #[inline]
  fn enabled(&self, t: usize) -> bool {
    let th = &self.threads[t];
    match th.wait {
      Wait::Ready => true,
      Wait::Lock { l, write, queued } => {
        let l = unsafe { &*l };
        if write {
          // an attempt that makes later readers wait is a step of its own
          l.can_write() || (!queued && l.readers.get() > 0 && !l.writer.get())
        } else {
          l.can_read()
        }
      }
      Wait::Cond { .. } => th.woken,
      Wait::Join(u) => matches!(self.threads[u].wait, Wait::Finished),
      Wait::Sleep(u) => u <= self.clock,
      Wait::Park { .. } => th.token || th.timed_out,
      Wait::Quiesce => false,
      Wait::Finished => false,
    }
  }

  #[inline]
  fn wake_time(&self, t: usize) -> Option<u64> {
    match self.threads[t].wait {
      Wait::Sleep(u) => Some(u),
      Wait::Cond { until, .. } => {
        if self.threads[t].woken {
          None
        } else {
          until
        }
      }
      Wait::Park { until } => until,
      _ => None,
    }
  }

  fn advance_to(&mut self, c: u64) {
    if c > self.clock {
      self.clock = c;
    }
    for t in 0..self.threads.len() {
      let due = match self.wake_time(t) {
        Some(u) => u <= self.clock,
        None => false,
      };
      if due && !matches!(self.threads[t].wait, Wait::Sleep(_)) {
        self.threads[t].woken = true;
        self.threads[t].timed_out = true;
      }
    }
  }

  fn state_hash(&self) -> u64 {
    let mut h = mix(self.hb, self.clock);
    for th in self.threads.iter() {
      let s = match th.wait {
        Wait::Ready => 1,
        Wait::Lock { l, write, queued } => mix(unsafe { (*l).obj.id.get() }, 2 + write as u64 + 2 * queued as u64),
        Wait::Cond { obj, .. } => mix(obj, 16 + th.woken as u64 + 2 * th.timed_out as u64),
        Wait::Join(u) => mix(u as u64, 6),
        Wait::Sleep(u) => mix(u, 7),
        Wait::Park { until } => mix(until.unwrap_or(0), 8 + th.token as u64),
        Wait::Quiesce => 10,
        Wait::Finished => 11,
      };
      h = h.wrapping_add(mix(th.stable, mix(s, th.evs)));
    }
    h
  }

  /// Bookkeeping at the start of every operation.  False: the execution is being
  /// torn down, the operation must not block or switch.
  #[inline]
  fn enter_op(&mut self) -> bool {
    if self.killing {
      self.kill_ops += 1;
      if !::std::thread::panicking() {
        resume_unwind(Box::new(KillToken));
      }
      return false;
    }
    if ::std::thread::panicking() {
      return false;
    }
    self.steps += 1;
    self.consec += 1;
    if self.steps > self.cfg.max_steps {
      let d = self.describe_all();
      self.fail_now(Kind::Livelock, format!("no end after {} operations: {}", self.steps - 1, d));
    }
    let probe = 0u8;
    if let Some(s) = &self.threads[self.cur].stack {
      let left = (&probe as *const u8 as usize).wrapping_sub(s.base as usize);
      if left < STACK_RESERVE {
        self.fail_now(Kind::Livelock, format!("runaway recursion in thread {} after {} operations", self.cur, self.steps));
      }
    }
    true
  }

  #[inline]
  fn touch(&mut self, o: &ObjId) -> bool {
    if !self.cfg.explore {
      if o.epoch.get() != self.epoch {
        o.epoch.set(self.epoch);
      }
      return false;
    }
    if o.epoch.get() != self.epoch {
      o.epoch.set(self.epoch);
      let th = &mut self.threads[self.cur];
      th.touches += 1;
      let id = mix(th.stable, th.touches);
      o.id.set(id);
      o.ver.set(id);
      o.racc.set(0);
      o.owner.set(self.cur as u32);
      o.shared.set(self.shared.contains(&id));
      o.tried.set(!self.shared.is_empty() && self.shared.contains(&mix(id, TRIED)));
    } else if o.owner.get() != self.cur as u32 && !o.shared.get() {
      o.shared.set(true);
      if self.shared.insert(o.id.get()) {
        self.newly_shared = true;
      }
    }
    o.shared.get()
  }

  /// somebody does not wait for this lock: releasing it becomes an operation
  #[inline]
  fn tries(&mut self, o: &ObjId) {
    self.touch(o);
    if self.cfg.explore && !o.tried.get() {
      o.tried.set(true);
      if self.shared.insert(mix(o.id.get(), TRIED)) {
        self.newly_shared = true;
      }
    }
  }

  /// an executed operation, for the happens-before hash
  #[inline]
  fn event(&mut self, o: &ObjId, write: bool, tag: u64) {
    self.transitions += 1;
    if !self.cfg.explore || self.killing || !o.shared.get() {
      return;
    }
    let th = &mut self.threads[self.cur];
    let h = if write {
      let h = mix(mix(th.evs, mix(o.ver.get(), o.racc.get())), tag);
      o.ver.set(h);
      o.racc.set(0);
      h
    } else {
      let h = mix(mix(th.evs, o.ver.get()), tag);
      o.racc.set(o.racc.get().wrapping_add(h));
      h
    };
    th.evs = h;
    self.hb = self.hb.wrapping_add(mix(h, 77));
  }

  fn fail_now(&mut self, kind: Kind, msg: String) -> ! {
    self.set_failure(kind, msg);
    self.abort_execution();
    resume_unwind(Box::new(KillToken));
  }
  fn set_failure(&mut self, kind: Kind, msg: String) {
    if self.failure.is_none() {
      if self.tracing {
        let s = format!("[t={}ms thread {}] FAILURE {:?}: {}", self.clock / 1_000_000, self.cur, kind, msg);
        self.log.push(s);
      }
      self.failure = Some(Failure { kind, msg });
    }
  }
  /// hand control to the host, which tears everything down
  fn abort_execution(&mut self) {
    let me = self.cur;
    let host = self.host_sp;
    unsafe {
      let save = &mut self.threads[me].sp as *mut usize;
      vstd_switch(save, host);
    }
  }

  /// a scheduling point of a thread that could go on
  #[inline]
  fn sched_ready(&mut self) {
    self.sched(true);
    if self.killing && !::std::thread::panicking() {
      resume_unwind(Box::new(KillToken));
    }
  }

  /// Choose who runs next and switch to it.  Returns when this thread is chosen
  /// (or the execution is torn down).  `branch`: explore alternatives here.
  fn sched(&mut self, branch: bool) {
    let me = self.cur;
    if self.killing {
      return;
    }
    let mut me_enabled = self.enabled(me);
    let mut forced = false;
    if self.consec > self.cfg.fair {
      self.consec = 0;
      // one that cannot go on anyway need not be made to give way
      forced = me_enabled;
    }
    let n = self.threads.len();
    let explore = self.cfg.explore;
    let mut cands = ::std::mem::take(&mut self.cands);
    loop {
      cands.clear();
      if me_enabled && !forced {
        cands.push((Act::Run(me), 0));
      }
      let cost = if me_enabled && !forced { 1 } else { 0 };
      if cost == 0 || (explore && branch && self.remaining > 0) {
        for k in 1..n {
          let t = (me + k) % n;
          if self.enabled(t) {
            cands.push((Act::Run(t), cost));
          }
        }
        if explore && branch && !cands.is_empty() {
          if self.cfg.early_timers {
            for k in 0..n {
              let t = (me + k) % n;
              if t != me && self.wake_time(t).map(|u| u > self.clock).unwrap_or(false) {
                cands.push((Act::Timer(t), 1));
              }
            }
          }
          if self.cfg.spurious {
            for k in 1..n {
              let t = (me + k) % n;
              if matches!(self.threads[t].wait, Wait::Cond { .. }) && !self.threads[t].woken {
                cands.push((Act::Spurious(t), 1));
              }
            }
          }
        }
      }
      if !cands.is_empty() {
        break;
      }
      if forced {
        // nobody else can run now: let time pass (an endless producer must not stop the clock)
        forced = false;
        let next = (0..n).filter(|&t| t != me).filter_map(|t| self.wake_time(t)).filter(|&u| u > self.clock).min();
        if let Some(c) = next {
          self.advance_to(c);
          forced = true;
        }
        me_enabled = self.enabled(me);
        if !me_enabled {
          forced = false;
        }
        continue;
      }
      // nobody can run: wake those who wait for quiescence, else advance the clock
      if let Some(q) = (0..n).map(|k| (me + k) % n).find(|&t| matches!(self.threads[t].wait, Wait::Quiesce)) {
        self.threads[q].wait = Wait::Ready;
        if q == me {
          me_enabled = true;
        }
        continue;
      }
      if self.main_done {
        self.cands = cands;
        self.abort_execution();
        return;
      }
      let next = (0..n).filter_map(|t| self.wake_time(t)).min();
      match next {
        Some(c) => {
          // whoever was due has had its turn
          self.consec = 0;
          self.advance_to(c);
          me_enabled = self.enabled(me);
        }
        None => {
          let d = self.describe_all();
          self.set_failure(Kind::Deadlock, format!("no thread can run: {}", d));
          self.cands = cands;
          self.abort_execution();
          return;
        }
      }
    }
    let i = if cands.len() > 1 && explore && (branch || !me_enabled) { self.decide(&cands) } else { 0 };
    let (act, cost) = cands[i];
    self.remaining = self.remaining.saturating_sub(cost);
    self.cands = cands;
    let next = match act {
      Act::Run(t) => t,
      Act::Timer(t) => {
        let u = self.wake_time(t).unwrap();
        self.advance_to(u);
        t
      }
      Act::Spurious(t) => {
        self.threads[t].woken = true;
        t
      }
      Act::Pick(_) => unreachable!(),
    };
    if next != me {
      if self.tracing {
        let s = format!("[t={}ms] switch from thread {} to thread {}", self.clock / 1_000_000, me, next);
        self.log.push(s);
      }
      self.consec = 0;
      self.cur = next;
      unsafe {
        let to = self.threads[next].sp;
        let save = &mut self.threads[me].sp as *mut usize;
        vstd_switch(save, to);
      }
    }
  }

  /// pick a candidate: replay the prefix, else default and remember the alternatives
  fn decide(&mut self, cands: &[(Act, u32)]) -> usize {
    if let Some(f) = &self.fixed {
      let c = f.get(self.pos).copied().unwrap_or(0) as usize;
      self.pos += 1;
      return if c < cands.len() { c } else { 0 };
    }
    if !self.recording {
      return 0;
    }
    let sig = {
      let mut s = 0;
      for (a, c) in cands {
        s = mix(
          s,
          match a {
            Act::Run(t) => *t as u64 * 4,
            Act::Timer(t) => *t as u64 * 4 + 1,
            Act::Spurious(t) => *t as u64 * 4 + 2,
            Act::Pick(t) => *t as u64 * 4 + 3,
          } * 2
            + *c as u64,
        );
      }
      s
    };
    if self.pos < self.points.len() {
      let p = &self.points[self.pos];
      if p.sig != sig || p.n != cands.len() {
        let m = format!("replay diverged at point {}: the execution is not determined by its schedule", self.pos);
        self.set_failure(Kind::Machinery, m);
        self.recording = false;
        return 0;
      }
      self.pos += 1;
      self.choices.push(p.chosen as u16);
      return p.chosen;
    }
    let h = self.state_hash();
    let mut todo: Vec<(usize, u32)> = Vec::new();
    for (i, (a, c)) in cands.iter().enumerate() {
      if *c > self.remaining {
        continue;
      }
      let k = match a {
        Act::Run(t) => mix(h, self.threads[*t].stable),
        Act::Timer(t) => mix(h, self.threads[*t].stable ^ 0x5555),
        Act::Spurious(t) => mix(h, self.threads[*t].stable ^ 0xaaaa),
        Act::Pick(i) => mix(h, *i as u64 + 1),
      };
      let rem = self.remaining - c + 1;
      if !self.cfg.cache {
        todo.push((i, *c));
        continue;
      }
      let v = self.visited.entry(k).or_insert(0);
      if *v < rem {
        *v = rem;
        todo.push((i, *c));
      }
    }
    if todo.is_empty() {
      self.recording = false;
      return 0;
    }
    todo.reverse();
    let (i, c) = todo.pop().unwrap();
    self.points.push(Point { n: cands.len(), sig, chosen: i, cost: c, todo });
    self.pos += 1;
    self.choices.push(i as u16);
    i
  }

  fn new_thread(&mut self, stable: u64, entry: Box<dyn FnOnce()>, name: Option<String>) -> usize {
    let stack = self.stacks.pop().unwrap_or_else(Stack::new);
    let top = stack.top();
    let sp;
    unsafe {
      let p = top as *mut usize;
      *p.sub(1) = 0;
      *p.sub(2) = trampoline as extern "C" fn() -> ! as usize;
      for i in 3..9 {
        *p.sub(i) = 0;
      }
      sp = p.sub(8) as usize;
    }
    self.threads.push(Thr {
      stable,
      sp,
      stack: Some(stack),
      wait: Wait::Ready,
      woken: false,
      timed_out: false,
      evs: stable,
      wake_hash: 0,
      touches: 0,
      spawns: 0,
      entry: Some(entry),
      token: false,
      park_obj: Rc::new(ObjId::new()),
      end_hash: 0,
      name,
    });
    self.threads.len() - 1
  }

  fn reset(&mut self) {
    self.epoch = EPOCHS.fetch_add(1, Ordering::Relaxed);
    if !self.statics.is_empty() {
      self.statics.clear();
    }
    if !self.locals.is_empty() {
      drop(::std::mem::take(&mut self.locals));
    }
    self.threads.clear();
    self.cur = 0;
    self.clock = 1_000_000_000_000;
    self.steps = 0;
    self.consec = 0;
    self.hb = 0;
    self.cond_seq = 0;
    self.remaining = self.cfg.bound;
    self.pos = 0;
    self.recording = self.cfg.explore;
    self.choices.clear();
    self.newly_shared = false;
    self.main_done = false;
    self.killing = false;
    self.kill_ops = 0;
    self.failure = None;
  }

  fn run_once(&mut self, body: Box<dyn FnOnce()>) {
    self.reset();
    self.new_thread(mix(1, 1), body, Some("main".into()));
    let me: *mut Engine = self;
    ENGINE.with(|e| e.set(me));
    unsafe {
      let to = (&(*me).threads)[0].sp;
      vstd_switch(&mut (*me).host_sp, to);
      // ---- back on the host stack
      let e = &mut *me;
      if e.failure.is_none() {
        let stuck: Vec<usize> = (0..e.threads.len())
          .filter(|&t| matches!(e.threads[t].wait, Wait::Lock { .. }) && !e.enabled(t))
          .collect();
        if !stuck.is_empty() {
          let d = e.describe_all();
          e.set_failure(Kind::Deadlock, format!("threads left waiting for locks that are never released: {}", d));
        }
      }
      // tear down what is left
      e.killing = true;
      for t in 0..(&(*me).threads).len() {
        let e = &mut *me;
        if matches!(e.threads[t].wait, Wait::Finished) {
          continue;
        }
        if let Some(f) = e.threads[t].entry.take() {
          e.cur = t;
          let _ = catch_unwind(AssertUnwindSafe(move || drop(f)));
          (&mut (*me).threads)[t].wait = Wait::Finished;
        } else {
          e.cur = t;
          let to = e.threads[t].sp;
          vstd_switch(&mut (*me).host_sp, to);
        }
      }
      let e = &mut *me;
      for t in e.threads.iter_mut() {
        if let Some(s) = t.stack.take() {
          e.stacks.push(s);
        }
      }
      ENGINE.with(|e| e.set(::std::ptr::null_mut()));
    }
  }

  fn finish_thread(&mut self) -> ! {
    let me = self.cur;
    self.threads[me].wait = Wait::Finished;
    self.threads[me].end_hash = self.threads[me].evs;
    if self.killing {
      self.abort_execution();
      unreachable!();
    }
    if me == 0 {
      self.main_done = true;
    }
    if self.failure.is_some() {
      self.abort_execution();
      unreachable!();
    }
    self.sched(true);
    unreachable!("a finished thread was resumed");
  }
}

extern "C" fn trampoline() -> ! {
  {
    let e = eng().unwrap();
    let me = e.cur;
    // having been started is a step: the state before its first operation is a new one
    e.threads[me].evs = mix(e.threads[me].evs, 0x5353);
    let f = e.threads[me].entry.take().unwrap();
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
      let e = eng().unwrap();
      if !p.is::<KillToken>() && !e.killing {
        let hook = PANIC_MSG.with(|m| m.take());
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
          s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
          s.clone()
        } else {
          "a panic".to_string()
        };
        e.set_failure(Kind::Panic, format!("thread {} panicked: {}", e.cur, hook.unwrap_or(msg)));
      }
    }
  }
  eng().unwrap().finish_thread()
}

/// Panics inside the runtime are failures of the execution, not console output.
pub fn install_panic_hook() {
  let old = ::std::panic::take_hook();
  ::std::panic::set_hook(Box::new(move |info| {
    if active() {
      let s = format!("{}", info);
      PANIC_MSG.with(|m| m.set(Some(s)));
    } else {
      old(info);
    }
  }));
}

// ---------------------------------------------------------------- operations used by the facade

/// an operation on a non-lock object: scheduling point, then the event
#[inline]
pub fn op(o: &ObjId, write: bool, tag: u64) {
  if let Some(e) = eng() {
    if !e.enter_op() {
      return;
    }
    if e.touch(o) || e.consec > e.cfg.fair {
      e.sched_ready();
    }
    e.event(o, write, tag);
  }
}

/// an event other threads can see, without a scheduling point before it
#[inline]
pub fn mark(o: &ObjId, write: bool, tag: u64) {
  if let Some(e) = eng() {
    if !e.enter_op() {
      return;
    }
    e.touch(o);
    e.event(o, write, tag);
  }
}

pub fn spawn(name: Option<String>, f: Box<dyn FnOnce()>) -> usize {
  let e = eng().expect("thread spawned outside the runtime");
  if !e.enter_op() {
    // torn down: never start it
    let id = e.new_thread(0, Box::new(|| {}), name);
    e.threads[id].entry = None;
    e.threads[id].wait = Wait::Finished;
    drop(f);
    return id;
  }
  let me = e.cur;
  e.threads[me].spawns += 1;
  let st = mix(e.threads[me].stable, e.threads[me].spawns.wrapping_mul(7919));
  let evs = e.threads[me].evs;
  let id = e.new_thread(st, f, name);
  e.threads[id].evs = mix(st, evs);
  if e.tracing {
    let s = format!("[t={}ms thread {}] starts thread {}", e.clock / 1_000_000, me, id);
    e.log.push(s);
  }
  e.sched_ready();
  // between two scheduling points of a thread its state must change
  e.threads[me].evs = mix(e.threads[me].evs, 0x5350);
  id
}

pub fn join(t: usize) {
  let e = eng().expect("join outside the runtime");
  if !e.enter_op() {
    return;
  }
  let me = e.cur;
  e.threads[me].wait = Wait::Join(t);
  e.sched(true);
  if e.killing {
    if !::std::thread::panicking() {
      resume_unwind(Box::new(KillToken));
    }
    return;
  }
  e.threads[me].wait = Wait::Ready;
  let h = e.threads[t].end_hash;
  e.threads[me].evs = mix(e.threads[me].evs, h);
  e.transitions += 1;
}

pub fn sleep(ns: u64) {
  let e = match eng() {
    Some(e) => e,
    None => return,
  };
  if !e.enter_op() {
    return;
  }
  let me = e.cur;
  let until = e.clock.saturating_add(ns);
  e.threads[me].wait = Wait::Sleep(until);
  e.sched(true);
  if e.killing {
    if !::std::thread::panicking() {
      resume_unwind(Box::new(KillToken));
    }
    return;
  }
  e.threads[me].wait = Wait::Ready;
  e.threads[me].evs = mix(e.threads[me].evs, e.clock);
  e.transitions += 1;
}

pub fn yield_now() {
  if let Some(e) = eng() {
    if !e.enter_op() {
      return;
    }
    // a yielding thread gives way: others first
    e.consec = e.cfg.fair + 1;
    e.sched_ready();
    let me = e.cur;
    e.threads[me].evs = mix(e.threads[me].evs, 0x5959);
  }
}

/// Block until no other thread can run without the clock advancing.
pub fn quiesce() {
  let e = eng().expect("quiesce outside the runtime");
  if !e.enter_op() {
    return;
  }
  let me = e.cur;
  e.threads[me].wait = Wait::Quiesce;
  e.sched(true);
  if e.killing {
    if !::std::thread::panicking() {
      resume_unwind(Box::new(KillToken));
    }
    return;
  }
  e.threads[me].wait = Wait::Ready;
  let hb = e.hb;
  e.threads[me].evs = mix(e.threads[me].evs, hb);
}

pub fn cond_wait(cv: &ObjId, m: &RawLock, until: Option<u64>) -> bool {
  let e = match eng() {
    Some(e) => e,
    None => panic!("condition wait outside the runtime"),
  };
  if !e.enter_op() {
    return false;
  }
  if e.touch(cv) {
    e.sched_ready();
  }
  e.event(cv, true, 11);
  m.let_go(true);
  let me = e.cur;
  e.cond_seq += 1;
  let th = &mut e.threads[me];
  th.woken = false;
  th.timed_out = false;
  th.wake_hash = 0;
  th.wait = Wait::Cond { obj: cv.id.get(), cv: cv as *const ObjId as usize, seq: e.cond_seq, until };
  e.sched(true);
  if e.killing {
    m.grant(true, me);
    if !::std::thread::panicking() {
      resume_unwind(Box::new(KillToken));
    }
    return false;
  }
  let to = e.threads[me].timed_out;
  e.threads[me].wait = Wait::Ready;
  e.threads[me].woken = false;
  e.threads[me].timed_out = false;
  let wh = e.threads[me].wake_hash;
  let clk = if to { e.clock } else { 0 };
  e.threads[me].evs = mix(mix(e.threads[me].evs, wh), clk);
  e.transitions += 1;
  m.acquire(true);
  to
}

pub fn cond_notify(cv: &ObjId, all: bool) {
  let e = match eng() {
    Some(e) => e,
    None => return,
  };
  if !e.enter_op() {
    return;
  }
  if e.touch(cv) {
    e.sched_ready();
  }
  e.event(cv, true, 12 + all as u64);
  let addr = cv as *const ObjId as usize;
  let mut ws: Vec<(u64, usize)> = Vec::new();
  for t in 0..e.threads.len() {
    if let Wait::Cond { cv, seq, .. } = e.threads[t].wait {
      if cv == addr && !e.threads[t].woken {
        ws.push((seq, t));
      }
    }
  }
  ws.sort();
  let h = e.threads[e.cur].evs;
  if all {
    for (_, t) in ws {
      e.threads[t].woken = true;
      e.threads[t].wake_hash = h;
    }
  } else if !ws.is_empty() {
    let i = if ws.len() > 1 { choose_cost(ws.len(), 1) } else { 0 };
    let t = ws[i].1;
    e.threads[t].woken = true;
    e.threads[t].wake_hash = h;
  }
}

pub fn park(until: Option<u64>) {
  let e = match eng() {
    Some(e) => e,
    None => return,
  };
  if !e.enter_op() {
    return;
  }
  let me = e.cur;
  let o = e.threads[me].park_obj.clone();
  if e.touch(&o) {
    e.sched_ready();
  }
  e.threads[me].timed_out = false;
  e.threads[me].wait = Wait::Park { until };
  e.sched(true);
  if e.killing {
    if !::std::thread::panicking() {
      drop(o);
      resume_unwind(Box::new(KillToken));
    }
    return;
  }
  e.threads[me].wait = Wait::Ready;
  e.threads[me].timed_out = false;
  e.threads[me].token = false;
  e.event(&o, true, 21);
}

pub fn unpark(t: usize) {
  let e = match eng() {
    Some(e) => e,
    None => return,
  };
  if !e.enter_op() || t >= e.threads.len() {
    return;
  }
  let o = e.threads[t].park_obj.clone();
  if e.touch(&o) {
    e.sched_ready();
  }
  e.threads[t].token = true;
  e.event(&o, true, 22);
}

pub fn thread_name(t: usize) -> Option<String> {
  eng().and_then(|e| e.threads.get(t).and_then(|t| t.name.clone()))
}

fn choose_cost(n: usize, cost: u32) -> usize {
  let e = eng().expect("choose outside the runtime");
  if e.killing || n <= 1 || !e.cfg.explore {
    return 0;
  }
  let mut cands = Vec::with_capacity(n);
  for i in 0..n {
    cands.push((Act::Pick(i), if i == 0 { 0 } else { cost }));
  }
  let i = e.decide(&cands);
  e.remaining = e.remaining.saturating_sub(cands[i].1);
  let me = e.cur;
  e.threads[me].evs = mix(e.threads[me].evs, i as u64 + 1);
  e.hb = e.hb.wrapping_add(mix(e.threads[me].evs, 99));
  i
}

/// harness nondeterminism: every value of 0..n is explored
pub fn choose(n: usize) -> usize {
  choose_cost(n, 0)
}

/// the property is violated in this execution
pub fn fail(msg: String) -> ! {
  match eng() {
    Some(e) => {
      if e.killing || ::std::thread::panicking() {
        resume_unwind(Box::new(KillToken));
      }
      e.fail_now(Kind::Oracle, msg)
    }
    None => panic!("{}", msg),
  }
}

// ---------------------------------------------------------------- exploring

impl Engine {
  pub fn new(cfg: Config) -> Engine {
    Engine {
      cfg,
      epoch: 0,
      threads: Vec::new(),
      cur: 0,
      host_sp: 0,
      clock: 0,
      steps: 0,
      consec: 0,
      hb: 0,
      cond_seq: 0,
      remaining: 0,
      pos: 0,
      points: Vec::new(),
      recording: false,
      fixed: None,
      choices: Vec::new(),
      visited: HashMap::default(),
      shared: HashSet::default(),
      newly_shared: false,
      main_done: false,
      killing: false,
      kill_ops: 0,
      failure: None,
      stacks: Vec::new(),
      transitions: 0,
      cands: Vec::new(),
      log: Vec::new(),
      tracing: false,
      statics: HashMap::new(),
      locals: HashMap::new(),
    }
  }
  pub fn set_config(&mut self, cfg: Config) {
    self.cfg = cfg;
  }
  pub fn set_hash_seed(&mut self, seed: u64) {
    self.cfg.hash_seed = seed;
  }
  pub fn config(&self) -> &Config {
    &self.cfg
  }

  /// One execution under the default schedule (sequential programs).
  pub fn run_default(&mut self, body: impl FnOnce() + 'static) -> Option<Failure> {
    self.cfg.explore = false;
    self.fixed = None;
    self.points.clear();
    self.run_once(Box::new(body));
    self.failure.take()
  }
  pub fn transitions(&self) -> u64 {
    self.transitions
  }

  /// All executions of `body` with at most `bound` deviations.
  pub fn explore(
    &mut self,
    body: impl Fn() + Clone + 'static,
    mut tick: impl FnMut(),
  ) -> (Stats, Option<(Failure, Schedule)>) {
    self.cfg.explore = true;
    self.fixed = None;
    self.shared.clear();
    let top = self.cfg.bound;
    let mut st = Stats::default();
    let t0 = self.transitions;
    st.complete = true;
    'bounds: for b in 0..=top {
      self.cfg.bound = b;
      'restart: loop {
        self.visited.clear();
        self.points.clear();
        loop {
          let b2 = body.clone();
          self.run_once(Box::new(b2));
          tick();
          st.execs += 1;
          st.max_depth = st.max_depth.max(self.points.len() as u64);
          if let Some(f) = self.failure.take() {
            let mut shared: Vec<u64> = self.shared.iter().copied().collect();
            shared.sort();
            let s = Schedule { bound: b, shared, choices: self.choices.clone() };
            st.bound = b;
            st.states += self.visited.len() as u64;
            st.transitions = self.transitions - t0;
            // objects found shared in this very execution would add points on replay
            if self.newly_shared {
              for x in &s.shared {
                self.shared.insert(*x);
              }
              // re-find the failure with the larger set of shared objects
              if f.kind != Kind::Machinery {
                continue 'restart;
              }
            }
            st.complete = false;
            self.cfg.bound = top;
            return (st, Some((f, s)));
          }
          if self.newly_shared {
            continue 'restart;
          }
          // backtrack
          loop {
            match self.points.last_mut() {
              None => break 'restart,
              Some(p) => {
                if let Some((i, c)) = p.todo.pop() {
                  p.chosen = i;
                  p.cost = c;
                  break;
                }
                self.points.pop();
              }
            }
          }
          if st.execs >= self.cfg.max_execs || STOP.load(Ordering::Relaxed) || self.cfg.deadline.map(|d| RealInstant::now() > d).unwrap_or(false) {
            st.complete = false;
            st.bound = b;
            break 'bounds;
          }
        }
      }
      st.bound = b;
      if b == top {
        break;
      }
    }
    self.cfg.bound = top;
    st.states = self.visited.len() as u64;
    st.transitions = self.transitions - t0;
    (st, None)
  }

  /// Re-run one schedule, logging.
  pub fn replay(&mut self, body: impl FnOnce() + 'static, s: &Schedule) -> Option<Failure> {
    self.cfg.explore = true;
    self.shared = s.shared.iter().copied().collect();
    self.points.clear();
    self.fixed = Some(s.choices.clone());
    self.cfg.bound = s.bound;
    self.tracing = true;
    self.log.clear();
    self.run_once(Box::new(body));
    self.fixed = None;
    self.tracing = false;
    self.failure.take()
  }
}
