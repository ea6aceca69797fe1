//! Programs (operator pipelines), source behaviours and histories: the space the
//! sequential checks enumerate.
use crate::val::*;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
  /// instrumented source k
  Src(usize),
  Just(i64),
  Iter(Vec<i64>),
  Range(i64, i64),
  Empty,
  Never,
  Throw(i64),
  Start(i64),
  FromOk(i64),
  FromErr(i64),
  Repeat(i64),
  Endless(i64),
  Defer(Box<N>),
  /// items of a list, each taken from a counted iterator (its next() is logged)
  Pulled(usize, Vec<i64>),
  /// on a new-thread scheduler, milliseconds
  Interval(u64),
  Timer(u64),
  U(Op, Box<N>),
  C(Co, Vec<N>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
  Map(u8),
  Filter(u8),
  Take(usize),
  TakeLast(usize),
  TakeWhile(u8),
  Skip(usize),
  SkipLast(usize),
  SkipWhile(u8),
  First,
  Last,
  ElementAt(usize),
  Distinct,
  Scan(u8),
  Reduce(u8),
  Count,
  Sum,
  SumAndCount,
  Min,
  Max,
  All(u8),
  Contains(i64),
  DefaultIfEmpty(i64),
  IgnoreElements,
  StartWith(Vec<i64>),
  Buffer(usize),
  Window(usize),
  GroupBy(u8),
  Materialize,
  MatDemat,
  Demat,
  /// logs what it taps (only meaningful directly on a source)
  Tap,
  MapToAny,
  Retry(usize),
  RetryWhen(u8),
  OnErr(Vec<N>),
  FlatMap(Vec<N>),
  RefCount,
  Replay,
  ObserveOn,
  SubscribeOn,
  Timestamp,
  /// the same observable value used again: concat, merge, zip, flat_map with itself
  SelfConcat,
  SelfMerge,
  SelfZip,
  SelfFlat,
  // ---- operators that involve time or threads (no sequential reference)
  Delay,
  Debounce,
  Timeout,
  TimeInterval,
  ObserveOnNt,
  SubscribeOnNt,
  DelayMs(u64),
  DebounceMs(u64),
  TimeoutMs(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Co {
  Merge,
  Concat,
  Zip,
  Combine,
  Amb,
  SeqEq,
  TakeUntil,
  SkipUntil,
  Sample,
  Switch,
}

impl N {
  pub fn u(self, op: Op) -> N {
    N::U(op, Box::new(self))
  }
  pub fn walk(&self, f: &mut dyn FnMut(&N)) {
    f(self);
    match self {
      N::Defer(n) => n.walk(f),
      N::U(op, n) => {
        match op {
          Op::OnErr(ns) | Op::FlatMap(ns) => {
            for m in ns {
              m.walk(f)
            }
          }
          _ => {}
        }
        n.walk(f)
      }
      N::C(_, ns) => {
        for m in ns {
          m.walk(f)
        }
      }
      _ => {}
    }
  }
  pub fn has_op(&self, p: &dyn Fn(&Op) -> bool) -> bool {
    let mut r = false;
    self.walk(&mut |n| {
      if let N::U(o, _) = n {
        r |= p(o)
      }
    });
    r
  }
  /// resubscribing to a replay() that has ended replays what there was
  pub fn replay_again(&self) -> bool {
    let mut r = false;
    self.walk(&mut |n| {
      if let N::U(o, m) = n {
        if matches!(o, Op::Retry(_) | Op::RetryWhen(_) | Op::SelfConcat | Op::SelfMerge | Op::SelfZip | Op::SelfFlat) {
          r |= m.has_op(&|o| *o == Op::Replay)
        }
      }
    });
    r
  }
  pub fn has_co(&self, p: &dyn Fn(Co) -> bool) -> bool {
    let mut r = false;
    self.walk(&mut |n| {
      if let N::C(o, _) = n {
        r |= p(*o)
      }
    });
    r
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Leaf {
  /// runs the k-th script on its k-th subscription (the last one from then on);
  /// `polite` sources look at is_subscribed() before every event
  Cold { scripts: Vec<Vec<Ev>>, polite: bool },
  /// 0, 1, 2, ... while subscribed
  Endless,
  /// keeps its observers in a list; events come from the history
  Hot,
  /// a library Subject; events come from the history
  HotSubject,
  /// 0 Subject, 1 BehaviorSubject(0), 2 ReplaySubject, 3 AsyncSubject
  Subj(u8),
  /// every subscription starts a thread that emits the script
  Thread(Vec<Ev>),
  /// the same, with this many milliseconds before each event
  Timed(Vec<(u64, Ev)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
  Emit(usize, Ev),
  /// one more subscription to the same observable
  Sub,
  Unsub(usize),
  /// let virtual time pass
  Wait(u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
  pub prog: N,
  pub leaves: Vec<Leaf>,
  pub steps: Vec<Step>,
  /// subscriber 0 unsubscribes itself from inside its callback for this item
  pub self_unsub: Option<usize>,
  /// the subscription is held by a utils::Using guard; Unsub drops it
  pub using: bool,
  /// utils::ready_set_go with an action that emits these
  pub rsg: Option<Vec<(usize, Ev)>>,
  /// in subscriber 0's n-th callback (0: its terminal one), this source emits this
  pub react: Vec<(usize, usize, Ev)>,
  /// in the n-th call of any of the user's functions (of the pipeline, or subscriber 0's callbacks), this happens
  pub inside: Vec<(Place, usize, Inside)>,
  /// the program's last operator makes observables: subscriber 0 gets their numbers, and each of them a subscriber of its own
  pub split: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Place {
  /// the functions given to operators
  Function,
  /// subscriber 0's callbacks
  Callback,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Inside {
  Emit(usize, Ev),
  /// subscriber 0 unsubscribes
  Unsub,
  /// another subscription to the same observable
  Sub,
}
impl Case {
  pub fn new(prog: N, leaves: Vec<Leaf>, steps: Vec<Step>) -> Case {
    Case { prog, leaves, steps, self_unsub: None, using: false, rsg: None, react: vec![], inside: vec![], split: false }
  }
  /// the instrumented source this leaf is, for messages
  pub fn show(&self) -> String {
    let mut s = String::new();
    let _ = write!(s, "program {}", show_n(&self.prog));
    for (i, l) in self.leaves.iter().enumerate() {
      let _ = write!(
        s,
        "; source s{} = {}",
        i,
        match l {
          Leaf::Cold { scripts, polite } => format!(
            "{}cold {}",
            if *polite { "" } else { "heedless " },
            scripts.iter().map(|x| show_evs(x)).collect::<Vec<_>>().join(" then ")
          ),
          Leaf::Endless => "cold endless 0,1,2..".into(),
          Leaf::Hot => "hot".into(),
          Leaf::HotSubject => "Subject".into(),
          Leaf::Subj(k) => ["Subject", "BehaviorSubject", "ReplaySubject", "AsyncSubject"][*k as usize].into(),
          Leaf::Thread(s) => format!("thread emitting {}", show_evs(s)),
          Leaf::Timed(s) => format!("thread emitting {}", s.iter().map(|(d, e)| format!("+{}ms {}", d, show(e))).collect::<Vec<_>>().join(", ")),
        }
      );
    }
    if let Some(r) = &self.rsg {
      let _ = write!(
        s,
        "; ready_set_go emitting {}",
        r.iter().map(|(l, e)| format!("s{}:{}", l, show(e))).collect::<Vec<_>>().join(" ")
      );
    }
    if self.using {
      s.push_str("; held by Using");
    }
    for (n, l, ev) in &self.react {
      let _ = write!(s, "; in {} s{} emits {}", if *n == 0 { "the terminal callback".to_string() } else { format!("callback #{}", n) }, l, show(ev));
    }
    if self.split {
      s += "; each inner observable subscribed to on its own";
    }
    for (p, n, a) in &self.inside {
      let _ = write!(
        s,
        "; in {} #{} {}",
        match p {
          Place::Function => "operator function call",
          Place::Callback => "callback",
        },
        n,
        match a {
          Inside::Emit(l, ev) => format!("s{} emits {}", l, show(ev)),
          Inside::Unsub => "subscriber 0 unsubscribes".into(),
          Inside::Sub => "somebody subscribes".into(),
        }
      );
    }
    if let Some(k) = self.self_unsub {
      let _ = write!(s, "; subscriber 0 unsubscribes in its callback for item #{}", k + 1);
    }
    if !self.steps.is_empty() {
      let _ = write!(
        s,
        "; history: subscribe, {}",
        self
          .steps
          .iter()
          .map(|st| match st {
            Step::Emit(l, e) => format!("s{}:{}", l, show(e)),
            Step::Sub => "subscribe".into(),
            Step::Unsub(i) => format!("unsubscribe({})", i),
            Step::Wait(ms) => format!("wait {}ms", ms),
          })
          .collect::<Vec<_>>()
          .join(", ")
      );
    }
    s
  }
}

fn show_op(op: &Op) -> String {
  match op {
    Op::OnErr(ns) => format!("on_error_resume_next({})", show_list(ns)),
    Op::FlatMap(ns) => format!("flat_map({})", show_list(ns)),
    o => {
      let s = format!("{:?}", o);
      s.replace("Vec", "")
    }
  }
}
fn show_list(ns: &[N]) -> String {
  ns.iter().map(show_n).collect::<Vec<_>>().join(", ")
}
pub fn show_n(n: &N) -> String {
  match n {
    N::Src(k) => format!("s{}", k),
    N::Defer(n) => format!("defer({})", show_n(n)),
    N::U(op, n) => format!("{}.{}", show_n(n), show_op(op)),
    N::C(co, ns) => format!("{:?}({})", co, show_list(ns)),
    o => format!("{:?}", o),
  }
}

// ---- fixed families of user functions, shared by both sides
pub fn pred(k: u8, x: i64) -> bool {
  match k {
    0 => x.rem_euclid(2) == 0,
    1 => x > 0,
    2 => x < 2,
    3 => true,
    4 => false,
    _ => x == 1,
  }
}
pub fn fmap(k: u8, x: i64) -> i64 {
  match k {
    0 => x.wrapping_add(10),
    1 => x.wrapping_mul(2).wrapping_add(1),
    _ => 2i64.wrapping_sub(x),
  }
}
pub fn fold(k: u8, a: i64, x: i64) -> i64 {
  match k {
    0 => a.wrapping_mul(3).wrapping_add(x),
    _ => a.wrapping_sub(x),
  }
}
pub fn key(k: u8, x: i64) -> i64 {
  match k {
    0 => x.rem_euclid(2),
    1 => x,
    _ => 0,
  }
}
/// does retry_when's predicate k ask for another attempt after error `e`
pub fn again(k: u8, e: i64) -> bool {
  match k {
    0 => false,
    1 => true,
    _ => e < 2,
  }
}

// ---- policies: readings the statements leave open
pub const P_ZIP_EARLY: u32 = 1;
pub const P_COMB_EARLY: u32 = 2;
pub const P_TRIG_ERR: u32 = 4;
pub const P_TU_DONE: u32 = 8;
pub const P_SEQ_EARLY: u32 = 16;
pub const P_SW_ERR: u32 = 32;
pub const P_SW_DONE: u32 = 64;
/// a source of amb that has lost is dropped only when it next emits
pub const P_AMB_LAZY: u32 = 128;
/// sequence_equal compares row by row, the end of a source being one more element
pub const P_SEQ_ROW: u32 = 256;

pub fn policy_bits(n: &N) -> Vec<u32> {
  let mut b = 0;
  n.walk(&mut |n| {
    if let N::C(co, _) = n {
      b |= match co {
        Co::Zip => P_ZIP_EARLY,
        Co::Combine => P_COMB_EARLY,
        Co::TakeUntil => P_TRIG_ERR | P_TU_DONE,
        Co::SkipUntil | Co::Sample => P_TRIG_ERR,
        Co::SeqEq => P_SEQ_EARLY | P_SEQ_ROW,
        Co::Amb => P_AMB_LAZY,
        Co::Switch => P_SW_ERR | P_SW_DONE,
        _ => 0,
      }
    }
  });
  (0..9).map(|i| 1 << i).filter(|x| b & x != 0).collect()
}
/// every combination of the open readings that concern this program
pub fn policies(n: &N) -> Vec<u32> {
  let bits = policy_bits(n);
  let mut out = vec![0];
  for b in bits {
    let more: Vec<u32> = out.iter().map(|m| m | b).collect();
    out.extend(more);
  }
  out
}

// ---- what a run of a case yields, on either side
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Live {
  Yes,
  No,
  /// an amb loser's one tolerated attempt
  Maybe,
}
#[derive(Clone, Debug)]
pub struct Probe {
  pub leaf: usize,
  /// number of the (live) subscription; u32::MAX: was dead when it reached the source
  pub sub: u32,
  pub step: u32,
  pub nth: u32,
  pub ev: Ev,
  pub live: Live,
}
#[derive(Clone, Debug, Default)]
pub struct Out {
  /// everything below has been recorded
  pub tidying: bool,
  pub recs: Vec<Vec<(u32, Ev)>>,
  /// per record: emissions started (by instrumented sources) when it was delivered
  pub stamps: Vec<Vec<u32>>,
  /// per step (0 = after the first subscribe), per subscriber: is_subscribed
  pub live: Vec<Vec<bool>>,
  pub probes: Vec<Probe>,
  /// the step in which subscriber 0 unsubscribed inside one of the user's functions
  pub inside_end: Option<u32>,
  /// live subscriptions each source has seen
  pub subs: Vec<u32>,
  /// per step, per source: how many observers a Subject source holds (None: unknown)
  pub held: Vec<Vec<Option<usize>>>,
  pub taps: Vec<(u32, Ev)>,
  pub tokens: i64,
  pub runaway: bool,
  pub fail: Option<String>,
  pub fail_kind: Option<vstd::rt::Kind>,
}
