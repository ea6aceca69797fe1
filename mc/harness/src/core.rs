//! Driving sweeps and explorations, reporting violations, writing evidence.
use crate::ast::*;
use crate::val::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vstd::rt::{self, Config, Engine, Failure, Kind, Schedule};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

pub struct Ctx {
  pub prop: &'static str,
  pub tier: Tier,
  pub root: PathBuf,
  pub seed: u64,
  pub start: Instant,
  /// when an exploration stops and says so
  pub deadline: Instant,
  /// run only this case / scenario
  pub only: Option<String>,
  pub jobs: usize,
  pub known: Vec<String>,
  pub acc: Mutex<Acc>,
  pub verbose: bool,
  /// development aid: go on after violations and list one per program
  pub survey: bool,
  /// scenarios are gathered here instead of being explored
  pub gather: Mutex<Option<Vec<Scen>>>,
}

#[derive(Default)]
pub struct Acc {
  pub states: u64,
  pub transitions: u64,
  pub execs: u64,
  pub samples: Vec<String>,
  pub families: Vec<String>,
  pub capped: Vec<String>,
  pub assumptions: Vec<String>,
  pub known_hit: Vec<String>,
  pub violation: Option<(String, String)>,
  pub extra: Vec<(String, u64)>,
  pub unsound: Option<String>,
}

impl Ctx {
  pub fn quick(&self) -> bool {
    self.tier == Tier::Quick
  }
  pub fn pick<T>(&self, q: T, t: T) -> T {
    if self.quick() {
      q
    } else {
      t
    }
  }
  pub fn gathering(&self) -> bool {
    self.gather.lock().unwrap().is_some()
  }
  /// the scenarios of another check
  pub fn borrow(&self, f: impl Fn(&Ctx)) -> Vec<Scen> {
    *self.gather.lock().unwrap() = Some(vec![]);
    f(self);
    self.gather.lock().unwrap().take().unwrap()
  }
  pub fn assume(&self, s: &str) {
    if self.gathering() {
      return;
    }
    let mut a = self.acc.lock().unwrap();
    if !a.assumptions.iter().any(|x| x == s) {
      a.assumptions.push(s.into());
    }
  }
  pub fn stopped(&self) -> bool {
    let a = self.acc.lock().unwrap();
    a.violation.is_some() || a.unsound.is_some()
  }
  pub fn known_finding(&self, id: &str) -> bool {
    self.known.iter().any(|k| k == id)
  }
  pub fn hit_known(&self, id: &str, msg: &str) {
    let mut a = self.acc.lock().unwrap();
    let l = format!("KNOWN-FINDING: property={} {}: {}", self.prop, id, msg.lines().next().unwrap_or(""));
    if !a.known_hit.contains(&l) {
      a.known_hit.push(l);
    }
  }
}

/// A numbered, finite family of cases, simplest first.
pub struct Family {
  pub name: String,
  pub n: usize,
  pub at: Box<dyn Fn(usize) -> Case + Send + Sync>,
}
pub fn family(name: &str, n: usize, at: impl Fn(usize) -> Case + Send + Sync + 'static) -> Family {
  Family { name: name.into(), n, at: Box::new(at) }
}
pub fn family_of(name: &str, cases: Vec<Case>) -> Family {
  let n = cases.len();
  family(name, n, move |i| cases[i].clone())
}

/// resident memory in bytes
fn resident() -> u64 {
  let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
  s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}
/// A tree under test may leak in every execution: stop (and say so) rather than be killed.
const MEMORY_CAP: u64 = 12 << 30;
fn check_memory() {
  if resident() > MEMORY_CAP {
    rt::STOP.store(true, SeqCst);
  }
}
fn out_of_budget(ctx: &Ctx) -> bool {
  Instant::now() > ctx.deadline || rt::STOP.load(SeqCst)
}

pub fn h64<T: std::hash::Hash>(t: &T) -> u64 {
  use std::hash::{BuildHasher, BuildHasherDefault};
  let b: BuildHasherDefault<std::collections::hash_map::DefaultHasher> = Default::default();
  b.hash_one(t)
}

/// Judge: None = fine, Some(message) = the property is violated by this case.
pub type Judge = dyn Fn(&Arc<Case>, &mut Engine) -> Option<String> + Send + Sync;

/// A numbered, finite space of things to run, whatever they are.
pub trait Space: Send + Sync {
  fn name(&self) -> String;
  fn n(&self) -> usize;
  fn show(&self, i: usize) -> String;
  fn group(&self, i: usize) -> String;
  fn check(&self, i: usize, eng: &mut Engine) -> Option<String>;
  /// fingerprints of the configurations the i-th one passes through
  fn states(&self, i: usize, see: &mut dyn FnMut(u64));
}
struct Cases<'a>(Family, &'a Judge);
impl Space for Cases<'_> {
  fn name(&self) -> String {
    self.0.name.clone()
  }
  fn n(&self) -> usize {
    self.0.n
  }
  fn show(&self, i: usize) -> String {
    (self.0.at)(i).show()
  }
  fn group(&self, i: usize) -> String {
    show_n(&(self.0.at)(i).prog)
  }
  fn check(&self, i: usize, eng: &mut Engine) -> Option<String> {
    (self.1)(&Arc::new((self.0.at)(i)), eng)
  }
  fn states(&self, i: usize, see: &mut dyn FnMut(u64)) {
    let case = (self.0.at)(i);
    let mut h = h64(&(&case.prog, &case.leaves, &case.self_unsub, case.using, &case.rsg, &case.react, &case.inside, case.split));
    see(h);
    for st in &case.steps {
      h = h64(&(h, st));
      see(h);
    }
  }
}

/// Every case of every family, on `jobs` OS threads.
pub fn sweep(ctx: &Ctx, fams: Vec<Family>, judge: &Judge) {
  for fam in fams {
    sweep_one(ctx, &Cases(fam, judge));
  }
}

pub fn sweep_one(ctx: &Ctx, fam: &dyn Space) {
  if ctx.stopped() || ctx.gathering() {
    return;
  }
  let (name, total) = (fam.name(), fam.n());
  let only: Option<usize> = match &ctx.only {
    Some(s) => match s.rsplit_once('#') {
      Some((f, i)) if f == name => Some(i.parse().unwrap_or(usize::MAX)),
      _ => return,
    },
    None => None,
  };
  let t0 = Instant::now();
  let next = AtomicUsize::new(0);
  let best = AtomicUsize::new(usize::MAX);
  let found: Mutex<Option<(usize, String, String)>> = Mutex::new(None);
  let surveyed: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
  let surveyed = &surveyed;
  let chunk = (total / (ctx.jobs * 16)).clamp(1, 256);
  let capped = AtomicBool::new(false);
  let done = AtomicU64::new(0);
  let samples: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
  // a watchdog against executions that never reach the runtime
  let busy: Vec<(AtomicU64, AtomicUsize)> = (0..ctx.jobs).map(|_| (AtomicU64::new(0), AtomicUsize::new(0))).collect();
  let finished = AtomicBool::new(false);
  let states = AtomicU64::new(0);
  let trans = AtomicU64::new(0);
  std::thread::scope(|sc| {
    let workers: Vec<_> = (0..ctx.jobs)
      .map(|w| {
        let name = &name;
        let (fam, next, best, found, capped, done, samples, busy, states, trans) =
          (fam, &next, &best, &found, &capped, &done, &samples, &busy, &states, &trans);
        sc.spawn(move || {
          let mut eng = Engine::new(Config { max_steps: 4_000_000, ..Config::default() });
          let mut seen: HashSet<u64> = HashSet::new();
          loop {
            let a = next.fetch_add(chunk, SeqCst);
            if a >= total || a > best.load(SeqCst) {
              break;
            }
            if out_of_budget(ctx) {
              capped.store(true, SeqCst);
              break;
            }
            for i in a..(a + chunk).min(total) {
              if let Some(o) = only {
                if i != o {
                  continue;
                }
              }
              busy[w].1.store(i, SeqCst);
              busy[w].0.store(ctx.start.elapsed().as_millis() as u64 + 1, SeqCst);
              reset_tokens();
              let verdict = fam.check(i, &mut eng);
              busy[w].0.store(0, SeqCst);
              done.fetch_add(1, SeqCst);
              // distinct (program, history prefix) configurations
              if seen.len() < 3_000_000 {
                fam.states(i, &mut |h| {
                  seen.insert(h);
                });
              }
              if i == total / 3 || i == total - 1 {
                samples.lock().unwrap().push((i, format!("{}#{}: {}", name, i, fam.show(i))));
              }
              if let Some(m) = verdict {
                let id = format!("{}#{}", name, i);
                let show = fam.show(i);
                if ctx.known_finding(&show) {
                  ctx.hit_known(&show, &m);
                  continue;
                }
                if ctx.survey {
                  let p = fam.group(i);
                  let mut sv = surveyed.lock().unwrap();
                  if sv.insert(p) {
                    println!("-- {}\n   {}\n   {}", id, show, m.replace('\n', "\n   "));
                  }
                  continue;
                }
                let mut f = found.lock().unwrap();
                if f.as_ref().map(|x| i < x.0).unwrap_or(true) {
                  best.fetch_min(i, SeqCst);
                  *f = Some((i, id, format!("{}\n{}", show, m)));
                }
                break;
              }
            }
          }
          states.fetch_add(seen.len() as u64, SeqCst);
          trans.fetch_add(eng.transitions(), SeqCst);
        })
      })
      .collect();
    let (busy, finished, name) = (&busy, &finished, &name);
    sc.spawn(move || {
      while !finished.load(SeqCst) {
        std::thread::sleep(Duration::from_millis(20));
        check_memory();
        let now = ctx.start.elapsed().as_millis() as u64;
        for b in busy.iter() {
          let s = b.0.load(SeqCst);
          if s != 0 && now > s + 30_000 {
            let i = b.1.load(SeqCst);
            stuck(ctx, &format!("{}#{}", name, i), &fam.show(i));
          }
        }
      }
    });
    for w in workers {
      let _ = w.join();
    }
    finished.store(true, SeqCst);
  });
  let mut a = ctx.acc.lock().unwrap();
  a.execs += done.load(SeqCst);
  a.states += states.load(SeqCst);
  a.transitions += trans.load(SeqCst);
  let cap = capped.load(SeqCst);
  a.families.push(format!(
    "{}: {} of {} cases{} in {:.1}s",
    name,
    done.load(SeqCst),
    total,
    if cap { " (time or memory cap)" } else { "" },
    t0.elapsed().as_secs_f64()
  ));
  if ctx.verbose {
    eprintln!("{} ({} MB)", a.families.last().unwrap(), resident() >> 20);
  }
  if cap {
    let s = format!("{}: stopped by the time or memory cap after {} of {} cases", name, done.load(SeqCst), total);
    a.capped.push(s);
  }
  let mut sm = samples.into_inner().unwrap();
  sm.sort();
  for (_, s) in sm {
    if a.samples.len() < 12 {
      a.samples.push(s);
    }
  }
  if let Some((_, id, msg)) = found.into_inner().unwrap() {
    a.violation = Some((id, msg));
  }
}

/// an execution that spins without ever calling into the runtime
fn stuck(ctx: &Ctx, id: &str, what: &str) -> ! {
  let mut a = ctx.acc.lock().unwrap();
  a.violation = Some((id.into(), format!("{}\nthe execution spins for more than 30s without reaching a library operation", what)));
  drop(a);
  finish(ctx);
}

// ---------------------------------------------------------------- concurrent scenarios

pub struct Scen {
  pub name: String,
  pub cfg: Config,
  pub body: Arc<dyn Fn() + Send + Sync>,
  /// rough cost, to schedule long ones first
  pub weight: u32,
}
pub fn scen(name: impl Into<String>, cfg: Config, body: impl Fn() + Send + Sync + 'static) -> Scen {
  Scen { name: name.into(), cfg, body: Arc::new(body), weight: 1 }
}

/// set while a check runs scenarios of others for their schedules only
pub static QUIET: AtomicBool = AtomicBool::new(false);
/// the property is violated
pub fn verdict(m: String) {
  if !QUIET.load(SeqCst) {
    rt::fail(m);
  }
}

/// Explore every scenario; `relevant` says which failures violate the property.
pub fn explore_all(ctx: &Ctx, mut scens: Vec<Scen>, relevant: &(dyn Fn(&Failure) -> bool + Sync)) {
  if let Some(g) = ctx.gather.lock().unwrap().as_mut() {
    g.append(&mut scens);
    return;
  }
  if let Some(o) = &ctx.only {
    scens.retain(|s| s.name == *o);
  }
  if scens.is_empty() || ctx.stopped() {
    return;
  }
  scens.sort_by_key(|s| std::cmp::Reverse(s.weight));
  let n = scens.len();
  let next = AtomicUsize::new(0);
  let found: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
  let unsound: Mutex<Option<String>> = Mutex::new(None);
  let lines: Mutex<Vec<(usize, String, rt::Stats, bool)>> = Mutex::new(vec![]);
  let busy: Vec<(AtomicU64, AtomicUsize)> = (0..ctx.jobs).map(|_| (AtomicU64::new(0), AtomicUsize::new(0))).collect();
  let finished = AtomicBool::new(false);
  let stop = AtomicBool::new(false);
  std::thread::scope(|sc| {
    let workers: Vec<_> = (0..ctx.jobs)
      .map(|w| {
        let (scens, next, found, unsound, lines, busy, stop) = (&scens, &next, &found, &unsound, &lines, &busy, &stop);
        sc.spawn(move || loop {
          let i = next.fetch_add(1, SeqCst);
          if i >= n || stop.load(SeqCst) {
            break;
          }
          let s = &scens[i];
          let mut cfg = s.cfg.clone();
          if cfg.deadline.is_none() {
            cfg.deadline = Some(ctx.deadline);
          }
          let mut eng = Engine::new(cfg);
          busy[w].1.store(i, SeqCst);
          let t0 = Instant::now();
          reset_tokens();
          let b = s.body.clone();
          let bump = || {
            busy[w].0.store(ctx.start.elapsed().as_millis() as u64 + 1, SeqCst);
          };
          bump();
          let (st, f) = eng.explore(
            move || {
              reset_tokens();
              b()
            },
            bump,
          );
          busy[w].0.store(0, SeqCst);
          if ctx.verbose {
            eprintln!(
              "{}: {} execs, {} states, bound {}{} {:.2}s{}",
              s.name,
              st.execs,
              st.states,
              st.bound,
              if st.complete { "" } else { " (incomplete)" },
              t0.elapsed().as_secs_f64(),
              f.as_ref().map(|f| format!(" FAIL {:?} {}", f.0.kind, f.0.msg)).unwrap_or_default()
            );
          }
          lines.lock().unwrap().push((i, format!("{} ({:.1}s)", s.name, t0.elapsed().as_secs_f64()), st, f.is_some()));
          if let Some((f, sched)) = f {
            if f.kind == Kind::Machinery {
              *unsound.lock().unwrap() = Some(format!("{}: {}", s.name, f.msg));
              stop.store(true, SeqCst);
            } else if relevant(&f) {
              // the schedule must reproduce
              let b = s.body.clone();
              let again = eng.replay(
                move || {
                  reset_tokens();
                  b()
                },
                &sched,
              );
              let log = eng.log.join("\n");
              match again {
                Some(g) if g.kind == f.kind => {
                  if ctx.known_finding(&s.name) {
                    ctx.hit_known(&s.name, &f.msg);
                  } else {
                    found.lock().unwrap().push((
                      i,
                      s.name.clone(),
                      format!("{:?}: {}\nschedule (choice at each scheduling point, at most {} deviations): {:?}\n{}", f.kind, f.msg, sched.bound, sched.choices, log),
                    ));
                    stop.store(true, SeqCst);
                  }
                }
                other => {
                  *unsound.lock().unwrap() =
                    Some(format!("{}: failure {:?} did not reproduce on replay (got {:?})", s.name, f, other));
                  stop.store(true, SeqCst);
                }
              }
            }
          }
        })
      })
      .collect();
    let (scens, busy, finished) = (&scens, &busy, &finished);
    sc.spawn(move || {
      while !finished.load(SeqCst) {
        std::thread::sleep(Duration::from_millis(20));
        check_memory();
        let now = ctx.start.elapsed().as_millis() as u64;
        for b in busy.iter() {
          let s = b.0.load(SeqCst);
          if s != 0 && now > s + 30_000 {
            let i = b.1.load(SeqCst);
            stuck(ctx, &scens[i].name, &scens[i].name);
          }
        }
      }
    });
    for w in workers {
      let _ = w.join();
    }
    finished.store(true, SeqCst);
  });
  let mut a = ctx.acc.lock().unwrap();
  let mut ls = lines.into_inner().unwrap();
  ls.sort_by_key(|l| l.0);
  let total = ls.len();
  let mut execs = 0;
  let mut deepest = 0;
  for (_, name, st, failed) in &ls {
    execs += st.execs;
    a.states += st.states;
    a.transitions += st.transitions;
    deepest = deepest.max(st.max_depth);
    if !st.complete && !*failed {
      a.capped.push(format!("{}: deviations explored up to {} only in part", name, st.bound));
    }
  }
  a.execs += execs;
  if let (Some(l), Some(k)) = (ls.iter().max_by_key(|l| l.2.execs), ls.first()) {
    for l in [k, l] {
      if a.samples.len() < 12 {
        let s = format!("{}: {} executions, {} states, {} transitions, deepest schedule {} choices, deviation bound {}", l.1, l.2.execs, l.2.states, l.2.transitions, l.2.max_depth, l.2.bound);
        a.samples.push(s);
      }
    }
  }
  a.families.push(format!("{} scenarios explored, {} executions, longest schedule {} choices", total, execs, deepest));
  a.extra.push(("scenarios".into(), total as u64));
  if let Some(u) = unsound.into_inner().unwrap() {
    a.unsound = Some(u);
  }
  let mut fs = found.into_inner().unwrap();
  fs.sort();
  if let Some((_, id, msg)) = fs.into_iter().next() {
    a.violation = Some((id, msg));
  }
}

// ---------------------------------------------------------------- output

fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 32 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn jl(xs: &[String]) -> String {
  format!("[{}]", xs.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "))
}

pub fn finish(ctx: &Ctx) -> ! {
  let a = ctx.acc.lock().unwrap();
  let tier = ctx.pick("quick", "thorough");
  if ctx.only.is_none() {
    let mut e = String::new();
    let _ = write!(
      e,
      "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"samples\": {},\n  \"families\": {},\n  \"capped\": {}",
      js(ctx.prop),
      js(tier),
      ctx.seed,
      a.states,
      a.transitions,
      a.execs,
      a.capped.is_empty() && a.violation.is_none(),
      jl(&a.samples),
      jl(&a.families),
      jl(&a.capped)
    );
    for (k, v) in &a.extra {
      let _ = write!(e, ",\n  {}: {}", js(k), v);
    }
    let _ = write!(
      e,
      "\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
      jl(&a.assumptions),
      ctx.start.elapsed().as_secs_f64(),
      a.violation.is_some() as u32
    );
    let d = ctx.root.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if let Err(x) = std::fs::write(d.join(format!("{}.json", ctx.prop)), e) {
      eprintln!("cannot write evidence: {}", x);
      std::process::exit(2);
    }
  }
  for k in &a.known_hit {
    println!("{}", k);
  }
  if let Some(u) = &a.unsound {
    eprintln!("the checker cannot trust its own run: {}", u);
    std::process::exit(2);
  }
  if let Some((id, msg)) = &a.violation {
    let d = ctx.root.join("replays");
    let _ = std::fs::create_dir_all(&d);
    let file: String = id.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' }).take(80).collect();
    let p = d.join(format!("{}-{}.txt", ctx.prop, file));
    let text = format!(
      "property {}\n{}\n\nre-run: bash check.sh {} {} --only '{}'\n",
      ctx.prop, msg, ctx.prop, tier, id
    );
    let _ = std::fs::write(&p, text);
    println!("VIOLATION property={} replay={}", ctx.prop, p.display());
    for l in msg.lines().take(14) {
      println!("  {}", l);
    }
    std::process::exit(1);
  }
  println!(
    "{} {}: held on {} executions ({} states, {} transitions) in {:.1}s{}",
    ctx.prop,
    tier,
    a.execs,
    a.states,
    a.transitions,
    ctx.start.elapsed().as_secs_f64(),
    if a.capped.is_empty() { String::new() } else { format!("; {} part(s) capped by time", a.capped.len()) }
  );
  std::process::exit(0);
}
#[allow(dead_code)]
pub fn unused(_: Schedule) {}
