mod ast;
mod conc;
mod life;
mod core;
mod gen;
mod log;
mod real;
mod refi;
mod selftest;
mod sched;
mod seq;
mod share;
mod subj;
mod val;

use crate::core::*;
use std::path::PathBuf;
use std::time::{Duration, Instant};

const PROPS: [&str; 19] = [
  "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
];

fn main() {
  let mut args = std::env::args().skip(1);
  let mut prop = None;
  let mut tier = Tier::Quick;
  let mut root = PathBuf::from(".");
  let mut only = None;
  let mut verbose = false;
  let mut survey = false;
  let mut secs: Option<u64> = None;
  while let Some(a) = args.next() {
    match a.as_str() {
      "--root" => root = PathBuf::from(args.next().unwrap()),
      "--only" => only = args.next(),
      "--secs" => secs = Some(args.next().unwrap().parse().unwrap()),
      "-v" => verbose = true,
      "--survey" => survey = true,
      "quick" => tier = Tier::Quick,
      "thorough" => tier = Tier::Thorough,
      p => prop = PROPS.iter().find(|x| **x == p).copied().or(prop),
    }
  }
  let prop = match prop {
    Some(p) => p,
    None => {
      eprintln!("usage: mc C01..C19 [quick|thorough] [--root DIR] [--only ID] [--secs N] [-v]");
      std::process::exit(2);
    }
  };
  vstd::rt::install_panic_hook();
  let start = Instant::now();
  let cap = secs.unwrap_or(if tier == Tier::Quick { 240 } else { 780 });
  let known = std::fs::read_to_string(root.join("known-findings.txt"))
    .unwrap_or_default()
    .lines()
    .filter_map(|l| l.strip_prefix(&format!("finding: property={} case=", prop)).map(|s| s.split(" :: ").next().unwrap().trim().to_string()))
    .collect();
  let ctx = Ctx {
    prop,
    tier,
    root,
    seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
    start,
    deadline: start + Duration::from_secs(cap),
    only,
    jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
    known,
    acc: Default::default(),
    verbose,
    survey,
    gather: Default::default(),
  };
  if let Err(m) = selftest::run() {
    eprintln!("the checker cannot trust itself: {}", m);
    std::process::exit(2);
  }
  match prop {
    "C01" => seq::c01(&ctx),
    "C02" => seq::c02(&ctx),
    "C03" => seq::c03(&ctx),
    "C04" => seq::c04(&ctx),
    "C05" => life::c05(&ctx),
    "C06" => life::c06(&ctx),
    "C07" => life::c07(&ctx),
    "C14" => seq::c14(&ctx),
    "C17" => life::c17(&ctx),
    "C08" => sched::c08(&ctx),
    "C09" => sched::c09(&ctx),
    "C15" => sched::c15(&ctx),
    "C16" => sched::c16(&ctx),
    "C18" => sched::c18(&ctx),
    "C10" => subj::c10(&ctx),
    "C13" => share::c13(&ctx),
    "C12" => subj::c12(&ctx),
    "C11" => conc::c11(&ctx),
    "C19" => conc::c19(&ctx),
    _ => {
      eprintln!("no check for {}", prop);
      std::process::exit(2);
    }
  }
  finish(&ctx);
}
