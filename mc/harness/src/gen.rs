//! The enumerated spaces: operator catalogues, scripts, histories.
use crate::ast::*;
use crate::val::*;

/// every single-source operator with every parameter value in the bound
pub fn ops_all() -> Vec<Op> {
  let mut v = vec![];
  for k in 0..3 {
    v.push(Op::Map(k));
  }
  for k in 0..6 {
    v.push(Op::Filter(k));
    v.push(Op::TakeWhile(k));
    v.push(Op::SkipWhile(k));
    v.push(Op::All(k));
  }
  for n in 0..=5 {
    v.push(Op::Take(n));
    v.push(Op::TakeLast(n));
    v.push(Op::Skip(n));
    v.push(Op::SkipLast(n));
  }
  for n in 1..=5 {
    v.push(Op::ElementAt(n));
    v.push(Op::Buffer(n));
    v.push(Op::Window(n));
  }
  v.extend([Op::First, Op::Last, Op::Distinct, Op::Scan(0), Op::Scan(1), Op::Reduce(0), Op::Reduce(1)]);
  v.extend([Op::Count, Op::Sum, Op::SumAndCount, Op::Min, Op::Max]);
  v.extend([Op::Contains(0), Op::Contains(1), Op::Contains(2), Op::Contains(5)]);
  v.extend([Op::DefaultIfEmpty(7), Op::IgnoreElements]);
  v.extend([Op::StartWith(vec![]), Op::StartWith(vec![7]), Op::StartWith(vec![8, 9])]);
  v.extend([Op::GroupBy(0), Op::GroupBy(1), Op::GroupBy(2)]);
  v.extend([Op::Materialize, Op::MatDemat, Op::Demat, Op::Tap, Op::MapToAny]);
  v
}
/// one or two of each
pub fn ops_rep() -> Vec<Op> {
  vec![
    Op::Map(0),
    Op::Filter(0),
    Op::Take(1),
    Op::Take(2),
    Op::TakeLast(2),
    Op::TakeWhile(2),
    Op::Skip(1),
    Op::SkipLast(1),
    Op::SkipWhile(2),
    Op::First,
    Op::Last,
    Op::ElementAt(2),
    Op::Distinct,
    Op::Scan(0),
    Op::Reduce(0),
    Op::Count,
    Op::Sum,
    Op::SumAndCount,
    Op::Min,
    Op::Max,
    Op::All(2),
    Op::Contains(1),
    Op::DefaultIfEmpty(7),
    Op::IgnoreElements,
    Op::StartWith(vec![8, 9]),
    Op::Buffer(2),
    Op::Window(2),
    Op::GroupBy(0),
    Op::Materialize,
    Op::MatDemat,
    Op::Demat,
    Op::Tap,
    Op::MapToAny,
  ]
}
/// operators that put nothing, or the default scheduler, between source and subscriber
pub fn ops_pass() -> Vec<Op> {
  vec![Op::ObserveOn, Op::SubscribeOn, Op::Timestamp, Op::RefCount, Op::Replay]
}
/// error handlers over the extra sources named
pub fn ops_rec(fallback: usize) -> Vec<Op> {
  vec![
    Op::Retry(0),
    Op::Retry(1),
    Op::Retry(2),
    Op::Retry(3),
    Op::Retry(4),
    Op::RetryWhen(0),
    Op::RetryWhen(1),
    Op::RetryWhen(2),
    Op::OnErr(vec![N::Src(fallback), N::Iter(vec![6, 7]), N::Throw(9)]),
  ]
}
/// operators with no sequential reference (time, threads)
pub fn ops_time() -> Vec<Op> {
  vec![Op::Delay, Op::Debounce, Op::Timeout, Op::TimeInterval, Op::ObserveOnNt, Op::SubscribeOnNt]
}
pub const COS: [Co; 10] =
  [Co::Merge, Co::Concat, Co::Zip, Co::Combine, Co::Amb, Co::SeqEq, Co::TakeUntil, Co::SkipUntil, Co::Sample, Co::Switch];
pub const NARY: [Co; 6] = [Co::Merge, Co::Concat, Co::Zip, Co::Combine, Co::Amb, Co::SeqEq];

pub fn src(k: usize) -> N {
  N::Src(k)
}
/// the combinator over the first n sources
pub fn over(co: Co, n: usize) -> N {
  N::C(co, (0..n).map(N::Src).collect())
}

/// all sequences over an alphabet, shortest first
pub fn seqs<T: Clone>(alphabet: &[T], max: usize) -> Vec<Vec<T>> {
  let mut out: Vec<Vec<T>> = vec![vec![]];
  let mut from = 0;
  for _ in 0..max {
    let to = out.len();
    for i in from..to {
      for a in alphabet {
        let mut s = out[i].clone();
        s.push(a.clone());
        out.push(s);
      }
    }
    from = to;
  }
  out
}
pub fn seqs_exact<T: Clone>(alphabet: &[T], len: usize) -> Vec<Vec<T>> {
  seqs(alphabet, len).into_iter().filter(|s| s.len() == len).collect()
}
pub const ENDS: [Option<Ev>; 3] = [Some(Ev::Done), Some(Ev::Err(5)), None];
/// item sequences with every ending
pub fn scripts(alphabet: &[i64], max: usize) -> Vec<Vec<Ev>> {
  let mut out = vec![];
  for s in seqs(alphabet, max) {
    for e in ENDS {
      let mut t: Vec<Ev> = s.iter().map(|x| Ev::Next(*x)).collect();
      t.extend(e);
      out.push(t);
    }
  }
  out
}
pub fn emits(leaf: usize, script: &[Ev]) -> Vec<Step> {
  script.iter().map(|e| Step::Emit(leaf, *e)).collect()
}
pub fn cold(script: Vec<Ev>) -> Leaf {
  Leaf::Cold { scripts: vec![script], polite: true }
}
pub fn heedless(script: Vec<Ev>) -> Leaf {
  Leaf::Cold { scripts: vec![script], polite: false }
}
/// ill-formed scripts: every sequence of notifications
pub fn raw(max: usize) -> Vec<Vec<Ev>> {
  seqs(&[Ev::Next(0), Ev::Next(1), Ev::Err(5), Ev::Done], max)
}
#[derive(Clone, Copy, PartialEq)]
pub enum Items {
  /// 10 * source + serial number
  Serial,
  /// 0 or 1 from every source
  Bits,
}
/// all interleavings of well-formed scripts of k hot sources: histories of exactly
/// `len` emissions, or shorter if every source has ended (each prefix is covered
/// because records carry the step they appeared in)
pub fn interleave(k: usize, len: usize, items: Items) -> Vec<Vec<Step>> {
  fn go(k: usize, left: usize, items: Items, st: &mut Vec<(i64, bool)>, cur: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    if left == 0 || st.iter().all(|s| s.1) {
      out.push(cur.clone());
      return;
    }
    for l in 0..k {
      if st[l].1 {
        continue;
      }
      let vals: Vec<i64> = match items {
        Items::Serial => vec![10 * l as i64 + st[l].0],
        Items::Bits => vec![0, 1],
      };
      for x in vals {
        st[l].0 += 1;
        cur.push(Step::Emit(l, Ev::Next(x)));
        go(k, left - 1, items, st, cur, out);
        cur.pop();
        st[l].0 -= 1;
      }
      for e in [Ev::Done, Ev::Err(l as i64)] {
        st[l].1 = true;
        cur.push(Step::Emit(l, e));
        go(k, left - 1, items, st, cur, out);
        cur.pop();
        st[l].1 = false;
      }
    }
  }
  let mut out = vec![];
  go(k, len, items, &mut vec![(0, false); k], &mut vec![], &mut out);
  out
}
/// all interleavings of arbitrary notifications (0, error, complete) of k sources
pub fn interleave_raw(k: usize, len: usize) -> Vec<Vec<Step>> {
  let mut al = vec![];
  for l in 0..k {
    for e in [Ev::Next(10 * l as i64), Ev::Err(l as i64), Ev::Done] {
      al.push(Step::Emit(l, e));
    }
  }
  seqs_exact(&al, len)
}
/// insert `s` at every position of `h` (including both ends)
pub fn everywhere(h: &[Step], s: &Step) -> Vec<Vec<Step>> {
  (0..=h.len())
    .map(|i| {
      let mut v = h.to_vec();
      v.insert(i, s.clone());
      v
    })
    .collect()
}

/// mixed radix index -> digits
pub fn digits(mut i: usize, radix: &[usize]) -> Vec<usize> {
  let mut d = vec![0; radix.len()];
  for k in (0..radix.len()).rev() {
    d[k] = i % radix[k];
    i /= radix[k];
  }
  d
}

// ---- a few large elements of each dimension

pub fn lengths(q: bool) -> Vec<usize> {
  let mut v = vec![8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300];
  if !q {
    v.extend([400, 499, 500, 501, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025]);
  }
  v
}
pub fn pattern(k: usize, n: usize) -> Vec<i64> {
  (0..n as i64)
    .map(|i| match k {
      0 => i,
      1 => n as i64 - i,
      2 => i % 3,
      3 => i / 4,
      4 => i * 7 % 11,
      _ => 1,
    })
    .collect()
}
pub fn longs(lengths: &[usize], patterns: usize, ends: &[Option<Ev>]) -> Vec<Vec<Ev>> {
  let mut v = vec![];
  for n in lengths {
    for k in 0..patterns {
      for e in ends {
        let mut s: Vec<Ev> = pattern(k, *n).into_iter().map(Ev::Next).collect();
        s.extend(*e);
        v.push(s);
      }
    }
  }
  v
}
pub fn ops_large() -> Vec<Op> {
  let mut v = vec![];
  for n in [6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000] {
    v.extend([Op::Take(n), Op::TakeLast(n), Op::Skip(n), Op::SkipLast(n), Op::ElementAt(n), Op::Buffer(n), Op::Window(n)]);
  }
  v.extend([Op::Contains(16), Op::Contains(64), Op::Contains(99), Op::Contains(256), Op::Contains(299)]);
  v.extend([Op::StartWith((0..17).collect()), Op::StartWith((0..70).collect()), Op::StartWith((0..300).collect())]);
  v
}
/// k sources, a few rounds of items, in several orders, with several ends; `equal`: the same items from each
/// but, in some, for one of them
pub fn wide(k: usize, equal: bool) -> Vec<Vec<Step>> {
  let mut out = vec![];
  let odds: Vec<Option<(usize, i64)>> = if equal { vec![None, Some((k - 1, 0)), Some((k / 2, 1)), Some((0, 1))] } else { vec![None] };
  for odd in odds {
    let val = |l: usize, j: i64| {
      if odd == Some((l, j)) {
        99
      } else if equal {
        j
      } else {
        10 * l as i64 + j
      }
    };
    let fwd: Vec<usize> = (0..k).collect();
    let back: Vec<usize> = (0..k).rev().collect();
    let inside: Vec<usize> = (0..k).map(|i| (i * 3 + k / 2) % k).collect();
    let inside = if inside.iter().collect::<std::collections::HashSet<_>>().len() == k { inside } else { fwd.clone() };
    for order in [&fwd, &back, &inside] {
      for rounds in 0..3i64 {
        for by_source in [false, true] {
          let mut h = vec![];
          if by_source {
            for l in order {
              h.extend((0..rounds).map(|j| Step::Emit(*l, Ev::Next(val(*l, j)))));
            }
          } else {
            for j in 0..rounds {
              h.extend(order.iter().map(|l| Step::Emit(*l, Ev::Next(val(*l, j)))));
            }
          }
          // all end; all but one; one fails at the beginning, in the middle, at the end
          for silent in [None, Some(0), Some(k / 2), Some(k - 1)] {
            for ends in [&fwd, &back] {
              let mut s = h.clone();
              s.extend(ends.iter().filter(|l| Some(**l) != silent).map(|l| Step::Emit(*l, Ev::Done)));
              if let Some(l) = silent {
                s.push(Step::Emit(l, Ev::Next(val(l, rounds))));
                out.push(s.clone());
                s.push(Step::Emit(l, Ev::Done));
              }
              out.push(s);
            }
          }
          for at in [0, h.len() / 2, h.len()] {
            for l in [0, k - 1] {
              let mut s = h.clone();
              s.insert(at, Step::Emit(l, Ev::Err(l as i64)));
              s.extend(fwd.iter().map(|l| Step::Emit(*l, Ev::Done)));
              out.push(s);
            }
          }
          // each source ends as soon as it has emitted everything
          if by_source {
            let mut s = vec![];
            for l in order {
              s.extend((0..rounds).map(|j| Step::Emit(*l, Ev::Next(val(*l, j)))));
              s.push(Step::Emit(*l, Ev::Done));
            }
            out.push(s);
          }
        }
      }
    }
  }
  out
}
/// two sources, one of them far ahead of the other
pub fn leads(sizes: &[usize], equal: bool) -> Vec<Vec<Step>> {
  let mut out = vec![];
  let val = |l: usize, j: usize| Ev::Next(if equal { j as i64 } else { (1000 * l + j) as i64 });
  for n in sizes {
    let mut ms = vec![1, n / 2, n - 1, *n, n + 1];
    ms.dedup();
    for m in ms {
      for first in 0..2 {
        let (a, b) = (first, 1 - first);
        for early in [false, true] {
          let mut h: Vec<Step> = (0..*n).map(|j| Step::Emit(a, val(a, j))).collect();
          if early {
            h.push(Step::Emit(a, Ev::Done));
          }
          h.extend((0..m).map(|j| Step::Emit(b, val(b, j))));
          for e in [Ev::Done, Ev::Err(b as i64)] {
            let mut h = h.clone();
            h.push(Step::Emit(b, e));
            h.push(Step::Emit(a, Ev::Done));
            out.push(h);
          }
        }
      }
    }
    // in step
    let mut h = vec![];
    for j in 0..*n {
      h.extend([Step::Emit(0, val(0, j)), Step::Emit(1, val(1, j))]);
    }
    h.extend([Step::Emit(1, Ev::Done), Step::Emit(0, Ev::Done)]);
    out.push(h);
  }
  out
}
/// a crowd of subscribers (subscriber 0 first) of one source, coming and going
pub fn crowd(n: usize) -> Vec<Vec<Step>> {
  let mut out = vec![];
  let e = |x: i64| Step::Emit(0, Ev::Next(x));
  let fwd: Vec<usize> = (0..n).collect();
  let back: Vec<usize> = (0..n).rev().collect();
  let odd: Vec<usize> = (0..n).filter(|i| i % 2 == 1).collect();
  for end in [Some(Ev::Done), Some(Ev::Err(5)), None] {
    // all there from the beginning; or an item between one arrival and the next
    for items in [false, true] {
      let mut h = vec![];
      for k in 1..n {
        if items {
          h.push(e(k as i64));
        }
        h.push(Step::Sub);
      }
      h.extend([e(51), e(52), e(53)]);
      for leave in [&vec![], &fwd, &back, &odd] {
        let mut h = h.clone();
        for (i, k) in leave.iter().enumerate() {
          h.push(Step::Unsub(*k));
          if i % 3 == 2 {
            h.push(e(60 + i as i64));
          }
        }
        h.push(e(91));
        h.extend(end.map(|e| Step::Emit(0, e)));
        h.extend([Step::Sub, e(92)]);
        out.push(h);
      }
      // never more than one at a time
      let mut h = vec![];
      for k in 0..n {
        h.extend([e(k as i64), Step::Unsub(k), e(70), Step::Sub]);
      }
      h.extend([e(93)]);
      h.extend(end.map(|e| Step::Emit(0, e)));
      out.push(h);
    }
  }
  out
}
