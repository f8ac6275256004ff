//! Small helpers shared by the monitors.
use crate::ex;
use rgeometry::Orientation;
use std::cmp::Ordering;

pub fn ori(s: i8) -> Orientation {
  match s {
    1 => Orientation::CounterClockWise,
    -1 => Orientation::ClockWise,
    _ => Orientation::CoLinear,
  }
}
pub fn ord(s: i8) -> Ordering {
  s.cmp(&0)
}
/// Rotates a vector a quarter turn counter-clockwise.
pub fn perp<N: ex::Nm>(v: &ex::P<N>) -> ex::P<N> {
  [-v[1].clone(), v[0].clone()]
}

/// Every way of consuming an iterator yields the same elements: `mk` starts it
/// anew, `want` is what it yields. Bounds of `size_hint` hold throughout.
pub fn iter_protocol<K: PartialEq + std::fmt::Debug, I: Iterator>(ctx: &mut crate::Ctx, r: &mut crate::rng::Rg, what: &str, mk: &dyn Fn() -> I, key: &dyn Fn(I::Item) -> K, want: &[K]) -> crate::Res {
  let n = want.len();
  let k = r.below(n + 2);
  let rest = &want[k.min(n)..];
  ctx.count("iterator_protocol");
  ctx.eval();
  // some elements first, then one of the consuming methods
  let start = || {
    let mut it = mk();
    for i in 0..k {
      let g = it.next().map(key);
      if g.as_ref() != want.get(i) { return Err(format!("{}: element {} is {:?}, expected {:?}", what, i, g, want.get(i))) }
    }
    Ok(it)
  };
  let hint = |it: &I, left: usize| -> crate::Res {
    let (a, b) = it.size_hint();
    crate::ck!(a <= left && b.map_or(true, |b| b >= left), "{}: size_hint {:?} with {} elements left", what, (a, b), left);
    Ok(())
  };
  let it = start()?;
  hint(&it, rest.len())?;
  // past the end an unfused iterator may start again: ask for the rest only when
  // the end was not passed
  if k > n { return Ok(()) }
  let c = it.count();
  crate::ck!(c == rest.len(), "{}: count {} after {} elements, {} remain", what, c, k, rest.len());
  let l = start()?.last().map(key);
  crate::ck!(l.as_ref() == rest.last(), "{}: last after {} elements is {:?}, expected {:?}", what, k, l, rest.last());
  let f = start()?.fold(vec![], |mut v, x| { v.push(key(x)); v });
  crate::ck!(f == *rest, "{}: fold after {} elements meets {:?}, expected {:?}", what, k, f, rest);
  let mut v = vec![];
  start()?.for_each(|x| v.push(key(x)));
  crate::ck!(v == *rest, "{}: for_each after {} elements meets {:?}, expected {:?}", what, k, v, rest);
  // nth, repeated
  let mut it = start()?;
  let mut at = 0;
  loop {
    let j = match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(4), _ => r.below(rest.len() + 2) };
    let g = it.nth(j).map(key);
    crate::ck!(g.as_ref() == rest.get(at + j), "{}: nth({}) after {} elements is {:?}, expected {:?}", what, j, k + at, g, rest.get(at + j));
    if g.is_none() { break }
    at += j + 1;
    hint(&it, rest.len() - at)?;
  }
  let s = 1 + r.below(4);
  let g: Vec<K> = start()?.step_by(s).map(key).collect();
  let e: Vec<&K> = rest.iter().step_by(s).collect();
  crate::ck!(g.len() == e.len() && g.iter().zip(&e).all(|(a, b)| a == *b), "{}: step_by({}) after {} elements yields {:?}, expected {:?}", what, s, k, g, e);
  let s = r.below(rest.len() + 2);
  let g: Vec<K> = start()?.skip(s).map(key).collect();
  crate::ck!(g == rest[s.min(rest.len())..], "{}: skip({}) after {} elements yields {:?}", what, s, k, g);
  // short-circuiting methods
  if !rest.is_empty() {
    let t = r.below(rest.len());
    let first = rest.iter().position(|x| *x == rest[t]);
    let mut it = start()?;
    let g = it.position(|x| key(x) == rest[t]);
    crate::ck!(g == first, "{}: position of {:?} after {} elements is {:?}, expected {:?}", what, rest[t], k, g, first);
    let g = it.next().map(key);
    crate::ck!(g.as_ref() == rest.get(first.unwrap() + 1), "{}: after position {:?} comes {:?}, expected {:?}", what, first, g, rest.get(first.unwrap() + 1));
    let mut seen = 0;
    let mut it = start()?;
    let g = it.find(|_| { seen += 1; seen == t + 1 }).map(key);
    crate::ck!(g.as_ref() == Some(&rest[t]) && seen == t + 1, "{}: find stops at {:?} after {} elements, expected {:?}", what, g, seen, rest[t]);
    let g = it.next().map(key);
    crate::ck!(g.as_ref() == rest.get(t + 1), "{}: after find comes {:?}, expected {:?}", what, g, rest.get(t + 1));
    let mut seen = 0;
    let all = start()?.try_for_each(|_| { seen += 1; if seen == t + 1 { Err(()) } else { Ok(()) } });
    crate::ck!(all.is_err() && seen == t + 1, "{}: try_for_each met {} elements, expected {}", what, seen, t + 1);
    let any = start()?.any(|x| key(x) == rest[t]);
    crate::ck!(any, "{}: any misses {:?}", what, rest[t]);
  }
  Ok(())
}
/// The same from the back and from both ends.
pub fn iter_protocol_back<K: PartialEq + std::fmt::Debug, I: DoubleEndedIterator + ExactSizeIterator>(ctx: &mut crate::Ctx, r: &mut crate::rng::Rg, what: &str, mk: &dyn Fn() -> I, key: &dyn Fn(I::Item) -> K, want: &[K]) -> crate::Res {
  iter_protocol(ctx, r, what, mk, key, want)?;
  let n = want.len();
  let (a, b) = { let a = r.below(n + 1); (a, r.below(n - a + 1)) };
  let rest = &want[a..n - b];
  ctx.count("iterator_protocol_back");
  let start = || {
    let mut it = mk();
    if a > 0 { it.nth(a - 1); }
    if b > 0 { it.nth_back(b - 1); }
    it
  };
  crate::ck!(start().len() == rest.len(), "{}: {} elements left after {} and {} from the back, expected {}", what, start().len(), a, b, rest.len());
  let f: Vec<K> = start().rfold(vec![], |mut v, x| { v.push(key(x)); v });
  crate::ck!(f.iter().eq(rest.iter().rev()), "{}: rfold after {} and {} from the back meets {:?}, expected {:?} reversed", what, a, b, f, rest);
  let f: Vec<K> = start().rev().map(key).collect();
  crate::ck!(f.iter().eq(rest.iter().rev()), "{}: rev after {} and {} from the back yields {:?}, expected {:?} reversed", what, a, b, f, rest);
  let s = 1 + r.below(4);
  let g: Vec<K> = start().rev().step_by(s).map(key).collect();
  crate::ck!(g.iter().eq(rest.iter().rev().step_by(s)), "{}: reversed steps of {} after {} and {} yield {:?} of {:?}", what, s, a, b, g, rest);
  // nth from either end
  let mut it = start();
  let (mut lo, mut hi) = (0, rest.len());
  loop {
    let j = match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(4), _ => r.below(hi - lo + 2) };
    let back = r.chance(1, 2);
    let (g, e) = if back {
      let e = if lo + j < hi { Some(&rest[hi - 1 - j]) } else { None };
      (it.nth_back(j).map(key), e)
    } else {
      let e = if lo + j < hi { Some(&rest[lo + j]) } else { None };
      (it.nth(j).map(key), e)
    };
    crate::ck!(g.as_ref() == e, "{}: nth{}({}) with {} to {} of {:?} left is {:?}, expected {:?}", what, if back { "_back" } else { "" }, j, lo, hi, rest, g, e);
    if g.is_none() { break }
    if back { hi -= j + 1 } else { lo += j + 1 }
    crate::ck!(it.len() == hi - lo, "{}: {} elements left, expected {}", what, it.len(), hi - lo);
  }
  if !rest.is_empty() {
    let t = r.below(rest.len());
    let g = start().rposition(|x| key(x) == rest[t]);
    let e = rest.iter().rposition(|x| *x == rest[t]);
    crate::ck!(g == e, "{}: rposition of {:?} is {:?}, expected {:?}", what, rest[t], g, e);
    let mut seen = 0;
    let mut it = start();
    let g = it.rfind(|_| { seen += 1; seen == t + 1 }).map(key);
    crate::ck!(g.as_ref() == Some(&rest[rest.len() - 1 - t]) && seen == t + 1, "{}: rfind stops at {:?} after {}, expected {:?}", what, g, seen, rest[rest.len() - 1 - t]);
    crate::ck!(it.len() == rest.len() - 1 - t, "{}: {} left after rfind, expected {}", what, it.len(), rest.len() - 1 - t);
  }
  Ok(())
}
