//! Point sets of segments with open or closed ends.
use crate::ex::*;
use crate::rng::Rg;
use crate::sc::Sc;
use rgeometry::data::{EndPoint, LineSegment, LineSegmentView, Point};

#[derive(Clone, Debug)]
pub struct Seg<N> {
  pub lo: P<N>,
  pub lo_inc: bool,
  pub hi: P<N>,
  pub hi_inc: bool,
}
impl<N: Nm> Seg<N> {
  pub fn new(a: &P<N>, ai: bool, b: &P<N>, bi: bool) -> Seg<N> {
    if a <= b {
      Seg { lo: a.clone(), lo_inc: ai, hi: b.clone(), hi_inc: bi }
    } else {
      Seg { lo: b.clone(), lo_inc: bi, hi: a.clone(), hi_inc: ai }
    }
  }
  pub fn degenerate(&self) -> bool {
    self.lo == self.hi
  }
  pub fn empty(&self) -> bool {
    self.degenerate() && !(self.lo_inc && self.hi_inc)
  }
  pub fn contains(&self, p: &P<N>) -> bool {
    if self.degenerate() {
      return !self.empty() && *p == self.lo;
    }
    if *p == self.lo {
      return self.lo_inc;
    }
    if *p == self.hi {
      return self.hi_inc;
    }
    on_seg(p, &self.lo, &self.hi)
  }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Meet<N> {
  No,
  Cross,
  /// one line; the shared piece
  Over(P<N>, bool, P<N>, bool),
  /// some point is shared; one of the segments is a single point
  Point,
}
pub fn meet<N: Nm>(a: &Seg<N>, b: &Seg<N>) -> Meet<N> {
  if a.empty() || b.empty() {
    return Meet::No;
  }
  if a.degenerate() || b.degenerate() {
    let hit = if a.degenerate() { b.contains(&a.lo) } else { a.contains(&b.lo) };
    return if hit { Meet::Point } else { Meet::No };
  }
  let (o1, o2) = (orient(&a.lo, &a.hi, &b.lo), orient(&a.lo, &a.hi, &b.hi));
  let (o3, o4) = (orient(&b.lo, &b.hi, &a.lo), orient(&b.lo, &b.hi, &a.hi));
  if o1 == 0 && o2 == 0 {
    let lo = if a.lo > b.lo { &a.lo } else { &b.lo };
    let hi = if a.hi < b.hi { &a.hi } else { &b.hi };
    if lo > hi {
      return Meet::No;
    }
    let (li, hi_inc) = (a.contains(lo) && b.contains(lo), a.contains(hi) && b.contains(hi));
    if lo == hi {
      return if li { Meet::Over(lo.clone(), true, hi.clone(), true) } else { Meet::No };
    }
    return Meet::Over(lo.clone(), li, hi.clone(), hi_inc);
  }
  // the lines meet in at most one point
  let inb = o1 * o2 < 0 || (o1 == 0 && b.lo_inc) || (o2 == 0 && b.hi_inc);
  let ina = o3 * o4 < 0 || (o3 == 0 && a.lo_inc) || (o4 == 0 && a.hi_inc);
  if ina && inb {
    Meet::Cross
  } else {
    Meet::No
  }
}
pub fn end<T>(p: T, inc: bool) -> EndPoint<T>
where
  T: rgeometry::TotalOrd,
{
  if inc {
    EndPoint::Inclusive(p)
  } else {
    EndPoint::Exclusive(p)
  }
}
/// One generated segment of the code under test with its description.
#[derive(Clone, Debug)]
pub struct Made<S: rgeometry::TotalOrd> {
  pub a: Point<S>,
  pub ai: bool,
  pub b: Point<S>,
  pub bi: bool,
}
impl<S: Sc> Made<S> {
  pub fn seg(&self) -> LineSegment<S> {
    LineSegment::new(end(self.a.clone(), self.ai), end(self.b.clone(), self.bi))
  }
  pub fn view(&self) -> LineSegmentView<'_, S> {
    LineSegmentView::new(end(&self.a, self.ai), end(&self.b, self.bi))
  }
  pub fn show(&self) -> String {
    format!(
      "{}{}{}",
      if self.ai { "closed " } else { "open " },
      crate::gen::show(&[self.a.clone(), self.b.clone()]),
      if self.bi { " closed" } else { " open" }
    )
  }
}
pub fn made<S: Sc>(r: &mut Rg, a: Point<S>, b: Point<S>) -> Made<S> {
  Made { a, ai: r.chance(1, 2), b, bi: r.chance(1, 2) }
}
