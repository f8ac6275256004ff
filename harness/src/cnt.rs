//! A coordinate type that counts what is done with it.
use num_traits::Bounded;
use rand::distributions::uniform::{SampleBorrow, SampleUniform, UniformInt, UniformSampler};
use rand::Rng;
use rgeometry::algorithms::zhash::{ZHashBox, ZHashable};
use rgeometry::data::Point;
use rgeometry::{PolygonScalar, TotalOrd};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Tally {
  /// comparisons of coordinates and geometric comparisons of points
  pub cmp: u64,
  /// additions, multiplications and so on
  pub arith: u64,
  pub clones: u64,
}
impl Tally {
  pub fn work(&self) -> u64 {
    self.cmp + self.arith
  }
}
thread_local! {
  static T: Cell<Tally> = const { Cell::new(Tally { cmp: 0, arith: 0, clones: 0 }) };
  static STOP: Cell<u64> = const { Cell::new(u64::MAX) };
}
fn cmp() {
  T.with(|t| {
    let mut v = t.get();
    v.cmp += 1;
    t.set(v);
    stop(&v)
  })
}
fn arith() {
  T.with(|t| {
    let mut v = t.get();
    v.arith += 1;
    t.set(v);
    stop(&v)
  })
}
fn stop(v: &Tally) {
  if v.work() > STOP.with(|s| s.get()) {
    STOP.with(|s| s.set(u64::MAX));
    panic!("operation budget used up");
  }
}
/// Runs `f` and reports the operations on coordinates it made; gives up beyond `limit`.
pub fn measure<R>(limit: u64, f: impl FnOnce() -> R) -> Result<(R, Tally), String> {
  T.with(|t| t.set(Tally::default()));
  STOP.with(|s| s.set(limit));
  let r = crate::no_panic(f);
  STOP.with(|s| s.set(u64::MAX));
  let t = T.with(|t| t.get());
  r.map(|r| (r, t))
}

#[derive(Debug)]
pub struct Cnt(pub i64);
impl Clone for Cnt {
  fn clone(&self) -> Cnt {
    T.with(|t| {
      let mut v = t.get();
      v.clones += 1;
      t.set(v);
    });
    Cnt(self.0)
  }
}
impl PartialEq for Cnt {
  fn eq(&self, o: &Cnt) -> bool {
    cmp();
    self.0 == o.0
  }
}
impl PartialOrd for Cnt {
  fn partial_cmp(&self, o: &Cnt) -> Option<Ordering> {
    cmp();
    Some(self.0.cmp(&o.0))
  }
}
impl TotalOrd for Cnt {
  fn total_cmp(&self, o: &Cnt) -> Ordering {
    cmp();
    self.0.cmp(&o.0)
  }
}
impl Neg for Cnt {
  type Output = Cnt;
  fn neg(self) -> Cnt {
    arith();
    Cnt(-self.0)
  }
}
macro_rules! op {
  ($($t:ident $f:ident $a:ident $g:ident $o:tt);*) => {$(
    impl $t for Cnt { type Output = Cnt; fn $f(self, o: Cnt) -> Cnt { arith(); Cnt(self.0 $o o.0) } }
    impl $a for Cnt { fn $g(&mut self, o: Cnt) { arith(); self.0 = self.0 $o o.0 } }
  )*};
}
op!(Add add AddAssign add_assign +; Sub sub SubAssign sub_assign -; Mul mul MulAssign mul_assign *; Div div DivAssign div_assign /; Rem rem RemAssign rem_assign %);
impl std::iter::Sum for Cnt {
  fn sum<I: Iterator<Item = Cnt>>(i: I) -> Cnt {
    i.fold(Cnt(0), |a, b| a + b)
  }
}
impl Bounded for Cnt {
  fn min_value() -> Cnt {
    Cnt(-(1 << 30))
  }
  fn max_value() -> Cnt {
    Cnt(1 << 30)
  }
}
type P = [Cnt; 2];
fn w(p: &P) -> [i128; 2] {
  [p[0].0 as i128, p[1].0 as i128]
}
impl PolygonScalar for Cnt {
  fn from_constant(v: i8) -> Cnt {
    Cnt(v as i64)
  }
  fn cmp_dist(p: &P, q: &P, r: &P) -> Ordering {
    cmp();
    let (p, q, r) = (w(p), w(q), w(r));
    let d = |a: [i128; 2]| (a[0] - p[0]).pow(2) + (a[1] - p[1]).pow(2);
    d(q).cmp(&d(r))
  }
  fn cmp_slope(p: &P, q: &P, r: &P) -> Ordering {
    cmp();
    let (p, q, r) = (w(p), w(q), w(r));
    ((r[1] - q[1]) * (q[0] - p[0])).cmp(&((q[1] - p[1]) * (r[0] - q[0])))
  }
  fn cmp_vector_slope(v: &P, p: &P, q: &P) -> Ordering {
    cmp();
    let (v, p, q) = (w(v), w(p), w(q));
    (v[0] * (q[1] - p[1])).cmp(&(v[1] * (q[0] - p[0])))
  }
  fn cmp_perp_vector_slope(v: &P, p: &P, q: &P) -> Ordering {
    cmp();
    let (v, p, q) = (w(v), w(p), w(q));
    (-v[1] * (q[1] - p[1])).cmp(&(v[0] * (q[0] - p[0])))
  }
}
impl ZHashable for Cnt {
  type ZHashKey = <i64 as ZHashable>::ZHashKey;
  fn zhash_key(z: ZHashBox<'_, Cnt>) -> Self::ZHashKey {
    <i64 as ZHashable>::zhash_key(ZHashBox { min_x: &z.min_x.0, max_x: &z.max_x.0, min_y: &z.min_y.0, max_y: &z.max_y.0 })
  }
  fn zhash_fn(k: Self::ZHashKey, p: &Point<Cnt>) -> u64 {
    arith();
    <i64 as ZHashable>::zhash_fn(k, &Point::new([p.array[0].0, p.array[1].0]))
  }
}
pub struct Uni(UniformInt<i64>);
impl UniformSampler for Uni {
  type X = Cnt;
  fn new<B1: SampleBorrow<Cnt>, B2: SampleBorrow<Cnt>>(a: B1, b: B2) -> Self {
    Uni(UniformInt::new(a.borrow().0, b.borrow().0))
  }
  fn new_inclusive<B1: SampleBorrow<Cnt>, B2: SampleBorrow<Cnt>>(a: B1, b: B2) -> Self {
    Uni(UniformInt::new_inclusive(a.borrow().0, b.borrow().0))
  }
  fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Cnt {
    Cnt(self.0.sample(r))
  }
}
impl SampleUniform for Cnt {
  type Sampler = Uni;
}
impl From<Cnt> for i128 {
  fn from(c: Cnt) -> i128 {
    c.0 as i128
  }
}
