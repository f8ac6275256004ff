//! Coordinate types under test, with an exact reading of their values that
//! does not go through rgeometry.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use ordered_float::{NotNan, OrderedFloat};
use rgeometry::data::Point;
use rgeometry::PolygonScalar;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
  Fixed,
  Big,
  Rational,
  F32,
  F64,
}

pub trait Sc: PolygonScalar + Send + Sync + 'static {
  const NAME: &'static str;
  const KIND: Kind;
  /// Inclusive range for fixed-width integers.
  const MIN: i64 = i64::MIN;
  const MAX: i64 = i64::MAX;
  /// Exact conversion, or None if not representable.
  fn from_i(v: i64) -> Option<Self>;
  fn from_big(v: &BigInt) -> Option<Self>;
  fn from_rat(v: &BigRational) -> Option<Self> {
    if v.is_integer() {
      Self::from_big(v.numer())
    } else {
      None
    }
  }
  /// Negative zero, for floats.
  fn neg_zero() -> Option<Self> {
    None
  }
  /// The value if it is an integer of at most 50 bits.
  fn small(&self) -> Option<i64>;
  fn rat(&self) -> BigRational;
  /// Neither infinite nor NaN.
  fn finite(&self) -> bool {
    true
  }
}

const SMALL: i64 = 1 << 50;

macro_rules! sc_int {
  ($($t:ty),*) => {$(
    impl Sc for $t {
      const NAME: &'static str = stringify!($t);
      const KIND: Kind = Kind::Fixed;
      const MIN: i64 = <$t>::MIN as i64;
      const MAX: i64 = <$t>::MAX as i64;
      fn from_i(v: i64) -> Option<Self> { <$t>::try_from(v).ok() }
      fn from_big(v: &BigInt) -> Option<Self> { v.to_i64().and_then(|v| <$t>::try_from(v).ok()) }
      fn small(&self) -> Option<i64> {
        let v = *self as i64;
        if (-SMALL..=SMALL).contains(&v) { Some(v) } else { None }
      }
      fn rat(&self) -> BigRational { BigRational::from_integer(BigInt::from(*self as i64)) }
    }
  )*};
}
sc_int!(i8, i16, i32, i64, isize);

impl Sc for BigInt {
  const NAME: &'static str = "BigInt";
  const KIND: Kind = Kind::Big;
  fn from_i(v: i64) -> Option<Self> {
    Some(BigInt::from(v))
  }
  fn from_big(v: &BigInt) -> Option<Self> {
    Some(v.clone())
  }
  fn small(&self) -> Option<i64> {
    self.to_i64().filter(|v| (-SMALL..=SMALL).contains(v))
  }
  fn rat(&self) -> BigRational {
    BigRational::from_integer(self.clone())
  }
}

impl Sc for BigRational {
  const NAME: &'static str = "BigRational";
  const KIND: Kind = Kind::Rational;
  fn from_i(v: i64) -> Option<Self> {
    Some(BigRational::from_integer(BigInt::from(v)))
  }
  fn from_big(v: &BigInt) -> Option<Self> {
    Some(BigRational::from_integer(v.clone()))
  }
  fn from_rat(v: &BigRational) -> Option<Self> {
    Some(v.clone())
  }
  fn small(&self) -> Option<i64> {
    if self.denom().is_one() {
      Sc::small(self.numer())
    } else {
      None
    }
  }
  fn rat(&self) -> BigRational {
    self.clone()
  }
}

#[cfg(feature = "rug")]
impl Sc for rug::Integer {
  const NAME: &'static str = "rug::Integer";
  const KIND: Kind = Kind::Big;
  fn from_i(v: i64) -> Option<Self> {
    Some(rug::Integer::from(v))
  }
  fn from_big(v: &BigInt) -> Option<Self> {
    rug::Integer::from_str_radix(&v.to_str_radix(16), 16).ok()
  }
  fn small(&self) -> Option<i64> {
    self.to_i64().filter(|v| (-SMALL..=SMALL).contains(v))
  }
  fn rat(&self) -> BigRational {
    use num_traits::Num;
    BigRational::from_integer(BigInt::from_str_radix(&self.to_string_radix(16), 16).unwrap())
  }
}

/// Exact value of a finite double: mantissa * 2^exp.
pub fn decode_f64(v: f64) -> (BigInt, i32) {
  assert!(v.is_finite());
  let b = v.to_bits();
  let e = ((b >> 52) & 0x7ff) as i32;
  let m = b & ((1u64 << 52) - 1);
  let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
  let m = BigInt::from(m);
  (if b >> 63 == 1 { -m } else { m }, e)
}
pub fn rat_f64(v: f64) -> BigRational {
  let (m, e) = decode_f64(v);
  if m.is_zero() {
    return BigRational::zero();
  }
  if e >= 0 {
    BigRational::from_integer(m << e as usize)
  } else {
    BigRational::new(m, BigInt::one() << (-e) as usize)
  }
}
/// The double with exactly this value, if there is one.
pub fn f64_of_rat(v: &BigRational) -> Option<f64> {
  if v.is_zero() {
    return Some(0.0);
  }
  // denominator must be a power of two
  let d = v.denom();
  let db = d.bits();
  if *d != BigInt::one() << (db - 1) as usize {
    return None;
  }
  let exp = -((db - 1) as i64);
  let mut n = v.numer().abs();
  let tz = n.trailing_zeros().unwrap_or(0);
  n >>= tz as usize;
  let exp = exp + tz as i64;
  let nb = n.bits() as i64;
  if nb > 53 || exp < -1074 || exp + nb > 1024 {
    return None;
  }
  let m = n.to_u64().unwrap() as f64;
  // scale in two steps to stay exact
  let half = exp / 2;
  let x = m * 2f64.powi(half as i32) * 2f64.powi((exp - half) as i32);
  let x = if v.is_negative() { -x } else { x };
  if x.is_finite() && rat_f64(x) == *v {
    Some(x)
  } else {
    None
  }
}

macro_rules! sc_float {
  ($t:ty, $name:expr, $kind:expr, $mk:expr, $get:expr) => {
    impl Sc for $t {
      const NAME: &'static str = $name;
      const KIND: Kind = $kind;
      fn from_i(v: i64) -> Option<Self> {
        if Kind::F64 == $kind {
          let f = v as f64;
          if f as i128 == v as i128 { Some($mk(f)) } else { None }
        } else {
          let f = v as f32;
          if f as i128 == v as i128 { Some($mk(f as f64)) } else { None }
        }
      }
      fn neg_zero() -> Option<Self> {
        Some($mk(-0.0))
      }
      fn from_big(v: &BigInt) -> Option<Self> {
        Self::from_rat(&BigRational::from_integer(v.clone()))
      }
      fn from_rat(v: &BigRational) -> Option<Self> {
        let f = f64_of_rat(v)?;
        if Kind::F32 == $kind && (f as f32) as f64 != f {
          return None;
        }
        Some($mk(f))
      }
      fn small(&self) -> Option<i64> {
        let v: f64 = $get(self);
        if v.fract() == 0.0 && v.abs() <= SMALL as f64 { Some(v as i64) } else { None }
      }
      fn rat(&self) -> BigRational {
        rat_f64($get(self))
      }
      fn finite(&self) -> bool {
        let v: f64 = $get(self);
        v.is_finite()
      }
    }
  };
}
sc_float!(f32, "f32", Kind::F32, |f: f64| f as f32, |s: &f32| *s as f64);
sc_float!(f64, "f64", Kind::F64, |f: f64| f, |s: &f64| *s);
sc_float!(OrderedFloat<f32>, "OrderedFloat<f32>", Kind::F32, |f: f64| OrderedFloat(f as f32), |s: &OrderedFloat<f32>| s.0 as f64);
sc_float!(OrderedFloat<f64>, "OrderedFloat<f64>", Kind::F64, |f: f64| OrderedFloat(f), |s: &OrderedFloat<f64>| s.0);
sc_float!(NotNan<f32>, "NotNan<f32>", Kind::F32, |f: f64| NotNan::new(f as f32).unwrap(), |s: &NotNan<f32>| s.into_inner() as f64);
sc_float!(NotNan<f64>, "NotNan<f64>", Kind::F64, |f: f64| NotNan::new(f).unwrap(), |s: &NotNan<f64>| s.into_inner());

pub fn rpt<S: Sc>(p: &Point<S>) -> [BigRational; 2] {
  [p.array[0].rat(), p.array[1].rat()]
}

/// Runs `$body` with `$S` bound to the scalar type selected by `$i`.
#[macro_export]
macro_rules! with_scalar {
  ($i:expr, [$($t:ty),* $(,)?], $S:ident => $body:expr) => {{
    let __i: usize = $i;
    let mut __k = 0usize;
    $(
      if __i == __k { type $S = $t; return $body; }
      __k += 1;
    )*
    let _ = __k;
    unreachable!()
  }};
}
#[macro_export]
macro_rules! count_tys {
  () => { 0usize };
  ($h:ty $(, $t:ty)*) => { 1usize + $crate::count_tys!($($t),*) };
}
/// Picks a scalar type at random and runs the generic function on it.
#[macro_export]
macro_rules! any_scalar {
  ($ctx:expr, $f:ident, [$($t:ty),* $(,)?]) => {{
    let n = $crate::count_tys!($($t),*);
    let i = $ctx.rng.below(n);
    let mut k = 0usize;
    $( if i == k { $ctx.count(concat!("type:", stringify!($t))); return $f::<$t>($ctx); } k += 1; )*
    let _ = k;
    unreachable!()
  }};
}
