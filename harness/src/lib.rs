pub mod common;
pub mod engine;
pub mod ex;
pub mod gen;
pub mod past;
pub mod rng;
pub mod sc;
pub mod segs;
pub mod tri;
pub use engine::{no_panic, Ctx, Family, Property, Res, Tier};
pub use num_bigint::BigInt;
pub use num_rational::BigRational;
pub use ordered_float::{NotNan, OrderedFloat};
pub type OF32 = OrderedFloat<f32>;
pub type OF64 = OrderedFloat<f64>;
pub type NN32 = NotNan<f32>;
pub type NN64 = NotNan<f64>;
#[cfg(feature = "rug")]
pub use rug::Integer as Rug;
/// `any_scalar!` over every supported coordinate type.
#[macro_export]
macro_rules! all_types {
  ($ctx:expr, $f:ident) => {
    $crate::any_scalar!($ctx, $f, [i8, i16, i32, i64, isize, BigInt, BigRational, f32, f64, OF32, OF64, NN32, NN64, Rug])
  };
}
pub mod hulls;
pub mod ops;
pub mod cnt;
/// Coordinate types whose arithmetic is fast enough for large inputs.
#[macro_export]
macro_rules! fast_types {
  ($ctx:expr, $f:ident) => {
    $crate::any_scalar!($ctx, $f, [i32, i64, isize, f64, OF64, NN64])
  };
}
