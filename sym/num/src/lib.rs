//! Symbolic stand-in for the `num` crate: the same interface, exact numbers that may be
//! symbolic.  Comparisons fork the path; arithmetic builds terms.
pub use num_integer::Integer;
pub use num_iter::{range, range_inclusive, range_step, range_step_inclusive};
pub use num_traits::{
    abs, abs_sub, cast, checked_pow, clamp, one, pow, signum, zero, Bounded, CheckedAdd, CheckedDiv, CheckedMul,
    CheckedSub, Float, FromPrimitive, Num, NumCast, One, PrimInt, Saturating, Signed, ToPrimitive, Unsigned, Zero,
};
pub mod traits {
    pub use num_traits::*;
}
pub mod integer {
    pub use num_integer::*;
}
pub mod iter {
    pub use num_iter::*;
}
pub mod bigint {
    pub use crate::big::{BigInt, ParseBigIntError, Sign, ToBigInt, TryFromBigIntError};
    pub use num_bigint::{BigUint, ToBigUint};
}
pub mod rational {
    pub use crate::rat::{BigRational, ParseRatioError, Ratio};
}
pub use big::BigInt;
pub use num_bigint::BigUint;
pub use rat::BigRational;
pub type Rational = num_rational::Rational;
pub type Rational32 = num_rational::Rational32;
pub type Rational64 = num_rational::Rational64;

mod big;
mod rat;
