use crate::big::{c, BigInt};
use num_traits::*;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::*;
use std::str::FromStr;
use symcore::poly::Poly;
use symcore::Val;
type RealRat = num_rational::BigRational;

pub struct Ratio<T>(pub(crate) Val, PhantomData<T>);
pub type BigRational = Ratio<BigInt>;
type R = Ratio<BigInt>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ParseRatioError;
impl fmt::Display for ParseRatioError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("failed to parse provided string")
    }
}
impl std::error::Error for ParseRatioError {}

fn mk(v: Val) -> R {
    Ratio(v, PhantomData)
}
impl<T> Clone for Ratio<T> {
    fn clone(&self) -> Self {
        Ratio(self.0.clone(), PhantomData)
    }
}
impl Ratio<BigInt> {
    /// the harness' view
    pub fn sym(&self) -> &Val {
        &self.0
    }
    pub fn new(n: BigInt, d: BigInt) -> R {
        mk(n.0.div(&d.0))
    }
    pub fn new_raw(n: BigInt, d: BigInt) -> R {
        mk(n.0.div(&d.0))
    }
    pub fn from_integer(n: BigInt) -> R {
        mk(n.0)
    }
    pub fn to_integer(&self) -> BigInt {
        BigInt(self.0.trunc())
    }
    pub fn is_integer(&self) -> bool {
        self.0.is_int() || self.0.trunc().eq(&self.0)
    }
    fn parts(&self) -> (Val, Val) {
        match &self.0 {
            Val::C(x) => (c(x.numer().clone()), c(x.denom().clone())),
            Val::S(r) => {
                if self.0.is_int() {
                    return (self.0.clone(), Val::int(1));
                }
                let c0 = r.num.constant_term();
                let rest = Val::poly(r.num.sub(&Poly::constant(c0.clone())));
                if r.den == Poly::one() && rest.is_int() {
                    let q = c(c0.denom().clone());
                    return (self.0.mul(&q), q);
                }
                symcore::engine::stop(symcore::Stop::Unsupported(
                    "the program needs the numerator of a symbolic fraction".into(),
                ))
            }
        }
    }
    pub fn numer(&self) -> &BigInt {
        Box::leak(Box::new(BigInt(self.parts().0)))
    }
    pub fn denom(&self) -> &BigInt {
        Box::leak(Box::new(BigInt(self.parts().1)))
    }
    pub fn recip(&self) -> R {
        mk(Val::int(1).div(&self.0))
    }
    pub fn floor(&self) -> R {
        mk(self.0.floor())
    }
    pub fn ceil(&self) -> R {
        mk(self.0.ceil())
    }
    pub fn round(&self) -> R {
        mk(self.0.round())
    }
    pub fn trunc(&self) -> R {
        mk(self.0.trunc())
    }
    pub fn fract(&self) -> R {
        mk(self.0.fract())
    }
    pub fn pow(&self, e: i32) -> R {
        mk(self.0.powi(e as i64))
    }
    pub fn from_float<T: Float + ToPrimitive>(f: T) -> Option<R> {
        RealRat::from_float(f.to_f64()?).map(|x| mk(Val::C(x)))
    }
}
impl From<BigInt> for R {
    fn from(x: BigInt) -> R {
        mk(x.0)
    }
}
impl From<(BigInt, BigInt)> for R {
    fn from(x: (BigInt, BigInt)) -> R {
        R::new(x.0, x.1)
    }
}
impl From<R> for (BigInt, BigInt) {
    fn from(x: R) -> (BigInt, BigInt) {
        let (a, b) = x.parts();
        (BigInt(a), BigInt(b))
    }
}
impl fmt::Display for R {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Val::C(x) => fmt::Display::fmt(x, f),
            _ => f.pad(&self.0.text()),
        }
    }
}
impl fmt::Debug for R {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Ratio({})", self.0.show())
    }
}
impl FromStr for R {
    type Err = ParseRatioError;
    fn from_str(s: &str) -> Result<R, ParseRatioError> {
        let mut it = s.splitn(2, '/');
        let n = BigInt::from_str(it.next().ok_or(ParseRatioError)?).map_err(|_| ParseRatioError)?;
        let d = match it.next() {
            Some(d) => BigInt::from_str(d).map_err(|_| ParseRatioError)?,
            None => BigInt::one(),
        };
        if d.is_zero() {
            return Err(ParseRatioError);
        }
        Ok(R::new(n, d))
    }
}
impl PartialEq for R {
    fn eq(&self, o: &R) -> bool {
        self.0.eq(&o.0)
    }
}
impl Eq for R {}
impl PartialOrd for R {
    fn partial_cmp(&self, o: &R) -> Option<Ordering> {
        Some(self.0.cmp(&o.0))
    }
    fn lt(&self, o: &R) -> bool {
        self.0.lt(&o.0)
    }
    fn le(&self, o: &R) -> bool {
        self.0.le(&o.0)
    }
    fn gt(&self, o: &R) -> bool {
        o.0.lt(&self.0)
    }
    fn ge(&self, o: &R) -> bool {
        o.0.le(&self.0)
    }
}
impl Ord for R {
    fn cmp(&self, o: &R) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Hash for R {
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
impl Default for R {
    fn default() -> R {
        mk(Val::zero())
    }
}
fn rrem(a: &Val, b: &Val) -> Val {
    a.sub(&b.mul(&a.div(b).trunc()))
}
macro_rules! ops {
    ($Tr:ident $m:ident $TrA:ident $ma:ident $f:expr) => {
        ops!(@ $Tr $m $TrA $ma $f, R);
        ops!(@ $Tr $m $TrA $ma $f, BigInt);
    };
    (@ $Tr:ident $m:ident $TrA:ident $ma:ident $f:expr, $O:ty) => {
        impl $Tr<$O> for R { type Output = R; fn $m(self, o: $O) -> R { mk($f(&self.0, &o.0)) } }
        impl<'a> $Tr<&'a $O> for R { type Output = R; fn $m(self, o: &'a $O) -> R { mk($f(&self.0, &o.0)) } }
        impl<'a> $Tr<$O> for &'a R { type Output = R; fn $m(self, o: $O) -> R { mk($f(&self.0, &o.0)) } }
        impl<'a, 'b> $Tr<&'b $O> for &'a R { type Output = R; fn $m(self, o: &'b $O) -> R { mk($f(&self.0, &o.0)) } }
        impl $TrA<$O> for R { fn $ma(&mut self, o: $O) { self.0 = $f(&self.0, &o.0) } }
        impl<'a> $TrA<&'a $O> for R { fn $ma(&mut self, o: &'a $O) { self.0 = $f(&self.0, &o.0) } }
    };
}
ops!(Add add AddAssign add_assign Val::add);
ops!(Sub sub SubAssign sub_assign Val::sub);
ops!(Mul mul MulAssign mul_assign Val::mul);
ops!(Div div DivAssign div_assign Val::div);
ops!(Rem rem RemAssign rem_assign rrem);
impl Neg for R {
    type Output = R;
    fn neg(self) -> R {
        mk(self.0.neg())
    }
}
impl<'a> Neg for &'a R {
    type Output = R;
    fn neg(self) -> R {
        mk(self.0.neg())
    }
}
impl Zero for R {
    fn zero() -> R {
        mk(Val::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl One for R {
    fn one() -> R {
        mk(Val::int(1))
    }
    fn is_one(&self) -> bool {
        self.0.eq(&Val::int(1))
    }
}
impl Num for R {
    type FromStrRadixErr = ParseRatioError;
    fn from_str_radix(s: &str, r: u32) -> Result<R, ParseRatioError> {
        if r == 10 {
            R::from_str(s)
        } else {
            Err(ParseRatioError)
        }
    }
}
impl Signed for R {
    fn abs(&self) -> R {
        mk(self.0.abs())
    }
    fn abs_sub(&self, o: &R) -> R {
        if self <= o {
            R::zero()
        } else {
            self - o
        }
    }
    fn signum(&self) -> R {
        if self.0.is_zero() {
            R::zero()
        } else if self.0.is_neg() {
            mk(Val::int(-1))
        } else {
            R::one()
        }
    }
    fn is_positive(&self) -> bool {
        self.0.is_pos()
    }
    fn is_negative(&self) -> bool {
        self.0.is_neg()
    }
}
impl Inv for R {
    type Output = R;
    fn inv(self) -> R {
        self.recip()
    }
}
impl<'a> Inv for &'a R {
    type Output = R;
    fn inv(self) -> R {
        self.recip()
    }
}
impl ToPrimitive for R {
    fn to_i64(&self) -> Option<i64> {
        self.to_integer().to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.to_integer().to_u64()
    }
    fn to_i128(&self) -> Option<i128> {
        self.to_integer().to_i128()
    }
    fn to_u128(&self) -> Option<u128> {
        self.to_integer().to_u128()
    }
    fn to_f64(&self) -> Option<f64> {
        let x = self.0.concretize();
        Some(x.numer().to_f64()? / x.denom().to_f64()?)
    }
}
impl FromPrimitive for R {
    fn from_i64(n: i64) -> Option<R> {
        Some(mk(BigInt::from(n).0))
    }
    fn from_u64(n: u64) -> Option<R> {
        Some(mk(BigInt::from(n).0))
    }
    fn from_f64(n: f64) -> Option<R> {
        R::from_float(n)
    }
}
macro_rules! pows {
    ($($p:ty)*) => { $(
        impl Pow<$p> for R { type Output = R; fn pow(self, e: $p) -> R { mk(self.0.powi(e as i64)) } }
        impl<'a> Pow<$p> for &'a R { type Output = R; fn pow(self, e: $p) -> R { mk(self.0.powi(e as i64)) } }
    )* };
}
pows!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl CheckedAdd for R {
    fn checked_add(&self, o: &R) -> Option<R> {
        Some(self + o)
    }
}
impl CheckedSub for R {
    fn checked_sub(&self, o: &R) -> Option<R> {
        Some(self - o)
    }
}
impl CheckedMul for R {
    fn checked_mul(&self, o: &R) -> Option<R> {
        Some(self * o)
    }
}
impl CheckedDiv for R {
    fn checked_div(&self, o: &R) -> Option<R> {
        if o.is_zero() {
            None
        } else {
            Some(self / o)
        }
    }
}
impl std::iter::Sum<R> for R {
    fn sum<I: Iterator<Item = R>>(it: I) -> R {
        it.fold(R::zero(), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a R> for R {
    fn sum<I: Iterator<Item = &'a R>>(it: I) -> R {
        it.fold(R::zero(), |a, b| a + b)
    }
}
impl std::iter::Product<R> for R {
    fn product<I: Iterator<Item = R>>(it: I) -> R {
        it.fold(R::one(), |a, b| a * b)
    }
}

impl<'a> std::iter::Product<&'a R> for R {
    fn product<I: Iterator<Item = &'a R>>(it: I) -> R {
        it.fold(R::one(), |a, b| a * b)
    }
}
impl Ratio<BigInt> {
    pub fn reduced(&self) -> R {
        self.clone()
    }
}
