use num_traits::*;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::str::FromStr;
use symcore::Val;
type RealInt = num_bigint::BigInt;
type RealRat = num_rational::BigRational;

#[derive(Clone)]
pub struct BigInt(pub(crate) Val);

#[derive(PartialEq, PartialOrd, Eq, Ord, Copy, Clone, Debug, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError(String);
impl fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ParseBigIntError {}

pub type TryFromBigIntError = ParseBigIntError;

pub(crate) fn c(i: RealInt) -> Val {
    Val::C(RealRat::from(i))
}
impl BigInt {
    pub fn new(sign: Sign, digits: Vec<u32>) -> BigInt {
        let s = match sign {
            Sign::Minus => num_bigint::Sign::Minus,
            Sign::NoSign => num_bigint::Sign::NoSign,
            Sign::Plus => num_bigint::Sign::Plus,
        };
        BigInt(c(RealInt::new(s, digits)))
    }
    pub fn sign(&self) -> Sign {
        if self.0.is_zero() {
            Sign::NoSign
        } else if self.0.is_neg() {
            Sign::Minus
        } else {
            Sign::Plus
        }
    }
    pub fn pow(&self, e: u32) -> BigInt {
        BigInt(self.0.powi(e as i64))
    }
    fn real(&self) -> RealInt {
        self.0.concretize().to_integer()
    }
    pub fn bits(&self) -> u64 {
        self.real().bits()
    }
    pub fn to_str_radix(&self, r: u32) -> String {
        self.real().to_str_radix(r)
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<BigInt> {
        RealInt::parse_bytes(b, radix).map(|x| BigInt(c(x)))
    }
    pub fn is_negative(&self) -> bool {
        self.0.is_neg()
    }
}
pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
impl ToBigInt for BigInt {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(self.clone())
    }
}

/// Reserved numerals `7777NNNN` followed by zeros stand for the NNNN-th symbolic amount.
fn reserved(s: &str) -> Option<Val> {
    let (neg, d) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    if !d.starts_with("7777") || d.len() < 8 || !symcore::engine::active() {
        return None;
    }
    let idx: usize = d[4..8].parse().ok()?;
    if !d[8..].chars().all(|x| x == '0') {
        return None;
    }
    let v = symcore::engine::with(|e| e.amounts.get(idx).map(|x| x.0.clone()))?;
    let v = v.mul(&Val::int(10).powi((d.len() - 8) as i64));
    Some(if neg { v.neg() } else { v })
}

/// Numbers with symbolic digits.
fn with_digits(s: &str) -> Option<Val> {
    use symcore::engine::{self, DIGIT0, DIGITS};
    let digit = |x: char| (x as u32) >= DIGIT0 && (x as u32) < DIGIT0 + DIGITS;
    if !s.contains(digit) || !engine::active() {
        return None;
    }
    let (neg, d) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let mut v = Val::zero();
    for x in d.chars() {
        let k = if digit(x) {
            engine::with(|e| e.digits.get((x as u32 - DIGIT0) as usize).cloned())?
        } else {
            Val::int(x.to_digit(10)? as i64)
        };
        v = v.mul(&Val::int(10)).add(&k);
    }
    Some(if neg { v.neg() } else { v })
}

impl FromStr for BigInt {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<BigInt, ParseBigIntError> {
        if let Some(v) = reserved(s) {
            return Ok(BigInt(v));
        }
        if let Some(v) = with_digits(s) {
            return Ok(BigInt(v));
        }
        RealInt::from_str(s).map(|x| BigInt(c(x))).map_err(|e| ParseBigIntError(e.to_string()))
    }
}

impl fmt::Display for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let t = if f.width().is_some() { self.0.padded_text() } else { self.0.text() };
        match t.strip_prefix('-') {
            Some(d) => f.pad_integral(false, "", d),
            None => f.pad_integral(true, "", &t),
        }
    }
}
impl fmt::Debug for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "BigInt({})", self.0.show())
    }
}
impl PartialEq for BigInt {
    fn eq(&self, o: &BigInt) -> bool {
        self.0.eq(&o.0)
    }
}
impl Eq for BigInt {}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &BigInt) -> Option<Ordering> {
        Some(self.0.cmp(&o.0))
    }
    fn lt(&self, o: &BigInt) -> bool {
        self.0.lt(&o.0)
    }
    fn le(&self, o: &BigInt) -> bool {
        self.0.le(&o.0)
    }
    fn gt(&self, o: &BigInt) -> bool {
        o.0.lt(&self.0)
    }
    fn ge(&self, o: &BigInt) -> bool {
        o.0.le(&self.0)
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &BigInt) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Hash for BigInt {
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
impl Default for BigInt {
    fn default() -> BigInt {
        BigInt(Val::zero())
    }
}

fn idiv(a: &Val, b: &Val) -> Val {
    if b.is_zero() {
        panic!("attempt to divide by zero");
    }
    a.div(b).trunc()
}
fn irem(a: &Val, b: &Val) -> Val {
    a.sub(&b.mul(&idiv(a, b)))
}

macro_rules! ops {
    ($Tr:ident $m:ident $TrA:ident $ma:ident $f:expr) => {
        impl $Tr<BigInt> for BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { BigInt($f(&self.0, &o.0)) } }
        impl<'a> $Tr<&'a BigInt> for BigInt { type Output = BigInt; fn $m(self, o: &'a BigInt) -> BigInt { BigInt($f(&self.0, &o.0)) } }
        impl<'a> $Tr<BigInt> for &'a BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { BigInt($f(&self.0, &o.0)) } }
        impl<'a, 'b> $Tr<&'b BigInt> for &'a BigInt { type Output = BigInt; fn $m(self, o: &'b BigInt) -> BigInt { BigInt($f(&self.0, &o.0)) } }
        impl $TrA<BigInt> for BigInt { fn $ma(&mut self, o: BigInt) { self.0 = $f(&self.0, &o.0) } }
        impl<'a> $TrA<&'a BigInt> for BigInt { fn $ma(&mut self, o: &'a BigInt) { self.0 = $f(&self.0, &o.0) } }
        ops!(@p $Tr $m $TrA $ma $f, i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
    };
    (@p $Tr:ident $m:ident $TrA:ident $ma:ident $f:expr, $($p:ty)*) => { $(
        impl $Tr<$p> for BigInt { type Output = BigInt; fn $m(self, o: $p) -> BigInt { BigInt($f(&self.0, &BigInt::from(o).0)) } }
        impl<'a> $Tr<$p> for &'a BigInt { type Output = BigInt; fn $m(self, o: $p) -> BigInt { BigInt($f(&self.0, &BigInt::from(o).0)) } }
        impl $Tr<BigInt> for $p { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { BigInt($f(&BigInt::from(self).0, &o.0)) } }
        impl<'a> $Tr<&'a BigInt> for $p { type Output = BigInt; fn $m(self, o: &'a BigInt) -> BigInt { BigInt($f(&BigInt::from(self).0, &o.0)) } }
        impl $TrA<$p> for BigInt { fn $ma(&mut self, o: $p) { self.0 = $f(&self.0, &BigInt::from(o).0) } }
    )* };
}
ops!(Add add AddAssign add_assign Val::add);
ops!(Sub sub SubAssign sub_assign Val::sub);
ops!(Mul mul MulAssign mul_assign Val::mul);
ops!(Div div DivAssign div_assign idiv);
ops!(Rem rem RemAssign rem_assign irem);

impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(self.0.neg())
    }
}
impl<'a> Neg for &'a BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(self.0.neg())
    }
}
macro_rules! from {
    ($($p:ty)*) => { $( impl From<$p> for BigInt { fn from(x: $p) -> BigInt { BigInt(c(RealInt::from(x))) } } )* };
}
from!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
macro_rules! tryfrom {
    ($($p:ident $m:ident),*) => { $(
        impl std::convert::TryFrom<BigInt> for $p {
            type Error = ParseBigIntError;
            fn try_from(x: BigInt) -> Result<$p, ParseBigIntError> { x.$m().ok_or(ParseBigIntError("out of range conversion regarding big integer attempted".into())) }
        }
        impl<'a> std::convert::TryFrom<&'a BigInt> for $p {
            type Error = ParseBigIntError;
            fn try_from(x: &'a BigInt) -> Result<$p, ParseBigIntError> { x.$m().ok_or(ParseBigIntError("out of range conversion regarding big integer attempted".into())) }
        }
    )* };
}
tryfrom!(i8 to_i8, i16 to_i16, i32 to_i32, i64 to_i64, i128 to_i128, isize to_isize, u8 to_u8, u16 to_u16, u32 to_u32, u64 to_u64, u128 to_u128, usize to_usize);

impl Zero for BigInt {
    fn zero() -> BigInt {
        BigInt(Val::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl One for BigInt {
    fn one() -> BigInt {
        BigInt(Val::int(1))
    }
    fn is_one(&self) -> bool {
        self.0.eq(&Val::int(1))
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<BigInt, ParseBigIntError> {
        if r == 10 {
            return BigInt::from_str(s);
        }
        RealInt::from_str_radix(s, r).map(|x| BigInt(c(x))).map_err(|e| ParseBigIntError(e.to_string()))
    }
}
impl Signed for BigInt {
    fn abs(&self) -> BigInt {
        BigInt(self.0.abs())
    }
    fn abs_sub(&self, o: &BigInt) -> BigInt {
        if self <= o {
            BigInt::zero()
        } else {
            self - o
        }
    }
    fn signum(&self) -> BigInt {
        match self.sign() {
            Sign::Minus => BigInt::from(-1),
            Sign::NoSign => BigInt::from(0),
            Sign::Plus => BigInt::from(1),
        }
    }
    fn is_positive(&self) -> bool {
        self.0.is_pos()
    }
    fn is_negative(&self) -> bool {
        self.0.is_neg()
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        self.real().to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.real().to_u64()
    }
    fn to_i128(&self) -> Option<i128> {
        self.real().to_i128()
    }
    fn to_u128(&self) -> Option<u128> {
        self.real().to_u128()
    }
    fn to_f64(&self) -> Option<f64> {
        self.real().to_f64()
    }
}
impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_u64(n: u64) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_f64(n: f64) -> Option<BigInt> {
        RealInt::from_f64(n).map(|x| BigInt(c(x)))
    }
}
impl CheckedAdd for BigInt {
    fn checked_add(&self, o: &BigInt) -> Option<BigInt> {
        Some(self + o)
    }
}
impl CheckedSub for BigInt {
    fn checked_sub(&self, o: &BigInt) -> Option<BigInt> {
        Some(self - o)
    }
}
impl CheckedMul for BigInt {
    fn checked_mul(&self, o: &BigInt) -> Option<BigInt> {
        Some(self * o)
    }
}
impl CheckedDiv for BigInt {
    fn checked_div(&self, o: &BigInt) -> Option<BigInt> {
        if o.is_zero() {
            None
        } else {
            Some(self / o)
        }
    }
}
macro_rules! pows {
    ($($p:ty)*) => { $(
        impl Pow<$p> for BigInt { type Output = BigInt; fn pow(self, e: $p) -> BigInt { BigInt(self.0.powi(e as i64)) } }
        impl<'a> Pow<$p> for &'a BigInt { type Output = BigInt; fn pow(self, e: $p) -> BigInt { BigInt(self.0.powi(e as i64)) } }
    )* };
}
pows!(u8 u16 u32 u64 usize);
impl num_integer::Integer for BigInt {
    fn div_floor(&self, o: &BigInt) -> BigInt {
        let q = self / o;
        let r = self - &q * o;
        if !r.is_zero() && (r.is_negative() != o.is_negative()) {
            q - 1
        } else {
            q
        }
    }
    fn mod_floor(&self, o: &BigInt) -> BigInt {
        self - self.div_floor(o) * o
    }
    fn gcd(&self, o: &BigInt) -> BigInt {
        BigInt(c(num_integer::Integer::gcd(&self.real(), &o.real())))
    }
    fn lcm(&self, o: &BigInt) -> BigInt {
        BigInt(c(num_integer::Integer::lcm(&self.real(), &o.real())))
    }
    fn divides(&self, o: &BigInt) -> bool {
        self.is_multiple_of(o)
    }
    fn is_multiple_of(&self, o: &BigInt) -> bool {
        (self % o).is_zero()
    }
    fn is_even(&self) -> bool {
        Zero::is_zero(&(self % BigInt::from(2)))
    }
    fn is_odd(&self) -> bool {
        !self.is_even()
    }
    fn div_rem(&self, o: &BigInt) -> (BigInt, BigInt) {
        let q = self / o;
        let r = self - &q * o;
        (q, r)
    }
}
impl std::iter::Sum<BigInt> for BigInt {
    fn sum<I: Iterator<Item = BigInt>>(it: I) -> BigInt {
        it.fold(BigInt::zero(), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a BigInt> for BigInt {
    fn sum<I: Iterator<Item = &'a BigInt>>(it: I) -> BigInt {
        it.fold(BigInt::zero(), |a, b| a + b)
    }
}
impl std::iter::Product<BigInt> for BigInt {
    fn product<I: Iterator<Item = BigInt>>(it: I) -> BigInt {
        it.fold(BigInt::one(), |a, b| a * b)
    }
}

fn sg(s: num_bigint::Sign) -> Sign {
    match s {
        num_bigint::Sign::Minus => Sign::Minus,
        num_bigint::Sign::NoSign => Sign::NoSign,
        num_bigint::Sign::Plus => Sign::Plus,
    }
}
fn gs(s: Sign) -> num_bigint::Sign {
    match s {
        Sign::Minus => num_bigint::Sign::Minus,
        Sign::NoSign => num_bigint::Sign::NoSign,
        Sign::Plus => num_bigint::Sign::Plus,
    }
}
impl Neg for Sign {
    type Output = Sign;
    fn neg(self) -> Sign {
        match self {
            Sign::Minus => Sign::Plus,
            Sign::NoSign => Sign::NoSign,
            Sign::Plus => Sign::Minus,
        }
    }
}
impl BigInt {
    fn lit(i: RealInt) -> BigInt {
        BigInt(c(i))
    }
    pub fn from_biguint(s: Sign, d: num_bigint::BigUint) -> BigInt {
        BigInt::lit(RealInt::from_biguint(gs(s), d))
    }
    pub fn from_slice(s: Sign, d: &[u32]) -> BigInt {
        BigInt::lit(RealInt::from_slice(gs(s), d))
    }
    pub fn from_bytes_be(s: Sign, d: &[u8]) -> BigInt {
        BigInt::lit(RealInt::from_bytes_be(gs(s), d))
    }
    pub fn from_bytes_le(s: Sign, d: &[u8]) -> BigInt {
        BigInt::lit(RealInt::from_bytes_le(gs(s), d))
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        let (a, b) = self.real().to_bytes_be();
        (sg(a), b)
    }
    pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) {
        let (a, b) = self.real().to_u32_digits();
        (sg(a), b)
    }
    pub fn to_radix_be(&self, r: u32) -> (Sign, Vec<u8>) {
        let (a, b) = self.real().to_radix_be(r);
        (sg(a), b)
    }
    pub fn to_biguint(&self) -> Option<num_bigint::BigUint> {
        self.real().to_biguint()
    }
    pub fn magnitude(&self) -> &num_bigint::BigUint {
        Box::leak(Box::new(self.real().magnitude().clone()))
    }
    pub fn into_parts(self) -> (Sign, num_bigint::BigUint) {
        let (a, b) = self.real().into_parts();
        (sg(a), b)
    }
    pub fn sqrt(&self) -> BigInt {
        BigInt::lit(self.real().sqrt())
    }
    pub fn cbrt(&self) -> BigInt {
        BigInt::lit(self.real().cbrt())
    }
    pub fn nth_root(&self, n: u32) -> BigInt {
        BigInt::lit(self.real().nth_root(n))
    }
    pub fn modpow(&self, e: &BigInt, m: &BigInt) -> BigInt {
        BigInt::lit(self.real().modpow(&e.real(), &m.real()))
    }
    pub fn trailing_zeros(&self) -> Option<u64> {
        self.real().trailing_zeros()
    }
    pub fn assign_from_slice(&mut self, s: Sign, d: &[u32]) {
        *self = BigInt::from_slice(s, d)
    }
    pub fn checked_add(&self, v: &BigInt) -> Option<BigInt> {
        Some(self + v)
    }
    pub fn checked_sub(&self, v: &BigInt) -> Option<BigInt> {
        Some(self - v)
    }
    pub fn checked_mul(&self, v: &BigInt) -> Option<BigInt> {
        Some(self * v)
    }
    pub fn checked_div(&self, v: &BigInt) -> Option<BigInt> {
        CheckedDiv::checked_div(self, v)
    }
}
impl From<num_bigint::BigUint> for BigInt {
    fn from(x: num_bigint::BigUint) -> BigInt {
        BigInt::lit(RealInt::from(x))
    }
}
macro_rules! tobig {
    ($($p:ty)*) => { $( impl ToBigInt for $p { fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::from(*self)) } } )* };
}
tobig!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
impl<'a> std::iter::Product<&'a BigInt> for BigInt {
    fn product<I: Iterator<Item = &'a BigInt>>(it: I) -> BigInt {
        it.fold(BigInt::from(1), |a, b| a * b)
    }
}
macro_rules! bits {
    ($($Tr:ident $m:ident $TrA:ident $ma:ident),*) => { $(
        impl $Tr<BigInt> for BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { BigInt::lit($Tr::$m(self.real(), o.real())) } }
        impl<'a> $Tr<&'a BigInt> for BigInt { type Output = BigInt; fn $m(self, o: &'a BigInt) -> BigInt { BigInt::lit($Tr::$m(self.real(), o.real())) } }
        impl<'a> $Tr<BigInt> for &'a BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { BigInt::lit($Tr::$m(self.real(), o.real())) } }
        impl<'a, 'b> $Tr<&'b BigInt> for &'a BigInt { type Output = BigInt; fn $m(self, o: &'b BigInt) -> BigInt { BigInt::lit($Tr::$m(self.real(), o.real())) } }
        impl $TrA<BigInt> for BigInt { fn $ma(&mut self, o: BigInt) { *self = BigInt::lit($Tr::$m(self.real(), o.real())) } }
    )* };
}
bits!(BitAnd bitand BitAndAssign bitand_assign, BitOr bitor BitOrAssign bitor_assign, BitXor bitxor BitXorAssign bitxor_assign);
macro_rules! shifts {
    ($($p:ty)*) => { $(
        impl Shl<$p> for BigInt { type Output = BigInt; fn shl(self, n: $p) -> BigInt { BigInt(self.0.mul(&Val::int(2).powi(n as i64))) } }
        impl<'a> Shl<$p> for &'a BigInt { type Output = BigInt; fn shl(self, n: $p) -> BigInt { BigInt(self.0.mul(&Val::int(2).powi(n as i64))) } }
        impl Shr<$p> for BigInt { type Output = BigInt; fn shr(self, n: $p) -> BigInt { BigInt(self.0.div(&Val::int(2).powi(n as i64)).floor()) } }
        impl<'a> Shr<$p> for &'a BigInt { type Output = BigInt; fn shr(self, n: $p) -> BigInt { BigInt(self.0.div(&Val::int(2).powi(n as i64)).floor()) } }
    )* };
}
shifts!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        -self - 1
    }
}
macro_rules! hex {
    ($($T:ident)*) => { $( impl fmt::$T for BigInt { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::$T::fmt(&self.real(), f) } } )* };
}
hex!(LowerHex UpperHex Binary Octal);
