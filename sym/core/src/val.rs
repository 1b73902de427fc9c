//! Symbolic exact numbers.
use crate::engine::{self, Sort, NEG, POS, ZERO};
use crate::poly::{Poly, RatFn};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use std::cmp::Ordering;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Val {
    C(BigRational),
    S(Arc<RatFn>),
}

impl Val {
    pub fn int(i: i64) -> Val {
        Val::C(BigRational::from(BigInt::from(i)))
    }
    pub fn rat(n: i64, d: i64) -> Val {
        Val::C(BigRational::new(BigInt::from(n), BigInt::from(d)))
    }
    pub fn zero() -> Val {
        Val::int(0)
    }
    pub fn poly(p: Poly) -> Val {
        match p.as_const() {
            Some(c) => Val::C(c),
            None => Val::S(Arc::new(RatFn::from_poly(p))),
        }
    }
    fn ratfn(r: RatFn) -> Val {
        if let (Some(a), Some(b)) = (r.num.as_const(), r.den.as_const()) {
            return Val::C(a / b);
        }
        Val::S(Arc::new(r))
    }
    fn mk(num: Poly, den: Poly) -> Val {
        let (num, den) = (engine::reduce(num), engine::reduce(den));
        let (r, cancelled) = RatFn::normal(num, den);
        if cancelled && r.den.as_const().is_none() {
            if !engine::with(|e| e.decide(&r.den, POS)) {
                return Val::ratfn(RatFn { num: r.num.neg(), den: r.den.neg() });
            }
        }
        Val::ratfn(r)
    }
    /// The same number in terms of the variables the path condition leaves free.
    pub fn reduced(&self) -> Val {
        match self {
            Val::C(_) => self.clone(),
            Val::S(r) => {
                if engine::active() && engine::with(|e| e.subst.is_empty()) {
                    return self.clone();
                }
                Val::mk(r.num.clone(), r.den.clone())
            }
        }
    }
    pub fn as_const(&self) -> Option<&BigRational> {
        match self {
            Val::C(c) => Some(c),
            _ => None,
        }
    }
    fn num(&self) -> Poly {
        match self {
            Val::C(c) => Poly::constant(c.clone()),
            Val::S(r) => r.num.clone(),
        }
    }
    fn den(&self) -> Poly {
        match self {
            Val::C(_) => Poly::one(),
            Val::S(r) => r.den.clone(),
        }
    }
    pub fn add(&self, o: &Val) -> Val {
        match (self, o) {
            (Val::C(a), Val::C(b)) => Val::C(a + b),
            (Val::C(a), _) if a.is_zero() => o.clone(),
            (_, Val::C(b)) if b.is_zero() => self.clone(),
            _ => {
                let (d1, d2) = (self.den(), o.den());
                if d1 == d2 {
                    Val::mk(self.num().add(&o.num()), d1)
                } else {
                    Val::mk(self.num().mul(&d2).add(&o.num().mul(&d1)), d1.mul(&d2))
                }
            }
        }
    }
    pub fn neg(&self) -> Val {
        match self {
            Val::C(a) => Val::C(-a),
            Val::S(r) => Val::S(Arc::new(RatFn { num: r.num.neg(), den: r.den.clone() })),
        }
    }
    pub fn sub(&self, o: &Val) -> Val {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Val) -> Val {
        match (self, o) {
            (Val::C(a), Val::C(b)) => Val::C(a * b),
            _ => Val::mk(self.num().mul(&o.num()), self.den().mul(&o.den())),
        }
    }
    /// Panics like the real rationals when the divisor is zero.
    pub fn div(&self, o: &Val) -> Val {
        match (self, o) {
            (_, Val::C(b)) => {
                if b.is_zero() {
                    panic!("denominator == 0");
                }
                match self {
                    Val::C(a) => Val::C(a / b),
                    Val::S(r) => Val::mk(r.num.scale(&b.recip()), r.den.clone()),
                }
            }
            (_, Val::S(_)) => {
                if o.is_zero() {
                    panic!("denominator == 0");
                }
                let r = match o.reduced() {
                    Val::C(c) => return self.div(&Val::C(c)),
                    Val::S(r) => r,
                };
                let positive = engine::with(|e| e.decide(&r.num, POS));
                let (n, d) = if positive { (r.den.clone(), r.num.clone()) } else { (r.den.neg(), r.num.neg()) };
                Val::mk(self.num().mul(&n), self.den().mul(&d))
            }
        }
    }
    /// Forking sign test.
    pub fn sign_in(&self, mask: u8) -> bool {
        match self {
            Val::C(c) => engine::sign_mask(c) & mask != 0,
            Val::S(_) => match self.reduced() {
                Val::C(c) => engine::sign_mask(&c) & mask != 0,
                Val::S(r) => engine::with(|e| e.decide(&r.num, mask)),
            },
        }
    }
    pub fn is_zero(&self) -> bool {
        self.sign_in(ZERO)
    }
    pub fn is_neg(&self) -> bool {
        self.sign_in(NEG)
    }
    pub fn is_pos(&self) -> bool {
        self.sign_in(POS)
    }
    pub fn eq(&self, o: &Val) -> bool {
        self.sub_num(o).map_or_else(|c| c.is_zero(), |p| engine::with(|e| e.decide(&p, ZERO)))
    }
    pub fn lt(&self, o: &Val) -> bool {
        self.sub_num(o).map_or_else(|c| c.is_negative(), |p| engine::with(|e| e.decide(&p, NEG)))
    }
    pub fn le(&self, o: &Val) -> bool {
        self.sub_num(o).map_or_else(|c| !c.is_positive(), |p| engine::with(|e| e.decide(&p, NEG | ZERO)))
    }
    /// numerator of self-o (denominators are positive), or the constant difference
    fn sub_num(&self, o: &Val) -> Result<Poly, BigRational> {
        if let (Val::C(a), Val::C(b)) = (self, o) {
            return Err(a - b);
        }
        let p = engine::reduce(self.num().mul(&o.den()).sub(&o.num().mul(&self.den())));
        match p.as_const() {
            Some(c) => Err(c),
            None => Ok(p),
        }
    }
    pub fn diff_poly(&self, o: &Val) -> Poly {
        match self.sub_num(o) {
            Ok(p) => p,
            Err(c) => Poly::constant(c),
        }
    }
    pub fn cmp(&self, o: &Val) -> Ordering {
        if self.lt(o) {
            Ordering::Less
        } else if self.eq(o) {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    }
    pub fn abs(&self) -> Val {
        if self.is_neg() {
            self.neg()
        } else {
            self.clone()
        }
    }
    /// integer-valued by construction
    pub fn is_int(&self) -> bool {
        match &self.reduced() {
            Val::C(c) => c.is_integer(),
            Val::S(r) => {
                r.den == Poly::one()
                    && r.num.terms.values().all(|c| c.is_integer())
                    && engine::with(|e| r.num.vars().iter().all(|v| e.vars[*v as usize].sort == Sort::Int))
            }
        }
    }
    pub fn trunc(&self) -> Val {
        let this = self.reduced();
        this.trunc_reduced()
    }
    fn trunc_reduced(&self) -> Val {
        match self {
            Val::C(c) => Val::C(c.trunc()),
            Val::S(r) => {
                if self.is_int() {
                    return self.clone();
                }
                // integer polynomial plus constant fraction
                let c0 = r.num.constant_term();
                let rest = Val::poly(r.num.sub(&Poly::constant(c0.clone())));
                if r.den == Poly::one() && rest.is_int() {
                    let up = self.is_neg();
                    return rest.add(&Val::C(if up { c0.ceil() } else { c0.floor() }));
                }
                let negative = self.is_neg();
                // integer polynomial plus something the path condition confines to a unit interval
                if r.den == Poly::one() {
                    let (whole, rest) = engine::with(|e| e.split_int(&r.num));
                    if !whole.is_zero() && rest.as_const().is_none() {
                        let one = Poly::one();
                        let inside = engine::with(|e| {
                            if negative {
                                e.entails(&[(rest.clone(), NEG | ZERO), (rest.add(&one), POS)])
                            } else {
                                e.entails(&[(rest.clone(), POS | ZERO), (rest.sub(&one), NEG)])
                            }
                        });
                        if inside {
                            return Val::poly(whole);
                        }
                    }
                }
                let k = engine::with(|e| e.fresh(Sort::Int));
                let one = Val::int(1);
                if negative {
                    // k-1 < t <= k
                    k.assume_le_raw(&self.add(&one), true);
                    self.assume_le_raw(&k, false);
                } else {
                    // k <= t < k+1
                    k.assume_le_raw(self, false);
                    self.assume_le_raw(&k.add(&one), true);
                }
                k
            }
        }
    }
    /// Adds self<=o (or < if strict) without checking feasibility: only for defining fresh variables.
    fn assume_le_raw(&self, o: &Val, strict: bool) {
        if let Ok(p) = self.sub_num(o) {
            engine::with(|e| e.learn(&p, if strict { NEG } else { NEG | ZERO }));
        }
    }
    pub fn floor(&self) -> Val {
        let t = self.trunc();
        if self.is_neg() && !t.eq(self) {
            t.sub(&Val::int(1))
        } else {
            t
        }
    }
    pub fn ceil(&self) -> Val {
        self.neg().floor().neg()
    }
    pub fn round(&self) -> Val {
        let h = Val::rat(1, 2);
        if self.is_neg() {
            self.sub(&h).trunc()
        } else {
            self.add(&h).trunc()
        }
    }
    pub fn fract(&self) -> Val {
        self.sub(&self.trunc())
    }
    pub fn powi(&self, n: i64) -> Val {
        let mut r = Val::int(1);
        for _ in 0..n.abs() {
            r = r.mul(self);
        }
        if n < 0 {
            Val::int(1).div(&r)
        } else {
            r
        }
    }
    /// A concrete value, splitting the path when the value is confined to a small range.
    /// Otherwise the path goes on with a few values chosen by the solver.
    pub fn concretize(&self) -> BigRational {
        let this = self.reduced();
        match &this {
            Val::C(c) => c.clone(),
            Val::S(r) => {
                if this.is_int() {
                    let lim = engine::with(|e| e.text_limit.max(200));
                    if let Some(v) = engine::with(|e| e.concretize(&r.num, lim)) {
                        return BigRational::from(v);
                    }
                }
                engine::with(|e| e.narrow(&r.num, &r.den))
            }
        }
    }
    /// Digits for an integer that is formatted to a width: the program may go on to take the
    /// text apart.  Numbers that are not confined to a small range stay tokens.
    pub fn padded_text(&self) -> String {
        let this = self.reduced();
        match &this {
            Val::S(r) if this.is_int() => {
                let lim = engine::with(|e| e.text_limit);
                if lim > 0 {
                    return this.text();
                }
                if engine::with(|e| e.confined(&r.num, 10_000_000)) {
                    return engine::with(|e| e.narrow(&r.num, &r.den)).to_string();
                }
                this.text()
            }
            _ => this.text(),
        }
    }
    pub fn token(&self) -> String {
        engine::with(|e| {
            e.tokens.push(self.clone());
            format!("\u{27e6}{}\u{27e7}", e.tokens.len() - 1)
        })
    }
    /// Text for the program's output: digits, or a token standing for the symbolic number.
    pub fn text(&self) -> String {
        match &self.reduced() {
            Val::C(c) => {
                if c.denom().is_one() {
                    c.numer().to_string()
                } else {
                    format!("{}/{}", c.numer(), c.denom())
                }
            }
            Val::S(r) => {
                let lim = engine::with(|e| e.text_limit);
                if lim > 0 && self.is_int() {
                    if let Some(v) = engine::with(|e| e.concretize(&r.num, lim)) {
                        return v.to_string();
                    }
                }
                self.token()
            }
        }
    }
    pub fn show(&self) -> String {
        match self {
            Val::C(c) => c.to_string(),
            Val::S(r) => engine::with(|e| {
                let sp = |p: &Poly| {
                    p.terms
                        .iter()
                        .map(|(m, c)| {
                            let mut s = c.to_string();
                            for (v, k) in m {
                                s.push('*');
                                s.push_str(&e.vars[*v as usize].name);
                                if *k > 1 {
                                    s.push_str(&format!("^{}", k));
                                }
                            }
                            s
                        })
                        .collect::<Vec<_>>()
                        .join(" + ")
                };
                if r.den == Poly::one() {
                    sp(&r.num)
                } else {
                    format!("({})/({})", sp(&r.num), sp(&r.den))
                }
            }),
        }
    }
}
