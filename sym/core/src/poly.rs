//! Polynomials over solver variables with exact rational coefficients, and
//! quotients of them.  This is the term language of the symbolic executor: every
//! symbolic number of the program under test is one of these quotients.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use std::collections::BTreeMap;

pub type VarId = u32;
/// sorted (variable, exponent>0)
pub type Mono = Vec<(VarId, u32)>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Poly {
    pub terms: BTreeMap<Mono, BigRational>,
}

impl Poly {
    pub fn zero() -> Poly {
        Poly { terms: BTreeMap::new() }
    }
    pub fn constant(c: BigRational) -> Poly {
        let mut terms = BTreeMap::new();
        if !c.is_zero() {
            terms.insert(vec![], c);
        }
        Poly { terms }
    }
    pub fn one() -> Poly {
        Poly::constant(BigRational::one())
    }
    pub fn var(v: VarId) -> Poly {
        let mut terms = BTreeMap::new();
        terms.insert(vec![(v, 1)], BigRational::one());
        Poly { terms }
    }
    pub fn as_const(&self) -> Option<BigRational> {
        if self.terms.is_empty() {
            return Some(BigRational::zero());
        }
        if self.terms.len() == 1 {
            let (m, c) = self.terms.iter().next().unwrap();
            if m.is_empty() {
                return Some(c.clone());
            }
        }
        None
    }
    pub fn is_zero(&self) -> bool {
        self.terms.is_empty()
    }
    pub fn is_linear(&self) -> bool {
        self.terms.keys().all(|m| m.is_empty() || (m.len() == 1 && m[0].1 == 1))
    }
    pub fn constant_term(&self) -> BigRational {
        self.terms.get(&Vec::new() as &Mono).cloned().unwrap_or_else(BigRational::zero)
    }
    pub fn vars(&self) -> Vec<VarId> {
        let mut v: Vec<VarId> = self.terms.keys().flat_map(|m| m.iter().map(|x| x.0)).collect();
        v.sort();
        v.dedup();
        v
    }
    fn add_term(&mut self, m: Mono, c: BigRational) {
        if c.is_zero() {
            return;
        }
        let remove = {
            let e = self.terms.entry(m.clone()).or_insert_with(BigRational::zero);
            *e += c;
            e.is_zero()
        };
        if remove {
            self.terms.remove(&m);
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        for (m, c) in &o.terms {
            r.add_term(m.clone(), c.clone());
        }
        r
    }
    pub fn neg(&self) -> Poly {
        self.scale(&-BigRational::one())
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn scale(&self, k: &BigRational) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly { terms: self.terms.iter().map(|(m, c)| (m.clone(), c * k)).collect() }
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (m1, c1) in &self.terms {
            for (m2, c2) in &o.terms {
                r.add_term(mono_mul(m1, m2), c1 * c2);
            }
        }
        r
    }
    /// greatest common monomial factor
    fn mono_gcd(&self) -> Mono {
        let mut it = self.terms.keys();
        let mut g = match it.next() {
            None => return vec![],
            Some(m) => m.clone(),
        };
        for m in it {
            g = g
                .into_iter()
                .filter_map(|(v, e)| m.iter().find(|x| x.0 == v).map(|x| (v, e.min(x.1))))
                .collect();
        }
        g
    }
    fn div_mono(&self, d: &Mono) -> Poly {
        Poly {
            terms: self
                .terms
                .iter()
                .map(|(m, c)| {
                    (
                        m.iter()
                            .filter_map(|(v, e)| {
                                let k = d.iter().find(|x| x.0 == *v).map(|x| x.1).unwrap_or(0);
                                if *e > k {
                                    Some((*v, e - k))
                                } else {
                                    None
                                }
                            })
                            .collect(),
                        c.clone(),
                    )
                })
                .collect(),
        }
    }
    /// Scale so that the coefficients are coprime integers; the scale factor is positive.
    pub fn primitive(&self) -> Poly {
        if self.terms.is_empty() {
            return self.clone();
        }
        let mut l = BigInt::one();
        for c in self.terms.values() {
            l = l.lcm(c.denom());
        }
        let mut g = BigInt::zero();
        for c in self.terms.values() {
            let n = (c * BigRational::from(l.clone())).to_integer();
            g = g.gcd(&n);
        }
        self.scale(&BigRational::new(l, g.abs()))
    }
    pub fn lead_negative(&self) -> bool {
        self.terms.values().next_back().map(|c| c.is_negative()).unwrap_or(false)
    }
    /// Replaces variables by polynomials.
    pub fn subst(&self, f: &BTreeMap<VarId, Poly>) -> Poly {
        let mut r = Poly::zero();
        for (m, c) in &self.terms {
            if !m.iter().any(|x| f.contains_key(&x.0)) {
                r.add_term(m.clone(), c.clone());
                continue;
            }
            let mut t = Poly::constant(c.clone());
            for (v, e) in m {
                let q = f.get(v).cloned().unwrap_or_else(|| Poly::var(*v));
                for _ in 0..*e {
                    t = t.mul(&q);
                }
            }
            r = r.add(&t);
        }
        r
    }
    pub fn eval(&self, f: &dyn Fn(VarId) -> BigRational) -> BigRational {
        let mut s = BigRational::zero();
        for (m, c) in &self.terms {
            let mut t = c.clone();
            for (v, e) in m {
                for _ in 0..*e {
                    t = t * f(*v);
                }
            }
            s += t;
        }
        s
    }
}

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut m: BTreeMap<VarId, u32> = a.iter().cloned().collect();
    for (v, e) in b {
        *m.entry(*v).or_insert(0) += e;
    }
    m.into_iter().collect()
}

/// num/den with den>0 on the current path (the executor forks on the divisor's sign).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RatFn {
    pub num: Poly,
    pub den: Poly,
}

impl RatFn {
    pub fn from_poly(p: Poly) -> RatFn {
        RatFn { num: p, den: Poly::one() }
    }
    /// Sign-safe normalisation: cancels positive constants, and a common polynomial or
    /// monomial factor.  The cancelled factors divide `den`, which is non-zero here; when
    /// the cancelled factor could be negative, the sign is fixed by the caller via `resign`.
    pub fn normal(num: Poly, den: Poly) -> (RatFn, bool) {
        if num.is_zero() {
            return (RatFn { num, den: Poly::one() }, false);
        }
        if let Some(c) = den.as_const() {
            return (RatFn { num: num.scale(&c.recip()), den: Poly::one() }, false);
        }
        let gm = {
            let a = num.mono_gcd();
            let b = den.mono_gcd();
            a.into_iter()
                .filter_map(|(v, e)| b.iter().find(|x| x.0 == v).map(|x| (v, e.min(x.1))))
                .collect::<Mono>()
        };
        let cancelled = !gm.is_empty();
        let (mut num, mut den) = if cancelled { (num.div_mono(&gm), den.div_mono(&gm)) } else { (num, den) };
        if let Some(c) = den.as_const() {
            return (RatFn { num: num.scale(&c.recip()), den: Poly::one() }, false);
        }
        // proportional?
        if num.terms.len() == den.terms.len() {
            let k = num.terms.values().next().unwrap() / den.terms.values().next().unwrap();
            if den.scale(&k) == num {
                return (RatFn::from_poly(Poly::constant(k)), false);
            }
        }
        // make den primitive
        let p = den.primitive();
        let factor = p.terms.values().next().unwrap() / den.terms.values().next().unwrap();
        num = num.scale(&factor);
        den = p;
        (RatFn { num, den }, cancelled)
    }
}
