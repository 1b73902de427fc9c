//! Path exploration by re-execution.
//!
//! The code under test runs natively; whenever it compares a symbolic number, the
//! engine asks the solver which outcomes are possible under the path condition,
//! takes one and queues the others.  Every path is one run of the real code and
//! stands for all inputs that satisfy its path condition.
use crate::poly::{Poly, VarId};
use crate::solver::*;
use crate::val::Val;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

/// First of the numeric characters (cuneiform numerals) that stand for symbolic digits.
pub const DIGIT0: u32 = 0x12400;
pub const DIGITS: u32 = 100;
pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sort {
    Int,
    Real,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub sort: Sort,
    pub input: bool,
    /// decimals available to write the value down in a journal
    pub decimals: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HashOrder {
    /// maps iterate in insertion order
    Insertion,
    /// maps iterate in insertion order, except that up to n iterations of a run take any order
    Any(usize),
}

/// Unwinding payloads that are the engine's, not the program's.
pub enum Stop {
    Infeasible,
    Unsupported(String),
    Violated(Violation),
    Inconclusive(String),
}

#[derive(Clone, Debug, Default)]
pub struct Violation {
    pub unit: String,
    pub label: String,
    pub msg: String,
    pub values: BTreeMap<String, BigRational>,
    pub choices: BTreeMap<String, u32>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub decisions: u64,
    pub forks: u64,
    pub obligations: u64,
    pub discharged: u64,
    pub runs: u64,
    pub concretized: u64,
    pub hash_choices: u64,
    pub unknown_branches: u64,
    pub narrowed: u64,
    pub covers: BTreeMap<String, u64>,
}

pub struct Engine {
    pub concrete: Option<(BTreeMap<String, BigRational>, BTreeMap<String, u32>)>,
    pub unit: String,
    pub solver: Option<Solver>,
    pub prefix: Vec<u32>,
    pub trail: Vec<u32>,
    pub alts: Vec<Vec<u32>>,
    pub vars: Vec<VarInfo>,
    pub vals: HashMap<String, Val>,
    pub masks: HashMap<Poly, u8>,
    /// variables the path condition defines in terms of others
    pub subst: BTreeMap<VarId, Poly>,
    pub tokens: Vec<Val>,
    pub amounts: Vec<(Val, u32)>,
    pub dates: Vec<Val>,
    /// symbolic decimal digits, written as numeric characters from DIGIT0 on
    pub digits: Vec<Val>,
    pub interned: Vec<Val>,
    /// integers the path condition confines to this range are printed as digits
    pub text_limit: i64,
    pub choices: BTreeMap<String, u32>,
    pub stats: Stats,
    pub hash_order: HashOrder,
    pub hash_used: usize,
    pub fresh: u32,
    pub depth: u32,
    pub script: String,
    pub violated: bool,
    pub refuted: Option<String>,
    /// when to give up on this path
    pub deadline: Option<std::time::Instant>,
    /// when it last came by here, for the watchdog
    pub pulse: Option<std::sync::Arc<std::sync::atomic::AtomicU64>>,
}

pub fn now_s() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs())
}

/// Values chosen by `narrow`, referred to by index in the trails.
static NARROWED: std::sync::Mutex<Vec<BigRational>> = std::sync::Mutex::new(Vec::new());

thread_local! {
    static ENG: RefCell<Option<Engine>> = RefCell::new(None);
}

pub fn install(e: Engine) {
    ENG.with(|c| *c.borrow_mut() = Some(e));
}
pub fn uninstall() -> Option<Engine> {
    ENG.with(|c| c.borrow_mut().take())
}
pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENG.with(|c| f(c.borrow_mut().as_mut().expect("no engine on this thread")))
}
/// The polynomial with everything the path condition defines replaced.
pub fn reduce(p: Poly) -> Poly {
    ENG.with(|c| match c.try_borrow() {
        Ok(b) => match b.as_ref() {
            Some(e) if !e.subst.is_empty() => p.subst(&e.subst),
            _ => p,
        },
        Err(_) => p,
    })
}
pub fn active() -> bool {
    ENG.with(|c| c.borrow().is_some())
}
pub fn stop(s: Stop) -> ! {
    std::panic::panic_any(s)
}

impl Engine {
    pub fn symbolic(unit: &str, solver: Solver, prefix: Vec<u32>, hash_order: HashOrder) -> Engine {
        let mut e = Engine::blank(unit);
        e.solver = Some(solver);
        e.prefix = prefix;
        e.hash_order = hash_order;
        e.emit("(push)\n");
        e
    }
    pub fn concrete(unit: &str, values: BTreeMap<String, BigRational>, choices: BTreeMap<String, u32>) -> Engine {
        let mut e = Engine::blank(unit);
        e.concrete = Some((values, choices));
        e
    }
    fn blank(unit: &str) -> Engine {
        Engine {
            concrete: None,
            unit: unit.to_string(),
            solver: None,
            prefix: vec![],
            trail: vec![],
            alts: vec![],
            vars: vec![],
            vals: HashMap::new(),
            masks: HashMap::new(),
            subst: BTreeMap::new(),
            tokens: vec![],
            amounts: vec![],
            dates: vec![],
            digits: vec![],
            interned: vec![],
            text_limit: 0,
            choices: BTreeMap::new(),
            stats: Stats::default(),
            hash_order: HashOrder::Insertion,
            hash_used: 0,
            fresh: 0,
            depth: 0,
            script: String::new(),
            violated: false,
            refuted: None,
            deadline: None,
            pulse: None,
        }
    }
    pub fn finish(mut self) -> (Option<Solver>, Engine) {
        let s = self.solver.take().map(|mut s| {
            s.send("(pop)\n");
            s
        });
        (s, self)
    }
    fn emit(&mut self, t: &str) {
        if let Some(s) = &mut self.solver {
            s.send(t);
            if t != "(push)\n" {
                self.script.push_str(t);
            }
        }
    }
    fn declare(&mut self, name: &str, sort: Sort, input: bool, decimals: u32) -> VarId {
        let id = self.vars.len() as VarId;
        self.vars.push(VarInfo { name: name.to_string(), sort, input, decimals });
        let t = format!("(declare-const v{} {})\n", id, if sort == Sort::Int { "Int" } else { "Real" });
        self.emit(&t);
        id
    }
    /// An input variable of the journal or command line.
    pub fn input(&mut self, name: &str, sort: Sort, decimals: u32) -> Val {
        if let Some(v) = self.vals.get(name) {
            return v.clone();
        }
        let v = match &self.concrete {
            Some((vals, _)) => Val::C(vals.get(name).cloned().unwrap_or_else(BigRational::zero)),
            None => Val::poly(Poly::var(self.declare(name, sort, true, decimals))),
        };
        self.vals.insert(name.to_string(), v.clone());
        v
    }
    pub fn fresh(&mut self, sort: Sort) -> Val {
        self.fresh += 1;
        let n = format!("!k{}", self.fresh);
        Val::poly(Poly::var(self.declare(&n, sort, false, 0)))
    }

    fn smt_poly(&self, p: &Poly) -> (String, bool) {
        let all_int = p.vars().iter().all(|v| self.vars[*v as usize].sort == Sort::Int);
        let num = |c: &BigInt| -> String {
            let a = c.abs().to_string();
            let a = if all_int { a } else { format!("{}.0", a) };
            if c.is_negative() {
                format!("(- {})", a)
            } else {
                a
            }
        };
        let mut parts = vec![];
        for (m, c) in &p.terms {
            assert!(c.is_integer());
            let mut fs = vec![];
            let c = c.to_integer();
            if m.is_empty() || !c.is_one() {
                fs.push(num(&c));
            }
            for (v, e) in m {
                for _ in 0..*e {
                    if all_int || self.vars[*v as usize].sort == Sort::Real {
                        fs.push(format!("v{}", v));
                    } else {
                        fs.push(format!("(to_real v{})", v));
                    }
                }
            }
            parts.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
        }
        let s = match parts.len() {
            0 => (if all_int { "0" } else { "0.0" }).to_string(),
            1 => parts.pop().unwrap(),
            _ => format!("(+ {})", parts.join(" ")),
        };
        (s, all_int)
    }
    fn smt_atom(&self, p: &Poly, mask: u8) -> String {
        let (s, int) = self.smt_poly(p);
        let z = if int { "0" } else { "0.0" };
        match mask {
            NEG => format!("(< {} {})", s, z),
            ZERO => format!("(= {} {})", s, z),
            POS => format!("(> {} {})", s, z),
            3 => format!("(<= {} {})", s, z),
            5 => format!("(not (= {} {}))", s, z),
            6 => format!("(>= {} {})", s, z),
            7 => "true".into(),
            _ => "false".into(),
        }
    }
    /// canonical polynomial and whether the mask has to be flipped
    fn canon(p: &Poly, mask: u8) -> (Poly, u8) {
        let q = p.primitive();
        if q.lead_negative() {
            (q.neg(), flip(mask))
        } else {
            (q, mask)
        }
    }
    pub fn learn(&mut self, p: &Poly, mask: u8) {
        let (q, m) = Engine::canon(p, mask);
        let a = self.smt_atom(&q, m);
        self.emit(&format!("(assert {})\n", a));
        self.note(q, m);
    }
    /// Records what the path condition says about the sign of q.
    fn note(&mut self, q: Poly, m: u8) {
        let now = {
            let e = self.masks.entry(q.clone()).or_insert(7);
            *e &= m;
            *e
        };
        if now == ZERO {
            self.define(q);
        }
    }
    /// q = 0 on this path: use it to eliminate a variable where that keeps integers integers.
    fn define(&mut self, q: Poly) {
        let q = q.subst(&self.subst).primitive();
        if q.as_const().is_some() {
            return;
        }
        let all_int = q.vars().iter().all(|v| self.vars[*v as usize].sort == Sort::Int);
        let mut best: Option<VarId> = None;
        for (m, c) in &q.terms {
            if m.len() != 1 || m[0].1 != 1 {
                continue;
            }
            let v = m[0].0;
            if q.terms.keys().filter(|k| k.iter().any(|x| x.0 == v)).count() != 1 {
                continue;
            }
            let info = &self.vars[v as usize];
            let ok = match info.sort {
                Sort::Int => all_int && c.abs().is_one(),
                Sort::Real => true,
            };
            if ok {
                best = Some(v);
            }
        }
        if let Some(v) = best {
            let key = vec![(v, 1)];
            let c = q.terms[&key].clone();
            let mut rest = q.clone();
            rest.terms.remove(&key);
            let r = rest.scale(&-c.recip());
            let mut one = BTreeMap::new();
            one.insert(v, r.clone());
            for p in self.subst.values_mut() {
                *p = p.subst(&one);
            }
            self.subst.insert(v, r);
        }
    }
    pub fn reduce(&self, p: &Poly) -> Poly {
        if self.subst.is_empty() {
            return p.clone();
        }
        p.subst(&self.subst)
    }
    /// What is already known about the sign of p (7 = nothing).
    fn known(&self, q: &Poly) -> u8 {
        if let Some(c) = q.as_const() {
            return sign_mask(&c);
        }
        *self.masks.get(q).unwrap_or(&7)
    }
    pub fn assume(&mut self, p: &Poly, mask: u8) {
        if let Some(c) = p.as_const() {
            if sign_mask(&c) & mask == 0 {
                stop(Stop::Infeasible)
            }
            return;
        }
        self.learn(p, mask);
        if self.trail.len() >= self.prefix.len() {
            let s = self.solver.as_mut().unwrap().check();
            if s == Sat::Unsat {
                stop(Stop::Infeasible)
            }
        }
    }
    /// Tells the watchdog that the path is not stuck, and gives up when it takes too long.
    fn alive(&mut self) {
        if let Some(p) = &self.pulse {
            p.store(now_s(), std::sync::atomic::Ordering::SeqCst);
        }
        if self.trail.len() > 200_000 || self.deadline.map_or(false, |d| std::time::Instant::now() > d) {
            stop(Stop::Inconclusive("a path took too long".into()));
        }
    }
    /// Is sign(p) in mask?  Forks when both answers are possible.
    pub fn decide(&mut self, p: &Poly, mask: u8) -> bool {
        let (q, m) = Engine::canon(p, mask);
        let k = self.known(&q);
        if k & m == k {
            return true;
        }
        if k & m == 0 {
            return false;
        }
        if self.concrete.is_some() {
            panic!("symbolic decision in concrete mode");
        }
        self.stats.decisions += 1;
        self.alive();
        let i = self.trail.len();
        if i < self.prefix.len() {
            let d = self.prefix[i];
            self.trail.push(d);
            let yes = d == 0 || d == 2;
            if d < 2 {
                self.learn(&q, if yes { m } else { 7 & !m });
            } else {
                self.note(q, if yes { m } else { 7 & !m });
            }
            return yes;
        }
        let (a, b) = (self.smt_atom(&q, m & k), self.smt_atom(&q, k & !m));
        let r = self.solver.as_mut().unwrap().check_each(&[a, b]);
        if r.contains(&Sat::Unknown) {
            self.stats.unknown_branches += 1;
        }
        match (r[0] != Sat::Unsat, r[1] != Sat::Unsat) {
            (true, true) => {
                self.stats.forks += 1;
                let mut alt = self.trail.clone();
                alt.push(1);
                self.alts.push(alt);
                self.trail.push(0);
                self.learn(&q, m);
                true
            }
            (true, false) => {
                self.trail.push(2);
                self.note(q, m);
                true
            }
            (false, true) => {
                self.trail.push(3);
                self.note(q, 7 & !m);
                false
            }
            (false, false) => stop(Stop::Infeasible),
        }
    }
    /// A symbolic choice among n structures.
    pub fn choose(&mut self, name: &str, n: u32) -> u32 {
        if let Some(c) = self.choices.get(name) {
            return *c;
        }
        let c = if let Some((_, ch)) = &self.concrete {
            *ch.get(name).unwrap_or(&0)
        } else {
            let c = self.pick(n);
            let id = self.declare(&format!("choice:{}", name), Sort::Int, false, 0);
            self.emit(&format!("(assert (= v{} {}))\n", id, c));
            c
        };
        self.choices.insert(name.to_string(), c);
        c
    }
    pub fn pick(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let i = self.trail.len();
        if i < self.prefix.len() {
            let d = self.prefix[i];
            self.trail.push(d);
            return d;
        }
        for k in 1..n {
            let mut alt = self.trail.clone();
            alt.push(k);
            self.alts.push(alt);
        }
        self.stats.forks += n as u64 - 1;
        self.trail.push(0);
        0
    }
    /// Iteration order of an unordered container with n elements.
    pub fn order(&mut self, n: usize) -> Vec<usize> {
        let id: Vec<usize> = (0..n).collect();
        if n < 2 || self.concrete.is_some() {
            return id;
        }
        match self.hash_order {
            HashOrder::Insertion => id,
            HashOrder::Any(b) => {
                if self.hash_used >= b {
                    return id;
                }
                let perms = orders(n);
                let k = self.pick(perms.len() as u32) as usize;
                self.stats.hash_choices += 1;
                if k != 0 {
                    self.hash_used += 1;
                }
                perms[k].clone()
            }
        }
    }
    pub fn obligation(&mut self, label: &str, p: &Poly, mask: u8, msg: &dyn Fn() -> String) {
        self.stats.obligations += 1;
        if let Some(c) = p.as_const() {
            if sign_mask(&c) & mask != 0 {
                self.stats.discharged += 1;
                return;
            }
            self.violate(label, msg(), None);
        }
        self.alive();
        let (q, m) = Engine::canon(p, mask);
        let neg = self.smt_atom(&q, 7 & !m);
        let r = self.solver.as_mut().expect("symbolic value in concrete mode").check_each(&[neg.clone()]);
        match r[0] {
            Sat::Unsat => self.stats.discharged += 1,
            Sat::Sat => self.violate(label, msg(), Some(neg)),
            Sat::Unknown => match self.second_opinion(&neg) {
                Sat::Unsat => self.stats.discharged += 1,
                Sat::Sat => self.violate(label, msg(), Some(neg)),
                Sat::Unknown => stop(Stop::Inconclusive(format!("solver gave no verdict on {}", label))),
            },
        }
    }
    /// A fresh, non-incremental solver for hard (non-linear) queries.
    fn second_opinion(&self, neg: &str) -> Sat {
        use std::io::Write;
        let text = format!("{}\n(assert {})\n(check-sat)\n", self.script, neg);
        for (bin, args) in [
            (solver_cmd().0, vec!["-in", "-smt2", "-T:30"]),
            ("cvc5".to_string(), vec!["--lang=smt2", "--tlimit=30000", "--nl-cov"]),
        ] {
            if let Ok(mut c) = std::process::Command::new(&bin)
                .args(&args)
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
            {
                let mut t = text.clone();
                if bin == "cvc5" {
                    t = format!("(set-logic ALL)\n{}", t);
                }
                let _ = c.stdin.take().unwrap().write_all(t.as_bytes());
                if let Ok(o) = c.wait_with_output() {
                    let s = String::from_utf8_lossy(&o.stdout).to_string();
                    if s.contains("(error") {
                        continue;
                    }
                    if s.trim() == "unsat" {
                        return Sat::Unsat;
                    }
                    if s.trim() == "sat" {
                        return Sat::Sat;
                    }
                }
            }
        }
        Sat::Unknown
    }
    pub fn violate(&mut self, label: &str, msg: String, neg: Option<String>) -> ! {
        let values = match &self.concrete {
            Some((v, _)) => v.clone(),
            None => self.model(neg.as_deref()).unwrap_or_default(),
        };
        self.violated = true;
        self.refuted = neg.clone();
        stop(Stop::Violated(Violation {
            unit: self.unit.clone(),
            label: label.to_string(),
            msg,
            values,
            choices: self.choices.clone(),
        }))
    }
    /// Concrete input values for the current path, preferably ones that can be written
    /// down as short decimals.
    pub fn model(&mut self, extra: Option<&str>) -> Option<BTreeMap<String, BigRational>> {
        let inputs: Vec<(usize, VarInfo)> = self
            .vars
            .iter()
            .cloned()
            .enumerate()
            .filter(|(_, v)| v.input && !v.name.starts_with("choice:"))
            .collect();
        let reals: Vec<usize> = inputs.iter().filter(|x| x.1.sort == Sort::Real).map(|x| x.0).collect();
        let s = self.solver.as_mut()?;
        for (stage, (bound, dec)) in
            [(Some(40), 2u32), (Some(1000), 2), (Some(100000), 4), (None, 4), (None, 9)].iter().enumerate()
        {
            let mut t = String::from("(push)\n");
            if let Some(e) = extra {
                let _ = write!(t, "(assert {})\n", e);
            }
            for r in &reals {
                let d = BigInt::from(10).pow(*dec);
                let _ = write!(t, "(declare-const m{} Int)\n(assert (= (* {}.0 v{}) (to_real m{})))\n", r, d, r, r);
            }
            if let Some(b) = bound {
                for (i, v) in &inputs {
                    if v.name.starts_with("date:") {
                        continue;
                    }
                    let (b, z) =
                        if v.sort == Sort::Real { (format!("{}.0", b), "") } else { (format!("{}", b), "") };
                    let _ = write!(t, "(assert (and (<= v{} {}) (>= v{} (- {}{}))))\n", i, b, i, b, z);
                }
            }
            s.send(&t);
            if s.check() == Sat::Sat {
                let mut m = BTreeMap::new();
                let mut ok = true;
                if !inputs.is_empty() {
                    let q = format!(
                        "(get-value ({}))",
                        inputs.iter().map(|x| format!("v{}", x.0)).collect::<Vec<_>>().join(" ")
                    );
                    let a = s.ask(&q);
                    if let Sexp::L(l) = parse_sexp(&a) {
                        for (e, (_, v)) in l.iter().zip(inputs.iter()) {
                            let val = match e {
                                Sexp::L(p) if p.len() == 2 => sexp_value(&p[1]),
                                _ => None,
                            };
                            match val {
                                Some(x) => {
                                    m.insert(v.name.clone(), x);
                                }
                                None => ok = false,
                            }
                        }
                    }
                }
                s.send("(pop)\n");
                if ok {
                    return Some(m);
                }
            } else {
                s.send("(pop)\n");
            }
            let _ = stage;
        }
        None
    }
    /// Further models of the current path, each with as many inputs as possible moved away from
    /// the values of the models before it.
    pub fn more_models(&mut self, extra: Option<&str>, first: &BTreeMap<String, BigRational>, n: usize) -> Vec<BTreeMap<String, BigRational>> {
        let mut all = vec![first.clone()];
        let inputs: Vec<(usize, VarInfo)> =
            self.vars.iter().cloned().enumerate().filter(|(_, v)| v.input && !v.name.starts_with("choice:")).collect();
        for round in 0..n {
            let mut cond = match extra {
                Some(e) => format!("(and {}", e),
                None => String::from("(and true"),
            };
            let deadline = std::time::Instant::now() + std::time::Duration::from_secs(5);
            for (i, v) in &inputs {
                if std::time::Instant::now() > deadline {
                    break;
                }
                let seen: Vec<BigRational> = all.iter().filter_map(|m| m.get(&v.name).cloned()).collect();
                let top = seen.iter().map(|x| x.abs()).max().unwrap_or_else(BigRational::zero).ceil().to_integer();
                let lit = |x: &BigInt| if v.sort == Sort::Real { format!("{}.0", x) } else { x.to_string() };
                let a: BigInt = (&top + 1) * 3 + round;
                let mut options = vec![format!("(> v{} {})", i, lit(&a)), format!("(< v{} (- {}))", i, lit(&a))];
                if round % 2 == 1 {
                    options.reverse();
                }
                for o in options {
                    let c = format!("{} {})", cond, o);
                    if self.solver.as_mut().unwrap().check_each(&[c])[0] == Sat::Sat {
                        cond = format!("{} {}", cond, o);
                        break;
                    }
                }
            }
            cond.push(')');
            match self.model(Some(&cond)) {
                Some(m) if !all.contains(&m) => all.push(m),
                _ => break,
            }
        }
        all.remove(0);
        all
    }
    /// A concrete value for num/den, one of a few picked by the solver in different ranges.
    /// The path goes on for this value only: the run is counted as narrowed.
    pub fn narrow(&mut self, num: &Poly, den: &Poly) -> BigRational {
        if let (Some(a), Some(b)) = (num.as_const(), den.as_const()) {
            return a / b;
        }
        self.stats.narrowed += 1;
        let big = |k: u32| BigRational::from(BigInt::from(2).pow(k));
        let int = |k: i64| BigRational::from(BigInt::from(k));
        // lower and upper bounds
        let ranges: [(Option<BigRational>, Option<BigRational>); 6] = [
            (None, None),
            (Some(big(70)), None),
            (Some(big(53)), Some(big(62))),
            (None, Some(-int(1))),
            (Some(int(0)), Some(int(1))),
            (Some(int(1)), Some(int(1000))),
        ];
        let k = self.pick(ranges.len() as u32) as usize;
        let (lo, hi) = ranges[k].clone();
        if let Some(l) = lo {
            self.assume(&num.sub(&den.scale(&l)), POS);
        }
        if let Some(h) = hi {
            self.assume(&num.sub(&den.scale(&h)), NEG);
        }
        let i = self.trail.len();
        let v = if i < self.prefix.len() {
            let d = self.prefix[i];
            self.trail.push(d);
            NARROWED.lock().unwrap()[d as usize].clone()
        } else {
            let vars: Vec<VarId> = {
                let mut v = num.vars();
                v.extend(den.vars());
                v.sort();
                v.dedup();
                v
            };
            let s = self.solver.as_mut().unwrap();
            if s.check() != Sat::Sat {
                stop(Stop::Unsupported("no concrete value for a number the program needs".into()));
            }
            let a = s.ask(&format!("(get-value ({}))", vars.iter().map(|x| format!("v{}", x)).collect::<Vec<_>>().join(" ")));
            let mut m: HashMap<VarId, BigRational> = HashMap::new();
            if let Sexp::L(l) = parse_sexp(&a) {
                for (e, v) in l.iter().zip(vars.iter()) {
                    if let Sexp::L(p) = e {
                        if let Some(x) = p.get(1).and_then(sexp_value) {
                            m.insert(*v, x);
                        }
                    }
                }
            }
            if m.len() != vars.len() {
                stop(Stop::Unsupported("no concrete value for a number the program needs".into()));
            }
            let f = |v: VarId| m[&v].clone();
            let v = num.eval(&f) / den.eval(&f);
            let mut t = NARROWED.lock().unwrap();
            t.push(v.clone());
            self.trail.push((t.len() - 1) as u32);
            v
        };
        self.assume(&num.sub(&den.scale(&v)), ZERO);
        v
    }
    /// The terms of p that are integers whatever the values, and the others.
    pub fn split_int(&self, p: &Poly) -> (Poly, Poly) {
        let (mut a, mut b) = (Poly::zero(), Poly::zero());
        for (m, c) in &p.terms {
            let int = c.is_integer() && m.iter().all(|v| self.vars[v.0 as usize].sort == Sort::Int);
            if int {
                a.terms.insert(m.clone(), c.clone());
            } else {
                b.terms.insert(m.clone(), c.clone());
            }
        }
        (a, b)
    }
    /// Does the path condition imply all of these signs?
    pub fn entails(&mut self, facts: &[(Poly, u8)]) -> bool {
        let i = self.trail.len();
        if i < self.prefix.len() {
            let d = self.prefix[i];
            self.trail.push(d);
            return d == 1;
        }
        let mut open = vec![];
        for (p, m) in facts {
            let (q, m) = Engine::canon(p, *m);
            let k = self.known(&q);
            if k & m != k {
                open.push(self.smt_atom(&q, 7 & !m));
            }
        }
        let d = open.is_empty() || self.solver.as_mut().unwrap().check_each(&open).iter().all(|x| *x == Sat::Unsat);
        self.trail.push(d as u32);
        d
    }
    /// Does the path condition confine p to -limit..=limit?
    pub fn confined(&mut self, p: &Poly, limit: i64) -> bool {
        let i = self.trail.len();
        if i < self.prefix.len() {
            let d = self.prefix[i];
            self.trail.push(d);
            return d == 1;
        }
        let at = |k: i64| p.sub(&Poly::constant(BigRational::from(BigInt::from(k))));
        let a = self.smt_atom(&at(-limit).primitive(), NEG);
        let b = self.smt_atom(&at(limit).primitive(), POS);
        let r = self.solver.as_mut().unwrap().check_each(&[a, b]);
        let d = r[0] == Sat::Unsat && r[1] == Sat::Unsat;
        self.trail.push(d as u32);
        d
    }
    /// Split on the value of an integer that the path condition confines to a small range.
    pub fn concretize(&mut self, p: &Poly, limit: i64) -> Option<BigInt> {
        if let Some(c) = p.as_const() {
            return Some(c.to_integer());
        }
        let at = |k: &BigInt| p.sub(&Poly::constant(BigRational::from(k.clone())));
        let lim = BigInt::from(limit);
        if !self.confined(p, limit) {
            return None;
        }
        self.stats.concretized += 1;
        let (mut lo, mut hi) = (-lim.clone(), lim); // lo <= v <= hi
        while lo < hi {
            let mid: BigInt = num_integer::Integer::div_floor(&(&lo + &hi), &BigInt::from(2));
            // v <= mid ?
            if self.decide(&at(&mid), NEG | ZERO) {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        Some(lo)
    }
}

pub fn flip(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}
pub fn sign_mask(c: &BigRational) -> u8 {
    if c.is_zero() {
        ZERO
    } else if c.is_negative() {
        NEG
    } else {
        POS
    }
}

/// All orders for up to 4 elements; for more, the identity, every order with one element
/// moved to the front or the back, every adjacent swap and the reversal.
pub fn orders(n: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut out = vec![id.clone()];
    if n <= 4 {
        fn rec(rest: Vec<usize>, acc: Vec<usize>, out: &mut Vec<Vec<usize>>) {
            if rest.is_empty() {
                if !out.contains(&acc) {
                    out.push(acc)
                }
                return;
            }
            for i in 0..rest.len() {
                let mut r = rest.clone();
                let x = r.remove(i);
                let mut a = acc.clone();
                a.push(x);
                rec(r, a, out);
            }
        }
        rec(id, vec![], &mut out);
    } else {
        let mut add = |v: Vec<usize>| {
            if !out.contains(&v) {
                out.push(v)
            }
        };
        let mut r = id.clone();
        r.reverse();
        add(r);
        for i in 0..n {
            let mut v = id.clone();
            let x = v.remove(i);
            let mut w = v.clone();
            v.insert(0, x);
            w.push(x);
            add(v);
            add(w);
            if i + 1 < n {
                let mut v = id.clone();
                v.swap(i, i + 1);
                add(v);
            }
        }
    }
    out
}
