//! One long-lived SMT solver process driven over SMT-LIB2 text.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time_s: f64,
    buf: String,
}

pub fn solver_cmd() -> (String, Vec<String>) {
    let bin = std::env::var("SYM_Z3").unwrap_or_else(|_| "z3-new".to_string());
    (bin, vec!["-in".into(), "-smt2".into()])
}

impl Solver {
    pub fn start(timeout_ms: u64) -> Solver {
        let (bin, args) = solver_cmd();
        let spawn = |b: &str| {
            Command::new(b)
                .args(&args)
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
        };
        let mut child = spawn(&bin).or_else(|_| spawn("z3")).expect("cannot start z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver { child, inp, out, queries: 0, unsat: 0, sat: 0, unknown: 0, time_s: 0.0, buf: String::new() };
        s.send("(set-option :print-success false)\n(set-option :produce-models true)\n");
        s.send(&format!("(set-option :timeout {})\n", timeout_ms));
        s
    }
    /// Buffered until the next query.
    pub fn send(&mut self, t: &str) {
        self.buf.push_str(t);
    }
    fn flush(&mut self) {
        if !self.buf.is_empty() {
            self.inp.write_all(self.buf.as_bytes()).expect("solver died");
            self.buf.clear();
        }
        self.inp.flush().expect("solver died");
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        let n = self.out.read_line(&mut l).expect("solver died");
        if n == 0 {
            panic!("solver died");
        }
        l.trim().to_string()
    }
    fn verdict(&mut self) -> Sat {
        let l = self.line();
        match l.as_str() {
            "sat" => {
                self.sat += 1;
                Sat::Sat
            }
            "unsat" => {
                self.unsat += 1;
                Sat::Unsat
            }
            "unknown" | "timeout" => {
                self.unknown += 1;
                Sat::Unknown
            }
            x => panic!("solver error: {}", x),
        }
    }
    /// check-sat of the current context plus each of `asserts` separately.
    pub fn check_each(&mut self, asserts: &[String]) -> Vec<Sat> {
        let t = Instant::now();
        for a in asserts {
            self.buf.push_str("(push)\n(assert ");
            self.buf.push_str(a);
            self.buf.push_str(")\n(check-sat)\n(pop)\n");
        }
        self.flush();
        let r = asserts.iter().map(|_| self.verdict()).collect();
        self.queries += asserts.len() as u64;
        self.time_s += t.elapsed().as_secs_f64();
        r
    }
    pub fn check(&mut self) -> Sat {
        let t = Instant::now();
        self.buf.push_str("(check-sat)\n");
        self.flush();
        let r = self.verdict();
        self.queries += 1;
        self.time_s += t.elapsed().as_secs_f64();
        r
    }
    /// Reads one s-expression answer.
    pub fn ask(&mut self, q: &str) -> String {
        self.buf.push_str(q);
        self.buf.push('\n');
        self.flush();
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let l = self.line();
            for c in l.chars() {
                if c == '(' {
                    depth += 1
                }
                if c == ')' {
                    depth -= 1
                }
            }
            s.push_str(&l);
            s.push(' ');
            if depth <= 0 {
                return s;
            }
        }
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Debug, Clone)]
pub enum Sexp {
    A(String),
    L(Vec<Sexp>),
}

pub fn parse_sexp(s: &str) -> Sexp {
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut i = 0;
    fn go(t: &[String], i: &mut usize) -> Sexp {
        if t[*i] == "(" {
            *i += 1;
            let mut v = vec![];
            while *i < t.len() && t[*i] != ")" {
                v.push(go(t, i));
            }
            *i += 1;
            Sexp::L(v)
        } else {
            *i += 1;
            Sexp::A(t[*i - 1].clone())
        }
    }
    go(&toks, &mut i)
}

use num_bigint::BigInt;
use num_rational::BigRational;
use std::str::FromStr;
pub fn sexp_value(s: &Sexp) -> Option<BigRational> {
    match s {
        Sexp::A(a) => {
            if let Some(p) = a.find('.') {
                let (i, f) = (&a[..p], &a[p + 1..]);
                let den = BigInt::from_str(&format!("1{}", "0".repeat(f.len()))).ok()?;
                Some(BigRational::new(BigInt::from_str(&format!("{}{}", i, f)).ok()?, den))
            } else {
                Some(BigRational::from(BigInt::from_str(a).ok()?))
            }
        }
        Sexp::L(l) => match (l.get(0), l.len()) {
            (Some(Sexp::A(o)), 2) if o == "-" => Some(-sexp_value(&l[1])?),
            (Some(Sexp::A(o)), 2) if o == "to_real" => sexp_value(&l[1]),
            (Some(Sexp::A(o)), 3) if o == "/" => Some(sexp_value(&l[1])? / sexp_value(&l[2])?),
            _ => None,
        },
    }
}
