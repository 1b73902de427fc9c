//! What a property's check unit sees: symbolic inputs, a way to run the program, obligations.
use chrono_real::{Datelike, NaiveDate};
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use symcore::engine::{self, NEG, POS, ZERO};
use symcore::{ExitRequest, HashOrder, Sort, Stop, Val};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Status {
    Ok,
    /// reported an error and exit status 1
    Err,
    /// crashed (panic)
    Crash(String),
    Timeout,
}
impl Status {
    pub fn ok(&self) -> bool {
        *self == Status::Ok
    }
    pub fn short(&self) -> String {
        match self {
            Status::Crash(m) => format!("crash ({})", m.lines().next().unwrap_or("")),
            s => format!("{:?}", s).to_lowercase(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Run {
    pub args: Vec<String>,
    pub files: Vec<(String, String)>,
    pub status: Status,
    pub out: String,
}

pub struct Ctx {
    pub tier: Tier,
    /// the program built from /repo, for concrete runs
    pub binary: PathBuf,
    pub concrete: bool,
    pub dir: PathBuf,
    pub runs: Vec<Run>,
    pub beat: Option<std::sync::Arc<std::sync::Mutex<Beat>>>,
    pub out_runs: u32,
}

/// What a worker is doing, for the watchdog.
#[derive(Default)]
pub struct Beat {
    pub since: Option<Instant>,
    pub script: String,
    pub vars: Vec<(String, u32)>,
    pub choices: std::collections::BTreeMap<String, u32>,
    pub unit: String,
    pub abandoned: bool,
    pub pulse: std::sync::Arc<std::sync::atomic::AtomicU64>,
}

pub fn days(y: i32, m: u32, d: u32) -> i64 {
    NaiveDate::from_ymd_opt(y, m, d).unwrap().num_days_from_ce() as i64
}
pub fn today() -> i64 {
    chrono_real::Utc::now().naive_local().date().num_days_from_ce() as i64
}

/// Exact decimal text of a rational, if it has one.
pub fn decimal(v: &BigRational) -> Option<String> {
    let mut k = 0usize;
    let ten = BigRational::from(BigInt::from(10));
    let mut x = v.clone();
    while !x.denom().is_one() {
        x = x * &ten;
        k += 1;
        if k > 60 {
            return None;
        }
    }
    let s = x.numer().abs().to_string();
    let s = if s.len() <= k { format!("{}{}", "0".repeat(k + 1 - s.len()), s) } else { s };
    let (a, b) = s.split_at(s.len() - k);
    let sign = if v.is_negative() { "-" } else { "" };
    Some(if k == 0 { format!("{}{}", sign, a) } else { format!("{}{}.{}", sign, a, b) })
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    // ---- inputs ---------------------------------------------------------------------
    /// any integer
    pub fn int(&self, name: &str) -> Val {
        engine::with(|e| e.input(name, Sort::Int, 0))
    }
    /// any rational number
    pub fn real(&self, name: &str) -> Val {
        engine::with(|e| e.input(name, Sort::Real, 4))
    }
    /// any integer plus a fixed fraction
    pub fn frac(&self, name: &str, n: i64, d: i64) -> Val {
        self.int(name).add(&Val::rat(n, d))
    }
    /// any day of the years 1990 to 2089
    pub fn date(&self, name: &str) -> Val {
        let v = engine::with(|e| e.input(&format!("date:{}", name), Sort::Int, 0));
        self.assume_le(&Val::int(days(1990, 1, 1)), &v);
        self.assume_le(&v, &Val::int(days(2089, 12, 31)));
        v
    }
    pub fn choose(&self, name: &str, n: u32) -> u32 {
        engine::with(|e| e.choose(name, n))
    }
    pub fn pick<'a, T>(&self, name: &str, of: &'a [T]) -> &'a T {
        &of[self.choose(name, of.len() as u32) as usize]
    }
    pub fn flag(&self, name: &str) -> bool {
        self.choose(name, 2) == 1
    }
    // ---- assumptions ----------------------------------------------------------------
    fn assume(&self, a: &Val, b: &Val, mask: u8) {
        let p = a.diff_poly(b);
        engine::with(|e| {
            if e.concrete.is_some() {
                let c = p.as_const().unwrap();
                if engine::sign_mask(&c) & mask == 0 {
                    engine::stop(Stop::Infeasible);
                }
            } else {
                e.assume(&p, mask)
            }
        })
    }
    pub fn assume_le(&self, a: &Val, b: &Val) {
        self.assume(a, b, NEG | ZERO)
    }
    pub fn assume_lt(&self, a: &Val, b: &Val) {
        self.assume(a, b, NEG)
    }
    pub fn assume_ne(&self, a: &Val, b: &Val) {
        self.assume(a, b, NEG | POS)
    }
    // ---- text of inputs ---------------------------------------------------------------
    /// journal text of an amount
    pub fn amt(&self, v: &Val) -> String {
        self.amt_d(v, 2)
    }
    /// journal text of an amount, written with `dec` decimals when it is symbolic
    pub fn amt_d(&self, v: &Val, dec: usize) -> String {
        match v {
            Val::C(c) => match decimal(c) {
                Some(s) => s,
                None => engine::stop(Stop::Inconclusive("the model has no decimal value".into())),
            },
            Val::S(_) => {
                let i = engine::with(|e| {
                    e.amounts.push((v.clone(), dec as u32));
                    e.amounts.len() - 1
                });
                let zeros = if dec > 0 { format!(".{}", "0".repeat(dec)) } else { String::new() };
                format!("7777{:04}{}", i, zeros)
            }
        }
    }
    /// n arbitrary decimal digits: their text, and the integer they spell
    pub fn digits(&self, name: &str, n: usize) -> (String, Val) {
        let mut s = String::new();
        let mut v = Val::zero();
        for i in 0..n {
            let d = self.int(&format!("{}{}", name, i));
            self.assume_le(&Val::zero(), &d);
            self.assume_le(&d, &Val::int(9));
            match &d {
                Val::C(c) => s.push_str(&c.to_integer().to_string()),
                Val::S(_) => {
                    let k = engine::with(|e| {
                        e.digits.push(d.clone());
                        e.digits.len() as u32 - 1
                    });
                    assert!(k < engine::DIGITS, "too many symbolic digits");
                    s.push(char::from_u32(engine::DIGIT0 + k).unwrap());
                }
            }
            v = v.mul(&Val::int(10)).add(&d);
        }
        (s, v)
    }
    /// journal text of a date
    pub fn day(&self, v: &Val) -> String {
        match v {
            Val::C(c) => NaiveDate::from_num_days_from_ce_opt(c.to_integer().to_i32().unwrap()).unwrap().to_string(),
            Val::S(_) => {
                let i = engine::with(|e| {
                    e.dates.push(v.clone());
                    e.dates.len() - 1
                });
                format!("{}-01-01", 7000 + i)
            }
        }
    }
    // ---- running the program ----------------------------------------------------------
    /// Runs the program on main.ledger.
    pub fn run(&mut self, args: &[&str], journal: &str) -> Run {
        self.run_files(args, &[("main.ledger", journal)])
    }
    /// Runs `dinero <args[0]> -f main.ledger <args[1..]>` with these files in its directory; `$DIR` is
    /// that directory. Without `-f` where an argument or a file names `$DIR/main.ledger`.
    pub fn run_files(&mut self, args: &[&str], files: &[(&str, &str)]) -> Run {
        self.out_runs += 1;
        let d = self.dir.join(format!("r{}", self.out_runs));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        for (n, t) in files {
            let p = d.join(n);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, t.replace("$DIR", d.to_str().unwrap())).unwrap();
        }
        let dir = d.to_str().unwrap();
        let mut argv = vec!["dinero".to_string(), args[0].to_string()];
        if !args.iter().any(|x| x.ends_with("main.ledger") || x.contains("$DIR/my own")) && !files.iter().any(|f| f.1.contains("$DIR/main.ledger") || f.1.contains("$DIR/my own")) {
            argv.extend(["-f".to_string(), format!("{}/main.ledger", dir)]);
        }
        argv.extend(args[1..].iter().map(|x| x.replace("$DIR", dir)));
        let (status, out) = if self.concrete { self.run_native(&argv, &d) } else { self.run_symbolic(argv, &d) };
        let _ = std::fs::remove_dir_all(&d);
        let r = Run {
            args: args.iter().map(|x| x.to_string()).collect(),
            files: files.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
            status,
            out,
        };
        self.runs.push(r.clone());
        r
    }
    fn run_symbolic(&mut self, argv: Vec<String>, d: &Path) -> (Status, String) {
        if own_directory() {
            let _ = std::env::set_current_dir(d);
        }
        engine::with(|e| e.stats.runs += 1);
        if let Some(b) = &self.beat {
            let (script, vars, choices, unit) = engine::with(|e| {
                (
                    e.script.clone(),
                    e.vars.iter().enumerate().filter(|x| x.1.input).map(|(i, v)| (v.name.clone(), i as u32)).collect(),
                    e.choices.clone(),
                    e.unit.clone(),
                )
            });
            let mut b = b.lock().unwrap();
            let (abandoned, pulse) = (b.abandoned, b.pulse.clone());
            *b = Beat { since: Some(Instant::now()), script, vars, choices, unit, abandoned, pulse };
        }
        symcore::out_take();
        let r = std::panic::catch_unwind(|| dinero::run_app(argv));
        let out = symcore::out_take();
        if let Some(b) = &self.beat {
            b.lock().unwrap().since = None;
        }
        let st = match r {
            Ok(Ok(())) => Status::Ok,
            Ok(Err(())) => Status::Err,
            Err(p) => {
                if p.is::<Stop>() {
                    std::panic::resume_unwind(p)
                }
                if let Some(x) = p.downcast_ref::<ExitRequest>() {
                    if x.0 == 0 {
                        Status::Ok
                    } else {
                        Status::Err
                    }
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    Status::Crash(s.to_string())
                } else if let Some(s) = p.downcast_ref::<String>() {
                    Status::Crash(s.clone())
                } else {
                    Status::Crash("panic".into())
                }
            }
        };
        (st, out)
    }
    fn run_native(&self, argv: &[String], d: &Path) -> (Status, String) {
        use std::process::*;
        let outp = d.join(".stdout");
        let errp = d.join(".stderr");
        let mut c = Command::new("/bin/sh");
        // what never ends may not take all the memory
        let mut c = c
            .args(["-c", "ulimit -v 3000000; ulimit -c 0; exec \"$0\" \"$@\""])
            .arg(&self.binary)
            .args(&argv[1..])
            .current_dir(d)
            .env_clear()
            .env("HOME", d.join("home"))
            .env("NO_COLOR", "1")
            .env("PATH", "/usr/bin:/bin")
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&outp).unwrap())
            .stderr(std::fs::File::create(&errp).unwrap())
            .spawn()
            .expect("cannot run the program");
        let t = Instant::now();
        let st = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break Some(s);
            }
            if t.elapsed() > Duration::from_secs(10) {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(Duration::from_micros(if t.elapsed().as_millis() < 50 { 500 } else { 5000 }));
        };
        let out = String::from_utf8_lossy(&std::fs::read(&outp).unwrap_or_default()).to_string();
        let st = match st {
            None => Status::Timeout,
            Some(s) => match s.code() {
                Some(0) => Status::Ok,
                Some(1) => Status::Err,
                Some(101) | None => {
                    let e = String::from_utf8_lossy(&std::fs::read(&errp).unwrap_or_default()).to_string();
                    Status::Crash(
                        e.lines().skip_while(|l| !l.contains("panicked at")).take(2).collect::<Vec<_>>().join(" "),
                    )
                }
                Some(_) => Status::Err,
            },
        };
        (st, out)
    }
    /// Order in which unordered containers iterate from here on (symbolic runs only).
    pub fn hash_order(&self, o: HashOrder) {
        engine::with(|e| {
            e.hash_order = o;
            e.hash_used = 0;
        })
    }
    // ---- verdicts ---------------------------------------------------------------------
    pub fn cover(&self, label: &str) {
        engine::with(|e| *e.stats.covers.entry(label.to_string()).or_insert(0) += 1)
    }
    fn oblige(&self, label: &str, a: &Val, b: &Val, mask: u8, msg: &str) {
        let p = a.diff_poly(b);
        let (sa, sb) = (a.show(), b.show());
        engine::with(|e| e.obligation(label, &p, mask, &|| format!("{} (left: {}, right: {})", msg, sa, sb)))
    }
    pub fn eq(&self, label: &str, a: &Val, b: &Val, msg: &str) {
        self.oblige(label, a, b, ZERO, msg)
    }
    pub fn ne(&self, label: &str, a: &Val, b: &Val, msg: &str) {
        self.oblige(label, a, b, NEG | POS, msg)
    }
    pub fn le(&self, label: &str, a: &Val, b: &Val, msg: &str) {
        self.oblige(label, a, b, NEG | ZERO, msg)
    }
    pub fn lt(&self, label: &str, a: &Val, b: &Val, msg: &str) {
        self.oblige(label, a, b, NEG, msg)
    }
    pub fn ok(&self, label: &str, cond: bool, msg: &str) {
        engine::with(|e| {
            e.stats.obligations += 1;
            if cond {
                e.stats.discharged += 1
            } else {
                e.violate(label, msg.to_string(), None)
            }
        })
    }
    pub fn fail(&self, label: &str, msg: &str) -> ! {
        self.ok(label, false, msg);
        unreachable!()
    }
}

pub fn is_zero_const(v: &Val) -> bool {
    v.as_const().map_or(false, |c| c.is_zero())
}

/// v rounded to `dec` decimals, halves away from zero (what reports print)
pub fn rounded(v: &Val, dec: i64) -> Val {
    let k = Val::int(10).powi(dec);
    if let Val::C(c) = v {
        let x = c * k.as_const().unwrap();
        return Val::C(x.round() / k.as_const().unwrap());
    }
    let s = v.mul(&k);
    if s.is_int() {
        return v.clone();
    }
    s.round().div(&k)
}

/// Gives the calling thread a working directory of its own; false if the system does not allow it.
/// (`HOME` is the relative path `home` in symbolic runs, see main.)
pub fn own_directory() -> bool {
    thread_local! {
        static OWN: bool = {
            extern "C" {
                fn unshare(flags: i32) -> i32;
            }
            const CLONE_FS: i32 = 0x200;
            unsafe { unshare(CLONE_FS) == 0 }
        };
    }
    OWN.with(|x| *x)
}
