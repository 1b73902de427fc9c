//! Explores every path of a unit with a pool of workers, confirms counterexamples on the
//! real program and validates sampled paths against it.
use crate::ctx::*;
use crate::units::Unit;
use num_rational::BigRational;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use symcore::engine;
use symcore::solver::*;
use symcore::{Engine, HashOrder, Stats, Stop, Violation};

pub type Model = (BTreeMap<String, BigRational>, BTreeMap<String, u32>);

#[derive(Default)]
pub struct Report {
    pub stats: Stats,
    pub complete: bool,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub solver_s: f64,
    pub wall_s: f64,
    pub infeasible: u64,
    pub unsupported: BTreeMap<String, u64>,
    pub inconclusive: BTreeMap<String, u64>,
    pub validated: u64,
    pub unconfirmed: Vec<String>,
    pub samples: Vec<(Model, Vec<Run>)>,
    pub violations: Vec<(Violation, Vec<Run>)>,
    pub max_trail: usize,
}

struct Shared {
    queue: Mutex<(Vec<Vec<u32>>, usize)>,
    cv: Condvar,
    stop: AtomicBool,
    rep: Mutex<Report>,
    seen: Mutex<BTreeMap<String, u32>>,
    /// set with the first violation: what else there is does not change the verdict
    until: Mutex<Option<Instant>>,
}
impl Shared {
    fn over(&self, cfg: &Config) -> bool {
        let now = Instant::now();
        self.stop.load(Ordering::SeqCst) || now > cfg.deadline || self.until.lock().unwrap_or_else(|e| e.into_inner()).map_or(false, |t| now > t)
    }
}

pub struct Config {
    pub tier: Tier,
    pub binary: PathBuf,
    pub scratch: PathBuf,
    pub threads: usize,
    pub deadline: Instant,
    pub validate: u64,
    pub seed: u64,
    pub repeat: u32,
    pub known: String,
    pub prop: String,
}

pub enum Outcome {
    Done(Vec<Run>),
    Infeasible,
    Unsupported(String),
    Inconclusive(String),
    Violated(Violation, Vec<Run>),
    /// the oracle cannot make sense of what the program printed
    Broken(String, Vec<Run>),
}

fn call(unit: &Unit, ctx: &mut Ctx) -> Outcome {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (unit.f)(ctx)));
    let runs = std::mem::take(&mut ctx.runs);
    match r {
        Ok(()) => Outcome::Done(runs),
        Err(p) => match p.downcast::<Stop>() {
            Ok(s) => match *s {
                Stop::Infeasible => Outcome::Infeasible,
                Stop::Unsupported(s) => Outcome::Unsupported(s),
                Stop::Inconclusive(s) => Outcome::Inconclusive(s),
                Stop::Violated(v) => Outcome::Violated(v, runs),
            },
            Err(p) => Outcome::Broken(
                p.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic in the harness".into()),
                runs,
            ),
        },
    }
}

/// Runs the unit on concrete values with the real program.
pub fn concrete(unit: &Unit, m: &Model, cfg: &Config, dir: &Path) -> Outcome {
    let mut ctx = Ctx {
        tier: cfg.tier,
        binary: cfg.binary.clone(),
        concrete: true,
        dir: dir.to_path_buf(),
        runs: vec![],
        beat: None,
        out_runs: 0,
    };
    engine::install(Engine::concrete(unit.name, m.0.clone(), m.1.clone()));
    let o = call(unit, &mut ctx);
    engine::uninstall();
    o
}

fn add(a: &mut Stats, b: &Stats) {
    a.paths += b.paths;
    a.decisions += b.decisions;
    a.forks += b.forks;
    a.obligations += b.obligations;
    a.discharged += b.discharged;
    a.runs += b.runs;
    a.concretized += b.concretized;
    a.hash_choices += b.hash_choices;
    a.unknown_branches += b.unknown_branches;
    a.narrowed += b.narrowed;
    for (k, v) in &b.covers {
        *a.covers.entry(k.clone()).or_insert(0) += v;
    }
}

fn worker(id: usize, unit: &Unit, cfg: &Config, sh: &Shared, beat: Arc<Mutex<Beat>>) {
    overflow::this_is(id);
    let dir = cfg.scratch.join(format!("w{}", id));
    let cdir = cfg.scratch.join(format!("c{}", id));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(&cdir).unwrap();
    let mut solver = Some(Solver::start(if cfg.tier == Tier::Thorough { 20_000 } else { 8_000 }));
    loop {
        let prefix = {
            let mut q = sh.queue.lock().unwrap_or_else(|e| e.into_inner());
            loop {
                if sh.over(cfg) || beat.lock().unwrap_or_else(|e| e.into_inner()).abandoned {
                    sh.cv.notify_all();
                    return fold(sh, solver);
                }
                if let Some(p) = q.0.pop() {
                    q.1 += 1;
                    break p;
                }
                if q.1 == 0 {
                    sh.cv.notify_all();
                    return fold(sh, solver);
                }
                q = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
            }
        };
        let order = if cfg.tier == Tier::Thorough { unit.order_thorough } else { unit.order };
        let mut eng = Engine::symbolic(unit.name, solver.take().unwrap(), prefix, order);
        eng.text_limit = unit.text_limit;
        eng.deadline = Some(Instant::now() + Duration::from_secs(if cfg.tier == Tier::Thorough { 300 } else { 40 }));
        eng.pulse = Some(beat.lock().unwrap_or_else(|e| e.into_inner()).pulse.clone());
        engine::install(eng);
        let mut ctx = Ctx {
            tier: cfg.tier,
            binary: cfg.binary.clone(),
            concrete: false,
            dir: dir.clone(),
            runs: vec![],
            beat: Some(beat.clone()),
            out_runs: 0,
        };
        let o = call(unit, &mut ctx);
        {
            let mut b = beat.lock().unwrap_or_else(|e| e.into_inner());
            b.since = None;
            if b.abandoned {
                return;
            }
        }
        let mut e = engine::uninstall().expect("engine");
        e.stats.paths = matches!(o, Outcome::Done(_)) as u64;
        // a few paths are replayed on the real program
        let h = {
            let mut x = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234;
            for t in &e.trail {
                x = (x ^ (*t as u64 + 1)).wrapping_mul(0x100000001b3);
            }
            (x >> 17) % 1000
        };
        let mut others: Vec<Model> = vec![];
        let mut todo: Vec<(Model, &str)> = vec![];
        let want = {
            let r = sh.rep.lock().unwrap_or_else(|e| e.into_inner());
            r.validated < 4 || (r.validated < cfg.validate && h < 1000.min(1 + 1000 * cfg.validate / (1 + 4 * r.stats.paths)))
        };
        match &o {
            Outcome::Done(_) if want => {
                if let Some(m) = e.model(None) {
                    todo.push(((m, e.choices.clone()), "sample"));
                }
            }
            // the solver has no verdict for all values of this path: try some of them
            Outcome::Unsupported(_) | Outcome::Inconclusive(_) | Outcome::Broken(..) => {
                let n = {
                    let mut s = sh.seen.lock().unwrap_or_else(|e| e.into_inner());
                    let k = s.entry("!undecided".into()).or_insert(0);
                    *k += 1;
                    *k
                };
                if n <= 20 || h < 50 {
                    if let Some(m) = e.model(None) {
                        for x in e.more_models(None, &m, 2) {
                            todo.push(((x, e.choices.clone()), "undecided"));
                        }
                        todo.push(((m, e.choices.clone()), "undecided"));
                    }
                }
            }
            Outcome::Violated(v, _) => {
                let n = *sh.seen.lock().unwrap_or_else(|e| e.into_inner()).get(&v.label).unwrap_or(&0);
                if n < 6 {
                    let neg = e.refuted.clone();
                    for x in e.more_models(neg.as_deref(), &v.values, 3) {
                        others.push((x, v.choices.clone()));
                    }
                }
            }
            _ => {}
        }
        let (s, e) = e.finish();
        solver = s;
        {
            let mut q = sh.queue.lock().unwrap_or_else(|e| e.into_inner());
            q.1 = q.1.saturating_sub(1);
            q.0.extend(e.alts.iter().cloned());
            sh.cv.notify_all();
        }
        let mut viol: Option<(Violation, Vec<Run>)> = None;
        {
            let mut r = sh.rep.lock().unwrap_or_else(|e| e.into_inner());
            add(&mut r.stats, &e.stats);
            r.max_trail = r.max_trail.max(e.trail.len());
            match o {
                Outcome::Done(_) => {}
                Outcome::Infeasible => r.infeasible += 1,
                Outcome::Unsupported(s) => *r.unsupported.entry(s).or_insert(0) += 1,
                Outcome::Inconclusive(s) => *r.inconclusive.entry(s).or_insert(0) += 1,
                Outcome::Broken(s, _) => *r.inconclusive.entry(format!("harness: {}", s)).or_insert(0) += 1,
                Outcome::Violated(v, runs) => viol = Some((v, runs)),
            }
        }
        for (m, kind) in todo {
            match concrete(unit, &m, cfg, &cdir) {
                Outcome::Violated(v, runs) => found(sh, cfg, v, runs),
                Outcome::Done(runs) => {
                    let mut r = sh.rep.lock().unwrap_or_else(|e| e.into_inner());
                    if kind == "sample" {
                        r.validated += 1;
                        if r.samples.len() < 3 {
                            r.samples.push((m, runs));
                        }
                    }
                }
                Outcome::Broken(s, runs) if !runs.is_empty() => {
                    let v = Violation {
                        unit: unit.name.into(),
                        label: "output".into(),
                        msg: format!("what the program printed is not a report of the expected form ({})", s),
                        values: m.0.clone(),
                        choices: m.1.clone(),
                    };
                    found(sh, cfg, v, runs)
                }
                _ => {}
            }
        }
        if let Some((v, runs)) = viol {
            // one confirmation per kind of failure at a time is enough
            let n = {
                let mut s = sh.seen.lock().unwrap_or_else(|e| e.into_inner());
                let k = s.entry(v.label.clone()).or_insert(0);
                *k += 1;
                *k
            };
            if n <= 6 {
                let mut tries = vec![(v.values.clone(), v.choices.clone())];
                tries.extend(others);
                let mut confirmed = false;
                let mut why = String::new();
                for m in tries.iter().enumerate().flat_map(|(i, m)| {
                    std::iter::repeat(m).take(if i == 0 { cfg.repeat as usize } else { 3 })
                }) {
                    match concrete(unit, m, cfg, &cdir) {
                        Outcome::Violated(w, runs) => {
                            found(sh, cfg, w, runs);
                            confirmed = true;
                            break;
                        }
                        Outcome::Done(_) => why = "the real program satisfies the property on these values".into(),
                        Outcome::Infeasible => {
                            why = "values outside the assumptions".into();
                        }
                        Outcome::Inconclusive(s) | Outcome::Unsupported(s) | Outcome::Broken(s, _) => {
                            why = s;
                        }
                    }
                }
                if !confirmed {
                    sh.rep.lock().unwrap_or_else(|e| e.into_inner()).unconfirmed.push(format!(
                        "{}: {}: {} [{}] values {:?} choices {:?} runs {}",
                        unit.name,
                        v.label,
                        v.msg,
                        why,
                        v.values.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>(),
                        v.choices,
                        runs.iter().map(|r| format!("{:?} => {} {:?}\n{}", r.args, r.status.short(), r.files, r.out)).collect::<String>()
                    ));
                }
            }
        }
    }
}

fn found(sh: &Shared, cfg: &Config, v: Violation, runs: Vec<Run>) {
    if crate::known_entry(&cfg.known, &cfg.prop, &v).is_none() {
        let mut u = sh.until.lock().unwrap_or_else(|e| e.into_inner());
        if u.is_none() {
            *u = Some(Instant::now() + Duration::from_secs(if cfg.tier == Tier::Thorough { 60 } else { 5 }));
        }
    }
    let mut r = sh.rep.lock().unwrap_or_else(|e| e.into_inner());
    if r.violations.iter().any(|x| x.0.label == v.label) && r.violations.len() >= 8 {
        return;
    }
    r.violations.push((v, runs));
    if r.violations.len() >= 12 {
        sh.stop.store(true, Ordering::SeqCst);
    }
}

fn fold(sh: &Shared, solver: Option<Solver>) {
    if let Some(s) = solver {
        let mut r = sh.rep.lock().unwrap_or_else(|e| e.into_inner());
        r.queries += s.queries;
        r.unsat += s.unsat;
        r.sat += s.sat;
        r.unknown += s.unknown;
        r.solver_s += s.time_s;
    }
}

/// Values for a path on which the program did not come back.
fn model_of(b: &Beat) -> Option<Model> {
    let mut s = Solver::start(20_000);
    s.send(&b.script);
    let mut m = BTreeMap::new();
    if s.check() != Sat::Sat {
        return None;
    }
    if !b.vars.is_empty() {
        let a = s.ask(&format!("(get-value ({}))", b.vars.iter().map(|x| format!("v{}", x.1)).collect::<Vec<_>>().join(" ")));
        if let Sexp::L(l) = parse_sexp(&a) {
            for (e, (n, _)) in l.iter().zip(b.vars.iter()) {
                if let Sexp::L(p) = e {
                    m.insert(n.clone(), sexp_value(&p[1])?);
                }
            }
        }
    }
    Some((m, b.choices.clone()))
}

pub fn explore(unit: &'static Unit, cfg: &Arc<Config>) -> Report {
    let t0 = Instant::now();
    let sh = Arc::new(Shared {
        queue: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        rep: Mutex::new(Report::default()),
        seen: Mutex::new(BTreeMap::new()),
        until: Mutex::new(None),
    });
    let beats: Vec<Arc<Mutex<Beat>>> = (0..cfg.threads).map(|_| Arc::new(Mutex::new(Beat::default()))).collect();
    overflow::install();
    let mut hs: Vec<Option<std::thread::JoinHandle<()>>> = (0..cfg.threads)
        .map(|i| {
            let (cfg, sh, b) = (cfg.clone(), sh.clone(), beats[i].clone());
            Some(std::thread::Builder::new().stack_size(64 << 20).spawn(move || worker(i, unit, &cfg, &sh, b)).unwrap())
        })
        .collect();
    let mut hung = 0;
    loop {
        let mut alive = 0;
        let greedy = overflow::memory() > 4 << 30;
        for (i, h) in hs.iter_mut().enumerate() {
            if let Some(j) = h {
                if j.is_finished() {
                    let r = h.take().unwrap().join();
                    if r.is_err() {
                        let mut q = sh.queue.lock().unwrap_or_else(|e| e.into_inner());
                        q.1 = q.1.saturating_sub(1);
                        sh.rep.lock().unwrap_or_else(|e| e.into_inner()).inconclusive.insert("a worker died".into(), 1);
                    }
                    continue;
                }
                let stuck = {
                    let b = beats[i].lock().unwrap_or_else(|e| e.into_inner());
                    // no decision and no solver call for a long time: the program itself loops
                    let quiet = symcore::engine::now_s().saturating_sub(b.pulse.load(Ordering::SeqCst));
                    b.since.map_or(false, |s| s.elapsed() > Duration::from_secs(45)) && quiet > 30
                        || overflow::happened(i)
                        || greedy && b.since.map_or(false, |s| s.elapsed() > Duration::from_millis(900)) && quiet > 0
                };
                if stuck {
                    if greedy {
                        overflow::halt(j);
                    }
                    let m = model_of(&beats[i].lock().unwrap_or_else(|e| e.into_inner()));
                    hung += 1;
                    if let Some(m) = m {
                        let d = cfg.scratch.join(format!("h{}", i));
                        match concrete(unit, &m, cfg, &d) {
                            Outcome::Violated(v, runs) => found(&sh, cfg, v, runs),
                            _ => sh.rep.lock().unwrap_or_else(|e| e.into_inner()).unconfirmed.push(format!("{}: a symbolic run did not come back", unit.name)),
                        }
                    }
                    beats[i].lock().unwrap_or_else(|e| e.into_inner()).abandoned = true;
                    *h = None; // abandoned; the process exits at the end
                    let mut q = sh.queue.lock().unwrap_or_else(|e| e.into_inner());
                    q.1 = q.1.saturating_sub(1);
                    sh.cv.notify_all();
                    continue;
                }
                alive += 1;
            }
        }
        if alive == 0 {
            break;
        }
        // workers deep in a hard query are left behind
        let late = {
            let u = sh.until.lock().unwrap_or_else(|e| e.into_inner());
            u.map_or(false, |t| Instant::now() > t + Duration::from_secs(10))
                || Instant::now() > cfg.deadline + Duration::from_secs(if cfg.tier == Tier::Thorough { 300 } else { 30 })
        };
        if late {
            for (i, h) in hs.iter_mut().enumerate() {
                if h.is_some() {
                    beats[i].lock().unwrap_or_else(|e| e.into_inner()).abandoned = true;
                    *h = None;
                }
            }
            hung += 1;
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let left = sh.queue.lock().unwrap_or_else(|e| e.into_inner()).0.len();
    let mut rep = std::mem::take(&mut *sh.rep.lock().unwrap_or_else(|e| e.into_inner()));
    rep.complete = left == 0 && hung == 0 && !sh.stop.load(Ordering::SeqCst) && Instant::now() <= cfg.deadline;
    rep.wall_s = t0.elapsed().as_secs_f64();
    let _ = HashOrder::Insertion;
    rep
}

/// A run that exhausts the stack must not take the whole process with it: its thread is put to sleep and the main
/// thread treats it like one that never comes back.
mod overflow {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, Ordering};
    const N: usize = 256;
    #[allow(clippy::declare_interior_mutable_const)]
    const NO: AtomicBool = AtomicBool::new(false);
    static HAPPENED: [AtomicBool; N] = [NO; N];
    thread_local! {
        static ID: Cell<usize> = const { Cell::new(usize::MAX) };
    }
    #[repr(C)]
    struct Action {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const Action, old: *mut Action) -> i32;
        fn sleep(s: u32) -> u32;
        fn abort() -> !;
        fn pthread_kill(t: std::os::unix::thread::RawPthread, sig: i32) -> i32;
    }
    extern "C" fn handler(_: i32) {
        let id = ID.with(|x| x.get());
        if id >= N {
            unsafe { abort() }
        }
        HAPPENED[id].store(true, Ordering::SeqCst);
        loop {
            unsafe { sleep(1000) };
        }
    }
    /// the runtime has given every thread a second stack for its own handler of this signal
    pub fn install() {
        for x in HAPPENED.iter() {
            x.store(false, Ordering::SeqCst);
        }
        let a = Action { handler: handler as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
        for sig in [11, 7, 10] {
            unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
        }
    }
    /// what the process occupies
    pub fn memory() -> u64 {
        let t = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
        t.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
    }
    /// a run that eats up the memory is put to sleep as well
    pub fn halt<T>(h: &std::thread::JoinHandle<T>) {
        use std::os::unix::thread::JoinHandleExt;
        unsafe { pthread_kill(h.as_pthread_t(), 10) };
    }
    pub fn this_is(i: usize) {
        ID.with(|x| x.set(i));
    }
    pub fn happened(i: usize) -> bool {
        i < N && HAPPENED[i].load(Ordering::SeqCst)
    }
}
