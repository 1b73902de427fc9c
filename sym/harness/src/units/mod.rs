use crate::ctx::Ctx;
use symcore::HashOrder;

pub struct Unit {
    pub prop: &'static str,
    pub name: &'static str,
    pub f: fn(&mut Ctx),
    /// the bounds within which the unit is exhaustive
    pub bounds: &'static str,
    pub covers: &'static [&'static str],
    pub order: HashOrder,
    pub order_thorough: HashOrder,
    pub text_limit: i64,
    pub thorough_only: bool,
}
impl Unit {
    pub const fn new(prop: &'static str, name: &'static str, f: fn(&mut Ctx), bounds: &'static str) -> Unit {
        Unit {
            prop,
            name,
            f,
            bounds,
            covers: &[],
            order: HashOrder::Insertion,
            order_thorough: HashOrder::Any(1),
            text_limit: 0,
            thorough_only: false,
        }
    }
    pub const fn covers(mut self, c: &'static [&'static str]) -> Unit {
        self.covers = c;
        self
    }
    pub const fn orders(mut self, a: HashOrder, b: HashOrder) -> Unit {
        self.order = a;
        self.order_thorough = b;
        self
    }
    pub const fn digits(mut self, n: i64) -> Unit {
        self.text_limit = n;
        self
    }
    pub const fn thorough(mut self) -> Unit {
        self.thorough_only = true;
        self
    }
}

pub const ASSUMPTIONS: &[&str] = &[
    "The encoding is the repository's own source, recompiled on every run against stand-ins for num, chrono's dates, HashMap/HashSet and standard output; the stand-ins, the path explorer and the solver are trusted.",
    "Symbolic amounts are arbitrary rationals or integers plus a fixed fraction (stated per unit); journal structure, account and commodity names are taken from the finite choices of each unit.",
    "Symbolic dates range over 1990-01-01 to 2089-12-31; today's date is the clock's.",
    "A counterexample is reported only after the real program, built from the same tree, fails the same oracle on the solver's values.",
];

mod amounts;
mod automated;
mod balancing;
mod config;
mod determinism;
mod display;
mod expr;
mod layout;
mod names;
mod organisation;
mod prices;
mod reports;
mod util;
mod world;

pub fn all() -> Vec<&'static Unit> {
    let mut v: Vec<&'static Unit> = vec![];
    v.extend(balancing::UNITS.iter());
    v.extend(reports::UNITS.iter());
    v.extend(prices::UNITS.iter());
    v.extend(expr::UNITS.iter());
    v.extend(amounts::UNITS.iter());
    v.extend(automated::UNITS.iter());
    v.extend(organisation::UNITS.iter());
    v.extend(names::UNITS.iter());
    v.extend(layout::UNITS.iter());
    v.extend(config::UNITS.iter());
    v.extend(display::UNITS.iter());
    v.extend(determinism::UNITS.iter());
    v.extend(world::UNITS.iter());
    v
}
