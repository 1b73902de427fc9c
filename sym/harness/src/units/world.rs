//! Whole journals: three transactions with a bounded number of deviations from an ordinary layout (dates,
//! header, costs, further postings, assertions, declarations, rules, files, ...), all amounts symbolic, and
//! an independent account of what the journal means.
use super::reports::{check_tree, cut};
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use symcore::{HashOrder, Val};

const BOUNDS: &str = "3 transactions over real, bracketed and parenthesised postings with every combination of 2 (thorough: 3) out of 85 deviations (dates equal, reversed or arbitrary, effective dates, status, code, notes, notation, fractions, costs, exchanges, 1 to 4 further postings, assertions, assignments, prices, aliases, automated transactions, many transactions, included files, layout) in any one of the transactions; amounts arbitrary integers plus fixed fractions; unless that is the deviation (thorough: with one deviation fewer in any case) positive and each less than a twentieth of the one before";
const ONE: &str = "3 transactions with each one (thorough: 2) of 85 deviations (see the C04 world unit) in any one of the transactions; amounts arbitrary integers plus fixed fractions";

pub static UNITS: &[Unit] = &[
    Unit::new("C01", "world_verdict", verdict, BOUNDS).covers(&["accepted", "rejected"]),
    Unit::new("C02", "world_filled", filled, BOUNDS).covers(&["filled"]),
    Unit::new("C03", "world_assertion", assertion, BOUNDS).covers(&["accepted", "rejected"]),
    Unit::new("C04", "world_flat", flat, BOUNDS).covers(&["checked"]),
    Unit::new("C05", "world_tree", tree, BOUNDS).covers(&["checked"]),
    Unit::new("C06", "world_register", register, BOUNDS).covers(&["checked"]),
    Unit::new("C07", "world_filters", filters, ONE).covers(&["kept", "dropped"]),
    Unit::new("C08", "world_queries", queries, ONE).covers(&["kept", "dropped"]),
    Unit::new("C09", "world_converted", converted, BOUNDS).covers(&["converted"]),
    Unit::new("C10", "world_prices", prices, BOUNDS).covers(&["listed"]),
    Unit::new("C11", "world_orders", orders, ONE).covers(&["compared"]),
    Unit::new("C12", "world_shown", shown_everywhere, ONE).covers(&["checked"]),
    Unit::new("C13", "world_notation", notation, ONE).covers(&["checked"]),
    Unit::new("C14", "world_rules", rules, BOUNDS).covers(&["added"]),
    Unit::new("C15", "world_files", files, ONE).covers(&["compared"]),
    Unit::new("C16", "world_names", names, ONE).covers(&["compared"]),
    Unit::new("C17", "world_layout", layouts, ONE).covers(&["compared"]),
    Unit::new("C18", "world_init_file", init_file, ONE).covers(&["compared"]),
    Unit::new("C21", "world_unknown", unknown, ONE).covers(&["compared"]),
    Unit::new("C22", "world_declared", declared, ONE).covers(&["compared"]),
];

// ---- journals -------------------------------------------------------------------------------

/// the deviations that may still be taken
pub struct Dev {
    left: Cell<u32>,
    /// amounts in any relation to each other; otherwise each is much smaller than the one before
    free: Cell<bool>,
    last: RefCell<Option<Val>>,
}
impl Dev {
    fn new(c: &Ctx, quick: u32) -> Dev {
        let free = c.thorough() && c.flag("amounts in any relation");
        Dev { left: Cell::new(if c.thorough() && !free { quick + 1 } else { quick }), free: Cell::new(free), last: RefCell::new(None) }
    }
    /// a positive amount
    fn amount(&self, c: &Ctx, name: &str, n: i64, d: i64) -> Val {
        let v = c.frac(name, n, d);
        c.assume_lt(&Val::zero(), &v);
        if !self.free.get() {
            if let Some(l) = self.last.borrow().as_ref() {
                c.assume_lt(&v.mul(&Val::int(20)), l);
            }
            *self.last.borrow_mut() = Some(v.clone());
        }
        v
    }
    /// 0 (as usual) or one of n deviations
    fn pick(&self, c: &Ctx, name: &str, n: u32) -> u32 {
        if self.left.get() == 0 {
            return 0;
        }
        let k = c.choose(name, n + 1);
        if k > 0 {
            self.left.set(self.left.get() - 1);
        }
        k
    }
}

#[derive(Clone)]
struct Cost {
    total: bool,
    v: Val,
    cur: &'static str,
}
#[derive(Clone, Copy, PartialEq)]
enum Check {
    No,
    /// `v = right`
    Asserted,
    /// `= right`
    Assigned,
}
#[derive(Clone)]
struct P {
    kind: char,
    acc: String,
    amt: Option<(Val, &'static str)>,
    cost: Option<Cost>,
    check: Check,
    /// the asserted balance, once known
    right: Option<Val>,
    tail: String,
    notes: Vec<String>,
}
fn p(acc: &str, v: &Val, cur: &'static str) -> P {
    P { kind: ' ', acc: acc.into(), amt: Some((v.clone(), cur)), cost: None, check: Check::No, right: None, tail: String::new(), notes: vec![] }
}
fn out(acc: &str) -> P {
    P { amt: None, ..p(acc, &Val::zero(), "EUR") }
}
impl P {
    fn kind(mut self, k: char) -> P {
        self.kind = k;
        self
    }
    fn cost(mut self, total: bool, v: &Val) -> P {
        self.cost = Some(Cost { total, v: v.clone(), cur: "EUR" });
        self
    }
    fn real(&self) -> bool {
        self.kind == ' '
    }
    /// what the posting counts for
    fn at_cost(&self) -> Option<(Val, &'static str)> {
        let (v, cur) = self.amt.clone()?;
        Some(match &self.cost {
            None => (v, cur),
            Some(k) if k.total => (if v.is_neg() { k.v.neg() } else { k.v.clone() }, k.cur),
            Some(k) => (v.mul(&k.v), k.cur),
        })
    }
}
#[derive(Clone)]
struct T {
    date: Val,
    time: String,
    eff: String,
    mark: String,
    payee: String,
    tail: String,
    notes: Vec<String>,
    lines: Vec<P>,
    style: u32,
}
fn t(y: i32, m: u32, d: u32, payee: &str, lines: Vec<P>) -> T {
    T {
        date: Val::int(days(y, m, d)),
        time: String::new(),
        eff: String::new(),
        mark: String::new(),
        payee: payee.into(),
        tail: String::new(),
        notes: vec![],
        lines,
        style: 0,
    }
}
#[derive(Clone, Default)]
struct Rule {
    text: String,
    /// accounts with this in their name
    on: &'static str,
    /// kind, account, multiple of the matched amount or fixed amount
    adds: Vec<(char, &'static str, Option<Val>, Option<(Val, &'static str)>)>,
}
#[derive(Clone, Default)]
struct World {
    head: String,
    txs: Vec<T>,
    rule: Option<Rule>,
    prices: Vec<(Val, &'static str, Val, &'static str)>,
    focus: usize,
    files: u32,
    layout: u32,
    /// spelling of names in the focus transaction
    spell: Vec<(&'static str, &'static str)>,
    spell_cur: Vec<(&'static str, &'static str)>,
    spell_payee: Option<&'static str>,
}

fn build(c: &Ctx, dev: &Dev) -> World {
    let f = c.choose("focus", 3) as usize;
    let mut w = World { focus: f, ..World::default() };
    let mut fr = [(25, 100), (25, 100), (25, 100)];
    fr[f] = match dev.pick(c, "fraction", 3) {
        0 => (25, 100),
        1 => (0, 1),
        2 => (125, 1000),
        _ => (995, 1000),
    };
    let free = dev.pick(c, "sign", 1) == 1;
    if free {
        dev.free.set(true);
    }
    let v: Vec<Val> = (0..3)
        .map(|i| {
            let name = format!("v{}", i);
            if free && i == f {
                c.frac(&name, fr[i].0, fr[i].1)
            } else {
                dev.amount(c, &name, fr[i].0, fr[i].1)
            }
        })
        .collect();
    w.txs = vec![
        t(2021, 1, 5, "Employer", vec![p("Assets:Bank", &v[0], "EUR"), out("Income:Job")]),
        t(2021, 2, 10, "Shop", vec![p("Expenses:Food", &v[1], "EUR"), p("Assets:Bank", &v[1].neg(), "EUR")]),
        t(2021, 3, 15, "Market", vec![out("Assets:Cash"), p("Expenses:Food:Fruit", &v[2], "EUR")]),
    ];
    // the posting the transaction is about, and the one on its other side
    let main = [0, 0, 1][f];
    let side = 1 - main;
    let money = [v[0].clone(), v[1].clone(), v[2].clone()][f].clone();
    match dev.pick(c, "dates", 4) {
        0 => (),
        1 => {
            for i in 0..3 {
                w.txs[i].date = Val::int(days(2021, 2, 10));
            }
        }
        2 => {
            for i in 0..3 {
                w.txs[i].date = Val::int(days(2021, 6 - i as u32, 10));
            }
        }
        3 => {
            for i in 0..3 {
                w.txs[i].date = c.date(&format!("d{}", i));
                c.assume_le(&w.txs[i].date, &Val::int(today()));
            }
        }
        _ => {
            w.txs[(f + 1) % 3].date = w.txs[f].date.clone();
        }
    }
    let tx = &mut w.txs[f];
    tx.mark = ["", "* ", "! ", "(\"A1\") ", "Words | ", "! (\"B 2\") Bought | "][dev.pick(c, "mark", 5) as usize].into();
    tx.eff = ["", "=2021-12-31", "=2020-01-01"][dev.pick(c, "effective date", 2) as usize].into();
    tx.time = ["", " 10:20:30", " 23:59:09"][dev.pick(c, "time", 2) as usize].into();
    match dev.pick(c, "note", 7) {
        0 => (),
        1 => tx.tail = "  ; remark".into(),
        2 => tx.tail = "  ; :trip:".into(),
        3 => tx.tail = " ; where: paris".into(),
        4 => tx.notes.push("remark 10 EUR".into()),
        5 => tx.notes.push(":trip:fun:".into()),
        6 => {
            tx.tail = "  ; remark".into();
            tx.notes.push(":trip:".into());
            tx.notes.push("something other".into());
        }
        _ => {
            tx.notes.push("other :trip:".into());
            tx.notes.push("where: rome".into());
            tx.notes.push("last remark".into());
        }
    }
    tx.style = dev.pick(c, "notation", 3);
    match dev.pick(c, "commodity", 7) {
        0 => (),
        1 => {
            for l in &mut tx.lines {
                if let Some(a) = &mut l.amt {
                    a.1 = "USD";
                }
            }
        }
        k => {
            let q = Val::int(if k == 4 || k == 5 { -4 } else { 4 });
            let m = dev.amount(c, "price", 1, 4);
            let worth = q.mul(&m);
            let acc = tx.lines[main].acc.clone();
            tx.lines[main] = match k {
                2 | 4 => p(&acc, &q, "ACME").cost(false, &m),
                3 | 5 => p(&acc, &q, "ACME").cost(true, &m.mul(&Val::int(4))),
                _ => p(&acc, &q, "ACME"),
            };
            if k >= 6 || tx.lines[side].amt.is_some() {
                tx.lines[side].amt = Some((worth.neg(), "EUR"));
            }
            if k == 7 {
                // the other way round: sold shares
                tx.lines[main].amt = Some((q.neg(), "ACME"));
                tx.lines[side].amt = Some((worth, "EUR"));
            }
        }
    }
    let worth = tx.lines[main].at_cost().unwrap();
    let exchange = tx.lines[side].amt.as_ref().map_or(false, |a| a.1 != worth.1);
    match dev.pick(c, "other side", 4) {
        0 => (),
        _ if exchange => (),
        1 => {
            // explicit instead of left out, or the opposite
            tx.lines[side].amt = match tx.lines[side].amt {
                None => Some((worth.0.neg(), worth.1)),
                Some(_) => None,
            }
        }
        2 => tx.lines.swap(0, 1),
        3 => {
            // in two parts on the same account
            let part = dev.amount(c, "part", 1, 2);
            let acc = tx.lines[side].acc.clone();
            tx.lines[side].amt = Some((worth.0.add(&part).neg(), worth.1));
            tx.lines.push(p(&acc, &part, worth.1));
        }
        _ => {
            let acc = tx.lines[main].acc.clone();
            tx.lines[side].acc = acc;
        }
    }
    let has_out = tx.lines.iter().any(|l| l.amt.is_none());
    let (side_acc, main_acc) = (tx.lines[side.min(1)].acc.clone(), tx.lines[main].acc.clone());
    let k = dev.pick(c, "further postings", 19);
    if k > 0 {
        let e = dev.amount(c, "e", 1, 2);
        let g = dev.amount(c, "g", 3, 4);
        let more = match k {
            1 => vec![p("Budget:Food", &e, "EUR").kind('(')],
            2 => vec![p("Assets:Bank", &e, "USD").kind('(')],
            3 => vec![p("Savings", &e, "EUR").kind('['), p("Assets:Bank", &e.neg(), "EUR").kind('[')],
            4 => vec![
                p("Savings", &Val::int(4), "ACME").cost(false, &g).kind('['),
                p("Assets:Bank", &g.mul(&Val::int(-4)), "EUR").kind('['),
            ],
            5 => vec![p("Assets:Cash", &Val::zero(), "EUR")],
            6 => vec![p("Assets", &e, "USD"), p("Equity", &e.neg(), "USD")],
            7 => vec![p("A:B:C:D:E:F", &e, "EUR"), p("A:B", &e.neg(), "EUR")],
            8 => vec![p("Assets:Banking", &e, "EUR"), p("Assets:Ban", &e.neg(), "EUR")],
            9 => vec![p(&side_acc, &e, "EUR"), p(&main_acc, &e.neg(), "EUR")],
            10 => vec![p("Assets:Bank", &e, "USD").kind('('), p("Assets:Bank", &g, "ACME").kind('(')],
            11 => vec![p("Assets:Bank", &e, "USD"), p("Equity", &e.neg(), "USD"), p("Assets:Bank", &g, "ACME"), p("Equity", &g.neg(), "ACME")],
            12 if has_out => vec![p("Assets:Cash", &e, "USD"), p("Assets:Cash", &g, "ACME")],
            12 => vec![p("Assets:Cash", &e, "EUR"), p("Assets:Cash", &e.neg(), "EUR")],
            13 => vec![p("Savings", &e, "USD").kind('['), p("Savings", &g.neg(), "EUR").kind('[')],
            14 => vec![p("Savings", &Val::int(-4), "ACME").cost(true, &g).kind('['), p("Savings", &g, "EUR").kind('[')],
            15 => vec![p("Holdings", &Val::int(4), "ACME").cost(false, &g), p("Holdings", &Val::int(-4), "ACME").cost(true, &g.mul(&Val::int(4)))],
            16 => vec![p("Holdings", &Val::int(4), "ACME").cost(true, &g).kind('(')],
            17 => vec![p("Old:Assets:Bank:Sub", &e, "EUR"), p("Bank:Sub", &e.neg(), "EUR")],
            18 => vec![p("assets rent:Ünïted Straße-2", &e, "EUR"), p("Rent", &e.neg(), "EUR")],
            _ => vec![p(&main_acc, &money, "EUR"), p(&side_acc, &money.neg(), "EUR")],
        };
        tx.lines.extend(more);
        match dev.pick(c, "arrangement", 2) {
            0 => (),
            1 => tx.lines.reverse(),
            _ => {
                let l = tx.lines.pop().unwrap();
                tx.lines.insert(1, l);
            }
        }
    }
    match dev.pick(c, "posting note", 5) {
        0 => (),
        1 => tx.lines[0].tail = "  ; remark".into(),
        2 => tx.lines[0].tail = "  ; :trip:".into(),
        3 => tx.lines[0].notes.push(":trip:".into()),
        4 => {
            tx.lines[0].notes.push("remark".into());
            tx.lines[0].notes.push("where: paris".into());
        }
        _ => tx.lines.last_mut().unwrap().notes.push(":trip:".into()),
    }
    match dev.pick(c, "balance", 3) {
        0 => (),
        1 => tx.lines.iter_mut().find(|l| l.real() && l.amt.is_some()).unwrap().check = Check::Asserted,
        2 => {
            if let Some(l) = tx.lines.iter_mut().rev().find(|l| l.real() && l.amt.is_some()) {
                l.check = Check::Asserted
            }
        }
        _ => {
            if let Some(l) = tx.lines.iter_mut().find(|l| l.real() && l.amt.is_some() && l.cost.is_none()) {
                l.check = Check::Assigned
            }
        }
    }
    match dev.pick(c, "price", 4) {
        0 => (),
        1 => price(&mut w, 2021, "ACME", 3, "EUR"),
        2 => price(&mut w, 2020, "USD", 2, "EUR"),
        3 => price(&mut w, 2088, "ACME", 7, "EUR"),
        _ => {
            price(&mut w, 2021, "ACME", 3, "USD");
            price(&mut w, 2020, "ACME", 5, "USD");
        }
    }
    match dev.pick(c, "names", 8) {
        0 => (),
        1 => w.head.push_str("account Assets:Bank\n    note a bank\naccount Assets:Cash\n"),
        2 => {
            w.head.push_str("account Assets:Bank\n    alias bank\naccount Expenses:Food\n    alias food\n");
            w.spell.extend(vec![("Assets:Bank", "bank"), ("Expenses:Food", "food")]);
        }
        3 => {
            w.head.push_str("account Assets:Bank\naccount Expenses:Food\naccount Expenses:Food:Fruit\n");
            w.spell.extend(vec![("Assets:Bank", "assets:bank"), ("Expenses:Food", "expenses:FOOD"), ("Expenses:Food:Fruit", "EXPENSES:FOOD:FRUIT")]);
        }
        4 => {
            w.head.push_str("commodity EUR\n    alias euro\ncommodity ACME\n    alias shares\n");
            w.spell_cur.extend(vec![("EUR", "euro"), ("ACME", "shares")]);
        }
        5 => {
            let name = w.txs[f].payee.clone();
            w.head.push_str(&format!("payee {}\n    alias zulu\n", name));
            w.spell_payee = Some("zulu");
        }
        6 => {
            w.head.push_str("commodity EUR\ncommodity USD\ncommodity ACME\n");
            w.spell_cur.extend(vec![("EUR", "eur"), ("USD", "Usd")]);
        }
        7 => {
            w.head.push_str("account Assets:Bank\n    alias bank\naccount ASSETS:BANK\n    alias bnk\ncommodity EUR\n    alias euro\ncommodity Eur\n    alias eu\n");
            w.spell.push(("Assets:Bank", "bnk"));
            w.spell_cur.push(("EUR", "eu"));
        }
        _ => w.head.push_str("payee Shop\npayee Market\npayee Employer\ntag trip\n; a comment\n"),
    }
    let k = dev.pick(c, "rule", 4);
    if k > 0 {
        w.rule = Some(rule(k));
    }
    match dev.pick(c, "more transactions", 3) {
        0 => (),
        1 => {
            let again = w.txs[f].clone();
            if again.lines.iter().all(|l| l.check == Check::No) {
                w.txs.push(again);
            }
        }
        2 => {
            // many on the same date
            let d = w.txs[f].date.clone();
            for i in 0..24 {
                let x = Val::int(i + 1);
                let mut e = t(2021, 1, 1, &format!("Extra{}", i), vec![p("Assets:Bank", &x.neg(), "EUR"), p("Expenses:Extra", &x, "EUR")]);
                e.date = d.clone();
                w.txs.push(e);
            }
        }
        _ => {
            let last = c.frac("last", 1, 2);
            w.txs.push(t(2021, 12, 1, "Last", vec![p("Expenses:Food", &last, "USD"), p("Expenses:Food", &last.neg(), "USD")]));
        }
    }
    w.files = dev.pick(c, "files", 4);
    w.layout = dev.pick(c, "layout", 5);
    w
}
fn price(w: &mut World, y: i32, a: &'static str, k: i64, b: &'static str) {
    w.head.push_str(&format!("P {}-01-02 {} {} {}\n", y, a, k, b));
    w.prices.push((Val::int(days(y, 1, 2)), a, Val::int(k), b));
}
fn rule(k: u32) -> Rule {
    match k {
        1 => Rule { text: "= food\n    (Budget)    0.5\n".into(), on: "food", adds: vec![('(', "Budget", Some(Val::rat(1, 2)), None)] },
        2 => Rule {
            text: "= expr \"account =~ /Food/\"\n    [Budget]    -2 EUR\n    [Equity]    2 EUR\n".into(),
            on: "food",
            adds: vec![('[', "Budget", None, Some((Val::int(-2), "EUR"))), ('[', "Equity", None, Some((Val::int(2), "EUR")))],
        },
        3 => Rule {
            text: "= bank\n    Reserve:Bank    1\n    Reserve:Open    -1\n".into(),
            on: "bank",
            adds: vec![(' ', "Reserve:Bank", Some(Val::int(1)), None), (' ', "Reserve:Open", Some(Val::int(-1)), None)],
        },
        _ => Rule {
            text: "= expr \"account =~ /Bank/\"\n    (Seen:Bank)    (amount * 2)\n    (Count)    1 X\n".into(),
            on: "bank",
            adds: vec![('(', "Seen:Bank", Some(Val::int(2)), None), ('(', "Count", None, Some((Val::int(1), "X")))],
        },
    }
}

// ---- their text -----------------------------------------------------------------------------

fn money(c: &Ctx, v: &Val, cur: &str, style: u32) -> String {
    let n = c.amt_d(v, 3);
    match style {
        1 => format!("{} {}", cur, n),
        2 => format!("{}{}", n, cur),
        3 => format!("\"{}\"{}", cur, n),
        _ => format!("{} {}", n, cur),
    }
}
impl T {
    /// what a report shows in the transaction's first line
    fn shown(&self) -> &str {
        match self.mark.trim_end_matches("| ").split_whitespace().last() {
            Some(d) if self.mark.ends_with("| ") => d,
            _ => &self.payee,
        }
    }
}
impl World {
    fn tx_text(&self, c: &Ctx, i: usize) -> String {
        let tx = &self.txs[i];
        let me = i == self.focus;
        let payee = match self.spell_payee {
            Some(s) if me => s,
            _ => &tx.payee,
        };
        let spell = |list: &[(&'static str, &'static str)], s: &str| -> String {
            list.iter().find(|x| me && x.0 == s).map_or(s.to_string(), |x| x.1.to_string())
        };
        let mut s = format!("{}{}{} {}{}{}\n", c.day(&tx.date), tx.time, tx.eff, tx.mark, payee, tx.tail);
        for n in &tx.notes {
            s.push_str(&format!("    ; {}\n", n));
        }
        for l in &tx.lines {
            let acc = spell(&self.spell, &l.acc);
            let acc = match l.kind {
                '(' => format!("({})", acc),
                '[' => format!("[{}]", acc),
                _ => acc,
            };
            s.push_str(&format!("    {}", acc));
            if let Some((v, cur)) = &l.amt {
                s.push_str("    ");
                if l.check != Check::Assigned {
                    s.push_str(&money(c, v, &spell(&self.spell_cur, cur), tx.style));
                }
                if let Some(k) = &l.cost {
                    s.push_str(&format!(" {} {}", if k.total { "@@" } else { "@" }, money(c, &k.v, &spell(&self.spell_cur, k.cur), tx.style)));
                }
                if l.check != Check::No {
                    let right = l.right.as_ref().expect("balance not known");
                    s.push_str(&format!(" = {}", money(c, right, &spell(&self.spell_cur, cur), tx.style)));
                }
            }
            s.push_str(&l.tail);
            s.push('\n');
            for n in &l.notes {
                s.push_str(&format!("      ; {}\n", n));
            }
        }
        s
    }
    fn files(&self, c: &Ctx) -> Vec<(String, String)> {
        let txs: Vec<String> = (0..self.txs.len()).map(|i| self.tx_text(c, i)).collect();
        let rule = self.rule.as_ref().map_or(String::new(), |r| r.text.clone() + "\n");
        let sep = if self.layout == 4 { "\n\n" } else { "\n" };
        let f = self.focus;
        let mut files = match self.files {
            1 => {
                let mut l = txs.clone();
                let moved = std::mem::replace(&mut l[f], "include sub/part.ledger\n".into());
                vec![("main.ledger".to_string(), self.head.clone() + &rule + &l.join(sep)), ("sub/part.ledger".to_string(), moved)]
            }
            2 => vec![
                ("main.ledger".to_string(), format!("include head.ledger\n{}", txs.join(sep))),
                ("head.ledger".to_string(), self.head.clone() + &rule),
            ],
            3 => vec![
                ("main.ledger".to_string(), format!("{}{}{}{}include a/rest.ledger\n", self.head, rule, txs[0], sep)),
                ("a/rest.ledger".to_string(), format!("{}{}include last.ledger\n", txs[1], sep)),
                ("a/last.ledger".to_string(), txs[2..].join(sep)),
            ],
            4 => {
                // the last directive, which may repeat an earlier one, in a file of its own
                let k = self.head.rfind(|x: char| x == '\n').map_or(0, |e| {
                    let mut at = e;
                    while at > 0 && (self.head[..at].ends_with('\n') == false || self.head[at..].starts_with(' ')) {
                        at -= 1;
                    }
                    at
                });
                vec![
                    ("main.ledger".to_string(), format!("{}include last.ledger\n{}{}", &self.head[..k], rule, txs.join(sep))),
                    ("last.ledger".to_string(), self.head[k..].to_string()),
                ]
            }
            _ => vec![("main.ledger".to_string(), self.head.clone() + &rule + &txs.join(sep))],
        };
        for x in &mut files {
            x.1 = laid_out(&x.1, self.layout);
        }
        files
    }
    fn run(&self, c: &mut Ctx, args: &[&str]) -> Run {
        let f = self.files(c);
        let f: Vec<(&str, &str)> = f.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
        c.run_files(args, &f)
    }
}
fn laid_out(s: &str, how: u32) -> String {
    match how {
        1 => s.replace('\n', "\r\n"),
        2 => s.lines().map(|l| if l.starts_with("    ") { format!("\t{}  \n", l.trim_start().replace("    ", "\t")) } else { format!("{}\n", l) }).collect(),
        3 => s.trim_end().to_string(),
        5 => s.lines().map(|l| if l.starts_with(' ') { format!("{}\n      ; 3 EUR\n", l) } else { format!("{}\n", l) }).collect::<String>() + "; end",
        _ => s.to_string(),
    }
}

// ---- their meaning --------------------------------------------------------------------------

#[derive(Clone)]
struct E {
    tx: usize,
    kind: char,
    acc: String,
    cur: String,
    v: Val,
    filled: bool,
    /// a zero posting of which the report may say nothing
    optional: bool,
    /// tags and notes of the posting itself
    tags: String,
}
struct Meaning {
    /// transactions by date
    order: Vec<usize>,
    entries: Vec<E>,
    /// every transaction balances
    balanced: bool,
    /// nothing whose meaning is left open
    clear: bool,
    running: BTreeMap<(String, String), Val>,
}
fn balances(s: &Sums) -> bool {
    let signs: Vec<i32> = s.0.values().map(sign).collect();
    signs.iter().all(|x| *x == 0) || (signs.contains(&1) && signs.contains(&-1))
}
fn by_date(txs: &[T]) -> Vec<usize> {
    let mut r: Vec<usize> = vec![];
    for (i, t) in txs.iter().enumerate() {
        let mut k = r.len();
        while k > 0 && t.date.lt(&txs[r[k - 1]].date) {
            k -= 1;
        }
        r.insert(k, i);
    }
    r
}
impl World {
    /// What the journal means; fills in the asserted balances.
    fn meaning(&mut self) -> Meaning {
        let order = by_date(&self.txs);
        let mut m = Meaning { order: order.clone(), entries: vec![], balanced: true, clear: true, running: BTreeMap::new() };
        for &i in &order {
            let rule = self.rule.clone();
            let tx = &mut self.txs[i];
            let mut real = Sums::default();
            let mut brackets = Sums::default();
            let mut missing: Option<(String, String)> = None;
            let mut mine = vec![];
            let mut virt = vec![];
            for l in &mut tx.lines {
                let tags = format!("{} {}", l.tail, l.notes.join(" "));
                let (v, cur) = match &l.amt {
                    None => {
                        missing = Some((l.acc.clone(), tags));
                        continue;
                    }
                    Some(x) => x.clone(),
                };
                let (x, xc) = l.at_cost().unwrap();
                if l.real() {
                    real.add(xc, &x);
                    if l.check == Check::Assigned && m.running.keys().any(|k| k.0 == l.acc && k.1 != cur) {
                        m.clear = false;
                    }
                    if l.check != Check::No && missing.as_ref().map_or(false, |a| a.0 == l.acc) {
                        m.clear = false;
                    }
                    let b = m.running.entry((l.acc.clone(), cur.to_string())).or_insert_with(Val::zero);
                    *b = b.add(&v);
                    l.right = Some(b.clone());
                } else if l.kind == '[' {
                    brackets.add(xc, &x);
                }
                let e = E { tx: i, kind: l.kind, acc: l.acc.clone(), cur: cur.into(), v, filled: false, optional: false, tags };
                if l.real() {
                    mine.push(e)
                } else {
                    virt.push(e)
                }
            }
            if let Some((acc, tags)) = missing {
                let mut any = false;
                for (cur, v) in &real.nonzero().0 {
                    any = true;
                    let b = m.running.entry((acc.clone(), cur.clone())).or_insert_with(Val::zero);
                    *b = b.sub(v);
                    mine.push(E { tx: i, kind: ' ', acc: acc.clone(), cur: cur.clone(), v: v.neg(), filled: true, optional: false, tags: tags.clone() });
                }
                if !any {
                    mine.push(E { tx: i, kind: ' ', acc, cur: String::new(), v: Val::zero(), filled: true, optional: true, tags });
                }
            } else {
                m.balanced &= balances(&real);
            }
            m.balanced &= balances(&brackets);
            mine.extend(virt);
            let mut added = vec![];
            if let Some(r) = &rule {
                for e in &mine {
                    if e.optional || !e.acc.to_lowercase().contains(r.on) {
                        continue;
                    }
                    for (kind, acc, times, fixed) in &r.adds {
                        let (v, cur) = match (times, fixed) {
                            (Some(k), _) => (e.v.mul(k), e.cur.clone()),
                            (_, Some(x)) => (x.0.clone(), x.1.to_string()),
                            _ => unreachable!(),
                        };
                        added.push(E { tx: i, kind: *kind, acc: acc.to_string(), cur, v, filled: true, optional: false, tags: String::new() });
                    }
                }
            }
            mine.extend(added);
            m.entries.extend(mine);
        }
        m
    }
}
fn sums(entries: &[E]) -> Accounts {
    let mut a = Accounts::default();
    for e in entries {
        post(&mut a, &e.acc, &e.cur, &e.v);
    }
    a
}

/// The register shows exactly these postings.
fn check_reg(c: &Ctx, w: &World, m: &Meaning, keep: &dyn Fn(&E) -> bool, outp: &str) {
    let rows = text::register(c, outp);
    let mut i = 0;
    let mut sums = Sums::default();
    for &k in &m.order {
        let mut left: Vec<&E> = m.entries.iter().filter(|e| e.tx == k && keep(e)).collect();
        let tx = &w.txs[k];
        let mut first = true;
        while !left.is_empty() {
            if left.iter().all(|e| e.optional) && (i == rows.len() || rows[i].head.is_some() != first || !left.iter().any(|e| e.acc == rows[i].account)) {
                break;
            }
            if i == rows.len() {
                c.fail("postings listed", &format!("the register ends before {} of {}\n{}", left[0].acc, tx.payee, outp));
            }
            let r = &rows[i];
            match &r.head {
                Some((d, p)) if first => {
                    if left.iter().all(|e| e.optional) && p != tx.shown() {
                        break;
                    }
                    c.eq("order of transactions", d, &tx.date, &format!("line {}: another transaction (or its date) is expected here", i + 1));
                    c.ok("order of transactions", p == tx.shown(), &format!("line {}: the register shows {} where {} is expected\n{}", i + 1, p, tx.shown(), outp));
                }
                None if !first => (),
                _ => c.fail("order of transactions", &format!("line {} of the register: a posting of {} is expected\n{}", i + 1, tx.payee, outp)),
            }
            first = false;
            let zero = r.amount.cur.is_empty() && is_zero_const(&r.amount.v);
            let name = |e: &E| match e.kind {
                '(' => format!("({})", e.acc),
                '[' => format!("[{}]", e.acc),
                _ => e.acc.clone(),
            };
            let e = match left.iter().position(|e| name(e) == r.account && (e.cur == r.amount.cur || zero)) {
                Some(f) => left.remove(f),
                None => c.fail("postings listed", &format!("line {}: {:?} is not a posting of {} that is left\n{}", i + 1, r.account, tx.payee, outp)),
            };
            c.eq("posting amount", &r.amount.v, &shown(&e.v), &format!("line {}: wrong amount for {}", i + 1, r.account));
            sums.add(&e.cur, &e.v);
            same_amounts(c, "running total", &format!("running total on line {}", i + 1), &r.running, &sums);
            i += 1;
        }
    }
    c.ok("postings listed", i == rows.len(), &format!("the register has {} lines, {} are expected\n{}", rows.len(), i, outp));
}

/// an accepted journal and its meaning
fn sound(c: &Ctx, n: u32) -> Option<(World, Meaning)> {
    let dev = Dev::new(c, n);
    let mut w = build(c, &dev);
    let m = w.meaning();
    if !m.clear || !m.balanced {
        return None;
    }
    Some((w, m))
}

// ---- the properties ---------------------------------------------------------------------------

fn verdict(c: &mut Ctx) {
    let dev = Dev::new(c, 2);
    let mut w = build(c, &dev);
    // one amount is something else
    let f = w.focus;
    let given: Vec<usize> = (0..w.txs[f].lines.len()).filter(|&i| w.txs[f].lines[i].amt.is_some() && w.txs[f].lines[i].check != Check::Assigned).collect();
    if given.is_empty() {
        return;
    }
    let k = given[c.choose("changed posting", given.len() as u32) as usize];
    let e = c.int("change");
    let l = &mut w.txs[f].lines[k];
    if l.cost.is_some() {
        let k = l.cost.as_mut().unwrap();
        k.v = k.v.add(&e);
        let v = k.v.clone();
        c.assume_lt(&Val::zero(), &v);
    } else {
        let a = l.amt.as_mut().unwrap();
        a.0 = a.0.add(&e);
    }
    let m = w.meaning();
    if !m.clear {
        return;
    }
    let r = w.run(c, &["check"]);
    let ok = accepted(c, &r);
    c.cover(if ok { "accepted" } else { "rejected" });
    if ok {
        c.ok("accepted unbalanced", m.balanced, "accepted, but a transaction does not balance");
    } else {
        c.ok("rejected balanced", !m.balanced, "rejected although every transaction balances");
    }
}

fn filled(c: &mut Ctx) {
    let (w, m) = match sound(c, 2) {
        Some(x) => x,
        None => return,
    };
    if !m.entries.iter().any(|e| e.filled && e.tx == w.focus) {
        return;
    }
    c.cover("filled");
    let r = w.run(c, &["bal", "--flat", "--no-total"]);
    must_run(c, &r);
    check_flat(c, &r.out, &sums(&m.entries), false);
}

fn assertion(c: &mut Ctx) {
    let dev = Dev::new(c, 2);
    let mut w = build(c, &dev);
    let f = w.focus;
    // a last transaction that asserts something
    let mut accs: Vec<(String, &'static str)> = vec![];
    let nothing = c.choose("asserted account", 3) as usize;
    for l in &w.txs[f].lines {
        let cur = l.amt.as_ref().map_or("EUR", |a| a.1);
        if l.real() && !accs.contains(&(l.acc.clone(), cur)) {
            accs.push((l.acc.clone(), cur));
        }
    }
    let (acc, cur) = match accs.get(nothing) {
        Some(x) => x.clone(),
        None => return,
    };
    let x = c.frac("asserted", 25, 100);
    let mut last = t(2022, 1, 1, "Final", vec![p(&acc, &Val::zero(), cur), p("Nothing", &Val::zero(), cur)]);
    let early = dev.pick(c, "assertion", 2);
    if early > 0 {
        last.date = w.txs[f].date.clone();
    } else if w.txs.iter().any(|t| t.date.as_const().is_none()) {
        last.date = Val::int(days(2089, 12, 31));
    }
    let at = if early == 2 {
        w.txs.insert(0, last);
        w.focus += 1;
        if w.files > 0 {
            return;
        }
        0
    } else {
        w.txs.push(last);
        w.txs.len() - 1
    };
    w.txs[at].lines[0].check = Check::Asserted;
    let m = w.meaning();
    if !m.clear || !m.balanced {
        return;
    }
    let right = w.txs[at].lines[0].right.replace(x.clone()).unwrap();
    let r = w.run(c, &["check"]);
    if accepted(c, &r) {
        c.cover("accepted");
        c.eq("wrong assertion accepted", &x, &right, "a balance assertion that does not hold was accepted");
    } else {
        c.cover("rejected");
        c.ne("right assertion rejected", &x, &right, "a balance assertion that holds was rejected");
    }
    if w.txs.len() <= 4 {
        // and with the right balance
        w.txs[at].lines[0].right = Some(right);
        let r = w.run(c, &["check"]);
        c.ok("right assertion rejected", accepted(c, &r), "a balance assertion that holds was rejected");
    }
}

fn flat(c: &mut Ctx) {
    let dev = Dev::new(c, 2);
    let depth = [99, 1, 2, 4][dev.pick(c, "depth", 3) as usize];
    let mut w = build(c, &dev);
    let m = w.meaning();
    if !m.clear || !m.balanced {
        return;
    }
    let d = depth.to_string();
    let args: Vec<&str> = if depth == 99 { vec!["bal", "--flat"] } else { vec!["bal", "--flat", "--depth", &d] };
    let r = w.run(c, &args);
    must_run(c, &r);
    c.cover("checked");
    let mut want = Accounts::default();
    for e in &m.entries {
        post(&mut want, &cut(&e.acc, depth), &e.cur, &e.v);
    }
    check_flat(c, &r.out, &want, true);
}

fn tree(c: &mut Ctx) {
    let dev = Dev::new(c, 2);
    let depth = [99, 1, 2, 4][dev.pick(c, "depth", 3) as usize];
    let mut w = build(c, &dev);
    let m = w.meaning();
    if !m.clear || !m.balanced {
        return;
    }
    let d = depth.to_string();
    let args: Vec<&str> = if depth == 99 { vec!["bal"] } else { vec!["bal", "--depth", &d] };
    let r = w.run(c, &args);
    must_run(c, &r);
    c.cover("checked");
    check_tree(c, &r.out, &sums(&m.entries), depth, true);
}

fn register(c: &mut Ctx) {
    let (w, m) = match sound(c, 2) {
        Some(x) => x,
        None => return,
    };
    let r = w.run(c, &["reg"]);
    must_run(c, &r);
    c.cover("checked");
    check_reg(c, &w, &m, &|_| true, &r.out);
}

fn check_selected(c: &mut Ctx, w: &World, m: &Meaning, how: u32, extra: &[&str], keep: &dyn Fn(&E) -> bool) {
    let mut args = match how {
        0 => vec!["bal", "--flat"],
        1 => vec!["bal"],
        _ => vec!["reg"],
    };
    args.extend(extra);
    let r = w.run(c, &args);
    must_run(c, &r);
    let kept: Vec<E> = m.entries.iter().filter(|e| keep(e)).cloned().collect();
    if !kept.is_empty() {
        c.cover("kept");
    }
    if kept.len() < m.entries.len() {
        c.cover("dropped");
    }
    match how {
        0 => check_flat(c, &r.out, &sums(&kept), true),
        1 => {
            check_tree(c, &r.out, &sums(&kept), 99, true);
        }
        _ => check_reg(c, w, m, keep, &r.out),
    }
}

fn filters(c: &mut Ctx) {
    let how = c.choose("report", 3);
    let what = c.choose("filter", 7);
    let (w, m) = match sound(c, 1) {
        Some(x) => x,
        None => return,
    };
    let symbolic = w.txs.iter().any(|t| t.date.as_const().is_none());
    // around the focus transaction's date
    let day = if symbolic { c.date("bound") } else { w.txs[w.focus].date.clone() };
    let text = c.day(&day);
    let begin = |e: &E| day.le(&w.txs[e.tx].date);
    let end = |e: &E| w.txs[e.tx].date.lt(&day);
    match what {
        0 => check_selected(c, &w, &m, how, &["-b", &text], &begin),
        1 => check_selected(c, &w, &m, how, &["-e", &text], &end),
        2 => check_selected(c, &w, &m, how, &["--real"], &|e| e.kind == ' '),
        3 => check_selected(c, &w, &m, how, &["--real", "-b", &text], &|e| e.kind == ' ' && begin(e)),
        4 => check_selected(c, &w, &m, how, &["-b", "2021-01-01", "-e", &text], &|e| end(e) && Val::int(days(2021, 1, 1)).le(&w.txs[e.tx].date)),
        5 => check_selected(c, &w, &m, how, &["-b", &text, "assets"], &|e| begin(e) && e.acc.to_lowercase().contains("assets")),
        _ => check_selected(c, &w, &m, how, &["--real", "-e", &text, "-b", "2021-01-05", "bank"], &|e| {
            e.kind == ' ' && end(e) && Val::int(days(2021, 1, 5)).le(&w.txs[e.tx].date) && e.acc.to_lowercase().contains("bank")
        }),
    }
}

fn queries(c: &mut Ctx) {
    let what = c.choose("query", 21);
    let how = if what < 8 { 2 * c.choose("report", 2) } else { 2 * (what % 2) };
    let (w, m) = match sound(c, 1) {
        Some(x) => x,
        None => return,
    };
    let acc = |e: &E, s: &str| e.acc.to_lowercase().contains(s);
    let payee = |e: &E, s: &str| w.txs[e.tx].payee.to_lowercase().contains(s);
    let tagged = |e: &E, s: &str| {
        let tx = &w.txs[e.tx];
        format!("{} {} {}", tx.tail, tx.notes.join(" "), e.tags).contains(&format!(":{}:", s))
    };
    let noted = |e: &E, s: &str| {
        let tx = &w.txs[e.tx];
        format!("{} {}", tx.tail, tx.notes.join(" ")).contains(s)
    };
    let day = w.txs[w.focus].date.clone();
    let d = c.day(&day);
    let date = |e: &E| w.txs[e.tx].date.clone();
    let big = Val::int(10);
    // comparing with a number is only meaningful where the posting has an amount
    match what {
        0 => check_selected(c, &w, &m, how, &["bank"], &|e| acc(e, "bank")),
        1 => check_selected(c, &w, &m, how, &["food", "cash"], &|e| acc(e, "food") || acc(e, "cash")),
        2 => check_selected(c, &w, &m, how, &["assets", "and", "@shop"], &|e| acc(e, "assets") && payee(e, "shop")),
        3 => check_selected(c, &w, &m, how, &["@employer", "@MARKET"], &|e| payee(e, "employer") || payee(e, "market")),
        4 => {
            if w.rule.is_none() {
                check_selected(c, &w, &m, how, &["%trip"], &|e| tagged(e, "trip"))
            }
        }
        5 => check_selected(c, &w, &m, how, &["/Food/"], &|e| e.acc.contains("Food")),
        6 => check_selected(c, &w, &m, how, &["expr", "(not account =~ /Bank/)"], &|e| !e.acc.contains("Bank")),
        7 => check_selected(c, &w, &m, how, &["fruit", "and", "assets", "bank"], &|e| (acc(e, "fruit") && acc(e, "assets")) || acc(e, "bank")),
        8 => check_selected(c, &w, &m, how, &["expr", &format!("(date >= to_date(\"{}\"))", d)], &|e| day.le(&date(e))),
        9 => check_selected(c, &w, &m, how, &["expr", "(account =~ /Bank/ or payee =~ /Shop/)"], &|e| e.acc.contains("Bank") || w.txs[e.tx].payee.contains("Shop")),
        10 => check_selected(c, &w, &m, how, &["expr", "(abs(amount) > 10)"], &|e| big.lt(&e.v.abs())),
        11 => check_selected(c, &w, &m, how, &["expr", "(amount < 10 and account =~ /e/)"], &|e| e.v.lt(&big) && e.acc.contains('e')),
        12 => check_selected(c, &w, &m, how, &["expr", "(any(account =~ /Food/))"], &|e| m.entries.iter().any(|x| x.tx == e.tx && x.acc.contains("Food"))),
        13 => check_selected(c, &w, &m, how, &["expr", "(not (account =~ /Food/ or payee =~ /Employer/))"], &|e| {
            !(e.acc.contains("Food") || w.txs[e.tx].payee.contains("Employer"))
        }),
        14 => {
            if w.rule.is_none() {
                check_selected(c, &w, &m, how, &["expr", "(has_tag(/trip/))"], &|e| tagged(e, "trip"))
            }
        }
        15 => check_selected(c, &w, &m, how, &["expr", "(amount * 2 >= 20 and 1 + 2 * 3 == 7)"], &|e| big.le(&e.v)),
        16 => check_selected(c, &w, &m, how, &["expr", "(note =~ /remark/)"], &|e| noted(e, "remark")),
        17 => check_selected(c, &w, &m, how, &["expr", "(not note =~ /other/ and account =~ /food/)", "/Food/"], &|e| {
            (!noted(e, "other") && e.acc.contains("food")) || e.acc.contains("Food")
        }),
        18 => check_selected(c, &w, &m, how, &["/assets/", "/ssets/"], &|e| e.acc.contains("assets") || e.acc.contains("ssets")),
        19 => {
            if w.rule.is_none() {
                check_selected(c, &w, &m, how, &["expr", "(tag('where') == 'paris' or tag(/whe/) =~ /^ro/)"], &|e| {
                    let tx = &w.txs[e.tx];
                    let t = format!("{} {} {}", tx.tail, tx.notes.join(" "), e.tags);
                    t.contains("where: paris") || t.contains("where: rome")
                })
            }
        }
        _ => check_selected(c, &w, &m, how, &["expr", "(any(amount < -10))"], &|e| {
            m.entries.iter().any(|x| x.tx == e.tx && x.v.lt(&big.neg()))
        }),
    }
}

// ---- prices -----------------------------------------------------------------------------------

struct Price {
    date: Val,
    from: &'static str,
    v: Val,
    to: &'static str,
    implied: bool,
}
impl World {
    /// the prices the journal states, in the order of the journal
    fn stated(&self) -> Vec<Price> {
        let mut r: Vec<Price> =
            self.prices.iter().map(|x| Price { date: x.0.clone(), from: x.1, v: x.2.clone(), to: x.3, implied: false }).collect();
        for tx in &self.txs {
            let mut real = Sums::default();
            let mut open = true;
            for l in &tx.lines {
                match (&l.amt, &l.cost) {
                    (Some((v, cur)), Some(k)) => {
                        let u = if k.total { k.v.div(&v.abs()) } else { k.v.clone() };
                        r.push(Price { date: tx.date.clone(), from: cur, v: u, to: k.cur, implied: false });
                    }
                    (None, _) => open = false,
                    _ => (),
                }
                if let (true, Some((v, cur))) = (l.real(), l.at_cost()) {
                    real.add(cur, &v);
                }
            }
            let left = real.nonzero();
            if open && left.0.len() == 2 {
                let names = ["ACME", "EUR", "USD"];
                let mut it = left.0.iter();
                let (a, b) = (it.next().unwrap(), it.next().unwrap());
                let name = |s: &str| *names.iter().find(|x| **x == s).unwrap();
                r.push(Price { date: tx.date.clone(), from: name(a.0), v: b.1.div(a.1).abs(), to: name(b.0), implied: true });
            }
        }
        r
    }
}

fn prices(c: &mut Ctx) {
    let (w, _) = match sound(c, 2) {
        Some(x) => x,
        None => return,
    };
    let r = w.run(c, &["prices"]);
    must_run(c, &r);
    c.cover("listed");
    let mut want = w.stated();
    let rows = text::prices(c, &r.out);
    c.ok("number of prices", rows.len() == want.len(), &format!("{} prices listed, {} expected\n{}", rows.len(), want.len(), r.out));
    for row in &rows {
        let fits = |x: &Price| {
            ((x.from == row.commodity && x.to == row.price.cur) || (x.implied && x.to == row.commodity && x.from == row.price.cur)) && x.date.eq(&row.date)
        };
        let cand: Vec<usize> = (0..want.len()).filter(|&i| fits(&want[i])).collect();
        let mut hit = None;
        for &i in &cand {
            let x = &want[i];
            let v = if x.from == row.commodity { x.v.clone() } else { Val::int(1).div(&x.v) };
            if *cand.last().unwrap() == i {
                c.eq("price", &row.price.v, &shown(&v), &format!("price of {} in {}\n{}", row.commodity, row.price.cur, r.out));
                hit = Some(i);
            } else if row.price.v.eq(&shown(&v)) {
                hit = Some(i);
                break;
            }
        }
        match hit {
            Some(i) => {
                want.remove(i);
            }
            None => c.fail("listed prices", &format!("unexpected price of {} in {}\n{}", row.commodity, row.price.cur, r.out)),
        }
    }
}

fn converted(c: &mut Ctx) {
    let dev = Dev::new(c, 2);
    let mut w = build(c, &dev);
    let m = w.meaning();
    if !m.clear || !m.balanced {
        return;
    }
    // the latest price of each commodity in EUR, where that is all there is
    let all = w.stated();
    let now = Val::int(today());
    let mut best: BTreeMap<&str, &Price> = BTreeMap::new();
    let mut clash = false;
    for x in &all {
        if now.lt(&x.date) {
            continue;
        }
        if x.to != "EUR" && x.from != "EUR" {
            // chains are another unit's
            return;
        }
        let name = if x.from == "EUR" { x.to } else { x.from };
        match best.get(name) {
            Some(b) if x.date.lt(&b.date) => (),
            Some(b) if x.date.eq(&b.date) => clash = true,
            _ => {
                best.insert(name, x);
            }
        }
    }
    if clash {
        return;
    }
    let conv = |cur: &str, v: &Val| -> (String, Val) {
        match best.get(cur) {
            Some(x) if x.to == "EUR" => ("EUR".into(), v.mul(&x.v)),
            Some(x) => ("EUR".into(), v.div(&x.v)),
            None => (cur.to_string(), v.clone()),
        }
    };
    let tree = dev.pick(c, "tree", 1) == 1;
    let r = w.run(c, if tree { &["bal", "-X", "EUR"] } else { &["bal", "--flat", "-X", "EUR"] });
    must_run(c, &r);
    let mut want = Accounts::default();
    for e in &m.entries {
        let (cur, v) = conv(&e.cur, &e.v);
        if cur != e.cur {
            c.cover("converted");
        }
        post(&mut want, &e.acc, &cur, &v);
    }
    if tree {
        check_tree(c, &r.out, &want, 99, true);
    } else {
        check_flat(c, &r.out, &want, true);
    }
}

// ---- comparisons ------------------------------------------------------------------------------

const VIEWS: &[&[&str]] = &[&["bal"], &["reg"], &["bal", "--flat", "-X", "EUR"], &["prices"], &["accounts"], &["commodities"], &["payees"], &["check"]];

fn compare(c: &mut Ctx, a: &World, b: &World, view: &[&str], what: &str) {
    let x = a.run(c, view);
    let y = b.run(c, view);
    c.cover("compared");
    c.ok(
        "same status",
        x.status.short() == y.status.short(),
        &format!("`{}` ends with {} and {}, {}", view.join(" "), x.status.short(), y.status.short(), what),
    );
    if view[0] != "check" {
        text::same_output(c, "same report", &x.out, &y.out, &format!("`{}` differs, {}", view.join(" "), what));
    }
}

fn orders(c: &mut Ctx) {
    let view = VIEWS[c.choose("command", 8) as usize];
    let (w, _) = match sound(c, 1) {
        Some(x) => x,
        None => return,
    };
    if w.txs.len() > 10 {
        return;
    }
    c.hash_order(HashOrder::Insertion);
    let x = w.run(c, view);
    c.hash_order(HashOrder::Any(1));
    let y = w.run(c, view);
    c.hash_order(HashOrder::Insertion);
    c.cover("compared");
    c.ok("same status", x.status.short() == y.status.short(), &format!("`{}` ends once with {} and once with {}", view.join(" "), x.status.short(), y.status.short()));
    if view[0] != "check" {
        text::same_output(c, "same report", &x.out, &y.out, "two runs of the same command differ");
    }
}

fn shown_everywhere(c: &mut Ctx) {
    let how = c.choose("report", 3);
    let (w, m) = match sound(c, 1) {
        Some(x) => x,
        None => return,
    };
    c.cover("checked");
    // with amounts of more decimals than are shown
    if w.txs.len() > 10 {
        return;
    }
    check_selected(c, &w, &m, how, &[], &|_| true);
}

fn notation(c: &mut Ctx) {
    let style = c.choose("notation of the rest", 4);
    let dev = Dev::new(c, 1);
    let mut w = build(c, &dev);
    if w.txs.len() > 10 {
        return;
    }
    for t in &mut w.txs {
        t.style = style;
    }
    let m = w.meaning();
    if !m.clear || !m.balanced {
        return;
    }
    c.cover("checked");
    check_selected(c, &w, &m, 0, &[], &|_| true);
}

fn rules(c: &mut Ctx) {
    let k = 1 + c.choose("which rule", 4);
    let dev = Dev::new(c, 1);
    let mut w = build(c, &dev);
    w.rule = Some(rule(k));
    let m = w.meaning();
    if !m.clear || !m.balanced {
        return;
    }
    c.cover("added");
    check_selected(c, &w, &m, if w.txs.len() > 10 { 0 } else { 2 }, &[], &|_| true);
}

fn files(c: &mut Ctx) {
    let how = 1 + c.choose("how", 4);
    let view = VIEWS[c.choose("command", 8) as usize];
    let dev = Dev::new(c, 1);
    let mut w = build(c, &dev);
    let m = w.meaning();
    if !m.clear {
        return;
    }
    let mut one = w.clone();
    one.files = 0;
    w.files = how;
    compare(c, &one, &w, view, "with the journal in one file and in several");
}

fn names(c: &mut Ctx) {
    let k = c.choose("how", 6);
    let view = VIEWS[c.choose("command", 8) as usize];
    let dev = Dev::new(c, 1);
    let mut w = build(c, &dev);
    let m = w.meaning();
    if !m.clear || !w.spell.is_empty() || !w.spell_cur.is_empty() || w.spell_payee.is_some() {
        return;
    }
    let payee = w.txs[w.focus].payee.clone();
    // declared names that are otherwise not in the journal would be listed as well
    let mut decl = String::new();
    let used: Vec<&str> = vec!["Assets:Bank", "Expenses:Food"].into_iter().filter(|a| w.txs.iter().any(|t| t.lines.iter().any(|l| l.acc == *a))).collect();
    let mut b = w.clone();
    match k {
        0 | 1 => {
            for a in &used {
                decl.push_str(&format!("account {}\n    alias x{}\n", a, a.len()));
            }
            b.spell = vec![("Assets:Bank", "x11"), ("Expenses:Food", "x13")];
        }
        2 => {
            for a in &used {
                decl.push_str(&format!("account {}\n", a));
            }
            b.spell = vec![("Assets:Bank", "ASSETS:bank"), ("Expenses:Food", "expenses:food")];
        }
        3 => {
            decl.push_str("commodity EUR\n    alias euro\n    alias e\n");
            b.spell_cur = vec![("EUR", "e")];
        }
        4 => {
            decl.push_str("commodity EUR\n");
            b.spell_cur = vec![("EUR", "Eur")];
        }
        _ => {
            decl.push_str(&format!("payee {}\n    alias ^zulu$\n", payee));
            b.spell_payee = Some("zulu");
        }
    }
    let mut a = w;
    if k == 1 && b.files == 0 {
        // declared after its use
        let d = T { date: Val::int(days(2021, 12, 31)), ..t(2021, 12, 31, "Nobody", vec![p("Zero", &Val::zero(), "EUR"), p("Zero", &Val::zero(), "EUR")]) };
        a.txs.push(d.clone());
        b.txs.push(d);
        a.meaning();
        b.meaning();
        a.head = decl.clone() + &a.head;
        let text = |w: &World, c: &Ctx| w.files(c);
        let fa = text(&a, c);
        let mut fb = text(&b, c);
        fb[0].1 = format!("{}\n{}", fb[0].1, decl);
        let r = |c: &mut Ctx, f: &[(String, String)]| {
            let f: Vec<(&str, &str)> = f.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
            c.run_files(view, &f)
        };
        let x = r(c, &fa);
        let y = r(c, &fb);
        c.cover("compared");
        c.ok("same status", x.status.short() == y.status.short(), &format!("`{}` ends with {} and {}", view.join(" "), x.status.short(), y.status.short()));
        if view[0] != "check" {
            text::same_output(c, "same report", &x.out, &y.out, "an alias declared after its use does not denote the same");
        }
        return;
    }
    a.head = decl.clone() + &a.head;
    b.head = decl + &b.head;
    compare(c, &a, &b, view, "with the declared name and with another name for it");
}

/// The postings to one account of the focus transaction go to `Unknown` instead, which the account claims.
fn unknown(c: &mut Ctx) {
    let how = c.choose("how", 5);
    let view = [&["bal"][..], &["reg"], &["bal", "--flat", "-X", "EUR"], &["prices"], &["check"], &["reg", "bank"], &["bal", "--depth", "1"]][c.choose("command", 7) as usize];
    let dev = Dev::new(c, 1);
    let mut w = build(c, &dev);
    let m = w.meaning();
    if !m.clear || !w.spell.is_empty() || w.spell_payee.is_some() || w.txs.len() > 10 {
        return;
    }
    let tx = &w.txs[w.focus];
    // no other transaction's payee is matched, and there is no other unknown account
    let payee = tx.payee.clone();
    let acc = match tx.lines.iter().find(|l| ["Assets:Bank", "Expenses:Food:Fruit", "Expenses:Food"].contains(&l.acc.as_str())) {
        Some(l) => *["Assets:Bank", "Expenses:Food:Fruit", "Expenses:Food"].iter().find(|a| **a == l.acc).unwrap(),
        None => return,
    };
    let start: String = payee.chars().take(4).collect();
    let other = "account Zoo\n    payee ^Nobody\naccount Abc\n    payee ^nobody$\n    payee other\n";
    let decl = match how {
        0 => format!("account {}\n    payee ^{}\n", acc, start),
        1 => format!("{}account {}\n    note claims\n    payee nothing\n    payee {}$\n    alias it\n", other, acc, payee),
        2 => format!("account {}\n    payee {}|nobody\n{}", acc, payee, other),
        3 => format!("account {}\n    payee (?i)^{}\n", acc, payee.to_lowercase()),
        _ => format!("account {}\n    payee other\n    payee .*{}\n{}", acc, &payee[1..], other),
    };
    w.head = decl + &w.head;
    let mut b = w.clone();
    b.spell = vec![(acc, ["Unknown", "expenses:unknown", "My:Assets:UNKNOWN", "Unknown", "the unknown"][how as usize])];
    compare(c, &w, &b, view, "with the account and with an unknown account in its place");
}

/// Declarations and prices change no amounts.
fn declared(c: &mut Ctx) {
    let how = c.choose("how", 10);
    let views: &[&[&str]] = &[&["bal"], &["reg"], &["check"], &["bal", "--flat"], &["reg", "bank", "and", "@shop"]];
    let view = views[c.choose("command", 5) as usize];
    let dev = Dev::new(c, 1);
    let mut w = build(c, &dev);
    let m = w.meaning();
    if !m.clear || w.txs.len() > 10 {
        return;
    }
    let mut b = w.clone();
    let k = c.frac("unused price", 1, 4);
    c.assume_lt(&Val::zero(), &k);
    let d = c.date("any day");
    let more = match how {
        0 => format!("P {} EUR {} ACME\nP {} ACME {} USD\n", c.day(&d), c.amt(&k), c.day(&d), c.amt(&k)),
        1 => format!("P {} USD {} EUR\nP {} USD 1 EUR\nP {} GOLD {} USD\n", c.day(&d), c.amt(&k), c.day(&d), c.day(&d), c.amt(&k)),
        2 => "account Assets:Bank\n    note The bank\n    isin 123\n    check account =~ /x/\n    assert amount > 0\n    default\naccount Nowhere:Else\n".to_string(),
        3 => "commodity EUR\n    note Money\n    format 1.000,00 EUR\n    default\n    ; remark\ncommodity GOLD\n    note 1 EUR\n".to_string(),
        4 => "payee Nobody  ; note\n    ; remark\n    alias ^nobody$\n    alias ghost\npayee Other\n".to_string(),
        // what notes and remarks mention stays what it is
        7 => "commodity GOLD\n    note also USD (USD), EUR/ACME [ACME] {EUR} \"EUR\" = EUR\n    ; alias EUR\n    ; alias: USD\ncommodity SILVER\n    note EUR\n    ; :ACME:\n    note USD\ncommodity COPPER\n    note (ACME)\n    note alias EUR\n".to_string(),
        8 => "account Nowhere\n    note alias Assets:Bank (Expenses:Food) Assets\n    ; alias Assets:Bank\n    ; payee Shop\n    isin EUR\n    check account == Assets:Bank\naccount Else\n    note Assets:Bank\n    isin (ACME)\n    ; alias: Expenses:Food\naccount Third\n    note (Assets:Bank)\n    note payee Shop\n".to_string(),
        9 => "payee Nobody\n    ; alias Shop\n    ; (Shop) alias ^Shop\n    ; payee: Shop\npayee Nowhere\n    alias ^Sh$\n    ; Shop\ntag Shop\n    check value == Assets:Bank\ntag EUR\n    assert value =~ /Shop/\n".to_string(),
        5 => "tag trip\n    check value =~ /x/\n    assert value != 0\ntag unused\n".to_string(),
        _ => "account Expenses:Food:Fruit\n    payee nobody\naccount Savings\n    alias my savings\ncommodity USD\n    alias dollars\n".to_string(),
    };
    if c.flag("at the end") && b.files == 0 {
        let fa = w.files(c);
        let mut fb = b.files(c);
        fb[0].1 = format!("{}\n{}", fb[0].1, more);
        let run = |c: &mut Ctx, f: &[(String, String)]| {
            let f: Vec<(&str, &str)> = f.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
            c.run_files(view, &f)
        };
        let x = run(c, &fa);
        let y = run(c, &fb);
        c.cover("compared");
        c.ok("same status", x.status.short() == y.status.short(), &format!("`{}` ends with {} and {}", view.join(" "), x.status.short(), y.status.short()));
        if view[0] != "check" {
            text::same_output(c, "same report", &x.out, &y.out, "declarations at the end of the journal change a report");
        }
        return;
    }
    b.head = more + &b.head;
    compare(c, &w, &b, view, "with and without declarations and prices");
}

fn layouts(c: &mut Ctx) {
    let how = 1 + c.choose("how", 5);
    let view = VIEWS[c.choose("command", 8) as usize];
    let dev = Dev::new(c, 1);
    let mut w = build(c, &dev);
    let m = w.meaning();
    if !m.clear || w.txs.len() > 10 {
        return;
    }
    let mut a = w.clone();
    a.layout = 0;
    w.layout = how;
    compare(c, &a, &w, view, "with another layout");
}

fn init_file(c: &mut Ctx) {
    let views: &[(&str, &[&str])] = &[
        ("bal", &["--flat"]),
        ("bal", &["--depth", "2"]),
        ("bal", &["--real"]),
        ("reg", &["--real"]),
        ("reg", &["--begin=2021-01-06"]),
        ("bal", &["--begin", "2021-02-10"]),
        ("reg", &["--end", "2021-02-10"]),
        ("bal", &["--no-total"]),
    ];
    let (cmd, opts) = views[c.choose("option", 8) as usize];
    let (w, _) = match sound(c, 1) {
        Some(x) => x,
        None => return,
    };
    let mut args = vec![cmd];
    args.extend(opts);
    let x = w.run(c, &args);
    let mut f = w.files(c);
    f.push(("init.ledger".into(), opts.join(" ") + "\n"));
    let f: Vec<(&str, &str)> = f.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
    let y = c.run_files(&[cmd, "--init-file", "$DIR/init.ledger"], &f);
    c.cover("compared");
    c.ok("same status", x.status.short() == y.status.short(), &format!("{} with {:?} ends with {} and {} from the init file", cmd, opts, x.status.short(), y.status.short()));
    text::same_output(c, "same report", &x.out, &y.out, "an option of the init file acts differently from the same on the command line");
}
