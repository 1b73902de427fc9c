//! Reading the program's reports back.
use crate::ctx::Ctx;
use num_bigint::BigInt;
use num_rational::BigRational;
use std::str::FromStr;
use symcore::{engine, Val};

fn token(s: &str) -> Option<Val> {
    let r = s.strip_prefix('\u{27e6}')?.strip_suffix('\u{27e7}')?;
    let i: usize = r.parse().ok()?;
    engine::with(|e| e.tokens.get(i).cloned())
}

/// `-12.34`, or the same with a symbolic integer part
pub fn number(s: &str) -> Option<Val> {
    let (neg, b) = match s.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, s),
    };
    let (i, f) = match b.find('.') {
        Some(p) => (&b[..p], &b[p + 1..]),
        None => (b, ""),
    };
    if b.contains('.') && f.is_empty() {
        return None;
    }
    if !f.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let frac = if f.is_empty() {
        Val::zero()
    } else {
        Val::C(BigRational::new(BigInt::from_str(f).ok()?, BigInt::from(10).pow(f.len() as u32)))
    };
    if let Some(v) = token(i) {
        if neg {
            return Some(v.add(&frac).neg());
        }
        if crate::ctx::is_zero_const(&frac) {
            return Some(v);
        }
        return Some(if v.is_neg() { v.sub(&frac) } else { v.add(&frac) });
    }
    if i.is_empty() || !i.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let v = Val::C(BigRational::from(BigInt::from_str(i).ok()?)).add(&frac);
    Some(if neg { v.neg() } else { v })
}

/// number of decimals written
pub fn decimals(s: &str) -> usize {
    s.find('.').map_or(0, |p| s.len() - p - 1)
}

#[derive(Clone, Debug)]
pub struct Amount {
    pub v: Val,
    pub cur: String,
    pub raw: String,
}

/// `12.34 EUR`, or `0`
pub fn amount(s: &str) -> Option<Amount> {
    let s = s.trim();
    let mut it = s.split_whitespace();
    let n = it.next()?;
    let cur = it.collect::<Vec<_>>().join(" ");
    let v = number(n)?;
    Some(Amount { v, cur, raw: s.to_string() })
}

#[derive(Clone, Debug)]
pub struct Row {
    /// indentation level (tree reports)
    pub level: usize,
    pub name: String,
    pub amounts: Vec<Amount>,
}
#[derive(Clone, Debug, Default)]
pub struct Balance {
    pub rows: Vec<Row>,
    pub total: Option<Vec<Amount>>,
}
/// Reads a balance report.
pub fn balance(c: &Ctx, out: &str) -> Balance {
    let mut b = Balance::default();
    let mut pend: Vec<Amount> = vec![];
    let bad = |l: &str| -> ! { c.fail("report format", &format!("unreadable line in the balance report: {:?}", l)) };
    for line in out.lines() {
        if line.starts_with("-----") && line.chars().all(|x| x == '-') {
            if !pend.is_empty() || b.total.is_some() {
                bad(line)
            }
            b.total = Some(vec![]);
            continue;
        }
        let t = line.trim_start();
        if t.is_empty() {
            bad(line)
        }
        let (a, name) = match t.find("  ") {
            Some(p) => (&t[..p], Some(&t[p..])),
            None => (t, None),
        };
        let a = match amount(a) {
            Some(a) => a,
            None => bad(line),
        };
        if let Some(tot) = &mut b.total {
            if name.is_some() {
                bad(line)
            }
            tot.push(a);
            continue;
        }
        pend.push(a);
        if let Some(n) = name {
            let text = n.trim_start();
            b.rows.push(Row {
                level: (n.len() - text.len()) / 2,
                name: text.trim_end().to_string(),
                amounts: std::mem::take(&mut pend),
            });
        }
    }
    if !pend.is_empty() {
        c.fail("report format", "balance report ends with amounts that belong to no account")
    }
    b
}

#[derive(Clone, Debug)]
pub struct Reg {
    /// only on the first row of a transaction
    pub head: Option<(Val, String)>,
    pub account: String,
    pub amount: Amount,
    pub running: Vec<Amount>,
}
pub fn date(s: &str) -> Option<Val> {
    let s = s.trim();
    if let Some(v) = token(s) {
        return Some(v);
    }
    let d = chrono_real::NaiveDate::parse_from_str(s, "%Y-%m-%d").ok()?;
    Some(Val::int(chrono_real::Datelike::num_days_from_ce(&d) as i64))
}
fn amounts(s: &str) -> Option<Vec<Amount>> {
    let w: Vec<&str> = s.split_whitespace().collect();
    let mut r = vec![];
    let mut i = 0;
    while i < w.len() {
        let v = number(w[i])?;
        let isnum = |x: &str| x.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '\u{27e6}');
        if i + 1 < w.len() && !isnum(w[i + 1]) {
            r.push(Amount { v, cur: w[i + 1].to_string(), raw: format!("{} {}", w[i], w[i + 1]) });
            i += 2;
        } else {
            r.push(Amount { v, cur: String::new(), raw: w[i].to_string() });
            i += 1;
        }
    }
    Some(r)
}
/// Reads a register report; payees and account names of the journals contain no blanks.
pub fn register(c: &Ctx, out: &str) -> Vec<Reg> {
    let mut rows: Vec<Reg> = vec![];
    for line in out.lines() {
        let bad = || -> ! { c.fail("report format", &format!("unreadable line in the register report: {:?}", line)) };
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.len() <= 2 {
            // one more commodity of the running total
            match (amounts(line), rows.last_mut()) {
                (Some(a), Some(r)) if a.len() == 1 => r.running.push(a[0].clone()),
                _ => bad(),
            }
            continue;
        }
        let head = date(w[0]);
        let i = if head.is_some() { 2 } else { 0 };
        if w.len() < i + 3 {
            bad()
        }
        // the account may have blanks in its name
        let found = (i + 1..w.len()).find_map(|k| amounts(&w[k..].join(" ")).filter(|r| r.len() == 2).map(|r| (k, r)));
        let (k, rest) = match found {
            Some(x) => x,
            None => bad(),
        };
        rows.push(Reg {
            head: head.map(|d| (d, w[1].to_string())),
            account: w[i..k].join(" "),
            amount: rest[0].clone(),
            running: vec![rest[1].clone()],
        });
    }
    rows
}

#[derive(Clone, Debug)]
pub struct PriceRow {
    pub date: Val,
    pub commodity: String,
    pub price: Amount,
}
pub fn prices(c: &Ctx, out: &str) -> Vec<PriceRow> {
    out.lines()
        .map(|l| {
            let bad = || -> ! { c.fail("report format", &format!("unreadable price line: {:?}", l)) };
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() != 4 {
                bad()
            }
            match (date(w[0]), number(w[2])) {
                (Some(d), Some(v)) => PriceRow {
                    date: d,
                    commodity: w[1].to_string(),
                    price: Amount { v, cur: w[3].to_string(), raw: format!("{} {}", w[2], w[3]) },
                },
                _ => bad(),
            }
        })
        .collect()
}
/// The two outputs are the same text, for all values (blank padding aside).
pub fn same_output(c: &Ctx, label: &str, a: &str, b: &str, msg: &str) {
    let words = |s: &str| -> Vec<Vec<String>> {
        s.lines().map(|l| l.split_whitespace().map(|x| x.to_string()).collect()).collect()
    };
    let (x, y) = (words(a), words(b));
    let differ = || -> ! { c.fail(label, &format!("{}:\n--- first\n{}\n--- second\n{}", msg, a, b)) };
    if x.len() != y.len() {
        differ()
    }
    for (l, m) in x.iter().zip(y.iter()) {
        if l.len() != m.len() {
            differ()
        }
        for (v, w) in l.iter().zip(m.iter()) {
            if v == w {
                continue;
            }
            match (date(v), date(w)) {
                (Some(p), Some(q)) => {
                    c.eq(label, &p, &q, msg);
                    continue;
                }
                _ => {}
            }
            match (number(v), number(w)) {
                (Some(p), Some(q)) if decimals(v) == decimals(w) => c.eq(label, &p, &q, msg),
                _ => differ(),
            }
        }
    }
    c.ok(label, true, msg);
}
