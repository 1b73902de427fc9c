//! What the units share.
use crate::ctx::*;
use crate::text;
use std::collections::BTreeMap;
use symcore::Val;

/// -1, 0 or 1; forks the path where the value's sign is open
pub fn sign(v: &Val) -> i32 {
    if v.is_zero() {
        0
    } else if v.is_neg() {
        -1
    } else {
        1
    }
}
/// accepted (true) or refused with an error (false); a crash or a hang is a violation
pub fn accepted(c: &Ctx, r: &Run) -> bool {
    match &r.status {
        Status::Ok => true,
        Status::Err => false,
        s => c.fail("crash", &format!("the program neither accepts nor refuses its input: {}", s.short())),
    }
}
pub fn must_run(c: &Ctx, r: &Run) {
    c.ok("accepted", r.status.ok(), &format!("`{}` fails on a valid journal: {}", r.args.join(" "), r.status.short()));
}
pub fn shown(v: &Val) -> Val {
    rounded(v, 2)
}

/// amounts per commodity
#[derive(Clone, Debug, Default)]
pub struct Sums(pub BTreeMap<String, Val>);
impl Sums {
    pub fn add(&mut self, cur: &str, v: &Val) {
        let e = self.0.entry(cur.to_string()).or_insert_with(Val::zero);
        *e = e.add(v);
    }
    pub fn add_all(&mut self, o: &Sums) {
        for (k, v) in &o.0 {
            self.add(k, v)
        }
    }
    pub fn get(&self, cur: &str) -> Val {
        self.0.get(cur).cloned().unwrap_or_else(Val::zero)
    }
    /// without the commodities whose amount is zero (forks)
    pub fn nonzero(&self) -> Sums {
        Sums(self.0.iter().filter(|x| !x.1.is_zero()).map(|(k, v)| (k.clone(), v.clone())).collect())
    }
    pub fn is_zero(&self) -> bool {
        self.0.values().all(|x| x.is_zero())
    }
}

/// these printed amounts are exactly these sums (nothing, or a zero, when all are zero)
pub fn same_amounts(c: &Ctx, label: &str, what: &str, got: &[text::Amount], want: &Sums) {
    let want = want.nonzero();
    if want.0.is_empty() {
        c.ok(
            label,
            got.iter().all(|a| is_zero_const(&a.v)),
            &format!("{}: printed {:?} where the amount is zero", what, raws(got)),
        );
        return;
    }
    let mut names: Vec<&String> = got.iter().map(|a| &a.cur).collect();
    names.sort();
    let exp: Vec<&String> = want.0.keys().collect();
    c.ok(
        label,
        names == exp,
        &format!("{}: printed {:?}, the commodities with an amount are {:?}", what, raws(got), exp),
    );
    for a in got {
        c.eq(label, &a.v, &shown(&want.0[&a.cur]), &format!("{}: wrong amount of {} (printed {:?})", what, a.cur, a.raw));
    }
}
pub fn raws(a: &[text::Amount]) -> Vec<String> {
    a.iter().map(|x| x.raw.clone()).collect()
}

pub type Accounts = BTreeMap<String, Sums>;
pub fn post(a: &mut Accounts, acc: &str, cur: &str, v: &Val) {
    a.entry(acc.to_string()).or_default().add(cur, v)
}
pub fn total(a: &Accounts) -> Sums {
    let mut t = Sums::default();
    for s in a.values() {
        t.add_all(s)
    }
    t
}

/// a flat balance report shows exactly these accounts
pub fn check_flat(c: &Ctx, out: &str, want: &Accounts, with_total: bool) {
    check_rows(c, text::balance(c, out), want, with_total)
}
pub fn check_rows(c: &Ctx, b: text::Balance, want: &Accounts, with_total: bool) {
    let mut names: Vec<&str> = b.rows.iter().map(|r| r.name.as_str()).collect();
    names.sort_unstable();
    let exp: Vec<&str> = want.iter().filter(|x| !x.1.is_zero()).map(|x| x.0.as_str()).collect();
    c.ok("accounts listed", names == exp, &format!("the report lists {:?}, the accounts that are not zero are {:?}", names, exp));
    for r in &b.rows {
        same_amounts(c, "account balance", &format!("balance of {}", r.name), &r.amounts, &want[&r.name]);
    }
    check_total(c, &b, &total(want), with_total);
}
pub fn check_total(c: &Ctx, b: &text::Balance, want: &Sums, with_total: bool) {
    match &b.total {
        Some(t) => {
            c.ok("total shown", with_total, "a total is shown although it was switched off");
            same_amounts(c, "total", "total of the report", t, want)
        }
        None => c.ok("total shown", !with_total || b.rows.len() <= 1, "a report with several accounts has no total"),
    }
}

/// canonical choice of commodities: the first one used is the first of the list, and so on
pub struct Canon<'a> {
    pub names: &'a [&'a str],
    used: usize,
}
impl<'a> Canon<'a> {
    pub fn new(names: &'a [&'a str]) -> Self {
        Canon { names, used: 0 }
    }
    pub fn pick(&mut self, c: &Ctx, label: &str) -> &'a str {
        let n = (self.used + 1).min(self.names.len());
        let i = c.choose(label, n as u32) as usize;
        self.used = self.used.max(i + 1);
        self.names[i]
    }
}
