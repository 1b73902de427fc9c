//! How amounts are written in reports.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use symcore::Val;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C12",
        "any_amount",
        any_amount,
        "one posting whose amount is an arbitrary rational number, flat balance (thorough: tree, register and price list too); every value of the first four decimals is explored, the integer part and the rest are the solver's",
    )
    .covers(&["rounded up", "rounded down", "exact", "negative", "below a cent", "carried"])
    .digits(100_000),
    Unit::new(
        "C12",
        "everywhere",
        everywhere,
        "an arbitrary integer plus one of 22 fractions around cents, halves and carries, of either sign: flat and tree balance, total, register amount and running total, price list, converted balance, depth-limited balance",
    )
    .covers(&["bal", "tree", "reg", "prices", "converted"]),
    Unit::new(
        "C12",
        "sums",
        sums,
        "two amounts (arbitrary integers plus one of 6 fractions each, of either sign) that are added before they are rounded: account, parent and running total",
    )
    .covers(&["rounds differently from the parts"]),
    Unit::new(
        "C12",
        "quotients",
        quotients,
        "an amount divided by a price of 3, 7 or 8 (inverse conversion, and prices from a total cost), arbitrary integer amounts, each a multiple plus any remainder",
    )
    .covers(&["inverse", "unit price"]),
];

/// raw is v rounded to cents, halves away from zero
pub fn rounded_right(c: &Ctx, what: &str, raw: &str, shown: &Val, v: &Val) {
    let num = raw.split_whitespace().next().unwrap_or("");
    c.ok("two decimals", text::decimals(num) == 2, &format!("{}: {:?} does not have two decimals", what, raw));
    let h = Val::rat(1, 200);
    let (lo, hi) = (shown.sub(&h), shown.add(&h));
    let msg = format!("{}: {:?} is not the amount rounded to cents", what, raw);
    if v.is_neg() {
        c.cover("negative");
        c.lt("rounding", &lo, v, &msg);
        c.le("rounding", v, &hi, &msg);
    } else {
        c.le("rounding", &lo, v, &msg);
        c.lt("rounding", v, &hi, &msg);
    }
}

fn covers(c: &Ctx, raw: &str, s: &Val, v: &Val) {
    if s.eq(v) {
        c.cover("exact");
    } else if v.abs().lt(&s.abs()) {
        c.cover("rounded up");
        if raw.contains(".00") {
            c.cover("carried");
        }
    } else {
        c.cover("rounded down");
    }
    if s.is_zero() {
        c.cover("below a cent");
    }
}

fn any_amount(c: &mut Ctx) {
    // integer part, four decimals, and whatever follows them
    let (i, j, e) = (c.int("i"), c.int("j"), c.real("e"));
    c.assume_le(&Val::zero(), &i);
    c.assume_le(&Val::zero(), &j);
    c.assume_le(&j, &Val::int(9999));
    c.assume_le(&Val::zero(), &e);
    c.assume_lt(&e, &Val::rat(1, 10000));
    let v = i.add(&j.mul(&Val::rat(1, 10000))).add(&e);
    let v = if c.flag("negative") { v.neg() } else { v };
    let cmd: &[&str] = if c.thorough() {
        *c.pick("command", &[&["bal", "--flat"][..], &["bal"], &["reg"], &["prices"]])
    } else {
        &["bal", "--flat"]
    };
    if cmd[0] == "prices" {
        c.assume_lt(&Val::zero(), &v);
        let j = format!("P 2020-01-01 ACME {} EUR\n", c.amt_d(&v, 4));
        let r = c.run(cmd, &j);
        must_run(c, &r);
        let p = text::prices(c, &r.out);
        c.ok("shown", p.len() == 1, "the price list does not show exactly the one price");
        rounded_right(c, "price", &p[0].price.raw, &p[0].price.v, &v);
        covers(c, &p[0].price.raw, &p[0].price.v, &v);
        return;
    }
    let j = format!("2020-01-01 Payee\n    (A)    {} EUR\n", c.amt_d(&v, 4));
    let r = c.run(cmd, &j);
    must_run(c, &r);
    if cmd[0] == "reg" {
        let b = text::register(c, &r.out);
        c.ok("shown", b.len() == 1 && b[0].running.len() == 1, "the register does not show exactly the one posting");
        if v.is_zero() {
            c.ok("zero", is_zero_const(&b[0].amount.v) && is_zero_const(&b[0].running[0].v), "zero is not shown as zero");
            return;
        }
        rounded_right(c, "amount", &b[0].amount.raw, &b[0].amount.v, &v);
        rounded_right(c, "running total", &b[0].running[0].raw, &b[0].running[0].v, &v);
        covers(c, &b[0].amount.raw, &b[0].amount.v, &v);
        return;
    }
    let b = text::balance(c, &r.out);
    if v.is_zero() {
        c.ok("zero", b.rows.is_empty(), "an account with nothing in it is shown");
        return;
    }
    c.ok("shown", b.rows.len() == 1 && b.rows[0].amounts.len() == 1, "the balance does not show exactly the one amount");
    let a = &b.rows[0].amounts[0];
    c.ok("commodity", a.cur == "EUR", "wrong commodity");
    rounded_right(c, "balance", &a.raw, &a.v, &v);
    covers(c, &a.raw, &a.v, &v);
}

const FRACTIONS: &[(i64, i64)] = &[
    (0, 1),
    (1, 2),
    (1, 100),
    (99, 100),
    (1, 10),
    (9, 10),
    (5, 1000),
    (4, 1000),
    (45, 10000),
    (4999999, 1000000000),
    (5000001, 1000000000),
    (15, 1000),
    (25, 1000),
    (94, 1000),
    (95, 1000),
    (995, 1000),
    (994, 1000),
    (9949, 10000),
    (9951, 10000),
    (99999, 100000),
    (445, 1000),
    (9995, 10000),
];

fn fraction(c: &Ctx, name: &str, of: &[(i64, i64)]) -> Val {
    let (n, d) = *c.pick(&format!("fraction {}", name), of);
    let v = c.int(name);
    let neg = c.flag(&format!("negative {}", name));
    c.assume_le(&Val::zero(), &v);
    let v = v.add(&Val::rat(n, d));
    if neg {
        v.neg()
    } else {
        v
    }
}

fn everywhere(c: &mut Ctx) {
    let v = fraction(c, "v", FRACTIONS);
    let zero = v.is_zero();
    let txt = c.amt_d(&v, 9);
    let one = |c: &Ctx, what: &str, a: &[text::Amount]| {
        if zero {
            c.ok("zero", a.iter().all(|x| is_zero_const(&x.v)), &format!("{}: zero is not shown as zero", what));
            return;
        }
        c.ok("shown", a.len() == 1 && a[0].cur == "EUR", &format!("{}: {:?} instead of one amount in EUR", what, raws(a)));
        rounded_right(c, what, &a[0].raw, &a[0].v, &v);
    };
    match c.choose("report", 6) {
        0 => {
            let r = c.run(&["bal", "--flat"], &format!("2020-01-01 Payee\n    (A)    {} EUR\n    (B)    1 USD\n", txt));
            must_run(c, &r);
            let b = text::balance(c, &r.out);
            if !zero {
                c.ok("shown", b.rows.len() == 2, "not exactly two accounts");
                one(c, "account", &b.rows[0].amounts);
                let t: Vec<text::Amount> = b.total.clone().unwrap_or_default().into_iter().filter(|x| x.cur != "USD").collect();
                one(c, "total", &t);
            }
            c.cover("bal");
        }
        1 => {
            let r = c.run(&["bal"], &format!("2020-01-01 Payee\n    (A:B)    {} EUR\n    (A:C)    1 USD\n", txt));
            must_run(c, &r);
            let b = text::balance(c, &r.out);
            for row in &b.rows {
                let a: Vec<text::Amount> = row.amounts.iter().filter(|x| x.cur != "USD").cloned().collect();
                if row.name.ends_with('B') || row.name == "A" && !zero {
                    one(c, &row.name, &a);
                }
            }
            c.ok("shown", zero || b.rows.len() == 3, "not exactly three lines");
            c.cover("tree");
        }
        2 => {
            let r = c.run(&["reg"], &format!("2020-01-01 Payee\n    (A)    {} EUR\n    (B)    1 USD\n", txt));
            must_run(c, &r);
            let b = text::register(c, &r.out);
            c.ok("shown", b.len() == 2, "not exactly two lines");
            one(c, "amount", &[b[0].amount.clone()]);
            one(c, "running total", &b[0].running);
            let t: Vec<text::Amount> = b[1].running.iter().filter(|x| x.cur != "USD").cloned().collect();
            one(c, "last running total", &t);
            c.cover("reg");
        }
        3 => {
            let v2 = v.abs();
            c.assume_lt(&Val::zero(), &v2);
            let r = c.run(&["prices"], &format!("P 2020-01-01 ACME {} EUR\n2020-01-01 Payee\n    A    1 BMW @ {} EUR\n    B\n", c.amt_d(&v2, 9), c.amt_d(&v2, 9)));
            must_run(c, &r);
            let p = text::prices(c, &r.out);
            c.ok("shown", p.len() == 2, "not exactly two prices");
            rounded_right(c, "price", &p[0].price.raw, &p[0].price.v, &v2);
            rounded_right(c, "price from a cost", &p[1].price.raw, &p[1].price.v, &v2);
            c.cover("prices");
        }
        4 => {
            let r = c.run(&["bal", "--flat", "-X", "EUR"], &format!("P 2020-01-01 ACME 1 EUR\n2020-01-01 Payee\n    (A)    {} ACME\n", txt));
            must_run(c, &r);
            let b = text::balance(c, &r.out);
            if !zero {
                c.ok("shown", b.rows.len() == 1, "not exactly one account");
                one(c, "converted", &b.rows[0].amounts);
            }
            c.cover("converted");
        }
        _ => {
            let r = c.run(&["bal", "--flat", "--depth", "1"], &format!("2020-01-01 Payee\n    (A:B)    {} EUR\n", txt));
            must_run(c, &r);
            let b = text::balance(c, &r.out);
            if !zero {
                c.ok("shown", b.rows.len() == 1, "not exactly one account");
                one(c, "account", &b.rows[0].amounts);
            }
        }
    }
}

fn sums(c: &mut Ctx) {
    let few = &[(0, 1), (5, 1000), (4, 1000), (995, 1000), (9949, 10000), (3, 1000)];
    let a = fraction(c, "a", few);
    let b = fraction(c, "b", few);
    let t = a.add(&b);
    if !shown(&a).add(&shown(&b)).eq(&shown(&t)) {
        c.cover("rounds differently from the parts");
    }
    let mut want = Accounts::default();
    post(&mut want, "A:B", "EUR", &a);
    post(&mut want, "A:B", "EUR", &b);
    let j = format!("2020-01-01 Payee\n    (A:B)    {} EUR\n    (A:B)    {} EUR\n", c.amt_d(&a, 4), c.amt_d(&b, 4));
    let r = c.run(&["bal", "--flat"], &j);
    must_run(c, &r);
    check_flat(c, &r.out, &want, true);
    let r = c.run(&["reg"], &j);
    must_run(c, &r);
    let g = text::register(c, &r.out);
    c.ok("shown", g.len() == 2, "not exactly two lines");
    let mut s = Sums::default();
    s.add("EUR", &t);
    same_amounts(c, "running total", "last running total", &g[1].running, &s);
}

fn quotients(c: &mut Ctx) {
    let p = *c.pick("price", &[3i64, 7, 8]);
    let rem = c.choose("remainder", p as u32) as i64;
    let k = c.int("k");
    let neg = c.flag("negative");
    c.assume_le(&Val::zero(), &k);
    let a = k.mul(&Val::int(p)).add(&Val::int(rem));
    let q = k.add(&Val::rat(rem, p));
    if c.flag("unit price") {
        // total cost a of p pieces: unit price a / p
        c.assume_lt(&Val::zero(), &a);
        let j = format!("2020-01-01 Payee\n    A    {}{} ACME @@ {} EUR\n    B\n", if neg { "-" } else { "" }, p, c.amt(&a));
        let r = c.run(&["prices"], &j);
        must_run(c, &r);
        let l = text::prices(c, &r.out);
        c.ok("shown", l.len() == 1, "not exactly one price");
        rounded_right(c, "price", &l[0].price.raw, &l[0].price.v, &q);
        c.cover("unit price");
    } else {
        let (a, q) = if neg { (a.neg(), q.neg()) } else { (a, q) };
        let j = format!("P 2020-01-01 EUR {} ACME\n2020-01-01 Payee\n    (A)    {} ACME\n", p, c.amt(&a));
        let r = c.run(&["bal", "--flat", "-X", "EUR"], &j);
        must_run(c, &r);
        let mut want = Accounts::default();
        post(&mut want, "A", "EUR", &q);
        check_flat(c, &r.out, &want, true);
        c.cover("inverse");
    }
}
