//! Reading amounts.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use symcore::Val;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C13",
        "digits",
        digits,
        "numbers of 0 to 3 arbitrary digits before and 0 to 3 after the point (thorough: up to 6 each), with or without sign, as amount, unit cost, total cost and asserted balance: accepted beside an arbitrary rational amount exactly when the two are equal",
    )
    .covers(&["equal", "different"]),
    Unit::new(
        "C13",
        "long_numbers",
        long_numbers,
        "a number of 25 arbitrary digits before and 25 after the point, with or without sign, as amount, cost, balance: accepted beside an arbitrary rational amount exactly when the two are equal",
    )
    .covers(&["equal", "different"]),
    Unit::new(
        "C13",
        "placements",
        placements,
        "20 placements of number, sign, commodity, blanks and tabs, as amount, cost and balance, in real and virtual postings, for an arbitrary rational number: the report shows exactly it in the right commodity",
    )
    .covers(&["amount", "cost", "balance"]),
    Unit::new(
        "C13",
        "combined",
        combined,
        "amount, cost and balance on the same line with commodities before or after, for arbitrary rational numbers: accepted exactly when cost and balance agree",
    )
    .covers(&["accepted", "refused"]),
    Unit::new(
        "C13",
        "refused",
        refused,
        "30 texts that are no amount, with arbitrary digits, as amount, cost, balance or price: refused with an error",
    )
    .covers(&["refused"]),
    Unit::new(
        "C13",
        "price_directives",
        price_directives,
        "price directives with 0 to 4 decimals (written value an arbitrary integer over a power of ten), with and without a time, extra blanks, quoted commodities and comments: conversions use exactly that number",
    )
    .covers(&["converted"]),
];

/// a number as text and value: sign, digits, point, digits
fn number(c: &Ctx, n: usize, m: usize, neg: bool, point: bool) -> (String, Val) {
    let (a, x) = c.digits("i", n);
    let (b, y) = c.digits("f", m);
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    s.push_str(&a);
    if point {
        s.push('.');
    }
    s.push_str(&b);
    let v = x.add(&y.mul(&Val::int(10).powi(-(m as i64))));
    (s, if neg { v.neg() } else { v })
}

/// A journal that is correct exactly when `s` is read as `v`, with `w` the value it is compared with.
fn compare(c: &mut Ctx, s: &str, v: &Val) {
    let w = c.real("w");
    let place = c.choose("place", 4);
    let j = match place {
        0 => format!("2020-01-01 Payee\n    A    {} EUR\n    B    {} EUR\n", s, c.amt_d(&w.neg(), 2)),
        1 => format!("2020-01-01 Payee\n    A    1 X @ {} EUR\n    B    {} EUR\n", s, c.amt_d(&w.neg(), 2)),
        2 => format!("2020-01-01 Payee\n    A    1 X @@ {} EUR\n    B    {} EUR\n", s, c.amt_d(&w.neg(), 2)),
        _ => format!("2020-01-01 Payee\n    A    {} EUR = {} EUR\n    B\n", c.amt_d(&w, 2), s),
    };
    let r = c.run(&["check"], &j);
    let ok = accepted(c, &r);
    if v.eq(&w) {
        c.cover("equal");
        c.ok("read exactly", ok, "a number is not read as written: the journal is refused although the two numbers are the same");
    } else {
        c.cover("different");
        c.ok("read exactly", !ok, "a number is not read as written: the journal is accepted although the two numbers differ");
    }
}

fn digits(c: &mut Ctx) {
    let k = if c.thorough() { 7 } else { 4 };
    let n = c.choose("integer digits", k) as usize;
    let m = c.choose("decimals", k) as usize;
    if n + m == 0 {
        return;
    }
    let point = m > 0 || c.flag("point at the end");
    let neg = c.flag("negative");
    let (s, v) = number(c, n, m, neg, point);
    compare(c, &s, &v);
}
fn long_numbers(c: &mut Ctx) {
    let neg = c.flag("negative");
    let (s, v) = number(c, 25, 25, neg, true);
    compare(c, &s, &v);
}

fn placements(c: &mut Ctx) {
    let i = c.int("v");
    c.assume_lt(&Val::zero(), &i);
    let v = i.add(&Val::rat(1, 4));
    let n = c.amt_d(&v, 2);
    // text, commodity, negative
    let of: Vec<(String, &str, bool)> = vec![
        (format!("{} EUR", n), "EUR", false),
        (format!("-{} EUR", n), "EUR", true),
        (format!("{}EUR", n), "EUR", false),
        (format!("-{}EUR", n), "EUR", true),
        (format!("EUR {}", n), "EUR", false),
        (format!("EUR -{}", n), "EUR", true),
        (format!("EUR{}", n), "EUR", false),
        (format!("EUR-{}", n), "EUR", true),
        (format!("{}   EUR", n), "EUR", false),
        (format!("{}\tEUR", n), "EUR", false),
        (format!("EUR\t{}", n), "EUR", false),
        (format!("EUR   -{}", n), "EUR", true),
        (format!("€{}", n), "€", false),
        (format!("€-{}", n), "€", true),
        (format!("{}€", n), "€", false),
        (format!("${}", n), "$", false),
        (format!("{} \"EUR\"", n), "EUR", false),
        (format!("\"EUR\" {}", n), "EUR", false),
        (format!("\"EUR\"-{}", n), "EUR", true),
        (format!("-{}\"EUR\"", n), "EUR", true),
    ];
    let (txt, cur, neg) = c.pick("text", &of).clone();
    let want = if neg { v.neg() } else { v.clone() };
    let gap = *c.pick("gap", &["    ", "\t", "  \t "]);
    let end = *c.pick("end", &["", "  ", " ; note", ";note"]);
    let acc = *c.pick("kind", &["A", "(A)"]);
    let place = c.choose("place", 3);
    let mut exp = Accounts::default();
    let j = match place {
        0 => {
            c.cover("amount");
            post(&mut exp, "A", cur, &want);
            post(&mut exp, "B", cur, &if acc == "A" { want.neg() } else { Val::zero() });
            let rest = if acc == "A" { "    B\n" } else { "" };
            format!("2020-01-01 Payee\n    {}{}{}{}\n{}", acc, gap, txt, end, rest)
        }
        1 => {
            c.cover("cost");
            post(&mut exp, "A", "X", &Val::int(2));
            post(&mut exp, "B", cur, &want.mul(&Val::int(-2)));
            let at = *c.pick("at", &[" @ ", "@", " @", "@ "]);
            let at = if at.starts_with('@') { format!(" {}", at) } else { at.to_string() };
            format!("2020-01-01 Payee\n    A{}2 X{}{}{}\n    B\n", gap, at, txt, end)
        }
        _ => {
            c.cover("balance");
            post(&mut exp, "A", cur, &want);
            post(&mut exp, "B", cur, &want.neg());
            let eq = *c.pick("eq", &["= ", "="]);
            format!("2020-01-01 Payee\n    A{}{}{}{}\n    B\n", gap, eq, txt, end)
        }
    };
    let r = c.run(&["bal", "--flat"], &j);
    must_run(c, &r);
    check_flat(c, &r.out, &exp, true);
}

fn combined(c: &mut Ctx) {
    let (q, p, b, w) = (c.real("q"), c.real("p"), c.real("b"), c.real("w"));
    c.assume_lt(&Val::zero(), &p);
    let money = |n: String, cur: &str, k: u32| match k {
        0 => format!("{} {}", n, cur),
        1 => format!("{} {}", cur, n),
        _ => format!("{}{}", n, cur),
    };
    let total = c.flag("total");
    let line = format!(
        "{} {} {} = {}",
        money(c.amt_d(&q, 1), "X", c.choose("amount", 3)),
        if total { "@@" } else { "@" },
        money(c.amt_d(&p, 3), "EUR", c.choose("cost", 3)),
        money(c.amt_d(&b, 2), "X", c.choose("balance", 3))
    );
    let j = format!("2020-01-01 Payee\n    A    {}\n    B    {} EUR\n", line, c.amt_d(&w, 2));
    let r = c.run(&["check"], &j);
    let ok = accepted(c, &r);
    // a total cost has the sign of the quantity
    let cost = if total {
        match sign(&q) {
            0 => Val::zero(),
            1 => p.clone(),
            _ => p.neg(),
        }
    } else {
        q.mul(&p)
    };
    if q.is_zero() && total {
        return;
    }
    if q.eq(&b) && cost.add(&w).is_zero() {
        c.cover("accepted");
        c.ok("read exactly", ok, "amount, cost and balance of a posting agree, but the journal is refused");
    } else {
        c.cover("refused");
        c.ok("read exactly", !ok, "amount, cost and balance of a posting do not agree, but the journal is accepted");
    }
}

fn refused(c: &mut Ctx) {
    let (a, _) = c.digits("a", 1);
    let (b, _) = c.digits("b", 2);
    let (d, _) = c.digits("d", 1);
    let whole: Vec<String> = vec![
        format!("{}.{}.{} EUR", a, b, d),
        format!("{}..{} EUR", a, b),
        format!("{}-{} EUR", a, b),
        format!("--{} EUR", a),
        format!("{}- EUR", a),
        format!("-{}-{} EUR", a, b),
        format!("{}.-{} EUR", a, b),
        format!(".-{} EUR", b),
        ". EUR".to_string(),
        "- EUR".to_string(),
        "-. EUR".to_string(),
        format!("- {} EUR", a),
        format!("{} {} EUR", a, b),
        format!("{} . {} EUR", a, b),
        format!("{},{} EUR", a, b),
        format!("{}e{} EUR", a, b),
        format!("{} EUR {}", a, b),
        format!("{} EUR {} USD", a, b),
        format!("EUR {} {}", a, b),
        format!("EUR {} USD", a),
        "EUR".to_string(),
        "EUR USD".to_string(),
        format!("½{} EUR", a),
        format!("{}½ EUR", a),
        format!("{}٣ EUR", a),
        format!("{}² EUR", a),
    ];
    let extra: Vec<String> = vec![
        format!("{} X @", a),
        format!("{} X @@", a),
        format!("{} X @ {} EUR @ {} EUR", a, b, d),
        format!("{} X @@ {} EUR @@ {} EUR", a, b, d),
        format!("{} X @ {} EUR @@ {} EUR", a, b, d),
        format!("@ {} EUR", a),
        format!("{} X =", a),
        format!("{} X = {} X = {} X", a, b, d),
        format!("{} X {} X", a, b),
        format!("{} X @ {} EUR {} X", a, b, d),
        format!("{} X = {} X {} X", a, b, d),
        format!("({} X)", a),
    ];
    let j = match c.choose("place", 5) {
        0 => format!("2020-01-01 Payee\n    A    {}\n    B\n", c.pick("text", &whole)),
        1 => format!("2020-01-01 Payee\n    A    1 X @ {}\n    B\n", c.pick("text", &whole)),
        2 => format!("2020-01-01 Payee\n    A    = {}\n    B\n", c.pick("text", &whole)),
        3 => {
            let bad = ["1.2.3 EUR", "1..2 EUR", "--1 EUR", "1- EUR", "- 1 EUR", "1 2 EUR", "1,5 EUR", ". EUR", "EUR", "1", "EUR 1", "1.-2 EUR", "1½ EUR"];
            format!("P 2020-01-01 ACME {}\n2020-01-01 Payee\n    A    {} EUR\n    B\n", c.pick("text", &bad), a)
        }
        _ => format!("2020-01-01 Payee\n    A    {}\n    B\n", c.pick("text", &extra)),
    };
    let cmd = *c.pick("command", &["bal", "check"]);
    let r = c.run(&[cmd, "--no-balance-check"], &j);
    c.cover("refused");
    c.ok("refused", matches!(r.status, Status::Err), &format!("text that is no amount is not refused with an error: {}", r.status.short()));
}

fn price_directives(c: &mut Ctx) {
    let dec = c.choose("decimals", 5) as usize;
    let k = c.int("k");
    c.assume_lt(&Val::zero(), &k);
    let scale = Val::int(10).powi(dec as i64);
    let p = k.div(&scale);
    let n = c.amt_d(&p, dec);
    let line = match c.choose("layout", 7) {
        0 => format!("P 2020-01-01 ACME {} EUR\n", n),
        1 => format!("P 2020-01-01 10:20:30 ACME {} EUR\n", n),
        2 => format!("P  2020/01/01   ACME   {}   EUR\n", n),
        3 => format!("P 2020-01-01 \"ACME\" {} \"EUR\"\n", n),
        4 => format!("P 2020-01-01 ACME {} EUR ; {} USD\n", n, n),
        5 => format!("P 2020.01.01 ACME {}EUR\n", n),
        _ => format!("P2020-01-01 ACME {} EUR\r\n", n),
    };
    let m = c.int("m");
    let a = m.mul(&scale);
    let j = format!("{}2020-01-01 Payee\n    (A)    {} ACME\n", line, c.amt_d(&a, 0));
    let r = c.run(&["bal", "--flat", "-X", "EUR"], &j);
    must_run(c, &r);
    let mut want = Accounts::default();
    post(&mut want, "A", "EUR", &m.mul(&k));
    check_flat(c, &r.out, &want, true);
    c.cover("converted");
    let _ = text::decimals("");
}
