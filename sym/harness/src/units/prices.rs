//! Prices: which ones a journal states, and what -X makes of them.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use std::collections::BTreeMap;
use symcore::Val;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C09",
        "latest_price",
        latest_price,
        "one commodity with 2 price directives (thorough: 3) of arbitrary different dates (future ones included), the first optionally in the inverse direction, prices arbitrary positive integers, amount an arbitrary multiple of the inverse price",
    )
    .covers(&["converted", "not converted", "a future price", "an inverse price"]),
    Unit::new(
        "C09",
        "chain",
        chain,
        "chains of 2 prices of arbitrary dates up to today or 3 of different (thorough: arbitrary) dates, each in either direction, prices arbitrary positive integers, amounts arbitrary integer multiples that make the result integral; flat and tree",
    )
    .covers(&["converted"]),
    Unit::new(
        "C09",
        "mixed_accounts",
        mixed_accounts,
        "two accounts holding the target commodity, a convertible and an unconvertible one, flat and tree, with and without the target among the amounts; prices positive integers, amounts arbitrary integers",
    )
    .covers(&["cancels after conversion", "left over"]),
    Unit::new(
        "C09",
        "where_prices_come_from",
        where_prices_come_from,
        "prices from a unit cost, a total cost (purchase or sale), an implied exchange, or a directive that is older or newer than these; dates and amounts arbitrary, prices positive integers",
    )
    .covers(&["from the transaction", "from the directive"]),
    Unit::new(
        "C09",
        "unknown_target",
        unknown_target,
        "-X with a commodity that does not occur, or that no price leads to; amounts integers plus fixed fractions",
    )
    .covers(&["unchanged"]),
    Unit::new(
        "C09",
        "two_ways",
        two_ways,
        "a direct price and a chain of two prices between the same commodities, all dates arbitrary up to today: the result is one of the two products",
    )
    .covers(&["converted"]),
    Unit::new(
        "C10",
        "directives",
        directives,
        "3 price directives with arbitrary dates (two of the same pair of commodities), prices integers plus fixed fractions, with or without a time of day, before or after the transactions",
    )
    .covers(&["listed"]),
    Unit::new(
        "C10",
        "from_costs",
        from_costs,
        "1 transaction with one or two postings with a cost, unit or total, purchases and sales, quantity possibly zero; unit prices integers plus a fraction, total costs integer multiples of the quantity; with and without an automated transaction",
    )
    .covers(&["purchase", "sale", "nothing"]),
    Unit::new(
        "C10",
        "implied",
        implied,
        "1 transaction of 2 to 4 postings in 2 commodities (amounts that sum to a and m*a), in either order, real, with or without a bracketed pair beside them or an automated transaction; date arbitrary",
    )
    .covers(&["ratio"]),
    Unit::new(
        "C10",
        "none",
        none,
        "transactions that imply no price: one commodity, three commodities, an amount left out, costs that balance; amounts and dates arbitrary",
    )
    .covers(&["no price"]),
];

fn pos(c: &Ctx, name: &str) -> Val {
    let v = c.int(name);
    c.assume_lt(&Val::zero(), &v);
    v
}
/// a date that is not in the future
fn past(c: &Ctx, name: &str) -> Val {
    let d = c.date(name);
    c.assume_le(&d, &Val::int(today()));
    d
}
/// a posting on an account of its own that may hold anything
fn hold(c: &Ctx, acc: &str, cur: &str, v: &Val) -> String {
    format!("    ({})    {} {}\n", acc, c.amt(v), cur)
}

fn latest_price(c: &mut Ctx) {
    let n = if c.thorough() { 3 } else { 2 };
    let ds: Vec<Val> = (0..n).map(|i| c.date(&format!("d{}", i))).collect();
    let ps: Vec<Val> = (0..n).map(|i| pos(c, &format!("p{}", i))).collect();
    let inverse = c.flag("first one inverse");
    for i in 0..n {
        for j in i + 1..n {
            c.assume_ne(&ds[i], &ds[j]);
        }
    }
    let m = c.int("amount");
    let a = if inverse { m.mul(&ps[0]) } else { m.clone() };
    let mut j = String::new();
    for i in 0..n {
        if i == 0 && inverse {
            j.push_str(&format!("P {} EUR {} ACME\n", c.day(&ds[i]), c.amt(&ps[i])));
        } else {
            j.push_str(&format!("P {} ACME {} EUR\n", c.day(&ds[i]), c.amt(&ps[i])));
        }
    }
    let t = "2021-01-01 Payee\n".to_string() + &hold(c, "Shares", "ACME", &a);
    let j = if c.flag("prices last") { t + &j } else { j + &t };
    let r = c.run(&["bal", "--flat", "-X", "EUR"], &j);
    must_run(c, &r);
    let now = Val::int(today());
    let mut best: Option<usize> = None;
    for i in 0..n {
        if now.lt(&ds[i]) {
            c.cover("a future price");
            continue;
        }
        if best.map_or(true, |b| ds[b].lt(&ds[i])) {
            best = Some(i);
        }
    }
    let mut want = Accounts::default();
    match best {
        None => {
            c.cover("not converted");
            post(&mut want, "Shares", "ACME", &a)
        }
        Some(0) if inverse => {
            c.cover("an inverse price");
            post(&mut want, "Shares", "EUR", &m)
        }
        Some(i) => {
            c.cover("converted");
            post(&mut want, "Shares", "EUR", &a.mul(&ps[i]))
        }
    }
    check_flat(c, &r.out, &want, true);
}

fn chain(c: &mut Ctx) {
    let long = c.flag("three prices");
    let n = if long { 3 } else { 2 };
    // n prices link n + 1 commodities, the last one is the target
    let names = ["ACME", "BTC", "CHF", "EUR"];
    let mut name: Vec<&str> = names[..n].to_vec();
    name.push("EUR");
    if c.flag("other names") {
        // the order of the names does not matter
        name = if n == 2 { vec!["ZED", "AAA", "EUR"] } else { vec!["GBP", "ZED", "AAA", "EUR"] };
    }
    let m = c.int("amount");
    let mut j = String::new();
    let mut a = m.clone();
    let mut result = m.clone();
    let mut mid = m.clone();
    for i in 0..n {
        let p = pos(c, &format!("p{}", i));
        // three arbitrary dates take long
        let d = if long && !c.thorough() { Val::int(days(2021, [3, 1, 2][i], 5 * (i as u32 + 1))) } else { past(c, &format!("d{}", i)) };
        if c.flag(&format!("inverse {}", i)) {
            j.push_str(&format!("P {} {} {} {}\n", c.day(&d), name[i + 1], c.amt(&p), name[i]));
            a = a.mul(&p);
            if i > 0 {
                mid = mid.mul(&p);
            }
        } else {
            j.push_str(&format!("P {} {} {} {}\n", c.day(&d), name[i], c.amt(&p), name[i + 1]));
            result = result.mul(&p);
        }
    }
    // one account with the first commodity, one with the second
    j.push_str("2021-01-01 Payee\n");
    j.push_str(&hold(c, "Shares:A", name[0], &a));
    let tree = c.flag("tree");
    let r = c.run(if tree { &["bal", "-X", "EUR"] } else { &["bal", "--flat", "-X", "EUR"] }, &j);
    must_run(c, &r);
    c.cover("converted");
    let b = text::balance(c, &r.out);
    let zero = result.is_zero();
    c.ok("one account", b.rows.len() == if zero { 0 } else { 1 }, &format!("expected one line per account\n{}", r.out));
    for row in &b.rows {
        let mut s = Sums::default();
        s.add("EUR", &result);
        same_amounts(c, "converted amount", "Shares:A in EUR", &row.amounts, &s);
    }
}

fn mixed_accounts(c: &mut Ctx) {
    let p = pos(c, "price");
    let (a, e) = (c.int("shares"), c.int("cash"));
    let u = c.frac("points", 1, 4);
    let b = c.int("other shares");
    let layout = c.choose("layout", 4);
    let tree = c.flag("tree");
    let d = past(c, "d");
    let mut j = format!("P {} ACME {} EUR\n", c.day(&d), c.amt(&p));
    j.push_str("2021-01-01 Payee\n");
    let mut want = Accounts::default();
    let mut add = |acc: &str, cur: &str, v: &Val| {
        j.push_str(&hold(c, acc, cur, v));
        match cur {
            "ACME" => post(&mut want, acc, "EUR", &v.mul(&p)),
            _ => post(&mut want, acc, cur, v),
        }
    };
    match layout {
        0 => {
            add("A:Mixed", "ACME", &a);
            add("A:Mixed", "EUR", &e);
            add("A:Other", "ACME", &b);
        }
        1 => {
            add("A:Mixed", "ACME", &a);
            add("A:Mixed", "POINTS", &u);
            add("A:Other", "EUR", &e);
        }
        2 => {
            // the same value in two commodities
            add("A:Mixed", "ACME", &a);
            add("A:Mixed", "EUR", &a.mul(&p).neg());
            add("A:Other", "POINTS", &u);
            add("A:Other", "EUR", &e);
        }
        _ => {
            add("A:Mixed", "POINTS", &u);
            add("A:Mixed", "ACME", &a);
            add("A:Mixed", "EUR", &e);
        }
    }
    let r = c.run(if tree { &["bal", "-X", "EUR"] } else { &["bal", "--flat", "-X", "EUR"] }, &j);
    must_run(c, &r);
    for s in want.values() {
        if s.is_zero() {
            c.cover("cancels after conversion");
        }
        if s.0.contains_key("POINTS") {
            c.cover("left over");
        }
    }
    if tree {
        super::reports::check_tree(c, &r.out, &want, 99, true);
    } else {
        check_flat(c, &r.out, &want, true);
    }
}

fn where_prices_come_from(c: &mut Ctx) {
    let how = c.choose("source", 5);
    let p = pos(c, "price");
    let q = c.int("quantity");
    c.assume_ne(&q, &Val::zero());
    let d = past(c, "transaction date");
    let e = past(c, "directive date");
    c.assume_ne(&d, &e);
    let other = pos(c, "directive price");
    let cost = q.mul(&p);
    let t = match how {
        0 => format!("{} Payee\n    Shares    {} ACME @ {} EUR\n    Cash    {} EUR\n", c.day(&d), c.amt(&q), c.amt(&p), c.amt(&cost.neg())),
        1 | 2 => {
            // a purchase, or a sale
            let size = if how == 2 { q.neg() } else { q.clone() };
            c.assume_lt(&Val::zero(), &size);
            format!(
                "{} Payee\n    Shares    {} ACME @@ {} EUR\n    Cash    {} EUR\n",
                c.day(&d),
                c.amt(&q),
                c.amt(&size.mul(&p)),
                c.amt(&cost.neg())
            )
        }
        _ => {
            let s = format!("    Shares    {} ACME\n", c.amt(&q));
            let m = format!("    Cash    {} EUR\n", c.amt(&cost.neg()));
            if how == 3 {
                format!("{} Payee\n{}{}", c.day(&d), s, m)
            } else {
                format!("{} Payee\n{}{}", c.day(&d), m, s)
            }
        }
    };
    let directive = c.flag("directive");
    let pl = if directive { format!("P {} ACME {} EUR\n", c.day(&e), c.amt(&other)) } else { String::new() };
    let r = c.run(&["bal", "--flat", "-X", "EUR"], &(pl + &t));
    must_run(c, &r);
    let used = if directive && d.lt(&e) {
        c.cover("from the directive");
        other
    } else {
        c.cover("from the transaction");
        p
    };
    let mut want = Accounts::default();
    post(&mut want, "Shares", "EUR", &q.mul(&used));
    post(&mut want, "Cash", "EUR", &cost.neg());
    check_flat(c, &r.out, &want, true);
}

fn unknown_target(c: &mut Ctx) {
    let how = c.choose("target", 3);
    let (a, b) = (c.frac("a", 1, 2), c.frac("b", 1, 4));
    let d = past(c, "d");
    let mut j = format!("P {} ACME 2 EUR\n", c.day(&d));
    if how == 1 {
        j.push_str(&format!("P {} JPY 3 KRW\n", c.day(&d)));
    }
    j.push_str("2021-01-01 Payee\n");
    j.push_str(&hold(c, "X:A", "ACME", &a));
    j.push_str(&hold(c, "X:B", "EUR", &b));
    if how == 2 {
        let z = c.frac("z", 3, 4);
        j.push_str(&hold(c, "X:C", "KRW", &z));
        let r = c.run(&["bal", "--flat", "-X", "KRW"], &j);
        must_run(c, &r);
        c.cover("unchanged");
        let mut want = Accounts::default();
        post(&mut want, "X:A", "ACME", &a);
        post(&mut want, "X:B", "EUR", &b);
        post(&mut want, "X:C", "KRW", &z);
        check_flat(c, &r.out, &want, true);
        return;
    }
    let r = c.run(&["bal", "--flat", "-X", "KRW"], &j);
    must_run(c, &r);
    c.cover("unchanged");
    let mut want = Accounts::default();
    post(&mut want, "X:A", "ACME", &a);
    post(&mut want, "X:B", "EUR", &b);
    check_flat(c, &r.out, &want, true);
}

fn two_ways(c: &mut Ctx) {
    let (p, q, s) = (pos(c, "direct"), pos(c, "first"), pos(c, "second"));
    let (d, e, f) = (past(c, "d"), past(c, "e"), past(c, "f"));
    let a = c.int("amount");
    c.assume_ne(&a, &Val::zero());
    let mut j = format!("P {} ACME {} EUR\n", c.day(&d), c.amt(&p));
    j.push_str(&format!("P {} ACME {} USD\n", c.day(&e), c.amt(&q)));
    j.push_str(&format!("P {} USD {} EUR\n", c.day(&f), c.amt(&s)));
    j.push_str("2021-01-01 Payee\n");
    j.push_str(&hold(c, "Shares", "ACME", &a));
    let r = c.run(&["bal", "--flat", "-X", "EUR"], &j);
    must_run(c, &r);
    c.cover("converted");
    let b = text::balance(c, &r.out);
    c.ok("one account", b.rows.len() == 1 && b.rows[0].amounts.len() == 1 && b.rows[0].amounts[0].cur == "EUR", &r.out);
    let v = &b.rows[0].amounts[0].v;
    if !v.eq(&a.mul(&p)) {
        c.eq("converted amount", v, &a.mul(&q).mul(&s), "the result is neither the direct price nor the chain's product");
    }
}

// ---- C10 --------------------------------------------------------------------------------

/// (date, commodity, price, currency) rows in any order; the commodity and the currency identify a row, or its date does
fn check_prices(c: &Ctx, out: &str, want: &[(Val, &str, Val, &str)]) {
    let rows = text::prices(c, out);
    let mut exp: BTreeMap<(String, String), Vec<&(Val, &str, Val, &str)>> = BTreeMap::new();
    for w in want {
        exp.entry((w.1.to_string(), w.3.to_string())).or_default().push(w);
    }
    c.ok("number of prices", rows.len() == want.len(), &format!("{} prices listed, {} expected\n{}", rows.len(), want.len(), out));
    for r in &rows {
        let list = match exp.get_mut(&(r.commodity.clone(), r.price.cur.clone())) {
            Some(l) if !l.is_empty() => l,
            _ => c.fail("listed prices", &format!("unexpected price of {} in {}\n{}", r.commodity, r.price.cur, out)),
        };
        // in the order of the journal
        let w = list.remove(0);
        c.eq("price date", &r.date, &w.0, &format!("date of the price of {}", r.commodity));
        c.eq("price", &r.price.v, &shown(&w.2), &format!("price of {} in {}", r.commodity, r.price.cur));
    }
}

fn directives(c: &mut Ctx) {
    let ds: Vec<Val> = (0..3).map(|i| c.date(&format!("d{}", i))).collect();
    let fr = [(1, 4), (0, 1), (99, 100)];
    let ps: Vec<Val> = (0..3)
        .map(|i| {
            let v = c.frac(&format!("p{}", i), fr[i].0, fr[i].1);
            c.assume_lt(&Val::zero(), &v);
            v
        })
        .collect();
    let pair = [("ACME", "EUR"), ("ACME", "EUR"), ("EUR", "USD")];
    let mut pair = pair.to_vec();
    if c.flag("inverse too") {
        pair[2] = ("EUR", "ACME");
    }
    let time = *c.pick("time of day", &["", " 10:20:30", " 00:00:00", " 23:59:59", " 09:05:45.25", " 20:35:09", " 22:48:50", " 21:11:11", " 19:59:00"]);
    let note = *c.pick("comment", &["", "  ; note"]);
    let mut j = String::new();
    for i in 0..3 {
        let (t, n) = if i == 0 { (time, note) } else { ("", "") };
        j.push_str(&format!("P {}{} {} {} {}{}\n", c.day(&ds[i]), t, pair[i].0, c.amt(&ps[i]), pair[i].1, n));
    }
    let t = "2021-01-01 Payee\n    A    1 EUR\n    B    -1 EUR\n\n";
    let j = if c.flag("transactions first") { t.to_string() + &j } else { j + t };
    let r = c.run(&["prices"], &j);
    must_run(c, &r);
    c.cover("listed");
    let want: Vec<(Val, &str, Val, &str)> = (0..3).map(|i| (ds[i].clone(), pair[i].0, ps[i].clone(), pair[i].1)).collect();
    check_prices(c, &r.out, &want);
}

const AUTO: &str = "= /Bank/\n    (Budget)    1\n\n";

fn from_costs(c: &mut Ctx) {
    let d = c.date("d");
    let two = c.flag("two postings");
    let mut j = String::new();
    if c.flag("automated transaction") {
        j.push_str(AUTO);
    }
    j.push_str(&format!("{} Payee\n", c.day(&d)));
    let mut want = vec![];
    let names = ["ACME", "ZED"];
    for i in 0..(1 + two as usize) {
        let q = c.int(&format!("q{}", i));
        if c.flag(&format!("total {}", i)) {
            let m = pos(c, &format!("m{}", i));
            let size = q.abs();
            let total = if q.is_zero() { m.clone() } else { size.mul(&m) };
            j.push_str(&format!("    Shares    {} {} @@ {} EUR\n", c.amt(&q), names[i], c.amt(&total)));
            if !q.is_zero() {
                want.push((d.clone(), names[i], m, "EUR"));
                c.cover(if q.is_neg() { "sale" } else { "purchase" });
            } else {
                c.cover("nothing");
            }
        } else {
            let p = c.frac(&format!("p{}", i), 1, 4);
            c.assume_lt(&Val::zero(), &p);
            j.push_str(&format!("    Shares    {} {} @ {} EUR\n", c.amt(&q), names[i], c.amt(&p)));
            want.push((d.clone(), names[i], p, "EUR"));
        }
    }
    j.push_str("    Bank\n");
    let r = c.run(&["prices"], &j);
    must_run(c, &r);
    check_prices(c, &r.out, &want);
}

fn implied(c: &mut Ctx) {
    let d = c.date("d");
    let a = c.int("a");
    let m = pos(c, "ratio");
    c.assume_ne(&a, &Val::zero());
    let b = a.mul(&m).neg();
    let split = c.choose("split", 3);
    let (x, y) = (c.int("x"), c.int("y"));
    let auto = c.flag("automated transaction");
    let names = *c.pick("names", &[("ACME", "EUR"), ("EUR", "USD")]);
    // the ratio is integral in the direction the program lists: first name in terms of the second
    let mut lines = vec![];
    match split {
        0 => lines.push(format!("    Bank    {} {}\n", c.amt(&a), names.0)),
        _ => {
            lines.push(format!("    Bank    {} {}\n", c.amt(&x), names.0));
            lines.push(format!("    Other    {} {}\n", c.amt(&a.sub(&x)), names.0));
        }
    }
    match split {
        2 => {
            lines.push(format!("    Cash    {} {}\n", c.amt(&y), names.1));
            lines.push(format!("    Cash    {} {}\n", c.amt(&b.sub(&y)), names.1));
        }
        _ => lines.push(format!("    Cash    {} {}\n", c.amt(&b), names.1)),
    }
    if c.flag("reversed") {
        lines.reverse();
    }
    if c.flag("bracketed pair") {
        lines.push("    [V]    3 ZED\n    [W]    -3 ZED\n".into());
    }
    let j = format!("{}{} Payee\n{}", if auto { AUTO } else { "" }, c.day(&d), lines.concat());
    let r = c.run(&["prices"], &j);
    must_run(c, &r);
    c.cover("ratio");
    let rows = text::prices(c, &r.out);
    c.ok("number of prices", rows.len() == 1, &format!("one implied price expected\n{}", r.out));
    let p = &rows[0];
    c.eq("price date", &p.date, &d, "date of the implied price");
    if (p.commodity.as_str(), p.price.cur.as_str()) == names {
        c.eq("price", &p.price.v, &m, "the implied price is not the ratio of the amounts");
    } else {
        c.ok("listed prices", (p.price.cur.as_str(), p.commodity.as_str()) == names, &r.out);
        c.eq("price", &p.price.v, &shown(&Val::int(1).div(&m)), "the implied price is not the ratio of the amounts");
    }
}

fn none(c: &mut Ctx) {
    let d = c.date("d");
    let (a, b) = (c.real("a"), c.real("b"));
    let auto = c.flag("automated transaction");
    let t = match c.choose("what", 5) {
        0 => format!("    Bank    {} EUR\n    Cash    {} EUR\n", c.amt_d(&a, 4), c.amt_d(&a.neg(), 4)),
        1 => {
            let k = c.real("k");
            for v in [&a, &b, &k].iter() {
                c.assume_ne(v, &Val::zero());
            }
            c.assume_lt(&a, &Val::zero());
            c.assume_lt(&Val::zero(), &b);
            format!("    Bank    {} EUR\n    Cash    {} USD\n    X    {} ACME\n", c.amt_d(&a, 4), c.amt_d(&b, 4), c.amt_d(&k, 4))
        }
        2 => format!("    Bank    {} EUR\n    Cash    {} USD\n    X\n", c.amt_d(&a, 4), c.amt_d(&b, 4)),
        3 => format!("    Bank    {} EUR\n    [Cash]    {} USD\n    [X]    {} USD\n    Y\n", c.amt_d(&a, 4), c.amt_d(&b, 4), c.amt_d(&b.neg(), 4)),
        _ => format!("    Bank    {} EUR\n    (Cash)    {} USD\n    Y    {} EUR\n", c.amt_d(&a, 4), c.amt_d(&b, 4), c.amt_d(&a.neg(), 4)),
    };
    let j = format!("{}{} Payee\n{}", if auto { AUTO } else { "" }, c.day(&d), t);
    let r = c.run(&["prices"], &j);
    must_run(c, &r);
    c.cover("no price");
    c.ok("number of prices", r.out.trim().is_empty(), &format!("a price where none is stated or implied\n{}", r.out));
}
