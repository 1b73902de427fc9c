//! The same command on the same files: whatever order unordered containers iterate in.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use symcore::{HashOrder, Val};

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C11",
        "reports",
        reports,
        "4 postings over 3 nested accounts in 3 commodities, one amount left out; bal, bal --flat, with --depth 1, reg, each with every order of any one iteration of an unordered container (thorough: two); amounts integers plus a fixed fraction (quick: all but one positive)",
    )
    .covers(&["bal", "reg", "another order"]),
    Unit::new(
        "C11",
        "conversion",
        conversion,
        "4 commodities with 4 prices (two of them arbitrary positive integers) of arbitrary dates up to today, directly and through each other, some in the inverse direction,; bal -X flat and tree with every order of any one iteration (thorough: two)",
    )
    .covers(&["converted", "another order"]),
    Unit::new(
        "C11",
        "names",
        names,
        "declared accounts, commodities and payees with several, also overlapping, aliases and payee patterns, names in different case; accounts, payees, commodities, prices, bal, reg, check with every order of any one iteration (thorough: two)",
    )
    .covers(&["accounts", "payees", "commodities", "bal", "reg", "prices", "check", "another order"]),
    Unit::new(
        "C11",
        "automated",
        automated,
        "2 automated transactions that match the same postings, one by account, one by amount or tag, with fixed, proportional and computed amounts; bal, reg, accounts, prices with every order of any one iteration (thorough: two)",
    )
    .covers(&["accepted", "another order"]),
    Unit::new(
        "C11",
        "implied_prices",
        implied_prices,
        "a transaction that leaves 2 or 3 commodities open, or does not balance; prices, bal -X, check with every order of any one iteration (thorough: two)",
    )
    .covers(&["prices", "another order"]),
];

/// Runs the command twice, the second time with arbitrary iteration orders.
fn twice(c: &mut Ctx, args: &[&str], j: &str) -> Run {
    c.hash_order(HashOrder::Insertion);
    let a = c.run(args, j);
    c.hash_order(HashOrder::Any(if c.thorough() { 2 } else { 1 }));
    let b = c.run(args, j);
    c.hash_order(HashOrder::Insertion);
    c.cover("another order");
    c.ok(
        "same status",
        a.status.short() == b.status.short(),
        &format!("`{}` ends once with {} and once with {}", args.join(" "), a.status.short(), b.status.short()),
    );
    // the name of the file is part of the output of check
    if args[0] != "check" {
        text::same_output(c, "same output", &a.out, &b.out, &format!("`{}` printed two different reports for the same journal", args.join(" ")));
    } else {
        c.ok("same output", a.out.contains("OK") == b.out.contains("OK"), "check gave two different verdicts");
    }
    a
}

fn reports(c: &mut Ctx) {
    let v: Vec<Val> = (0..4).map(|i| c.frac(&format!("a{}", i), 1, 4)).collect();
    if !c.thorough() {
        for x in &v[1..] {
            c.assume_lt(&Val::zero(), x);
        }
    }
    let second = *c.pick("accounts", &[["A:B", "A:C", "D", "A:B"], ["A", "A:B", "A:B:C", "D"], ["A:B", "A:B", "A:B", "A:C"]]);
    let j = format!(
        "2020-01-01 One\n    {}    {} EUR\n    {}    {} USD\n    Filled\n2020-01-01 Two\n    ({})    {} GBP\n    [{}]    {} USD\n    [Other:One]    {} EUR\n    Filled:Two    0.25 EUR\n    Filled\n",
        second[0], c.amt(&v[0]), second[1], c.amt(&v[1]), second[2], c.amt(&v[2]), second[3], c.amt(&v[3]), c.amt(&v[3].neg()),
    );
    let cmd: &[&str] = *c.pick("command", &[&["bal"][..], &["bal", "--flat"], &["bal", "--flat", "--depth", "1"], &["bal", "--depth", "1"], &["reg"]]);
    let r = twice(c, cmd, &j);
    if r.status.ok() {
        c.cover(if cmd[0] == "reg" { "reg" } else { "bal" });
    }
}

fn conversion(c: &mut Ctx) {
    let now = Val::int(today());
    let ds: Vec<Val> = (0..3)
        .map(|i| {
            let d = c.date(&format!("d{}", i));
            c.assume_le(&d, &now);
            d
        })
        .collect();
    let mut ps: Vec<Val> = (0..2)
        .map(|i| {
            let p = c.int(&format!("p{}", i));
            c.assume_lt(&Val::zero(), &p);
            p
        })
        .collect();
    ps.push(Val::int(2));
    ps.push(Val::int(5));
    let a = Val::int(10).mul(&ps[0]).mul(&ps[1]);
    let shape = c.choose("shape", 3);
    let lines: Vec<String> = match shape {
        // a square: two chains between the same ends
        0 => vec![
            format!("P {} AAA {} BBB\n", c.day(&ds[0]), c.amt(&ps[0])),
            format!("P {} BBB {} EUR\n", c.day(&ds[1]), c.amt(&ps[1])),
            format!("P {} AAA {} CCC\n", c.day(&ds[2]), c.amt(&ps[2])),
            format!("P {} CCC {} EUR\n", c.day(&ds[1]), c.amt(&ps[3])),
        ],
        // the direct price and a chain
        1 => vec![
            format!("P {} AAA {} EUR\n", c.day(&ds[0]), c.amt(&ps[0])),
            format!("P {} AAA {} BBB\n", c.day(&ds[1]), c.amt(&ps[1])),
            format!("P {} EUR {} BBB\n", c.day(&ds[2]), c.amt(&ps[2])),
            format!("P {} CCC {} EUR\n", c.day(&ds[2]), c.amt(&ps[3])),
        ],
        // several prices of the same pair, both directions
        _ => vec![
            format!("P {} AAA {} EUR\n", c.day(&ds[0]), c.amt(&ps[0])),
            format!("P {} EUR {} AAA\n", c.day(&ds[1]), c.amt(&ps[1])),
            format!("P {} AAA {} EUR\n", c.day(&ds[2]), c.amt(&ps[2])),
            format!("P {} BBB {} EUR\n", c.day(&ds[2]), c.amt(&ps[3])),
        ],
    };
    let j = lines.concat() + &format!("2020-01-01 Payee\n    (Assets:One)    {} AAA\n    (Assets:Two)    {} BBB\n    (Assets:Two)    1 EUR\n", c.amt(&a), c.amt(&a));
    let flat = if c.flag("flat") { "--flat" } else { "--no-total" };
    let r = twice(c, &["bal", flat, "-X", "EUR"], &j);
    must_run(c, &r);
    c.cover("converted");
}

fn names(c: &mut Ctx) {
    let (a, b) = (c.frac("a", 1, 4), c.frac("b", 1, 2));
    let decl = *c.pick(
        "declarations",
        &[
            // several aliases each
            "account Assets:Bank\n    alias bank\n    alias bk\naccount Assets:Cash\n    alias cash\n    alias purse\ncommodity EUR\n    alias euro\n    alias eu\npayee Shop\n    alias shp\n    alias store\npayee Baker\n    alias bread\n",
            // overlapping payee patterns
            "account bank\naccount purse\npayee Alpha\n    alias store\npayee Beta\n    alias sto\npayee Gamma\n    alias tore\ncommodity EUR\n    alias euro\n",
            // overlapping account payees
            "account Income:One\n    payee store\naccount Income:Two\n    payee sto\naccount Income:Three\n    payee tore\naccount Assets:Purse\n    alias purse\n    alias bank\ncommodity EUR\n    alias euro\ncommodity USD\n    alias usd2\n",
        ],
    );
    let j = format!(
        "{}P 2020-01-01 USD 2 euro\n2020-01-01 store one\n    bank    {} euro\n    unknown\n2020-01-02 Store\n    Purse    {} EUR\n    BANK    {} EUR @ 3 USD\n    UNKNOWN\n",
        decl, c.amt(&a), c.amt(&a), c.amt(&b)
    );
    let cmd: &[&str] = *c.pick(
        "command",
        &[&["accounts"][..], &["payees"], &["commodities"], &["bal"], &["reg"], &["reg", "@alpha"], &["prices"], &["check"], &["bal", "--flat", "bank", "and", "not", "cash"]],
    );
    let r = twice(c, cmd, &j);
    if r.status.ok() {
        c.cover(cmd[0]);
    }
}

fn automated(c: &mut Ctx) {
    let (a, b) = (c.int("a"), c.int("b"));
    let k = c.int("limit");
    let rule = match c.choose("second rule", 3) {
        0 => format!("= expr (amount > {})\n    (Big)    2\n", c.amt(&k)),
        1 => "= %trip\n    (Trips)    (amount * 2)\n    (Trips:Count)    1 X\n".to_string(),
        _ => "= Food or Fun\n    [Budget]    -1\n    [Equity]    1\n".to_string(),
    };
    let j = format!(
        "= Food\n    ; :trip:\n    (Seen:Food)    1\n    (Seen:Count)    1 X\n{}2020-01-01 One\n    Food:Out    {} EUR\n    Fun    {} USD\n      ; :trip:\n    Cash\n",
        rule, c.amt(&a), c.amt(&b)
    );
    let cmd: &[&str] = *c.pick("command", &[&["bal"][..], &["reg"], &["accounts"], &["commodities"], &["reg", "%trip"], &["prices"]]);
    let r = twice(c, cmd, &j);
    if r.status.ok() {
        c.cover("accepted");
    }
}

fn implied_prices(c: &mut Ctx) {
    // amounts such that every ratio is an integer
    let (a, m, x) = (c.int("a"), c.int("m"), c.int("x"));
    c.assume_lt(&Val::zero(), &m);
    let am = a.mul(&m);
    let xm = x.mul(&m);
    let j = match c.choose("shape", 4) {
        0 => format!("2020-01-01 One\n    A    {} EUR\n    B    {} USD\n", c.amt(&a), c.amt(&am)),
        1 => format!("2020-01-01 One\n    A    {} EUR\n    B    {} USD\n    C    {} GBP\n", c.amt(&a), c.amt(&am), c.amt(&am.mul(&x))),
        2 => format!(
            "2020-01-01 One\n    A    {} EUR @@ {} USD\n    B    {} USD\n    C    {} CHF\n    C    {} GBP\n",
            c.amt(&a), c.amt(&am), c.amt(&am.neg()), c.amt(&x), c.amt(&xm)
        ),
        _ => format!(
            "2020-01-01 One\n    A    {} EUR\n    B    {} USD\n2020-01-01 Two\n    A    {} GBP\n    B    {} USD\n    C    1 EUR\n    C    -1 EUR\n",
            c.amt(&a), c.amt(&am.neg()), c.amt(&x), c.amt(&xm.neg())
        ),
    };
    let cmd: &[&str] = *c.pick("command", &[&["prices"][..], &["check"], &["bal", "--flat"]]);
    let r = twice(c, cmd, &j);
    if r.status.ok() && cmd[0] == "prices" {
        c.cover("prices");
    }
}
