//! Names, aliases and letter case.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use symcore::Val;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C16",
        "accounts",
        accounts,
        "3 postings under any of 12 names for 5 accounts (declared name, three aliases, other letter case, letters outside ASCII, undeclared names, names that are prefixes of each other), the declaration before or after; flat and tree balance; amounts integers plus fixed fractions",
    )
    .covers(&["merged", "apart"]),
    Unit::new(
        "C16",
        "asserted",
        asserted,
        "2 transactions on one account under any of 6 names each with arbitrary rational amounts, a balance asserted or set under any of them: accepted exactly when the sum over all names is the asserted one",
    )
    .covers(&["accepted", "refused"]),
    Unit::new(
        "C16",
        "commodities",
        commodities,
        "3 postings in any of 8 names for 2 commodities (declared name, aliases, symbol, other letter case, letters outside ASCII, undeclared), the declaration before or after; flat balance and commodities; amounts integers plus fixed fractions",
    )
    .covers(&["merged", "apart"]),
    Unit::new(
        "C16",
        "commodity_roles",
        commodity_roles,
        "one commodity under any of 3 names as posting, cost, asserted and priced commodity and as the target of -X; check, prices and converted balance with arbitrary integer amounts and prices",
    )
    .covers(&["cost", "assertion", "price", "target"]),
    Unit::new(
        "C16",
        "payees",
        payees,
        "2 transactions with any of 6 descriptions for 3 payees (declared name, other letter case, matched by one of two patterns, undeclared), the declaration before or after; payees, reg and reg of one payee; amounts integers plus a fixed fraction",
    )
    .covers(&["alias", "undeclared"]),
    Unit::new(
        "C21",
        "unknown",
        unknown,
        "accounts that claim payees by pattern, declared before or after: 2 transactions with any of 7 payees (one of them an alias of a claimed one) on any of 7 accounts (4 unknown ones in several letter cases; quick: the second one out of 3 payees and 3 accounts), real or virtual; flat balance or register; amounts (quick: positive) integers plus a fixed fraction",
    )
    .covers(&["claimed", "not claimed", "other account"]),
    Unit::new(
        "C21",
        "unknown_asserted",
        unknown_asserted,
        "2 transactions on unknown accounts with any of 4 payees, a balance asserted with an arbitrary rational on the claiming account, the unknown account, or through an unknown account; amounts arbitrary rationals",
    )
    .covers(&["accepted", "refused"]),
    Unit::new(
        "C21",
        "unknown_matched",
        unknown_matched,
        "an automated transaction on the claiming account or on unknown accounts, 2 transactions with any of 4 payees; amounts integers plus a fixed fraction, arbitrary dates",
    )
    .covers(&["matched", "not matched"]),
    Unit::new(
        "C16",
        "lists",
        lists,
        "every combination of 4 declarations (used or not) and 4 transactions with names in several letter cases and aliases: accounts, payees and commodities show each one once; amounts arbitrary rationals",
    )
    .covers(&["accounts", "payees", "commodities"]),
    Unit::new(
        "C16",
        "automated",
        automated,
        "an automated transaction whose posting and query use any of 3 names for a declared account and commodity, with and without amounts posted to it; amounts integers plus a fixed fraction",
    )
    .covers(&["added"]),
];

fn lower(mut b: text::Balance, names: &[&str]) -> text::Balance {
    for r in b.rows.iter_mut() {
        if names.iter().any(|n| r.name.to_lowercase() == n.to_lowercase()) {
            r.name = r.name.to_lowercase();
        }
    }
    b
}

fn accounts(c: &mut Ctx) {
    const NAMES: &[(&str, &str)] = &[
        ("Assets:Bank", "Assets:Bank"),
        ("bank", "Assets:Bank"),
        ("my bank", "Assets:Bank"),
        ("ASSETS:bank", "Assets:Bank"),
        ("Cash", "cash"),
        ("cash", "cash"),
        ("CashBox", "cashbox"),
        ("Assets:Ban", "assets:ban"),
        ("\u{c1}vora \u{c9}tage", "Assets:Bank"),
        ("\u{e1}vora \u{e9}tage", "Assets:Bank"),
        ("\u{dc}bung", "\u{fc}bung"),
        ("\u{fc}BUNG", "\u{fc}bung"),
    ];
    let first = c.flag("declared first");
    let decl = "account Assets:Bank\n    alias Bank\n    note The one around the corner\n    alias my bank\n    alias \u{c1}vora \u{c9}tage\n\n";
    let mut j = String::new();
    let mut a = Accounts::default();
    let mut seen: Vec<&str> = vec![];
    let fr = [(1, 4), (1, 2), (1, 4)];
    for i in 0..3 {
        let (w, n) = *c.pick(&format!("name {}", i), NAMES);
        let v = c.frac(&format!("a{}", i), fr[i].0, fr[i].1);
        j.push_str(&format!("2021-01-0{} P\n    {}    {} EUR\n    Equity    {} EUR\n\n", i + 1, w, c.amt(&v), c.amt(&v.neg())));
        post(&mut a, n, "EUR", &v);
        post(&mut a, "Equity", "EUR", &v.neg());
        c.cover(if seen.contains(&n) { "merged" } else { "apart" });
        seen.push(n);
    }
    let j = if first { format!("{}{}", decl, j) } else { format!("{}{}", j, decl) };
    let r = c.run(&["bal", "--flat"], &j);
    must_run(c, &r);
    check_rows(c, lower(text::balance(c, &r.out), &["cash", "cashbox", "assets:ban", "\u{fc}bung"]), &a, true);
}

fn asserted(c: &mut Ctx) {
    const NAMES: &[&str] = &["Assets:Bank", "bank", "BANK", "assets:bank", "\u{d1}and\u{fa}", "\u{f1}AND\u{da}"];
    let (x, y, b) = (c.real("x"), c.real("y"), c.real("b"));
    let (n0, n1) = (*c.pick("first", NAMES), *c.pick("second", NAMES));
    let n2 = *c.pick("asserted", NAMES);
    let set = c.flag("set");
    let mut j = format!(
        "2021-01-01 P\n    {}    {} EUR\n    Equity\n\n2021-01-02 Q\n    {}    {} EUR\n    Equity\n\n",
        n0,
        c.amt(&x),
        n1,
        c.amt(&y)
    );
    // the posting that sets the balance has to be worth b - (x + y)
    let gap = c.real("gap");
    if set {
        j.push_str(&format!("2021-01-03 R\n    {}    = {} EUR\n    Equity    {} EUR\n\n", n2, c.amt(&b), c.amt(&gap)));
    } else {
        j.push_str(&format!("2021-01-03 R\n    {}    {} EUR = {} EUR\n    Equity\n\n", n2, c.amt(&gap.neg()), c.amt(&b)));
    }
    j.push_str("account Assets:Bank\n    alias bank\n    alias \u{d1}and\u{fa}\n");
    let r = c.run(&["check"], &j);
    let ok = accepted(c, &r);
    c.cover(if ok { "accepted" } else { "refused" });
    let want = x.add(&y).sub(&gap);
    if ok {
        c.eq("sum over all names", &want, &b, "the balance of the account does not count what is posted under its other names");
    } else {
        c.ne("sum over all names", &want, &b, "a journal is refused although the account has the stated balance");
    }
}

fn commodities(c: &mut Ctx) {
    const NAMES: &[(&str, &str)] = &[("EUR", "EUR"), ("Euro", "EUR"), ("\u{20ac}", "EUR"), ("eur", "EUR"), ("Usd", "usd"), ("USD", "usd"), ("Z\u{141}OTY", "EUR"), ("z\u{142}oty", "EUR")];
    let first = c.flag("declared first");
    let decl = "commodity EUR\n    alias euro\n    alias \u{20ac}\n    alias Z\u{142}oty\n    note Money\n\n";
    let mut j = String::new();
    let mut a = Accounts::default();
    let mut seen: Vec<&str> = vec![];
    let fr = [(1, 4), (1, 4), (1, 2)];
    for i in 0..3 {
        let (w, n) = *c.pick(&format!("name {}", i), NAMES);
        let v = c.frac(&format!("a{}", i), fr[i].0, fr[i].1);
        j.push_str(&format!("2021-01-0{} P\n    Bank    {} {}\n    Equity\n\n", i + 1, c.amt(&v), w));
        post(&mut a, "Bank", n, &v);
        post(&mut a, "Equity", n, &v.neg());
        c.cover(if seen.contains(&n) { "merged" } else { "apart" });
        seen.push(n);
    }
    let j = if first { format!("{}{}", decl, j) } else { format!("{}{}", j, decl) };
    let r = c.run(&["bal", "--flat"], &j);
    must_run(c, &r);
    let mut b = text::balance(c, &r.out);
    let fix = |m: &mut Vec<text::Amount>| {
        for x in m.iter_mut() {
            if x.cur.eq_ignore_ascii_case("usd") {
                x.cur = "usd".into();
            }
        }
    };
    b.rows.iter_mut().for_each(|r| fix(&mut r.amounts));
    if let Some(t) = &mut b.total {
        fix(t)
    }
    check_rows(c, b, &a, true);
}

fn commodity_roles(c: &mut Ctx) {
    const NAMES: &[&str] = &["EUR", "Euro", "eur"];
    let role = c.choose("role", 4);
    let (n0, n1) = (*c.pick("one name", NAMES), *c.pick("other name", NAMES));
    let decl = "commodity EUR\n    alias euro\n";
    let x = c.int("x");
    let k = c.int("k");
    c.assume_lt(&Val::zero(), &k);
    match role {
        0 => {
            // the cost and the payment are in the same commodity
            c.cover("cost");
            let paid = c.int("paid");
            let j = format!(
                "{}2021-01-01 P\n    Shares    {} ACME @ {} {}\n    Cash    {} {}\n    Fee    1 {}\n",
                decl, c.amt(&x), c.amt(&k), n0, c.amt(&paid.neg()), n1, n0
            );
            let r = c.run(&["check"], &j);
            let want = x.mul(&k).add(&Val::int(1));
            if accepted(c, &r) {
                c.eq("cost", &want, &paid, "a transaction that does not balance is accepted");
            } else {
                c.ne("cost", &want, &paid, "names of one commodity do not cancel");
            }
        }
        1 => {
            c.cover("assertion");
            let b = c.int("b");
            let j = format!("{}2021-01-01 P\n    Cash    {} {} = {} {}\n    Equity\n", decl, c.amt(&x), n0, c.amt(&b), n1);
            let r = c.run(&["check"], &j);
            if accepted(c, &r) {
                c.eq("assertion", &x, &b, "a wrong balance is accepted");
            } else {
                c.ne("assertion", &x, &b, "a right balance is refused");
            }
        }
        2 => {
            c.cover("price");
            let d = c.date("d");
            let j = format!("{}P {} ACME {} {}\nP {} {} 3 USD\n", decl, c.day(&d), c.amt(&k), n0, c.day(&d), n1);
            let r = c.run(&["prices"], &j);
            must_run(c, &r);
            let p = text::prices(c, &r.out);
            let got: Vec<(&str, &str)> = p.iter().map(|x| (x.commodity.as_str(), x.price.cur.as_str())).collect();
            c.ok("prices", got == [("ACME", "EUR"), ("EUR", "USD")], &format!("the prices are not shown under the declared name\n{}", r.out));
            c.eq("prices", &p[0].price.v, &k, "wrong price");
            c.eq("prices", &p[0].date, &d, "wrong date");
        }
        _ => {
            c.cover("target");
            let d = c.date("d");
            c.assume_le(&d, &Val::int(today()));
            let j = format!(
                "{}P {} ACME {} {}\n2021-01-01 P\n    (Shares)    {} ACME\n    (Cash)    {} {}\n",
                decl, c.day(&d), c.amt(&k), n0, c.amt(&x), c.amt(&x), n1
            );
            let t = *c.pick("target", &["EUR", "Euro"]);
            let r = c.run(&["bal", "--flat", "-X", t], &j);
            must_run(c, &r);
            let mut a = Accounts::default();
            post(&mut a, "Shares", "EUR", &x.mul(&k));
            post(&mut a, "Cash", "EUR", &x);
            check_flat(c, &r.out, &a, true);
        }
    }
}

fn payees(c: &mut Ctx) {
    const NAMES: &[(&str, &str)] = &[
        ("Shop", "Shop"),
        ("SHOP", "Shop"),
        ("Shopping-tour", "Shop"),
        ("Big-Mall", "Shop"),
        ("Other", "other"),
        ("Mall-rat", "mall-rat"),
    ];
    let first = c.flag("declared first");
    let decl = "payee Shop\n    alias ^Shopping\n    alias Mall$\n\n";
    let mut j = String::new();
    let mut txs = vec![];
    for i in 0..2 {
        let (w, n) = *c.pick(&format!("name {}", i), NAMES);
        let v = c.frac(&format!("a{}", i), 1, 4);
        j.push_str(&format!("2021-01-0{} {}\n    Bank    {} EUR\n    Equity    {} EUR\n\n", i + 1, w, c.amt(&v), c.amt(&v.neg())));
        c.cover(if n == "Shop" { "alias" } else { "undeclared" });
        txs.push((n, v));
    }
    let j = if first { format!("{}{}", decl, j) } else { format!("{}{}", j, decl) };
    let norm = |s: &str| if s == "Shop" { s.to_string() } else { s.to_lowercase() };
    match c.choose("command", 3) {
        0 => {
            let r = c.run(&["payees"], &j);
            must_run(c, &r);
            let mut got: Vec<String> = r.out.lines().map(|l| norm(l.trim())).collect();
            got.sort();
            let mut want: Vec<String> = txs.iter().map(|x| x.0.to_string()).collect();
            want.push("Shop".into());
            want.sort();
            want.dedup();
            c.ok("payees", got == want, &format!("payees lists {:?}, the payees are {:?}", got, want));
        }
        k => {
            let r = c.run(if k == 1 { &["reg"] } else { &["reg", "@^shop$"] }, &j);
            must_run(c, &r);
            let rows = text::register(c, &r.out);
            let want: Vec<&(&str, Val)> = txs.iter().filter(|x| k == 1 || x.0 == "Shop").collect();
            c.ok("register", rows.len() == 2 * want.len(), &format!("the register shows {} lines, {} are expected\n{}", rows.len(), 2 * want.len(), r.out));
            for (i, w) in want.iter().enumerate() {
                let (p, q) = (&rows[2 * i], &rows[2 * i + 1]);
                match &p.head {
                    Some((_, n)) => c.ok("payee", norm(n) == w.0, &format!("the register shows payee {} instead of {}", n, w.0)),
                    None => c.fail("payee", "a transaction does not start a new block"),
                }
                c.eq("amount", &p.amount.v, &w.1, "wrong amount");
                c.eq("amount", &q.amount.v, &w.1.neg(), "wrong amount");
            }
        }
    }
}

const CLAIMS: &str = "account Expenses:Food\n    alias eat\n    payee ^Market\n    payee bakery\naccount Expenses:Fun\n    note For fun\n    payee Cinema\n    payee ^M\u{fc}hle|Zoo$\npayee Cinema\n    alias ^Filmhaus\n";
const PAYEES: &[(&str, Option<&str>)] = &[
    ("Market-Street", Some("Expenses:Food")),
    ("Not-a-Market", None),
    ("My-Cinema", Some("Expenses:Fun")),
    ("Old-bakery", Some("Expenses:Food")),
    ("Filmhaus-West", Some("Expenses:Fun")),
    ("M\u{fc}hle", Some("Expenses:Fun")),
    ("Bakery", None),
];
fn journal(first: bool, decl: &str, rest: &str) -> String {
    if first {
        format!("{}{}", decl, rest)
    } else {
        format!("{}{}", rest, decl)
    }
}

fn unknown(c: &mut Ctx) {
    let first = c.flag("declared first");
    let reg = c.flag("register");
    let virt = c.flag("virtual");
    let mut j = String::new();
    let mut a = Accounts::default();
    let mut rows: Vec<(String, Val)> = vec![];
    for i in 0..2 {
        let small = i == 1 && !c.thorough();
        let (p, to) = *c.pick(&format!("payee {}", i), if small { &PAYEES[..3] } else { PAYEES });
        let accs = &["Expenses:Unknown", "The:uNkNOwn", "eat", "Unknown", "expenses:known", "My UNKNOWN", "Unknown:x"];
        let acc = *c.pick(&format!("account {}", i), if small { &accs[..3] } else { &accs[..] });
        let v = c.frac(&format!("v{}", i), 1, 4);
        if !c.thorough() {
            c.assume_lt(&Val::zero(), &v);
        }
        let written = if virt { format!("({})", acc) } else { acc.to_string() };
        j.push_str(&format!("2021-01-0{} {}\n    {}    {} EUR\n    Cash    {} EUR\n    Safe{}\n\n", i + 1, p, written, c.amt(&v), c.amt(&v.neg()), if virt { "" } else { "    0 EUR" }));
        let acc = if acc.to_lowercase().ends_with("unknown") {
            c.cover(if to.is_some() { "claimed" } else { "not claimed" });
            to.unwrap_or(acc)
        } else if acc == "eat" {
            c.cover("other account");
            "Expenses:Food"
        } else {
            c.cover("other account");
            acc
        };
        post(&mut a, acc, "EUR", &v);
        post(&mut a, "Cash", "EUR", &v.neg());
        if virt {
            post(&mut a, "Safe", "EUR", &v);
            rows.extend([("Cash".to_string(), v.neg()), ("Safe".to_string(), v.clone()), (format!("({})", acc), v)]);
        } else {
            rows.extend([(acc.to_string(), v.clone()), ("Cash".to_string(), v.neg()), ("Safe".to_string(), Val::zero())]);
        }
    }
    let j = journal(first, CLAIMS, &j);
    let r = c.run(if reg { &["reg"] } else { &["bal", "--flat"] }, &j);
    must_run(c, &r);
    if !reg {
        check_flat(c, &r.out, &a, true);
        return;
    }
    let got = text::register(c, &r.out);
    c.ok("register", got.len() == rows.len(), &format!("{} lines instead of {}\n{}", got.len(), rows.len(), r.out));
    for k in 0..2 {
        let mut left: Vec<&(String, Val)> = rows[3 * k..3 * k + 3].iter().collect();
        for g in &got[3 * k..3 * k + 3] {
            match left.iter().position(|x| x.0.eq_ignore_ascii_case(&g.account)) {
                Some(i) => c.eq("register", &g.amount.v, &left.remove(i).1, "wrong amount"),
                None => c.fail("register", &format!("{} is not the account of this posting\n{}", g.account, r.out)),
            }
        }
    }
}

fn unknown_asserted(c: &mut Ctx) {
    let first = c.flag("declared first");
    let mut j = String::new();
    let mut sums = [Val::zero(), Val::zero(), Val::zero()];
    // the claiming accounts and the unknown one
    let place = |to: Option<&str>| match to {
        Some("Expenses:Food") => 0,
        Some(_) => 1,
        None => 2,
    };
    for i in 0..2 {
        let (p, to) = *c.pick(&format!("payee {}", i), &PAYEES[..4]);
        let v = c.real(&format!("v{}", i));
        j.push_str(&format!("2021-01-0{} {}\n    Unknown    {} EUR\n    Cash\n\n", i + 1, p, c.amt(&v)));
        sums[place(to)] = sums[place(to)].add(&v);
    }
    let b = c.real("asserted");
    let k = match c.choose("asserted on", 5) {
        0 => {
            j.push_str(&format!("2021-02-01 Someone\n    Expenses:Food    0 EUR = {} EUR\n    Cash\n", c.amt(&b)));
            0
        }
        1 => {
            j.push_str(&format!("2021-02-01 Someone\n    Unknown    0 EUR = {} EUR\n    Cash\n", c.amt(&b)));
            2
        }
        2 => {
            j.push_str(&format!("2021-02-01 My-Cinema\n    Unknown    0 EUR = {} EUR\n    Cash\n", c.amt(&b)));
            1
        }
        3 => {
            j.push_str(&format!("2021-02-01 Someone\n    Expenses:Fun    0 EUR = {} EUR\n    Cash\n", c.amt(&b)));
            1
        }
        _ => {
            let x = c.real("x");
            j.push_str(&format!("2021-02-01 Market\n    UNKNOWN    {} EUR = {} EUR\n    Cash\n", c.amt(&x), c.amt(&b)));
            sums[0] = sums[0].add(&x);
            0
        }
    };
    let j = journal(first, CLAIMS, &j);
    let r = c.run(&["check"], &j);
    if accepted(c, &r) {
        c.cover("accepted");
        c.eq("assertion", &b, &sums[k], "an assertion that does not hold is accepted");
    } else {
        c.cover("refused");
        c.ne("assertion", &b, &sums[k], "an assertion that holds is refused");
    }
}

fn unknown_matched(c: &mut Ctx) {
    let first = c.flag("declared first");
    let on = *c.pick("query", &["food", "unknown", "fun"]);
    let mut j = String::new();
    let mut a = Accounts::default();
    for i in 0..2 {
        let (p, to) = *c.pick(&format!("payee {}", i), &PAYEES[..4]);
        let v = c.frac(&format!("v{}", i), 1, 4);
        let d = c.date(&format!("d{}", i));
        j.push_str(&format!("{} {}\n    Unknown    {} EUR\n    Cash\n\n", c.day(&d), p, c.amt(&v)));
        let acc = to.unwrap_or("Unknown");
        post(&mut a, acc, "EUR", &v);
        post(&mut a, "Cash", "EUR", &v.neg());
        if acc.to_lowercase().contains(on) {
            c.cover("matched");
            post(&mut a, "Budget", "EUR", &v.mul(&Val::int(2)));
        } else {
            c.cover("not matched");
        }
    }
    let j = format!("= {}\n    (Budget)    2\n\n{}", on, journal(first, CLAIMS, &j));
    let r = c.run(&["bal", "--flat"], &j);
    must_run(c, &r);
    check_flat(c, &r.out, &a, true);
}

fn lists(c: &mut Ctx) {
    let x = c.real("x");
    let y = c.real("y");
    let cmd = *c.pick("command", &["accounts", "payees", "commodities"]);
    let mut j = String::new();
    let mut want: Vec<String> = vec![];
    let decls = [
        ("account Assets:Bank\n    alias bank\n", "accounts", "Assets:Bank"),
        ("commodity EUR\n    alias euro\n", "commodities", "EUR"),
        ("payee Shop\n    alias ^Shopping\n", "payees", "Shop"),
    ];
    let unused = c.flag("unused declarations");
    for (t, k, n) in &decls {
        j.push_str(t);
        if *k == cmd {
            want.push(n.to_lowercase());
        }
    }
    if unused {
        j.push_str("account Assets:Old\ncommodity DEM\npayee Nobody\n");
        want.push(match cmd {
            "accounts" => "assets:old".into(),
            "payees" => "nobody".into(),
            _ => "dem".into(),
        });
    }
    let mut add = |s: &str| want.push(s.to_lowercase());
    let t1 = c.flag("first");
    if t1 {
        j.push_str(&format!("2021-01-01 Shopping spree\n    BANK    {} Euro\n    Cash\n\n", c.amt(&x)));
        if cmd == "accounts" {
            add("cash");
        }
    }
    let t2 = c.flag("second");
    if t2 {
        j.push_str(&format!("2021-01-02 other Payee\n    CASH    {} eur @ 2 usd\n    cash\n\n", c.amt(&y)));
        match cmd {
            "accounts" => add("cash"),
            "payees" => add("other payee"),
            _ => add("usd"),
        }
    }
    let t3 = c.flag("third");
    if t3 {
        j.push_str("P 2021-01-01 ACME 3 USD\nP 2021-01-01 acme 3 Gold\n");
        if cmd == "commodities" {
            add("acme");
            add("usd");
            add("gold");
        }
    }
    let t4 = c.flag("fourth");
    if t4 {
        j.push_str("2021-01-03 Other payee\n    Cash:Box    1 EUR = 1 EUR\n    (Cash:Envelope)    0 Gold\n    assets:bank\n\n");
        match cmd {
            "accounts" => {
                add("cash:box");
                add("cash:envelope");
            }
            "payees" => add("other payee"),
            _ => add("gold"),
        }
    }
    let r = c.run(&[cmd], &j);
    must_run(c, &r);
    c.cover(cmd);
    let mut got: Vec<String> = r.out.lines().map(|l| l.trim().to_lowercase()).collect();
    got.sort();
    want.sort();
    want.dedup();
    c.ok("each one once", got == want, &format!("`{}` lists {:?}, used or declared are {:?}", cmd, got, want));
    // declared names are shown as declared
    let declared = decls.iter().find(|d| d.1 == cmd).unwrap().2;
    c.ok("declared name", r.out.lines().any(|l| l.trim() == declared), &format!("{} is not listed under its declared name", declared));
}

fn automated(c: &mut Ctx) {
    let acc = *c.pick("account", &["Assets:Budget", "budget", "BUDGET"]);
    let cur = *c.pick("commodity", &["EUR", "Euro"]);
    let used = c.flag("posted to");
    let x = c.frac("x", 1, 4);
    let y = c.frac("y", 1, 4);
    let k = c.frac("k", 1, 2);
    let mut a = Accounts::default();
    let mut j = format!(
        "account Assets:Budget\n    alias budget\ncommodity EUR\n    alias Euro\n\n= food\n    ({})    {} {}\n    ({})    -1\n\n2021-01-01 P\n    Food    {} eur\n    Cash\n\n",
        acc,
        c.amt(&k),
        cur,
        acc,
        c.amt(&x)
    );
    post(&mut a, "Food", "EUR", &x);
    post(&mut a, "Cash", "EUR", &x.neg());
    post(&mut a, "Assets:Budget", "EUR", &k);
    post(&mut a, "Assets:Budget", "EUR", &x.neg());
    if used {
        j.push_str(&format!("2021-01-02 Q\n    budget    {} EUR\n    Cash\n", c.amt(&y)));
        post(&mut a, "Assets:Budget", "EUR", &y);
        post(&mut a, "Cash", "EUR", &y.neg());
    }
    c.cover("added");
    let r = c.run(&["bal", "--flat"], &j);
    must_run(c, &r);
    check_flat(c, &r.out, &a, true);
    let r = c.run(&["accounts"], &j);
    must_run(c, &r);
    let got: Vec<&str> = r.out.lines().map(|l| l.trim()).collect();
    c.ok("accounts", got == ["Assets:Budget", "Cash", "Food"], &format!("accounts lists {:?}", got));
}
