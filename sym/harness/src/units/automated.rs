//! Automated transactions.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use std::collections::BTreeMap;
use symcore::Val;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C14",
        "amounts",
        amounts,
        "1 rule with one posting: a fixed amount, a multiplier (an arbitrary integer, or one of -1, 0, 1/2), or one of 6 expressions, as a parenthesised posting or as a pair of bracketed or real ones, matching one or both of 2 postings of which one can be left out; amounts integers (plus a fixed fraction where no multiplier is symbolic)",
    )
    .covers(&["fixed", "multiplied", "expression", "pair"]),
    Unit::new(
        "C14",
        "several_rules",
        several_rules,
        "2 rules (thorough: 3) out of 5, which match what the others add, on 2 transactions of arbitrary dates with 2 postings (thorough: 2 and 3); amounts integers plus a fixed fraction",
    )
    .covers(&["would match an added posting", "both rules"]),
    Unit::new(
        "C14",
        "queries",
        queries,
        "1 rule with a query on the account, the payee, a tag, the amount (with an arbitrary bound), the date (with an arbitrary day) or a combination, on 2 transactions of arbitrary dates and amounts",
    )
    .covers(&["matched", "not matched"]),
    Unit::new(
        "C14",
        "must_balance",
        must_balance,
        "1 rule with 1 or 2 real or bracketed postings with arbitrary rational multipliers or fixed amounts, matching 1 or 2 postings with arbitrary rational amounts",
    )
    .covers(&["accepted", "refused"]),
    Unit::new(
        "C14",
        "tags",
        tags,
        "1 rule with a tag on 2 transactions of arbitrary amounts: reports restricted to the tag",
    )
    .covers(&["tagged", "untagged"]),
    Unit::new(
        "C14",
        "many_commodities",
        many_commodities,
        "a posting filled in 1 or 2 commodities and postings in 2 commodities matched by a multiplying rule; amounts integers plus fixed fractions",
    )
    .covers(&["filled in two commodities"]),
];

#[derive(Clone)]
struct P {
    kind: char,
    acc: &'static str,
    cur: String,
    v: Val,
}
fn p(kind: char, acc: &'static str, cur: &str, v: &Val) -> P {
    P { kind, acc, cur: cur.to_string(), v: v.clone() }
}
fn wrap(k: char, acc: &str) -> String {
    match k {
        '(' => format!("({})", acc),
        '[' => format!("[{}]", acc),
        _ => acc.to_string(),
    }
}
/// the register and the flat balance show exactly these postings, transaction by transaction
fn check(c: &mut Ctx, j: &str, txs: &[(Val, &str, Vec<P>)]) {
    let r = c.run(&["reg"], j);
    must_run(c, &r);
    let rows = text::register(c, &r.out);
    let mut at: Vec<Vec<&text::Reg>> = vec![];
    for row in &rows {
        if row.head.is_some() {
            at.push(vec![]);
        }
        match at.last_mut() {
            Some(l) => l.push(row),
            None => c.fail("register", "the register starts without a transaction"),
        }
    }
    c.ok("transactions", at.len() == txs.len(), &format!("the register shows {} transactions, {} are expected\n{}", at.len(), txs.len(), r.out));
    for t in txs {
        // payees are distinct
        let l = match at.iter().find(|l| l[0].head.as_ref().unwrap().1 == t.1) {
            Some(l) => l,
            None => c.fail("transactions", &format!("transaction {} is missing\n{}", t.1, r.out)),
        };
        c.eq("date", &l[0].head.as_ref().unwrap().0, &t.0, "wrong date");
        let mut want: BTreeMap<String, Vec<&P>> = BTreeMap::new();
        for x in &t.2 {
            want.entry(wrap(x.kind, x.acc)).or_default().push(x);
        }
        let mut got: BTreeMap<String, Vec<&text::Reg>> = BTreeMap::new();
        for x in l {
            got.entry(x.account.clone()).or_default().push(x);
        }
        let (wk, gk): (Vec<_>, Vec<_>) = (
            want.iter().map(|(k, v)| (k.clone(), v.len())).collect(),
            got.iter().map(|(k, v)| (k.clone(), v.len())).collect(),
        );
        c.ok("postings", wk == gk, &format!("transaction {}: the register shows {:?}, expected are {:?}\n{}", t.1, gk, wk, r.out));
        for (k, w) in &want {
            let mut ws = Sums::default();
            let mut gs = Sums::default();
            for x in w {
                ws.add(&x.cur, &x.v);
            }
            for x in &got[k] {
                gs.add(&x.amount.cur, &x.amount.v);
            }
            for (cur, v) in &ws.0 {
                // each line is shown with two decimals, all amounts here have two at most
                c.eq("amount", &gs.get(cur), v, &format!("transaction {}: wrong amount for {}\n{}", t.1, k, r.out));
            }
            for (cur, v) in &gs.0 {
                c.eq("amount", &ws.get(cur), v, &format!("transaction {}: wrong amount for {} in {:?}\n{}", t.1, k, cur, r.out));
            }
        }
    }
    let mut a = Accounts::default();
    for t in txs {
        for x in &t.2 {
            post(&mut a, x.acc, &x.cur, &x.v);
        }
    }
    let r = c.run(&["bal", "--flat"], j);
    must_run(c, &r);
    check_flat(c, &r.out, &a, true);
}

fn amounts(c: &mut Ctx) {
    let form = c.choose("amount of the rule", 10);
    let (x, k);
    if form == 0 {
        x = c.frac("x", 1, 4);
        k = c.frac("k", 1, 2);
    } else if form == 1 || form == 9 {
        x = c.int("x");
        k = c.int("k");
    } else if form == 3 || form == 8 {
        x = c.int("half").mul(&Val::int(2));
        k = Val::zero();
    } else {
        x = c.frac("x", 1, 2);
        k = Val::zero();
    }
    let (txt, f): (String, Box<dyn Fn(&Val) -> (Val, &'static str)>) = match form {
        0 => (format!("{} USD", c.amt(&k)), Box::new(move |_| (k.clone(), "USD"))),
        1 => (c.amt(&k), Box::new(move |v| (v.mul(&k), "EUR"))),
        2 => ("-1".into(), Box::new(|v| (v.neg(), "EUR"))),
        3 => ("0.5".into(), Box::new(|v| (v.div(&Val::int(2)), "EUR"))),
        4 => ("(amount)".into(), Box::new(|v| (v.clone(), "EUR"))),
        5 => ("(abs(amount))".into(), Box::new(|v| (if v.is_neg() { v.neg() } else { v.clone() }, "EUR"))),
        6 => ("(amount + 3 EUR)".into(), Box::new(|v| (v.add(&Val::int(3)), "EUR"))),
        7 => ("(2)".into(), Box::new(|v| (v.mul(&Val::int(2)), "EUR"))),
        8 => ("(-amount / 2)".into(), Box::new(|v| (v.div(&Val::int(2)).neg(), "EUR"))),
        _ => (format!("(amount * {})", c.amt(&k)), Box::new(move |v| (v.mul(&k), "EUR"))),
    };
    c.cover(match form {
        0 => "fixed",
        1..=3 => "multiplied",
        _ => "expression",
    });
    let kind = *c.pick("kind", &['(', '[', ' ']);
    let both = c.flag("both match");
    let filled = c.flag("left out");
    let query = if both { "Spent" } else { "Food" };
    let mut rule = format!("= {}\n    {}    {}\n", query, wrap(kind, "Budget:Food"), txt);
    if kind != '(' {
        // the counterpart has the opposite amount
        c.cover("pair");
        let neg = match form {
            0 => format!("{} USD", c.amt(&f(&x).0.neg())),
            1 => c.amt(&Val::zero().sub(&f(&Val::int(1)).0)),
            2 => "1".into(),
            3 => "-0.5".into(),
            4 => "(-amount)".into(),
            5 => "(-abs(amount))".into(),
            6 => "(-amount - 3 EUR)".into(),
            7 => "(-2)".into(),
            8 => "(amount / 2)".into(),
            _ => format!("(-amount * {})", c.amt(&f(&Val::int(1)).0)),
        };
        rule.push_str(&format!("    {}    {}\n", wrap(kind, "Budget:Left"), neg));
    }
    let other = if filled { String::new() } else { format!("    {} EUR", c.amt(&x.neg())) };
    let j = format!("{}\n2021-03-04 P\n    Spent:Food    {} EUR\n    Spent:Cash{}\n", rule, c.amt(&x), other);
    if filled && x.is_zero() {
        return; // nothing to fill
    }
    let mut ps = vec![p(' ', "Spent:Food", "EUR", &x), p(' ', "Spent:Cash", "EUR", &x.neg())];
    for v in [&x, &x.neg()].iter().take(if both { 2 } else { 1 }) {
        let (w, cur) = f(v);
        ps.push(p(kind, "Budget:Food", cur, &w));
        if kind != '(' {
            ps.push(p(kind, "Budget:Left", cur, &w.neg()));
        }
    }
    check(c, &j, &[(Val::int(days(2021, 3, 4)), "P", ps)]);
}

fn several_rules(c: &mut Ctx) {
    // (query text, regex on the account, postings: kind, account, multiplier or amount)
    const RULES: &[(&str, &str, &[(char, &str, i64, &str)])] = &[
        ("food", "food", &[('(', "Food:More", 2, "")]),
        ("more", "more", &[('(', "Envelope", -1, "")]),
        ("cash", "cash", &[(' ', "Food", 1, ""), (' ', "Cash", -1, "")]),
        ("envelope", "envelope", &[('[', "Food:Env", 7, "EUR"), ('[', "Cash", -7, "EUR")]),
        ("/^C/ or /More$/", "cash|more", &[('(', "Envelope", 3, "EUR"), ('(', "Envelope", 1, "")]),
    ];
    let n = if c.thorough() { 3 } else { 2 };
    let mut used = vec![];
    for i in 0..n {
        used.push(c.choose(&format!("rule {}", i), RULES.len() as u32) as usize);
    }
    let mut j = String::new();
    for u in &used {
        j.push_str(&format!("= {}\n", RULES[*u].0));
        for (k, a, m, cur) in RULES[*u].2 {
            j.push_str(&format!("    {}    {} {}\n", wrap(*k, a), m, cur));
        }
        j.push('\n');
    }
    if used[0] != used[1] {
        c.cover("both rules");
    }
    let long = c.thorough();
    let accs = [["Food", "Cash", ""], if long { ["Fun", "Food:More", "Envelope"] } else { ["Food:More", "Envelope", ""] }];
    let mut txs = vec![];
    for (i, names) in accs.iter().enumerate() {
        let d = c.date(&format!("d{}", i));
        let mut ps = vec![];
        let mut left = Val::zero();
        j.push_str(&format!("{} P{}\n", c.day(&d), i));
        for (q, a) in names.iter().take(if names[2].is_empty() { 1 } else { 2 }).enumerate() {
            let v = c.frac(&format!("a{}{}", i, q), 1, 4);
            left = left.add(&v);
            j.push_str(&format!("    {}    {} EUR\n", a, c.amt(&v)));
            ps.push(p(' ', a, "EUR", &v));
        }
        let last = if names[2].is_empty() { names[1] } else { names[2] };
        j.push_str(&format!("    {}    {} EUR\n\n", last, c.amt(&left.neg())));
        ps.push(p(' ', last, "EUR", &left.neg()));
        // the rules see what is written only
        let mut add = vec![];
        for u in &used {
            for w in &ps {
                let name = w.acc.to_lowercase();
                if RULES[*u].1.split('|').any(|m| name.contains(m)) {
                    for (k, a, m, cur) in RULES[*u].2 {
                        let v = if cur.is_empty() { w.v.mul(&Val::int(*m)) } else { Val::int(*m) };
                        add.push(p(*k, a, "EUR", &v));
                    }
                }
            }
        }
        let again = add.iter().any(|w| used.iter().any(|u| RULES[*u].1.split('|').any(|m| w.acc.to_lowercase().contains(m))));
        if again {
            c.cover("would match an added posting");
        }
        ps.extend(add);
        txs.push((d, if i == 0 { "P0" } else { "P1" }, ps));
    }
    check(c, &j, &txs);
}

fn queries(c: &mut Ctx) {
    let q = c.choose("query", 8);
    let bound = c.frac("bound", 1, 4);
    let day = c.date("day");
    let (qt, dt) = (c.amt(&bound), c.day(&day));
    let text = match q {
        0 => "fOOd".to_string(),
        1 => "@shop".into(),
        2 => "%trip".into(),
        3 => format!("expr \"amount > {} EUR\"", qt),
        4 => format!("expr \"date >= to_date('{}')\"", dt),
        5 => format!("food and expr \"amount <= {}\"", qt),
        6 => "cash or @\"The shop\"".into(),
        _ => format!("expr \"(account =~ /Cash/) or (amount == {} EUR)\"", qt),
    };
    let mut j = format!("= {}\n    (Found)    1\n\n", text);
    let mut txs = vec![];
    for i in 0..2 {
        let d = c.date(&format!("d{}", i));
        let x = c.frac(&format!("x{}", i), 1, 4);
        let payee = ["The-shop", "Elsewhere"][i];
        let payee = if q == 6 && i == 0 { "The shop" } else { payee };
        j.push_str(&format!(
            "{} {}\n    Food    {} EUR{}\n    Cash    {} EUR\n\n",
            c.day(&d),
            payee,
            c.amt(&x),
            if i == 1 { "  ; trip: far" } else { "" },
            c.amt(&x.neg())
        ));
        let mut ps = vec![p(' ', "Food", "EUR", &x), p(' ', "Cash", "EUR", &x.neg())];
        for (n, v) in [(0, &x), (1, &x.neg())] {
            let food = n == 0;
            let hit = match q {
                0 => food,
                1 => i == 0,
                2 => i == 1 && food,
                3 => bound.lt(v),
                4 => !d.lt(&day),
                5 => food && !bound.lt(v),
                6 => !food || i == 0,
                _ => !food || Val::eq(v, &bound),
            };
            c.cover(if hit { "matched" } else { "not matched" });
            if hit {
                ps.push(p('(', "Found", "EUR", v));
            }
        }
        txs.push((d, payee, ps));
    }
    if q == 6 {
        // payees of several words cannot be read back from the register's columns
        let r = c.run(&["bal", "--flat"], &j);
        must_run(c, &r);
        let mut a = Accounts::default();
        for t in &txs {
            for x in &t.2 {
                post(&mut a, x.acc, &x.cur, &x.v);
            }
        }
        check_flat(c, &r.out, &a, true);
        return;
    }
    check(c, &j, &txs);
}

fn must_balance(c: &mut Ctx) {
    let kind = *c.pick("kind", &[' ', '[']);
    let n = 1 + c.choose("postings of the rule", 2);
    let (x, y) = (c.real("x"), c.real("y"));
    let both = c.flag("both match");
    let mut rule = format!("= {}\n", if both { "spent" } else { "spent:food" });
    let mut sum = Val::zero();
    for i in 0..n {
        let k = c.real(&format!("k{}", i));
        let fixed = c.flag(&format!("fixed {}", i));
        rule.push_str(&format!("    {}    {}{}\n", wrap(kind, "Budget"), c.amt(&k), if fixed { " EUR" } else { "" }));
        for v in [&x, &y].iter().take(if both { 2 } else { 1 }) {
            sum = sum.add(&if fixed { k.clone() } else { k.mul(v) });
        }
    }
    let j = format!(
        "{}\n2021-03-04 P\n    Spent:Food    {} EUR\n    Spent:Rent    {} EUR\n    Cash    {} EUR\n",
        rule,
        c.amt(&x),
        c.amt(&y),
        c.amt(&x.add(&y).neg())
    );
    let r = c.run(&["check"], &j);
    let ok = accepted(c, &r);
    c.cover(if ok { "accepted" } else { "refused" });
    if ok {
        c.eq("balanced", &sum, &Val::zero(), "a transaction that no longer balances is accepted");
    } else {
        c.ne("refused", &sum, &Val::zero(), "a transaction is refused although it balances with what the rule adds");
    }
}

fn tags(c: &mut Ctx) {
    let mut j = "= food\n    ; kind: daily\n    (Budget)    -1\n\n".to_string();
    let mut want = Accounts::default();
    let below = c.choose("query", 3);
    for i in 0..2 {
        let x = c.frac(&format!("x{}", i), 1, 4);
        let acc = *c.pick(&format!("account {}", i), &["Food", "Rent"]);
        let cash = ["CashA", "CashB"][i];
        let d = c.date(&format!("d{}", i));
        j.push_str(&format!("{} P{}\n    {}    {} EUR\n    {}    {} EUR\n\n", c.day(&d), i, acc, c.amt(&x), cash, c.amt(&x.neg())));
        if acc == "Food" {
            c.cover("tagged");
            post(&mut want, acc, "EUR", &x);
            if below == 2 {
                post(&mut want, cash, "EUR", &x.neg());
                post(&mut want, "Budget", "EUR", &x.neg());
            }
        } else {
            c.cover("untagged");
        }
    }
    let q = ["%kind", "(tag('kind') =~ /^daily$/)", "(any(has_tag(/kind/)))"][below as usize];
    let mut args = vec!["bal", "--flat"];
    if below > 0 {
        args.push("expr");
    }
    args.push(q);
    let r = c.run(&args, &j);
    must_run(c, &r);
    check_flat(c, &r.out, &want, true);
}

fn many_commodities(c: &mut Ctx) {
    let n = 1 + c.choose("commodities", 2) as usize;
    let m = *c.pick("multiplier", &[-1i64, 2]);
    let query = *c.pick("query", &["cash", "food"]);
    let mut j = format!("= {}\n    (Budget)    {}\n\n2021-03-04 P\n", query, m);
    let mut ps = vec![];
    for i in 0..n {
        let x = c.frac(&format!("x{}", i), 1, 4);
        let cur = ["EUR", "USD"][i];
        j.push_str(&format!("    {}    {} {}\n", ["Food", "Food:B"][i], c.amt(&x), cur));
        ps.push(p(' ', ["Food", "Food:B"][i], cur, &x));
        ps.push(p(' ', "Cash", cur, &x.neg()));
        let hit = if query == "cash" { x.neg() } else { x };
        ps.push(p('(', "Budget", cur, &hit.mul(&Val::int(m))));
    }
    j.push_str("    Cash\n");
    if n == 2 {
        c.cover("filled in two commodities");
    }
    check(c, &j, &[(Val::int(days(2021, 3, 4)), "P", ps)]);
}
