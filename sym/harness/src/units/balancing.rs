//! Double entry: which transactions are accepted, how missing amounts are filled, what balance
//! assertions see.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use symcore::Val;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C01",
        "one_commodity",
        one_commodity,
        "one transaction, 1 to 4 real postings in one commodity (thorough: 6), every amount an arbitrary rational; all seven commands, with and without --no-balance-check",
    )
    .covers(&["accepted", "rejected"]),
    Unit::new(
        "C01",
        "several_commodities",
        several_commodities,
        "one transaction, 2 to 4 real postings (thorough: 5) in up to 3 commodities, every amount an arbitrary rational, repeated accounts",
    )
    .covers(&["accepted", "rejected", "accepted with surplus and deficit"]),
    Unit::new(
        "C01",
        "costs",
        costs,
        "one transaction, one posting with a unit or total cost, 1 or 2 further postings in the cost's, the posting's or a third commodity; quantity, price and amounts arbitrary rationals, prices positive",
    )
    .covers(&["accepted", "rejected"]),
    Unit::new(
        "C01",
        "virtual_postings",
        virtual_postings,
        "one transaction, 2 real postings, 1 or 2 bracketed virtual postings (optionally with a cost), up to 1 parenthesised virtual posting, in any of 3 arrangements; amounts arbitrary rationals",
    )
    .covers(&["accepted", "rejected"]),
    Unit::new(
        "C01",
        "several_transactions",
        several_transactions,
        "three transactions of two postings in one file or an included one, amounts and dates arbitrary",
    )
    .covers(&["accepted", "rejected"]),
    Unit::new(
        "C02",
        "filled_amount",
        filled_amount,
        "one transaction, 1 to 3 postings with an amount (optionally one with a cost) in up to 2 commodities, the posting without an amount in any position and on any of the accounts; amounts integers plus a fixed fraction",
    )
    .covers(&["filled", "nothing to fill"]),
    Unit::new(
        "C02",
        "filled_exactly",
        filled_exactly,
        "one transaction, 1 to 3 postings with arbitrary rational amounts (optionally one with a unit or total cost), one without, observed through a later balance assertion with an arbitrary rational",
    )
    .covers(&["accepted", "rejected"]),
    Unit::new(
        "C02",
        "two_missing",
        two_missing,
        "one transaction, 0 to 2 postings with arbitrary rational amounts, 0 to 3 real postings without one, optionally a virtual posting",
    )
    .covers(&["accepted", "rejected"]),
    Unit::new(
        "C03",
        "date_order",
        date_order,
        "three transactions on one account with arbitrary dates and rational amounts, a balance assertion with an arbitrary rational on any of them, with and without --no-balance-check, file order free",
    )
    .covers(&["accepted", "rejected"]),
    Unit::new(
        "C03",
        "what_counts",
        what_counts,
        "an asserted posting preceded by postings to the same account in another commodity, to a sub-account, to a parent, a virtual posting, one with a cost and one in the same transaction; amounts arbitrary rationals",
    )
    .covers(&["accepted", "rejected"]),
    Unit::new(
        "C03",
        "with_rules",
        with_rules,
        "an automated transaction (a multiple of what it matches, a fixed amount, or an expression) posts to the account, matching a posting (thorough: two), written or filled, of arbitrary date, and possibly one before or after the posting that asserts or assigns the balance; amounts arbitrary, what is matched an integer plus a half",
    )
    .covers(&["accepted", "rejected"]),
    Unit::new(
        "C03",
        "assignment",
        assignment,
        "an account with up to 2 earlier postings, a posting that assigns its balance, the other side explicit or left out, then an assertion; amounts and dates arbitrary",
    )
    .covers(&["accepted", "rejected"]),
    Unit::new(
        "C03",
        "several_assertions",
        several_assertions,
        "two or three transactions each with an assertion on one or two accounts; amounts arbitrary rationals",
    )
    .covers(&["accepted", "rejected"]),
];

const COMMANDS: &[&str] = &["check", "bal", "reg", "prices", "accounts", "payees", "commodities"];

fn one_commodity(c: &mut Ctx) {
    let n = 1 + c.choose("postings", if c.thorough() { 6 } else { 4 });
    let mut cmd = vec!["check"];
    if n == 2 {
        cmd = vec![*c.pick("command", COMMANDS)];
        if cmd[0] != "check" && c.flag("no balance check") {
            cmd.push("--no-balance-check");
        }
    }
    let mut j = String::from("2021-01-01 Payee\n");
    let mut sum = Val::zero();
    for i in 0..n {
        let v = c.real(&format!("a{}", i));
        j.push_str(&format!("    Acc:N{}    {} EUR\n", i, c.amt_d(&v, 4)));
        sum = sum.add(&v);
    }
    // without the report's own rounding in the way
    let r = if cmd[0] == "bal" || cmd[0] == "reg" {
        let mut a = cmd.clone();
        a.push("nothing-matches-this");
        c.run(&a, &j)
    } else {
        c.run(&cmd, &j)
    };
    if accepted(c, &r) {
        c.cover("accepted");
        c.eq("accepted unbalanced", &sum, &Val::zero(), "an accepted transaction does not add up to zero");
    } else {
        c.cover("rejected");
        c.ne("rejected balanced", &sum, &Val::zero(), "a transaction that adds up to zero was rejected");
    }
}

/// The rule of double entry for these per-commodity sums.
fn balances(s: &Sums) -> bool {
    let signs: Vec<i32> = s.0.values().map(sign).collect();
    signs.iter().all(|x| *x == 0) || (signs.contains(&1) && signs.contains(&-1))
}
fn verdict(c: &Ctx, ok: bool, want: bool, what: &str) {
    if ok {
        c.cover("accepted");
        c.ok("accepted unbalanced", want, &format!("accepted, but {}", what));
    } else {
        c.cover("rejected");
        c.ok("rejected balanced", !want, &format!("rejected although it is not the case that {}", what));
    }
}

fn several_commodities(c: &mut Ctx) {
    let n = 2 + c.choose("postings", if c.thorough() { 4 } else { 3 });
    let mut can = Canon::new(&["EUR", "USD", "ACME"]);
    let repeated = c.flag("one account");
    let mut j = String::from("2021-01-01 Payee\n");
    let mut sums = Sums::default();
    for i in 0..n {
        let v = c.real(&format!("a{}", i));
        let cur = can.pick(c, &format!("commodity {}", i));
        let acc = if repeated { "Acc".to_string() } else { format!("Acc:N{}", i) };
        j.push_str(&format!("    {}    {} {}\n", acc, c.amt_d(&v, 4), cur));
        sums.add(cur, &v);
    }
    let r = c.run(&["check"], &j);
    let ok = accepted(c, &r);
    let want = balances(&sums);
    if ok && want && !sums.is_zero() {
        c.cover("accepted with surplus and deficit");
    }
    verdict(c, ok, want, "the postings neither add up to zero nor leave a surplus in one commodity and a deficit in another");
}

/// ` @ p EUR` or ` @@ t EUR` and what the posting then counts for
fn cost(c: &Ctx, q: &Val, name: &str) -> (String, Val) {
    let p = c.real(name);
    c.assume_lt(&Val::zero(), &p);
    if c.flag(&format!("{} is a total", name)) {
        let v = if q.is_neg() { p.neg() } else { p.clone() };
        (format!(" @@ {} EUR", c.amt_d(&p, 4)), v)
    } else {
        (format!(" @ {} EUR", c.amt_d(&p, 4)), q.mul(&p))
    }
}

fn costs(c: &mut Ctx) {
    let mut sums = Sums::default();
    let q = c.real("quantity");
    c.assume_ne(&q, &Val::zero());
    let (text, v) = cost(c, &q, "price");
    sums.add("EUR", &v);
    let n = 1 + c.choose("others", 2);
    let mut lines = vec![format!("    Assets:Shares    {} ACME{}\n", c.amt_d(&q, 4), text)];
    for i in 0..n {
        let v = c.real(&format!("a{}", i));
        let cur = *c.pick(&format!("commodity {}", i), &["EUR", "ACME", "USD"]);
        sums.add(cur, &v);
        lines.push(format!("    Acc:N{}    {} {}\n", i, c.amt_d(&v, 4), cur));
    }
    if c.flag("cost last") {
        lines.reverse();
    }
    let j = format!("2021-01-01 Payee\n{}", lines.concat());
    let r = c.run(&["check"], &j);
    let ok = accepted(c, &r);
    verdict(c, ok, balances(&sums), "the postings, taken at cost, do not balance");
}

fn virtual_postings(c: &mut Ctx) {
    let mut real = Sums::default();
    let mut brackets = Sums::default();
    let mut l1 = vec![];
    let mut l2 = vec![];
    for i in 0..2 {
        let v = c.real(&format!("r{}", i));
        real.add("EUR", &v);
        l1.push(format!("    Acc:R{}    {} EUR\n", i, c.amt_d(&v, 4)));
    }
    let n = 1 + c.choose("bracketed", 2);
    for i in 0..n {
        let v = c.real(&format!("b{}", i));
        let mut line = format!("    [Acc:B{}]    {} ", i, c.amt_d(&v, 4));
        if i == 1 && c.flag("cost") {
            c.assume_ne(&v, &Val::zero());
            let (t, x) = cost(c, &v, "price");
            line.push_str(&format!("ACME{}", t));
            brackets.add("EUR", &x);
        } else {
            line.push_str("EUR");
            brackets.add("EUR", &v);
        }
        l2.push(line + "\n");
    }
    if c.flag("parenthesised") {
        let v = c.real("p");
        l2.push(format!("    (Acc:P)    {} EUR\n", c.amt_d(&v, 4)));
    }
    let lines: Vec<String> = match c.choose("arrangement", 3) {
        0 => [l1, l2].concat(),
        1 => [l2, l1].concat(),
        _ => [vec![l1[0].clone()], l2, vec![l1[1].clone()]].concat(),
    };
    let r = c.run(&["check"], &format!("2021-01-01 Payee\n{}", lines.concat()));
    let ok = accepted(c, &r);
    let want = balances(&real) && balances(&brackets);
    verdict(c, ok, want, "the real postings or the bracketed ones do not balance by themselves");
}

fn several_transactions(c: &mut Ctx) {
    let mut txs = vec![];
    let mut all = true;
    let included = c.flag("last one included");
    let mut sums = vec![];
    for i in 0..3 {
        let (a, b) = (c.real(&format!("a{}", i)), c.real(&format!("b{}", i)));
        let d = c.date(&format!("d{}", i));
        txs.push(format!("{} Payee{}\n    Acc:A    {} EUR\n    Acc:B    {} EUR\n", c.day(&d), i, c.amt_d(&a, 4), c.amt_d(&b, 4)));
        sums.push(a.add(&b));
    }
    let r = if included {
        let m = format!("{}include other.ledger\n{}", txs[0], txs[1]);
        c.run_files(&["check"], &[("main.ledger", &m), ("other.ledger", &txs[2])])
    } else {
        c.run(&["check"], &txs.concat())
    };
    let ok = accepted(c, &r);
    for s in &sums {
        all &= s.is_zero();
    }
    verdict(c, ok, all, "one of the transactions does not balance");
}

// ---- C02 --------------------------------------------------------------------------------

fn filled_amount(c: &mut Ctx) {
    let k = 1 + c.choose("known", 3) as usize;
    let accounts = ["Assets:Bank", "Expenses:Food", "Expenses"];
    let mut want = Accounts::default();
    let mut fill = Sums::default();
    let mut can = Canon::new(&["EUR", "USD"]);
    let mut lines = vec![];
    let with_cost = k < 3 && c.flag("cost");
    for i in 0..k {
        if i == 0 && with_cost {
            let total = c.flag("total cost");
            // with a unit cost of a quarter fraction, a multiple of 4, so that the product has a fixed fraction
            let q = if total { c.int("quantity") } else { c.int("quantity / 4").mul(&Val::int(4)) };
            c.assume_ne(&q, &Val::zero());
            let p = c.frac("price", 1, 4);
            c.assume_lt(&Val::zero(), &p);
            lines.push(format!("    {}    {} ACME {} {} EUR\n", accounts[i], c.amt(&q), if total { "@@" } else { "@" }, c.amt(&p)));
            post(&mut want, accounts[i], "ACME", &q);
            let v = if !total {
                q.mul(&p)
            } else if q.is_neg() {
                p.neg()
            } else {
                p
            };
            fill.add("EUR", &v);
            continue;
        }
        let v = c.frac(&format!("a{}", i), [25, 75, 99][i], 100);
        let cur = can.pick(c, &format!("commodity {}", i));
        lines.push(format!("    {}    {} {}\n", accounts[i], c.amt(&v), cur));
        post(&mut want, accounts[i], cur, &v);
        fill.add(cur, &v);
    }
    let acc = if c.flag("on a used account") { accounts[0] } else { "Equity" };
    let at = c.choose("position", k as u32 + 1) as usize;
    lines.insert(at, format!("    {}{}\n", acc, *c.pick("end of line", &["", "  ", "    ; note"])));
    if k == 1 && c.flag("virtual posting") {
        let v = c.frac("virtual", 1, 10);
        lines.push(format!("    (Acc:V)    {} EUR\n", c.amt(&v)));
        post(&mut want, "Acc:V", "EUR", &v);
    }
    for (cur, v) in &fill.0 {
        post(&mut want, acc, cur, &v.neg());
    }
    let r = c.run(&["bal", "--flat"], &format!("2021-01-01 Payee\n{}", lines.concat()));
    must_run(c, &r);
    c.cover(if fill.is_zero() { "nothing to fill" } else { "filled" });
    check_flat(c, &r.out, &want, true);
}

fn filled_exactly(c: &mut Ctx) {
    let k = 1 + c.choose("known", 3);
    let mut sum = Val::zero();
    let mut j = String::from("2021-01-01 Payee\n");
    let first = c.flag("left out first");
    if first {
        j.push_str("    Equity\n");
    }
    let with_cost = c.flag("cost");
    for i in 0..k {
        let v = c.real(&format!("a{}", i));
        if i == 0 && with_cost {
            c.assume_ne(&v, &Val::zero());
            let (t, x) = cost(c, &v, "price");
            j.push_str(&format!("    Acc:N{}    {} ACME{}\n", i, c.amt_d(&v, 4), t));
            sum = sum.add(&x);
        } else {
            j.push_str(&format!("    Acc:N{}    {} EUR\n", i, c.amt_d(&v, 4)));
            sum = sum.add(&v);
        }
    }
    if !first {
        j.push_str("    Equity\n");
    }
    let x = c.real("asserted");
    j.push_str(&format!("2021-01-02 Payee\n    Equity    0 EUR = {} EUR\n    Other    0 EUR\n", c.amt_d(&x, 4)));
    let r = c.run(&["check"], &j);
    let left = sum.neg();
    if accepted(c, &r) {
        c.cover("accepted");
        c.eq("filled with something else", &x, &left, "the posting without an amount was not filled with what the others leave");
    } else {
        c.cover("rejected");
        c.ne("not filled exactly", &x, &left, "the posting without an amount was not filled with exactly what the others leave");
    }
}

fn two_missing(c: &mut Ctx) {
    let k = c.choose("known", 3);
    let m = c.choose("missing", 4);
    if k + m == 0 {
        return;
    }
    let mut j = String::from("2021-01-01 Payee\n");
    let mut sum = Val::zero();
    for i in 0..k {
        let v = c.real(&format!("a{}", i));
        j.push_str(&format!("    Acc:N{}    {} EUR\n", i, c.amt_d(&v, 4)));
        sum = sum.add(&v);
    }
    let same = m > 1 && c.flag("same account");
    for i in 0..m {
        j.push_str(&format!("    Equity:M{}\n", if same { 0 } else { i }));
    }
    if c.flag("virtual posting") {
        let v = c.real("virtual");
        j.push_str(&format!("    (Acc:V)    {} EUR\n", c.amt_d(&v, 4)));
    }
    let r = c.run(&["check"], &j);
    let ok = accepted(c, &r);
    let want = match m {
        0 => sum.is_zero(),
        1 => true,
        _ => false,
    };
    c.cover(if ok { "accepted" } else { "rejected" });
    c.ok(
        "missing amounts",
        ok == want,
        &format!(
            "a transaction with {} postings without an amount was {}",
            m,
            if ok { "accepted" } else { "rejected" }
        ),
    );
}

// ---- C03 --------------------------------------------------------------------------------

fn date_order(c: &mut Ctx) {
    let n = 3;
    let at = c.choose("asserted transaction", n) as usize;
    let check = c.choose("command", 3);
    let dates: Vec<Val> = (0..n).map(|i| c.date(&format!("d{}", i))).collect();
    let amounts: Vec<Val> = (0..n).map(|i| c.real(&format!("a{}", i))).collect();
    let x = c.real("asserted");
    let mut j = String::new();
    for i in 0..n as usize {
        j.push_str(&format!("{} Payee{}\n", c.day(&dates[i]), i));
        let a = format!("    Assets:Bank    {} EUR", c.amt_d(&amounts[i], 4));
        if i == at {
            j.push_str(&format!("{} = {} EUR\n    Equity\n", a, c.amt_d(&x, 4)));
        } else {
            j.push_str(&format!("{}\n    Equity\n", a));
        }
    }
    let r = match check {
        0 => c.run(&["check"], &j),
        1 => c.run(&["accounts"], &j),
        _ => c.run(&["accounts", "--no-balance-check"], &j),
    };
    let ok = accepted(c, &r);
    if check == 2 {
        c.ok("switched off", ok, "an assertion was checked although --no-balance-check was given");
        return;
    }
    let mut bal = Val::zero();
    for i in 0..n as usize {
        let before = if i <= at { dates[i].le(&dates[at]) } else { dates[i].lt(&dates[at]) };
        if before {
            bal = bal.add(&amounts[i]);
        }
    }
    assertion(c, ok, &x, &bal);
}
fn assertion(c: &Ctx, ok: bool, x: &Val, bal: &Val) {
    if ok {
        c.cover("accepted");
        c.eq("wrong assertion accepted", x, bal, "a balance assertion that does not hold was accepted");
    } else {
        c.cover("rejected");
        c.ne("right assertion rejected", x, bal, "a balance assertion that holds was rejected");
    }
}

fn what_counts(c: &mut Ctx) {
    let v = c.real("earlier");
    let w = c.real("asserted posting");
    let x = c.real("asserted");
    let mut bal = w.clone();
    let t = |s: &str| format!("    {}    {} EUR\n", s, c.amt_d(&v, 4));
    let mut extra = String::new();
    let mut suffix = String::new();
    let mut first = String::from("2021-01-01 Payee\n");
    let mut equity = "    Equity\n";
    match c.choose("what", 9) {
        0 => {
            first.push_str(&t("Assets:Bank"));
            bal = bal.add(&v);
        }
        1 => first.push_str(&format!("    Assets:Bank    {} USD\n", c.amt_d(&v, 4))),
        2 => first.push_str(&t("Assets:Bank:Sub")),
        3 => first.push_str(&t("Assets")),
        4 => first.push_str(&t("(Assets:Bank)")),
        5 => {
            let (text, _) = cost(c, &v, "price");
            first.push_str(&format!("    Assets:Bank    {} ACME{}\n", c.amt_d(&v, 4), text));
        }
        6 => {
            extra.push_str(&t("Assets:Bank"));
            bal = bal.add(&v);
        }
        7 => {
            // what is filled counts after all that is written
            extra.push_str("    Assets:Bank\n");
            suffix.push_str(&t("Other"));
            equity = "";
        }
        _ => suffix.push_str(&t("Assets:Bank")),
    }
    first.push_str("    Equity\n");
    let j = format!(
        "{}2021-01-02 Payee\n{}    Assets:Bank    {} EUR = {} EUR\n{}{}",
        first,
        extra,
        c.amt_d(&w, 4),
        c.amt_d(&x, 4),
        suffix,
        equity
    );
    let r = c.run(&["check"], &j);
    let ok = accepted(c, &r);
    assertion(c, ok, &x, &bal);
}

/// what automated transactions add counts like what is written, after what is written in the transaction
fn with_rules(c: &mut Ctx) {
    let d = c.date("d");
    let x = c.real("asserted");
    let n = if c.thorough() { 2 } else { 1 };
    let (rule, k): (&str, fn(&Val) -> Val) = match c.choose("rule", 4) {
        0 => ("= /^Trigger$/\n    Assets:Bank    2\n    Equity    -2\n\n", |v| v.mul(&Val::int(2))),
        1 => ("= /^Trigger$/\n    Assets:Bank    7 EUR\n    Equity    -7 EUR\n\n", |_| Val::int(7)),
        2 => ("= expr \"(account =~ /^Trigger$/)\"\n    Assets:Bank    (amount / 4)\n    Equity    (-amount / 4)\n\n", |v| v.div(&Val::int(4))),
        // a virtual one does not
        _ => ("= /^Trigger$/\n    (Assets:Bank)    2\n\n", |_| Val::zero()),
    };
    let mut bal = Val::zero();
    let mut j = String::new();
    for i in 0..n {
        let (di, a) = (c.date(&format!("d{}", i)), c.frac(&format!("a{}", i), 1, 2));
        let filled = i == 0 && c.flag("filled");
        if filled {
            j.push_str(&format!("{} Payee\n    Trigger\n    Other    {} EUR\n\n", c.day(&di), c.amt_d(&a.neg(), 4)));
        } else {
            j.push_str(&format!("{} Payee\n    Trigger    {} EUR\n    Other\n\n", c.day(&di), c.amt_d(&a, 4)));
        }
        if di.le(&d) {
            bal = bal.add(&k(&a));
        }
    }
    let assigned = c.flag("assigned");
    let own = c.choose("own", 3);
    let b = c.frac("own amount", 1, 2);
    let t = format!("    Trigger    {} EUR\n", c.amt_d(&b, 4));
    j.push_str(&format!("{} Payee\n{}", c.day(&d), if own == 1 { &t } else { "" }));
    if assigned {
        let w = c.real("other side");
        j.push_str(&format!("    Assets:Bank    = {} EUR\n    Other    {} EUR\n", c.amt_d(&x, 4), c.amt_d(&w, 4)));
        bal = bal.sub(&w);
        if own > 0 {
            bal = bal.sub(&b);
        }
    } else {
        let w = c.real("asserted posting");
        j.push_str(&format!("    Assets:Bank    {} EUR = {} EUR\n    Other\n", c.amt_d(&w, 4), c.amt_d(&x, 4)));
        bal = bal.add(&w);
    }
    j.push_str(if own == 2 { &t } else { "" });
    j = if own == 0 { format!("{}\n{}", j, rule) } else { format!("{}{}", rule, j) };
    let r = c.run(&["check"], &j);
    let ok = accepted(c, &r);
    assertion(c, ok, &x, &bal);
}

fn assignment(c: &mut Ctx) {
    let n = c.choose("earlier", 3) as usize;
    let d = c.date("d");
    let x = c.real("assigned");
    let mut bal = Val::zero();
    let mut j = String::new();
    for i in 0..n {
        let (di, a) = (c.date(&format!("d{}", i)), c.real(&format!("a{}", i)));
        j.push_str(&format!("{} Payee\n    Assets:Bank    {} EUR\n    Equity\n", c.day(&di), c.amt_d(&a, 4)));
        if di.le(&d) {
            bal = bal.add(&a);
        }
    }
    let change = x.sub(&bal);
    let explicit = c.flag("other side explicit");
    j.push_str(&format!("{} Payee\n    Assets:Bank    = {} EUR\n", c.day(&d), c.amt_d(&x, 4)));
    if explicit {
        let b = c.real("other side");
        j.push_str(&format!("    Other    {} EUR\n", c.amt_d(&b, 4)));
        let r = c.run(&["check"], &j);
        let ok = accepted(c, &r);
        if ok {
            c.cover("accepted");
            c.eq("unbalanced assignment accepted", &change, &b.neg(), "the assigned balance does not make the transaction balance");
        } else {
            c.cover("rejected");
            c.ne("balanced assignment rejected", &change, &b.neg(), "the assigned balance makes the transaction balance");
        }
    } else {
        let y = c.real("asserted");
        let on = *c.pick("asserted account", &["Assets:Bank", "Other"]);
        let last = Val::int(days(2089, 12, 31));
        c.assume_lt(&d, &last);
        let next = d.add(&Val::int(1));
        let mut after = if on == "Other" { change.neg() } else { x.clone() };
        if on != "Other" && n > 0 {
            // nothing else happens after the assignment
            for i in 0..n {
                let di = c.date(&format!("d{}", i));
                c.assume_le(&di, &d);
            }
            after = x.clone();
        }
        j.push_str(&format!(
            "    Other\n{} Payee\n    {}    0 EUR = {} EUR\n    Nothing    0 EUR\n",
            c.day(&next),
            on,
            c.amt_d(&y, 4)
        ));
        let r = c.run(&["check"], &j);
        let ok = accepted(c, &r);
        assertion(c, ok, &y, &after);
    }
}

fn several_assertions(c: &mut Ctx) {
    let n = if c.thorough() { 3 } else { 2 };
    let mut j = String::new();
    let mut bal = [Val::zero(), Val::zero()];
    let names = ["Assets:Bank", "Assets:Cash"];
    let mut all = true;
    let mut want = vec![];
    for i in 0..n {
        let a = c.real(&format!("a{}", i));
        let x = c.real(&format!("x{}", i));
        let k = c.choose(&format!("account {}", i), 2) as usize;
        bal[k] = bal[k].add(&a);
        want.push((x.clone(), bal[k].clone()));
        let other = names[1 - k];
        let both = c.flag(&format!("transfer {}", i));
        j.push_str(&format!("2021-01-0{} Payee\n    {}    {} EUR = {} EUR\n", i + 1, names[k], c.amt_d(&a, 4), c.amt_d(&x, 4)));
        if both {
            j.push_str(&format!("    {}\n", other));
            bal[1 - k] = bal[1 - k].sub(&a);
        } else {
            j.push_str("    Equity\n");
        }
    }
    let r = c.run(&["check"], &j);
    let ok = accepted(c, &r);
    for (x, b) in &want {
        all &= x.eq(b);
    }
    c.cover(if ok { "accepted" } else { "rejected" });
    c.ok("assertions", ok == all, if ok { "a wrong assertion was accepted" } else { "right assertions were rejected" });
}
