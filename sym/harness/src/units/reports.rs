//! What the balance and register reports show, and what -b, -e and --real leave out.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use std::collections::BTreeSet;
use symcore::Val;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C04",
        "flat_sums",
        flat_sums,
        "2 transactions with 3 postings (thorough: 4) over 3 nested accounts and 2 commodities, real or virtual, the rest filled on a fourth account; amounts integers plus fixed fractions (2 and 3 decimals)",
    )
    .covers(&["an account is zero", "an account is not zero", "two commodities"]),
    Unit::new(
        "C04",
        "flat_depth",
        flat_depth,
        "5 accounts of depth 1 to 4 that share prefixes, 3 of them used, --depth 1 to 5 or none, with and without --no-total; amounts integers plus fixed fractions",
    )
    .covers(&["merged", "cancelled"]),
    Unit::new(
        "C04",
        "flat_long",
        flat_long,
        "one account with 5 postings (thorough: 8) spread over transactions of arbitrary dates, amounts integers plus fixed fractions",
    )
    .covers(&["balance"]),
    Unit::new(
        "C05",
        "tree",
        tree,
        "3 postings over 7 accounts of depth 1 to 3 (a parent with postings of its own, siblings with a common textual prefix, an only child), 1 or 2 commodities, no depth limit or 1 to 3; amounts integers plus fixed fractions",
    )
    .covers(&["zero parent with children", "collapsed"]),
    Unit::new(
        "C05",
        "tree_wide",
        tree_wide,
        "4 postings on 4 of 6 accounts below one parent and beside it, one commodity, amounts integers plus a fixed fraction",
    )
    .covers(&["tree"]),
    Unit::new(
        "C05",
        "tree_same_as_flat",
        tree_same_as_flat,
        "2 transactions, 3 accounts on 3 levels, 2 commodities: the same journal with and without --flat",
    )
    .covers(&["compared"]),
    Unit::new(
        "C06",
        "order_and_totals",
        order_and_totals,
        "3 transactions (thorough: 4) with arbitrary dates, 2 postings each, one or two commodities, optionally one amount left out; amounts integers plus a fixed fraction",
    )
    .covers(&["in file order", "reordered"]),
    Unit::new(
        "C06",
        "running_total",
        running_total,
        "1 transaction with 2 or 3 free virtual postings (thorough: 4) in up to 3 commodities, one that cancels the first, with 2 the same with real and bracketed pairs around them (thorough: always); amounts integers plus fixed fractions",
    )
    .covers(&["total returns to zero", "several commodities"]),
    Unit::new(
        "C06",
        "ends_at_the_balance",
        ends_at_the_balance,
        "2 transactions with arbitrary dates and a virtual posting: the last running total and the flat balance's total, with the same filters",
    )
    .covers(&["compared"]),
    Unit::new(
        "C07",
        "period",
        period,
        "2 transactions (thorough: 3) with arbitrary dates, -b and/or -e with arbitrary dates, in short or long form, on balance and register; amounts integers plus a fixed fraction",
    )
    .covers(&["kept", "dropped", "on the begin date", "on the end date"]),
    Unit::new(
        "C07",
        "real_only",
        real_only,
        "1 transaction with real, bracketed and parenthesised postings in 3 arrangements, with and without --real, on balance (flat, tree) and register",
    )
    .covers(&["filtered", "unfiltered"]),
    Unit::new(
        "C07",
        "combined",
        combined,
        "2 transactions of arbitrary dates with a virtual posting each, --real, -b, -e and an account pattern in every combination",
    )
    .covers(&["kept", "dropped"]),
];

/// what is posted, filled posting included; None where the amount is left out
struct Tx {
    date: Val,
    payee: String,
    lines: Vec<(char, &'static str, String, Option<Val>)>,
}
impl Tx {
    fn text(&self, c: &Ctx) -> String {
        let mut s = format!("{} {}\n", c.day(&self.date), self.payee);
        for (k, acc, cur, v) in &self.lines {
            let name = wrap(*k, acc);
            match v {
                Some(v) => s.push_str(&format!("    {}    {} {}\n", name, c.amt_d(v, 3), cur)),
                None => s.push_str(&format!("    {}\n", name)),
            }
        }
        s
    }
    /// (kind, account, commodity, amount) of every posting
    fn posted(&self) -> Vec<(char, &'static str, String, Val)> {
        let mut left = Sums::default();
        for (k, _, cur, v) in &self.lines {
            if let (' ', Some(v)) = (*k, v) {
                left.add(cur, v);
            }
        }
        let mut r = vec![];
        for (k, acc, cur, v) in &self.lines {
            match v {
                Some(v) => r.push((*k, *acc, cur.clone(), v.clone())),
                None => {
                    for (cur, v) in &left.0 {
                        r.push((*k, *acc, cur.clone(), v.neg()));
                    }
                }
            }
        }
        r
    }
}
fn wrap(k: char, acc: &str) -> String {
    match k {
        '(' => format!("({})", acc),
        '[' => format!("[{}]", acc),
        _ => acc.to_string(),
    }
}
fn at(y: i32, m: u32, d: u32) -> Val {
    Val::int(days(y, m, d))
}
fn accounts(txs: &[&Tx]) -> Accounts {
    let mut a = Accounts::default();
    for t in txs {
        for (_, acc, cur, v) in t.posted() {
            post(&mut a, acc, &cur, &v);
        }
    }
    a
}
fn journal(c: &Ctx, txs: &[Tx]) -> String {
    txs.iter().map(|t| t.text(c)).collect::<Vec<_>>().join("\n")
}

// ---- C04 --------------------------------------------------------------------------------

fn flat_sums(c: &mut Ctx) {
    let n = if c.thorough() { 4 } else { 3 };
    let mut accs = Canon::new(&["Assets:Bank", "Assets:Bank:Sub", "Assets"]);
    let mut curs = Canon::new(&["EUR", "USD"]);
    // cancelling is possible between the first two
    let fr = [(5, 10), (5, 10), (125, 1000), (999, 1000)];
    let mut first = vec![];
    let mut second = vec![];
    for i in 0..n {
        let v = c.frac(&format!("a{}", i), fr[i].0, fr[i].1);
        let acc = accs.pick(c, &format!("account {}", i));
        let cur = curs.pick(c, &format!("commodity {}", i));
        let k = if i == 1 && c.flag("virtual") { '(' } else { ' ' };
        let line = (k, acc, cur.to_string(), Some(v));
        if i == 0 {
            first.push(line)
        } else {
            second.push(line)
        }
    }
    first.push((' ', "Equity", String::new(), None));
    second.push((' ', "Equity", String::new(), None));
    if second.iter().filter(|x| x.0 == ' ').count() < 2 {
        return;
    }
    let txs = vec![
        Tx { date: at(2021, 1, 1), payee: "One".into(), lines: first },
        Tx { date: at(2021, 1, 2), payee: "Two".into(), lines: second },
    ];
    let r = c.run(&["bal", "--flat"], &journal(c, &txs));
    must_run(c, &r);
    let want = accounts(&txs.iter().collect::<Vec<_>>());
    for s in want.values() {
        c.cover(if s.is_zero() { "an account is zero" } else { "an account is not zero" });
        if s.nonzero().0.len() == 2 {
            c.cover("two commodities");
        }
    }
    check_flat(c, &r.out, &want, true);
}

pub fn cut(name: &str, depth: usize) -> String {
    name.split(':').take(depth).collect::<Vec<_>>().join(":")
}

fn flat_depth(c: &mut Ctx) {
    let names = ["Assets", "Assets:Bank", "Assets:Bank:Current:Old", "Assets:Banking", "Income:Salary:Net"];
    let n = 3;
    let mut lines = vec![];
    let mut want = Accounts::default();
    let mut last = 0;
    let depth = c.choose("depth", 6) as usize;
    let total = !c.flag("no total");
    let cmd = *c.pick("depth option", &["--depth", "-d"]);
    for i in 0..n {
        // in this order: which accounts are used matters, not where
        let k = last + c.choose(&format!("account {}", i), (names.len() - last) as u32) as usize;
        last = k;
        let v = c.frac(&format!("a{}", i), if i == 2 { 25 } else { 50 }, 100);
        let cur = if i == 2 { *c.pick("commodity", &["EUR", "USD"]) } else { "EUR" };
        lines.push(('(', names[k], cur.to_string(), Some(v.clone())));
        let d = if depth == 0 { 99 } else { depth };
        post(&mut want, &cut(names[k], d), cur, &v);
    }
    let used: BTreeSet<&str> = lines.iter().map(|x| x.1).collect();
    let txs = vec![Tx { date: at(2021, 1, 1), payee: "One".into(), lines }];
    let d = depth.to_string();
    let mut args = vec!["bal", "--flat"];
    if depth > 0 {
        args.extend(&[cmd, &d]);
    } else if cmd == "-d" {
        return;
    }
    if !total {
        args.push("--no-total");
    }
    let r = c.run(&args, &journal(c, &txs));
    must_run(c, &r);
    if want.len() < used.len() {
        c.cover("merged");
    }
    for s in want.values() {
        if s.is_zero() {
            c.cover("cancelled");
        }
    }
    check_flat(c, &r.out, &want, total);
}

fn flat_long(c: &mut Ctx) {
    let n = if c.thorough() { 8 } else { 5 };
    let fr = [(1, 100), (99, 100), (1, 2), (1, 1000), (0, 1), (1, 3_000), (1, 4), (3, 4)];
    let mut txs = vec![];
    for i in 0..n {
        // fractions with decimal text only
        let f = if i == 5 { (333, 10_000) } else { fr[i] };
        let v = c.frac(&format!("a{}", i), f.0, f.1);
        let d = if i < 3 { c.date(&format!("d{}", i)) } else { at(2021, 1, i as u32) };
        txs.push(Tx {
            date: d,
            payee: format!("P{}", i),
            lines: vec![(' ', "Assets:Bank", "EUR".into(), Some(v)), (' ', "Equity", String::new(), None)],
        });
    }
    let r = c.run(&["bal", "--flat"], &journal(c, &txs));
    must_run(c, &r);
    c.cover("balance");
    check_flat(c, &r.out, &accounts(&txs.iter().collect::<Vec<_>>()), true);
}

// ---- C05 --------------------------------------------------------------------------------

/// subtree totals of all accounts and their ancestors
fn subtree(want: &Accounts) -> Accounts {
    let mut t = Accounts::default();
    for (name, s) in want {
        let n = name.split(':').count();
        for d in 1..=n {
            t.entry(cut(name, d)).or_default().add_all(s);
        }
    }
    t
}
/// (full name, amounts) of every account a tree report stands for
fn unfold(c: &Ctx, b: &text::Balance) -> Vec<(String, Vec<text::Amount>)> {
    let mut path: Vec<String> = vec![];
    let mut r = vec![];
    for row in &b.rows {
        if row.level == 0 || row.level > path.len() + 1 {
            c.fail("tree shape", &format!("{:?} is indented {} levels below nothing", row.name, row.level));
        }
        path.truncate(row.level - 1);
        for part in row.name.split(':') {
            path.push(part.to_string());
            r.push((path.join(":"), row.amounts.clone()));
        }
    }
    r
}
pub fn check_tree(c: &Ctx, out: &str, want: &Accounts, depth: usize, with_total: bool) -> text::Balance {
    let b = text::balance(c, out);
    let all = subtree(want);
    let mut exp: BTreeSet<String> = BTreeSet::new();
    for (name, s) in &all {
        if name.split(':').count() <= depth && !s.is_zero() {
            for d in 1..=name.split(':').count() {
                exp.insert(cut(name, d));
            }
        }
    }
    let got = unfold(c, &b);
    let mut names: Vec<&str> = got.iter().map(|x| x.0.as_str()).collect();
    names.sort_unstable();
    let e: Vec<&str> = exp.iter().map(|x| x.as_str()).collect();
    c.ok(
        "accounts listed",
        names == e,
        &format!("the tree stands for the accounts {:?}, expected {:?}\n{}", names, e, out),
    );
    for (name, amounts) in &got {
        same_amounts(c, "account balance", &format!("balance of {} and below", name), amounts, &all[name]);
        if all[name].is_zero() {
            c.cover("zero parent with children");
        }
    }
    if b.rows.len() < got.len() {
        c.cover("collapsed");
    }
    check_total(c, &b, &total(want), with_total);
    b
}

fn tree(c: &mut Ctx) {
    let names = ["Assets", "Assets:Bank", "Assets:Bank:Sub", "Assets:Bank-2:X", "Assets:Bankia", "Assets:Cash", "Bank:Sub", "Income:Job:Net", "Old:Assets:Bank:Sub"];
    let depth = c.choose("depth", 4) as usize;
    let mut lines = vec![];
    let mut last = 0;
    let total = depth != 1 || !c.flag("no total");
    for i in 0..3 {
        let k = last + c.choose(&format!("account {}", i), (names.len() - last) as u32) as usize;
        last = k;
        let v = c.frac(&format!("a{}", i), if i == 2 { 75 } else { 50 }, 100);
        let cur = if i == 1 { *c.pick("commodity", &["EUR", "USD"]) } else { "EUR" };
        lines.push(('(', names[k], cur.to_string(), Some(v)));
    }
    let txs = vec![Tx { date: at(2021, 1, 1), payee: "One".into(), lines }];
    let d = depth.to_string();
    let mut args = vec!["bal"];
    if depth > 0 {
        args.extend(&["--depth", &d]);
    }
    if !total {
        args.push("--no-total");
    }
    let r = c.run(&args, &journal(c, &txs));
    must_run(c, &r);
    let want = accounts(&[&txs[0]]);
    check_tree(c, &r.out, &want, if depth == 0 { 99 } else { depth }, total);
}

fn tree_wide(c: &mut Ctx) {
    let names = ["A", "A:B", "A:B:C", "A:B:D", "A:E", "F:G"];
    let drop = c.choose("unused", 15);
    // two of the six are not used
    let mut skip = vec![];
    let mut k = 0;
    for i in 0..6 {
        for j in i + 1..6 {
            if k == drop {
                skip = vec![i, j];
            }
            k += 1;
        }
    }
    let mut lines = vec![];
    for i in 0..6 {
        if !skip.contains(&i) {
            let v = c.frac(&format!("a{}", i), 1, 2);
            lines.push(('(', names[i], "EUR".to_string(), Some(v)));
        }
    }
    let txs = vec![Tx { date: at(2021, 1, 1), payee: "One".into(), lines }];
    let r = c.run(&["bal"], &journal(c, &txs));
    must_run(c, &r);
    c.cover("tree");
    check_tree(c, &r.out, &accounts(&[&txs[0]]), 99, true);
}

fn tree_same_as_flat(c: &mut Ctx) {
    let accs = ["A:B:C", "A:B", "A"];
    let (v, w) = (c.frac("v", 1, 4), c.frac("w", 3, 4));
    let (i, k) = (c.choose("first account", 3) as usize, c.choose("second account", 3) as usize);
    let cur = *c.pick("commodity", &["EUR", "USD"]);
    let txs = vec![
        Tx { date: at(2021, 1, 1), payee: "One".into(), lines: vec![(' ', accs[i], "EUR".into(), Some(v)), (' ', "Equity", String::new(), None)] },
        Tx { date: at(2021, 1, 2), payee: "Two".into(), lines: vec![(' ', accs[k], cur.into(), Some(w)), (' ', "A:X", String::new(), None)] },
    ];
    let j = journal(c, &txs);
    let f = c.run(&["bal", "--flat"], &j);
    must_run(c, &f);
    let t = c.run(&["bal"], &j);
    must_run(c, &t);
    c.cover("compared");
    let want = accounts(&[&txs[0], &txs[1]]);
    check_flat(c, &f.out, &want, true);
    check_tree(c, &t.out, &want, 99, true);
}

// ---- C06 --------------------------------------------------------------------------------

/// the transactions in the order of their dates, ties as in the file (forks)
fn by_date(txs: &[Tx]) -> Vec<&Tx> {
    let mut r: Vec<&Tx> = vec![];
    for t in txs {
        let mut i = r.len();
        while i > 0 && t.date.lt(&r[i - 1].date) {
            i -= 1;
        }
        r.insert(i, t);
    }
    r
}

/// The register shows exactly these postings of these transactions, in this order.
fn check_register(c: &Ctx, out: &str, txs: &[(&Tx, Vec<(char, &'static str, String, Val)>)]) {
    let rows = text::register(c, out);
    let mut i = 0;
    let mut sums = Sums::default();
    for (t, posted) in txs {
        if posted.is_empty() {
            continue;
        }
        let explicit = t.lines.iter().all(|x| x.3.is_some());
        let n = posted.len();
        if i + n > rows.len() {
            c.fail("postings listed", &format!("the register has {} lines, more are expected\n{}", rows.len(), out));
        }
        match &rows[i].head {
            Some((d, p)) => {
                c.eq("order of transactions", d, &t.date, &format!("line {}: another transaction (or its date) is expected here", i + 1));
                c.ok("order of transactions", *p == t.payee, &format!("line {}: the register shows {} where {} is expected", i + 1, p, t.payee));
            }
            None => c.fail("order of transactions", &format!("line {} of the register should start transaction {}\n{}", i + 1, t.payee, out)),
        }
        let mut left: Vec<&(char, &'static str, String, Val)> = posted.iter().collect();
        for k in 0..n {
            let r = &rows[i + k];
            if k > 0 && r.head.is_some() {
                c.fail("postings listed", &format!("line {}: a posting of {} is missing\n{}", i + k + 1, t.payee, out));
            }
            let zero = r.amount.cur.is_empty() && is_zero_const(&r.amount.v);
            let found = left.iter().position(|p| wrap(p.0, p.1) == r.account && (p.2 == r.amount.cur || zero));
            // the postings of a kind (real or virtual) in the order of the file
            let p = match found {
                Some(f) if !explicit || !left[..f].iter().any(|q| (q.0 == ' ') == (left[f].0 == ' ')) => left.remove(f),
                _ => c.fail("postings listed", &format!("line {}: {:?} is not the next posting of {}\n{}", i + k + 1, r.account, t.payee, out)),
            };
            c.eq("posting amount", &r.amount.v, &shown(&p.3), &format!("line {}: wrong amount for {}", i + k + 1, r.account));
            sums.add(&p.2, &p.3);
            same_amounts(c, "running total", &format!("running total on line {}", i + k + 1), &r.running, &sums);
        }
        i += n;
    }
    c.ok("postings listed", i == rows.len(), &format!("the register has {} lines, {} are expected\n{}", rows.len(), i, out));
}
fn whole<'a>(txs: &[&'a Tx]) -> Vec<(&'a Tx, Vec<(char, &'static str, String, Val)>)> {
    txs.iter().map(|t| (*t, t.posted())).collect()
}

fn order_and_totals(c: &mut Ctx) {
    let n = if c.thorough() { 4 } else { 3 };
    let second = *c.pick("second commodity", &["EUR", "USD"]);
    let left_out = c.choose("left out", 3);
    let mut txs = vec![];
    for i in 0..n {
        let v = c.frac(&format!("a{}", i), 1, 4);
        let cur = if i == 1 { second } else { "EUR" };
        let d = c.date(&format!("d{}", i));
        let mut lines = vec![(' ', "Assets:Bank", cur.to_string(), Some(v.clone()))];
        let other = if i == 0 && left_out > 0 { None } else { Some(v.neg()) };
        let at = if i == 0 && left_out == 2 { 0 } else { 1 };
        lines.insert(at, (' ', "Expenses", cur.to_string(), other));
        txs.push(Tx { date: d, payee: format!("P{}", i), lines });
    }
    let r = c.run(&["reg"], &journal(c, &txs));
    must_run(c, &r);
    let sorted = by_date(&txs);
    let same = sorted.iter().zip(txs.iter()).all(|(a, b)| a.payee == b.payee);
    c.cover(if same { "in file order" } else { "reordered" });
    check_register(c, &r.out, &whole(&sorted));
}

fn running_total(c: &mut Ctx) {
    let n = 2 + c.choose("postings", if c.thorough() { 3 } else { 2 }) as usize;
    let mut curs = Canon::new(&["EUR", "USD", "ACME"]);
    let names = ["Acc:A", "Acc:B", "Acc:C", "Acc:D"];
    let mut lines = vec![];
    let mut used = BTreeSet::new();
    let fr = [(1, 2), (1, 2), (1, 4), (5, 1000)];
    for i in 0..n {
        let v = c.frac(&format!("a{}", i), fr[i].0, fr[i].1);
        let cur = curs.pick(c, &format!("commodity {}", i));
        used.insert(cur);
        lines.push(('(', names[i], cur.to_string(), Some(v)));
    }
    if used.len() > 1 {
        c.cover("several commodities");
    }
    let back = c.flag("the last one brings the first back");
    if back {
        let (cur, v) = (lines[0].2.clone(), lines[0].3.clone().unwrap());
        lines.push(('(', "Acc:E", cur, Some(v.neg())));
    }
    if (n == 2 || c.thorough()) && c.flag("real ones") {
        let v = c.frac("real", 1, 10);
        lines.push((' ', "Acc:R", "EUR".into(), Some(v.clone())));
        lines.push((' ', "Acc:S", "EUR".into(), Some(v.neg())));
        lines.insert(0, ('[', "Acc:T", "EUR".into(), Some(v.clone())));
        lines.push(('[', "Acc:U", "EUR".into(), Some(v.neg())));
    }
    let txs = vec![Tx { date: at(2021, 1, 1), payee: "P".into(), lines }];
    let r = c.run(&["reg"], &journal(c, &txs));
    must_run(c, &r);
    let mut s = Sums::default();
    for (_, _, cur, v) in txs[0].posted() {
        s.add(&cur, &v);
        if s.is_zero() {
            c.cover("total returns to zero");
        }
    }
    check_register(c, &r.out, &whole(&[&txs[0]]));
}

fn ends_at_the_balance(c: &mut Ctx) {
    let filter = c.choose("filter", 4);
    let mut txs = vec![];
    for i in 0..2 {
        let (v, w) = (c.frac(&format!("v{}", i), 1, 4), c.frac(&format!("w{}", i), 1, 2));
        let d = c.date(&format!("d{}", i));
        txs.push(Tx {
            date: d,
            payee: format!("P{}", i),
            lines: vec![
                (' ', "Assets:Bank", "EUR".into(), Some(v)),
                (' ', "Equity", String::new(), None),
                ('(', "Budget", (if i == 0 { "EUR" } else { "USD" }).into(), Some(w)),
            ],
        });
    }
    let j = journal(c, &txs);
    let b = c.date("begin");
    let day = c.day(&b);
    let extra: Vec<&str> = match filter {
        0 => vec![],
        1 => vec!["--real"],
        2 => vec!["-b", &day],
        _ => vec!["bank"],
    };
    let mut a = vec!["bal", "--flat"];
    a.extend(&extra);
    let bal = c.run(&a, &j);
    must_run(c, &bal);
    let mut a = vec!["reg"];
    a.extend(&extra);
    let reg = c.run(&a, &j);
    must_run(c, &reg);
    let t = text::balance(c, &bal.out);
    let rows = text::register(c, &reg.out);
    // the total of the report, or its only row
    let shown_total = match (&t.total, t.rows.len()) {
        (Some(x), _) => x.clone(),
        (None, 0) => vec![],
        (None, 1) => t.rows[0].amounts.clone(),
        _ => c.fail("total shown", "a report with several accounts has no total"),
    };
    let last = rows.last().map(|r| r.running.clone()).unwrap_or_default();
    let nz = |a: &[text::Amount]| -> Vec<text::Amount> { a.iter().filter(|x| !is_zero_const(&x.v)).cloned().collect() };
    let (x, y) = (nz(&shown_total), nz(&last));
    c.cover("compared");
    c.ok(
        "register ends at the balance",
        x.iter().map(|a| &a.cur).eq(y.iter().map(|a| &a.cur)),
        &format!("the balance adds up to {:?}, the register ends at {:?}", raws(&x), raws(&y)),
    );
    for (p, q) in x.iter().zip(y.iter()) {
        c.eq("register ends at the balance", &p.v, &q.v, &format!("the balance adds up to {:?}, the register ends at {:?}", p.raw, q.raw));
    }
}

// ---- C07 --------------------------------------------------------------------------------

fn inside(t: &Tx, b: &Option<Val>, e: &Option<Val>) -> bool {
    b.as_ref().map_or(true, |b| b.le(&t.date)) && e.as_ref().map_or(true, |e| t.date.lt(e))
}

fn period(c: &mut Ctx) {
    let n = if c.thorough() { 3 } else { 2 };
    let what = c.choose("bounds", 3);
    let long = c.flag("long options");
    let reg = c.flag("register");
    let mut txs = vec![];
    for i in 0..n {
        let v = c.frac(&format!("a{}", i), 1, 4);
        let d = c.date(&format!("d{}", i));
        txs.push(Tx {
            date: d,
            payee: format!("P{}", i),
            lines: vec![(' ', "Assets:Bank", "EUR".into(), Some(v.clone())), (' ', "Expenses", "EUR".into(), Some(v.neg()))],
        });
    }
    let b = if what != 1 { Some(c.date("begin")) } else { None };
    let e = if what != 0 { Some(c.date("end")) } else { None };
    let (bd, ed) = (b.as_ref().map(|x| c.day(x)), e.as_ref().map(|x| c.day(x)));
    let mut args = if reg { vec!["reg"] } else { vec!["bal", "--flat"] };
    if let Some(x) = &bd {
        args.extend(&[if long { "--begin" } else { "-b" }, x.as_str()]);
    }
    if let Some(x) = &ed {
        args.extend(&[if long { "--end" } else { "-e" }, x.as_str()]);
    }
    let r = c.run(&args, &journal(c, &txs));
    must_run(c, &r);
    if reg {
        let list: Vec<(&Tx, Vec<_>)> =
            by_date(&txs).into_iter().map(|t| (t, if inside(t, &b, &e) { t.posted() } else { vec![] })).collect();
        check_register(c, &r.out, &list);
    } else {
        let mut kept = vec![];
        for t in &txs {
            if inside(t, &b, &e) {
                c.cover("kept");
                kept.push(t)
            } else {
                c.cover("dropped");
            }
            if b.as_ref().map_or(false, |b| b.eq(&t.date)) {
                c.cover("on the begin date");
            }
            if e.as_ref().map_or(false, |e| e.eq(&t.date)) {
                c.cover("on the end date");
            }
        }
        check_flat(c, &r.out, &accounts(&kept), true);
    }
}

fn real_only(c: &mut Ctx) {
    let real = c.flag("--real");
    let how = c.choose("report", 3);
    let (v, w, x) = (c.frac("v", 1, 4), c.frac("w", 1, 2), c.frac("x", 3, 4));
    let r1 = (' ', "Assets:Bank", "EUR".to_string(), Some(v.clone()));
    let r2 = (' ', "Assets", "EUR".to_string(), Some(v.neg()));
    let b1 = ('[', "Assets:Bank", "EUR".to_string(), Some(w.clone()));
    let b2 = ('[', "Saved", "EUR".to_string(), Some(w.neg()));
    let p = ('(', "Assets:Bank", "EUR".to_string(), Some(x.clone()));
    let lines = match c.choose("arrangement", 3) {
        0 => vec![r1, r2, b1, b2, p],
        1 => vec![p, b1, r1, b2, r2],
        _ => vec![b1, b2, r1, p, r2],
    };
    let t = Tx { date: at(2021, 1, 1), payee: "P".into(), lines };
    let j = t.text(c);
    let mut args = match how {
        0 => vec!["bal", "--flat"],
        1 => vec!["bal"],
        _ => vec!["reg"],
    };
    if real {
        args.push("--real");
    }
    let r = c.run(&args, &j);
    must_run(c, &r);
    c.cover(if real { "filtered" } else { "unfiltered" });
    let kept: Vec<_> = t.posted().into_iter().filter(|p| !real || p.0 == ' ').collect();
    let mut want = Accounts::default();
    for (_, a, cur, v) in &kept {
        post(&mut want, a, cur, v);
    }
    match how {
        0 => check_flat(c, &r.out, &want, true),
        1 => {
            check_tree(c, &r.out, &want, 99, true);
        }
        _ => check_register(c, &r.out, &[(&t, kept)]),
    }
}

fn combined(c: &mut Ctx) {
    let mask = c.choose("filters", 16);
    let mut txs = vec![];
    for i in 0..2 {
        let (v, w) = (c.frac(&format!("v{}", i), 1, 4), c.frac(&format!("w{}", i), 1, 2));
        let d = c.date(&format!("d{}", i));
        txs.push(Tx {
            date: d,
            payee: format!("P{}", i),
            lines: vec![
                (' ', "Assets:Bank", "EUR".into(), Some(v.clone())),
                (' ', "Equity", "EUR".into(), Some(v.neg())),
                ('(', "Assets:Budget", "EUR".into(), Some(w)),
            ],
        });
    }
    let b = if mask & 1 > 0 { Some(c.date("begin")) } else { None };
    let e = if mask & 2 > 0 { Some(c.date("end")) } else { None };
    let (bd, ed) = (b.as_ref().map(|x| c.day(x)), e.as_ref().map(|x| c.day(x)));
    let mut args = vec!["bal", "--flat"];
    if let Some(x) = &bd {
        args.extend(&["-b", x.as_str()]);
    }
    if let Some(x) = &ed {
        args.extend(&["-e", x.as_str()]);
    }
    if mask & 4 > 0 {
        args.push("--real");
    }
    if mask & 8 > 0 {
        args.push("assets");
    }
    let r = c.run(&args, &journal(c, &txs));
    must_run(c, &r);
    let mut want = Accounts::default();
    for t in &txs {
        let i = inside(t, &b, &e);
        for (k, a, cur, v) in t.posted() {
            if i && (mask & 4 == 0 || k == ' ') && (mask & 8 == 0 || a.starts_with("Assets")) {
                c.cover("kept");
                post(&mut want, a, &cur, &v);
            } else {
                c.cover("dropped");
            }
        }
    }
    check_flat(c, &r.out, &want, true);
}
