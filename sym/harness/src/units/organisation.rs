//! Spreading a journal over files, and the order of its transactions.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use std::collections::BTreeMap;
use symcore::Val;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C15",
        "reordered",
        reordered,
        "3 transactions with pairwise different, otherwise arbitrary dates, one with a balance assertion, one with a balance assignment, one with a cost, all 6 orders; bal (also flat, and converted), reg, check, prices; amounts integers plus a fixed fraction",
    )
    .covers(&["accepted", "refused", "reordered"]),
    Unit::new(
        "C15",
        "split",
        split,
        "7 parts (declarations of a commodity, an account and a payee with aliases, a price of arbitrary date, an automated transaction, 2 transactions, of arbitrary date and amount, in quick the second one fixed) of which any contiguous range is moved to an included file, and any range of that to a file of another directory included from there; 8 commands; amounts integers plus a fixed fraction",
    )
    .covers(&["included", "nested"]),
    Unit::new(
        "C15",
        "many_files",
        many_files,
        "the same 7 parts, each in a file of its own, included one by one, with one wildcard or with two, with and without a newline at the end of each; 8 commands",
    )
    .covers(&["one by one", "wildcard"]),
    Unit::new(
        "C15",
        "verdict",
        verdict,
        "2 transactions with arbitrary rational amounts, one in an included file, one of them asserting a balance: the same verdict as for the single file",
    )
    .covers(&["accepted", "refused"]),
    Unit::new(
        "C15",
        "cycles",
        cycles,
        "a file that includes itself, under 5 names, directly, through one or two others or with a wildcard: refused with an error by bal and reg",
    )
    .covers(&["refused"]),
    Unit::new(
        "C15",
        "alike",
        alike,
        "4 items of one kind (prices between three commodities, transactions, automated transactions, accounts, commodities, payees) that resemble each other, some in an included file and some in a second one, at each of the places; dates and amounts arbitrary; bal (also converted), prices, reg, commodities, accounts, payees",
    )
    .covers(&["compared"]),
    Unit::new(
        "C15",
        "not_a_cycle",
        not_a_cycle,
        "2 files that include, or are included beside, files of the same name in other directories: accepted",
    )
    .covers(&["accepted"]),
    Unit::new(
        "C15",
        "named",
        named,
        "a journal in the current or another directory, named by its absolute path or 4 relative ones, which includes a file beside it, one below it with a file beside that one and one above it, and several by wildcard, in 2 spellings each; bal, reg, check; 2 arbitrary amounts (quick: positive ones) and dates, one assertion",
    )
    .covers(&["accepted", "refused"]),
];

fn same(c: &Ctx, a: &Run, b: &Run, what: &str) {
    let st = |r: &Run| match &r.status {
        Status::Ok => "accepted",
        Status::Err => "refused",
        _ => "crash",
    };
    c.ok("verdict", st(a) == st(b), &format!("{}: `{}` is {} with one arrangement, {} with the other ({}; {})", what, a.args.join(" "), st(a), st(b), a.status.short(), b.status.short()));
    if a.args[0] != "check" && a.status.ok() {
        text::same_output(c, "report", &a.out, &b.out, &format!("{}: `{}` differs", what, a.args.join(" ")));
    }
}

fn reordered(c: &mut Ctx) {
    let v: Vec<Val> = (0..3).map(|i| c.frac(&format!("a{}", i), 1, 4)).collect();
    let b = c.frac("asserted", 1, 2);
    let s = c.frac("set", 1, 4);
    let d: Vec<Val> = (0..3).map(|i| c.date(&format!("d{}", i))).collect();
    for (i, j) in [(0, 1), (0, 2), (1, 2)] {
        c.assume_ne(&d[i], &d[j]);
    }
    let t = [
        format!("{} One\n    Assets:Bank    {} EUR = {} EUR\n    Income    {} EUR\n\n", c.day(&d[0]), c.amt(&v[0]), c.amt(&b), c.amt(&v[0].neg())),
        format!("{} Two\n    Assets:Bank    = {} EUR\n    Equity\n\n", c.day(&d[1]), c.amt(&s)),
        format!("{} Three\n    Assets:Bank    {} EUR\n    Assets:Shares    2 ACME @ 7 EUR\n    Equity\n\n", c.day(&d[2]), c.amt(&v[2])),
    ];
    let perms = [[0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let p = *c.pick("order", &perms);
    let cmd: &[&str] = *c.pick("command", &[&["bal"][..], &["bal", "--flat", "-X", "EUR"], &["reg"], &["check"], &["prices"]]);
    let r = c.run(cmd, &t.concat());
    let q = c.run(cmd, &format!("{}{}{}", t[p[0]], t[p[1]], t[p[2]]));
    c.cover(if accepted(c, &r) { "accepted" } else { "refused" });
    let sorted = d[p[0]].lt(&d[p[1]]) && d[p[1]].lt(&d[p[2]]);
    if sorted {
        c.cover("reordered");
    }
    if cmd[0] == "prices" {
        // one price per pair of commodities here; their order is the file's
        c.ok("verdict", r.status.ok() == q.status.ok(), "the order of the transactions changes the verdict");
        if r.status.ok() {
            let key = |c: &Ctx, o: &str| -> BTreeMap<(String, String), (Val, Val)> {
                text::prices(c, o).into_iter().map(|x| ((x.commodity, x.price.cur), (x.date, x.price.v))).collect()
            };
            let (m, n) = (key(c, &r.out), key(c, &q.out));
            c.ok("prices", m.keys().eq(n.keys()), &format!("the prices differ\n{}\n{}", r.out, q.out));
            for (k, (d, v)) in &m {
                c.eq("prices", d, &n[k].0, "the date of a price differs");
                c.eq("prices", v, &n[k].1, "a price differs");
            }
        }
    } else {
        same(c, &r, &q, "transactions of different dates in another order");
    }
}

const COMMANDS: &[&[&str]] = &[
    &["bal", "--flat", "-X", "EUR"],
    &["bal"],
    &["reg"],
    &["prices"],
    &["accounts"],
    &["payees"],
    &["commodities"],
    &["check"],
];
fn parts(c: &mut Ctx, small: bool) -> Vec<String> {
    let x = c.frac("x", 1, 4);
    let y = if small { Val::rat(21, 4) } else { c.frac("y", 1, 4) };
    let k = c.int("price");
    c.assume_lt(&Val::zero(), &k);
    let mut d: Vec<Val> = (0..3).map(|i| c.date(&format!("d{}", i))).collect();
    if small {
        d[1] = Val::int(days(2015, 5, 5));
    }
    c.assume_le(&d[2], &Val::int(today()));
    let mut p = vec![
        "commodity EUR\n    alias Euro\n".to_string(),
        "account Assets:Bank\n    alias bank\n".into(),
        "payee Shop\n    alias ^Shopping\n".into(),
        format!("P {} ACME {} EUR\n", c.day(&d[2]), c.amt(&k)),
        "= food\n    (Budget)    -1\n".into(),
        format!("{} Shopping tour\n    Food    {} Euro\n    bank    {} EUR\n", c.day(&d[0]), c.amt(&x), c.amt(&x.neg())),
        format!("{} Other\n    Shares    3 ACME\n    food:B    {} euro\n    BANK    -3 ACME\n    bank    {} EUR\n", c.day(&d[1]), c.amt(&y), c.amt(&y.neg())),
    ];
    if c.flag("declarations last") {
        p.reverse();
    }
    p
}
fn split(c: &mut Ctx) {
    let small = !c.thorough();
    let cmd = *c.pick("command", COMMANDS);
    let p = parts(c, small);
    let n = p.len() as u32;
    let from = c.choose("from", n) as usize;
    let to = from + 1 + c.choose("to", n - from as u32) as usize;
    let inner = c.flag("nested");
    let single = c.run(cmd, &p.join("\n"));
    must_run(c, &single);
    let mut main: Vec<String> = p[..from].to_vec();
    main.push("include parts/one.ledger\n".into());
    main.extend(p[to..].iter().cloned());
    let mut files = vec![("main.ledger", main.join("\n"))];
    if inner {
        c.cover("nested");
        let f2 = from + c.choose("inner from", (to - from) as u32) as usize;
        // quick: the inner range is one part or all the rest
        let t2 = if c.flag("to the end") { to } else { f2 + 1 };
        let mut one: Vec<String> = p[from..f2].to_vec();
        one.push("include deep/two.ledger\n".into());
        one.extend(p[t2..to].iter().cloned());
        files.push(("parts/one.ledger", one.join("\n")));
        files.push(("parts/deep/two.ledger", p[f2..t2].join("\n")));
    } else {
        c.cover("included");
        files.push(("parts/one.ledger", p[from..to].join("\n")));
    }
    let fs: Vec<(&str, &str)> = files.iter().map(|(a, b)| (*a, b.as_str())).collect();
    let r = c.run_files(cmd, &fs);
    same(c, &single, &r, "part of the journal in an included file");
}

fn many_files(c: &mut Ctx) {
    let cmd = *c.pick("command", COMMANDS);
    let p = parts(c, false);
    let how = c.choose("how", 3);
    let newline = c.flag("newline at the end");
    let single = c.run(cmd, &p.join("\n"));
    must_run(c, &single);
    let names: Vec<String> = (0..p.len()).map(|i| format!("parts/f{}.ledger", i)).collect();
    let mut main = String::new();
    c.cover(if how == 0 { "one by one" } else { "wildcard" });
    match how {
        0 => names.iter().for_each(|f| main.push_str(&format!("include {}\n", f))),
        1 => main.push_str("; all of them\ninclude parts/*.ledger\n"),
        _ => main.push_str("include parts/f[0-3].ledger\n\ninclude parts/f[4-6].ledger"),
    }
    let texts: Vec<String> = p.iter().map(|t| if newline { t.clone() } else { t.trim_end().to_string() }).collect();
    let mut fs: Vec<(&str, &str)> = vec![("main.ledger", main.as_str()), ("parts/other.dat", "this is no journal\n")];
    for (a, b) in names.iter().zip(texts.iter()) {
        fs.push((a, b));
    }
    let r = c.run_files(cmd, &fs);
    same(c, &single, &r, "the journal spread over many files");
}

/// several items of a kind that have much in common: none of them may get lost or win over another because of the file it is in
fn alike(c: &mut Ctx) {
    let kind = c.choose("kind", 6);
    let x = c.frac("x", 1, 4);
    let tx = |d: &str, who: &str, acc: &str, cur: &str, v: &str| format!("{} {}\n    {}    {} {}\n    Equity\n", d, who, acc, v, cur);
    let usual: &[&[&str]] = &[&["bal", "--flat"], &["reg"]];
    let (items, rest, cmds): (Vec<String>, String, &[&[&str]]) = match kind {
        0 => {
            let d: Vec<Val> = (0..3).map(|i| past_date(c, i)).collect();
            let p: Vec<Val> = (0..3).map(|i| positive(c, i)).collect();
            (
                vec![
                    format!("P {} ACME {} EUR\n", c.day(&d[0]), c.amt(&p[0])),
                    format!("P {} ACME {} USD\n", c.day(&d[1]), c.amt(&p[1])),
                    format!("P {} USD 2 EUR\n", c.day(&d[1])),
                    format!("P {} ACME {} EUR\n", c.day(&d[2]), c.amt(&p[2])),
                ],
                "2021-01-01 Payee\n    (Shares)    3 ACME\n    (Cash)    5 USD\n".into(),
                &[&["prices"], &["bal", "--flat", "-X", "EUR"], &["bal", "-X", "USD"]],
            )
        }
        1 => {
            let d = c.date("d");
            let t = tx(&c.day(&d), "Shop", "Food", "EUR", &c.amt(&x));
            (
                vec![t.clone(), tx(&c.day(&d), "Shop", "Food", "EUR", "7.25"), t, tx("2020-05-05", "Shop", "Food", "EUR", &c.amt(&x))],
                String::new(),
                usual,
            )
        }
        2 => {
            let r = "= food\n    (Budget)    -1\n".to_string();
            (
                vec![r.clone(), "= food\n    (Budget)    2\n".into(), r, "= food\n    (Plan)    -1\n".into()],
                tx("2021-01-01", "Shop", "Food", "EUR", &c.amt(&x)),
                usual,
            )
        }
        3 => (
            vec![
                "account Food\n    alias fd\n".into(),
                "account Food:Fruit\n    alias fruit\n".into(),
                "account Fun\n    alias fun\n    payee ^Sho\n".into(),
                "account Home\n    alias food:home\n".into(),
            ],
            ["fd", "FRUIT", "fun", "Food:Home", "Unknown"].iter().map(|a| tx("2021-01-01", "Shop", a, "EUR", &c.amt(&x))).collect(),
            &[&["bal", "--flat"], &["reg"], &["accounts"]],
        ),
        4 => (
            vec![
                "commodity EUR\n    alias Euro\n".into(),
                "commodity EUX\n    alias Eurox\n    format 1.000,00 EUX\n".into(),
                "commodity USD\n    alias Dollar\n    format $1,000.00\n".into(),
                "commodity $\n    alias S\n".into(),
            ],
            ["Euro", "Eurox", "Dollar", "S", "eur"].iter().map(|a| tx("2021-01-01", "Shop", "Food", a, &c.amt(&x))).collect(),
            &[&["bal", "--flat"], &["reg"], &["commodities"]],
        ),
        _ => (
            vec![
                "payee Shop\n    alias ^Shopping\n".into(),
                "payee Shops\n    alias ^Many\n".into(),
                "payee Other\n    alias ^Else\n".into(),
                "payee Else\n    alias ^Nobody\n".into(),
            ],
            ["Shopping", "Many shops", "Elsewhere", "Nobody", "shop"].iter().map(|w| tx("2021-01-01", w, "Food", "EUR", &c.amt(&x))).collect(),
            &[&["reg"], &["payees"], &["bal", "@shop"]],
        ),
    };
    let cmd: &[&str] = cmds[c.choose("command", cmds.len() as u32) as usize];
    // items 0..a in the main file, a..b in the first file, b.. in the second, whose lines come before or after
    let a = c.choose("from", 4) as usize;
    let b = a + 1 + c.choose("to", 4 - a as u32) as usize;
    let how = c.choose("how", 3);
    let (l, m, r) = (items[..a].join("\n"), items[a..b].join("\n"), items[b..].join("\n"));
    let single = c.run(cmd, &format!("{}\n{}\n{}\n{}", l, m, r, rest));
    must_run(c, &single);
    c.cover("compared");
    let run = match how {
        0 => c.run_files(cmd, &[("main.ledger", &format!("{}\ninclude m.ledger\n{}\n{}", l, r, rest)), ("m.ledger", &m)]),
        1 => c.run_files(cmd, &[("main.ledger", &format!("{}\ninclude m.ledger\ninclude r.ledger\n{}", l, rest)), ("m.ledger", &m), ("r.ledger", &r)]),
        _ => c.run_files(
            cmd,
            &[("main.ledger", &format!("include l.ledger\n{}\n{}", r, rest)), ("l.ledger", &format!("{}\ninclude m.ledger\n", l)), ("m.ledger", &m)],
        ),
    };
    same(c, &single, &run, "similar items in several files");
}
fn past_date(c: &Ctx, i: usize) -> Val {
    let d = c.date(&format!("d{}", i));
    c.assume_le(&d, &Val::int(today()));
    d
}
fn positive(c: &Ctx, i: usize) -> Val {
    let p = c.int(&format!("p{}", i));
    c.assume_lt(&Val::zero(), &p);
    p
}

fn verdict(c: &mut Ctx) {
    let (x, y, z) = (c.real("x"), c.real("y"), c.real("z"));
    let b = c.real("asserted");
    let first = c.flag("the first one is moved");
    let t = [
        format!("2021-01-01 One\n    Bank    {} EUR\n    Cash    {} EUR\n", c.amt(&x), c.amt(&y)),
        format!("2021-01-02 Two\n    Bank    {} EUR = {} EUR\n    Cash\n", c.amt(&z), c.amt(&b)),
    ];
    let cmd: &[&str] = *c.pick("command", &[&["check"][..], &["accounts", "--no-balance-check"]]);
    let a = c.run(cmd, &format!("{}\n{}", t[0], t[1]));
    let r = if first {
        c.run_files(cmd, &[("main.ledger", &format!("include o.ledger\n{}", t[1])), ("o.ledger", &t[0])])
    } else {
        c.run_files(cmd, &[("main.ledger", &format!("{}\ninclude o.ledger\n", t[0])), ("o.ledger", &t[1])])
    };
    let ok = accepted(c, &a);
    c.cover(if ok { "accepted" } else { "refused" });
    c.ok("verdict", accepted(c, &r) == ok, &format!("`{}` is {} for the single file, not so with an include", cmd.join(" "), if ok { "accepted" } else { "refused" }));
}

fn cycles(c: &mut Ctx) {
    let x = c.real("x");
    let t = format!("2021-01-01 One\n    Bank    {} EUR\n    Cash\n", c.amt(&x));
    let name = *c.pick("name", &["main.ledger", "./main.ledger", "sub/../main.ledger", "ma*.ledger", "*.ledger"]);
    let before = c.flag("the include comes first");
    let length = c.choose("through", 3);
    let cmd: &[&str] = *c.pick("command", &[&["bal"][..], &["reg"]]);
    let file = |inc: &str| if before { format!("include {}\n{}", inc, t) } else { format!("{}\ninclude {}\n", t, inc) };
    let r = match length {
        0 => c.run_files(cmd, &[("main.ledger", &file(name)), ("sub/x", "")]),
        1 => c.run_files(cmd, &[("main.ledger", &file("b.ledger")), ("b.ledger", &file(name)), ("sub/x", "")]),
        _ => c.run_files(
            cmd,
            &[
                ("main.ledger", &file("sub/b.ledger")),
                ("sub/b.ledger", &file("deep/c.ledger")),
                ("sub/deep/c.ledger", &file(&format!("../../{}", name))),
            ],
        ),
    };
    c.cover("refused");
    c.ok("refused", matches!(r.status, Status::Err), &format!("a file that includes itself is not refused with an error: {}", r.status.short()));
}

fn not_a_cycle(c: &mut Ctx) {
    let shape = c.choose("shape", 4);
    let v: Vec<Val> = (0..3).map(|i| c.frac(&format!("a{}", i), 1, 4)).collect();
    let t: Vec<String> = (0..3)
        .map(|i| format!("2021-01-0{} P\n    Bank    {} EUR\n    Cash{}\n", i + 1, c.amt(&v[i]), i))
        .collect();
    let r = match shape {
        // the same name in another directory
        0 => c.run_files(
            &["bal", "--flat"],
            &[
                ("main.ledger", &format!("{}include sub/main.ledger\n", t[0])),
                ("sub/main.ledger", &format!("{}include deep/main.ledger\n", t[1])),
                ("sub/deep/main.ledger", &t[2]),
            ],
        ),
        // one after the other
        1 => c.run_files(
            &["bal", "--flat"],
            &[("main.ledger", &format!("include a/x.ledger\n{}include b/x.ledger\n", t[0])), ("a/x.ledger", &t[1]), ("b/x.ledger", &t[2])],
        ),
        // back up and down again
        2 => c.run_files(
            &["bal", "--flat"],
            &[
                ("main.ledger", &format!("include a/x.ledger\n{}", t[0])),
                ("a/x.ledger", &format!("{}include ../b/x.ledger\n", t[1])),
                ("b/x.ledger", &t[2]),
            ],
        ),
        // a file beside the including one
        _ => c.run_files(
            &["bal", "--flat"],
            &[
                ("main.ledger", &format!("include a/m*.ledger\n{}", t[0])),
                ("a/main.ledger", &format!("include other.ledger\n{}", t[1])),
                ("a/other.ledger", &t[2]),
            ],
        ),
    };
    must_run(c, &r);
    c.cover("accepted");
    let mut a = Accounts::default();
    for (i, x) in v.iter().enumerate() {
        post(&mut a, "Bank", "EUR", x);
        post(&mut a, ["Cash0", "Cash1", "Cash2"][i], "EUR", &x.neg());
    }
    check_flat(c, &r.out, &a, true);
}

fn named(c: &mut Ctx) {
    let (x, y) = (c.frac("x", 1, 4), c.frac("y", 1, 4));
    if !c.thorough() {
        c.assume_lt(&Val::zero(), &x);
        c.assume_lt(&x, &y);
    }
    let b = c.frac("asserted", 1, 2);
    let (d, e) = (c.date("d"), c.date("e"));
    let cmd: &[&str] = *c.pick("command", &[&["bal"][..], &["reg"], &["check"]]);
    let sub = c.flag("another directory");
    let name = c.choose("name", if own_directory() { 5 } else { 1 });
    let dots = c.flag("dots");
    let (dx, de) = (c.day(&d), c.day(&e));
    let t: Vec<String> = vec![
        "account Assets:Bank\n    alias bank\n\n".into(),
        format!("{} One\n    bank    {} EUR\n    Income\n\n", dx, c.amt(&x)),
        format!("{} Two\n    bank    {} EUR = {} EUR\n    Equity\n\n", de, c.amt(&y), c.amt(&b)),
        "2020-05-05 Three\n    (Cash)    1 GBP\n\n".into(),
        "2020-05-06 Four\n    (Cash)    2 GBP\n\n".into(),
        "2020-05-07 Five\n    (Cash)    3 GBP\n\n".into(),
    ];
    let dot = if dots { "./" } else { "" };
    let up = if dots { "../below/../" } else { "../" };
    let main = format!("{}include {}part.ledger\ninclude {}below/deep.ledger\ninclude {}many/*.ledger\n", t[0], dot, dot, dot);
    let deep = format!("{}include {}next.ledger\ninclude {}top.ledger\n", t[2], dot, up);
    let at = if sub { "books/" } else { "" };
    let f = |n: &str| format!("{}{}", at, n);
    let files = [
        (f("main.ledger"), main),
        (f("part.ledger"), t[1].clone()),
        (f("below/deep.ledger"), deep),
        (f("below/next.ledger"), t[3].clone()),
        (f("top.ledger"), t[4].clone()),
        (f("many/a.ledger"), t[5].clone()),
        // not to be found
        ("below/next.led".to_string(), "nonsense\n".to_string()),
        ("next.ledger".to_string(), "2020-05-05 Wrong\n    (Cash)    9 GBP\n".to_string()),
        (f("below/part.ledger"), "2020-05-05 Wrong\n    (Cash)    9 GBP\n".to_string()),
    ];
    let files: Vec<(&str, &str)> = files.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
    let path = match name {
        0 => format!("$DIR/{}main.ledger", at),
        1 => format!("{}main.ledger", at),
        2 => format!("./{}main.ledger", at),
        3 => format!("many/../{}main.ledger", at),
        _ => format!("../r2/{}main.ledger", at),
    };
    let files: Vec<(&str, &str)> = if name == 3 && sub { files.iter().cloned().chain([("many/x", "")]).collect() } else { files };
    let a = c.run(cmd, &t.concat());
    let mut args = cmd.to_vec();
    args.extend(["-f", &path]);
    let r = c.run_files(&args, &files);
    c.cover(if accepted(c, &a) { "accepted" } else { "refused" });
    same(c, &a, &r, "a journal in several files, under another name");
}
