//! Comments, blanks and line endings.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use symcore::Val;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C17",
        "one_change",
        one_change,
        "a journal of 24 lines with every construct (declarations, price, automated transaction, costs, assertion, assignment, left-out amount, code, status, effective date), any one line changed in any of 15 ways: blanks or a tab or a carriage return at its end, a comment at its end (5 texts), indentation, separation by two blanks or a tab, a blank or comment line before it (unindented ones only between entries); 7 commands; 2 arbitrary amounts (quick: positive ones), an arbitrary date",
    )
    .covers(&["at the end", "separation", "line before"]),
    Unit::new(
        "C17",
        "everywhere",
        everywhere,
        "the same journal changed everywhere at once, in all combinations of: Windows line endings, tabs, trailing blanks, comments at line ends, comment lines, blank lines, no newline at the end; 7 commands; 2 arbitrary amounts (quick: positive ones), an arbitrary date",
    )
    .covers(&["changed"]),
    Unit::new(
        "C17",
        "verdict",
        verdict,
        "a transaction with 3 postings of arbitrary rational amounts, one with a cost, and one that asserts an arbitrary balance, in all combinations of those changes: the same verdict",
    )
    .covers(&["accepted", "refused"]),
    Unit::new(
        "C17",
        "ends",
        ends,
        "a journal that ends with each of 12 constructs, followed by nothing, a newline, blanks, a comment with and without newline, or Windows line ends: the same report and verdict; an arbitrary amount",
    )
    .covers(&["end"]),
    Unit::new(
        "C17",
        "widths",
        widths,
        "1 transaction whose postings are separated from their accounts, amounts from commodities, and costs and balances from amounts, by 0 to 3 blanks or tabs where blanks are optional; amounts integers plus a fixed fraction",
    )
    .covers(&["spaced"]),
    Unit::new(
        "C17",
        "directives",
        directives,
        "a journal with 2 included files and every directive (account, payee, commodity, tag, include, price, automated transaction, with all their lines); any one or all of these lines with one or several blanks or tabs behind the keyword, and nothing, blanks, a tab or a carriage return at the end; 8 commands; an arbitrary amount, an arbitrary date",
    )
    .covers(&["one", "all"]),
];

const COMMANDS: &[&[&str]] = &[&["bal"], &["reg"], &["prices"], &["payees"], &["bal", "--flat", "-X", "EUR"], &["check"], &["bal", "expr", "(payee =~ /^Payee$/ or account =~ /^(Shares|Cash|Budget:B)$/ or (note =~ /^kind: fruit$/ and tag('sort') =~ /^dear$/))"]];

struct Lines(Vec<String>);
fn lines(c: &mut Ctx) -> Lines {
    let x = c.int("x");
    let d = c.date("d");
    c.assume_le(&d, &Val::int(today()));
    c.assume_lt(&Val::zero(), &x);
    let y = c.frac("y", 1, 4);
    if !c.thorough() {
        c.assume_lt(&Val::zero(), &y);
    }
    Lines(vec![
        "commodity EUR".into(),
        "    alias Euro".into(),
        "account Assets:Bank".into(),
        "    note hello".into(),
        "    alias bank".into(),
        "payee Shop".into(),
        "    alias ^Shopping".into(),
        format!("P {} ACME {} EUR", c.day(&d), c.amt(&x)),
        "= food".into(),
        "    (Budget)    -1".into(),
        "    (Budget:B)    2 EUR".into(),
        "    (Budget:C)    (amount * 2)".into(),
        "2020-01-01 * (code) Shopping-tour  ; kind: fruit".into(),
        format!("    Food    {} Euro", c.amt(&y)),
        format!("    bank    {} EUR", c.amt(&y.neg())),
        "    ; sort: dear".into(),
        "2020-01-02 Other".into(),
        format!("    Shares    2 ACME @ {} EUR", c.amt(&x)),
        "    bank    = 5 EUR".into(),
        "    Cash".into(),
        "2020-01-03=2020-01-04 Third | Payee".into(),
        "    (Virt)    2 ACME".into(),
        "    Food:X    2 ACME @@ 7 EUR = 2 ACME".into(),
        "    Cash".into(),
    ])
}
fn indented(l: &str) -> bool {
    l.starts_with(' ') || l.starts_with('\t')
}
/// a comment may stand at the end of this line (it is part of the name, note or query in others)
fn may_end_with_comment(l: &str) -> bool {
    !(l.contains(';') || l.starts_with("account") || l.starts_with("= ") || l.trim_start().starts_with("alias") || l.trim_start().starts_with("note"))
}
fn separated(l: &str, by: &str) -> String {
    format!("    {}", l.trim_start().replacen("    ", by, 1))
}
const TEXTS: &[&str] = &["; note", ";", "; 2020-01-01 Not this", ";Bank  3 EUR = 4 EUR ; @ 2", "; \u{e9}:trip: \"quoted"];

fn compare(c: &Ctx, a: &Run, b: &Run) {
    c.ok(
        "verdict",
        a.status.short() == b.status.short(),
        &format!("`{}`: {} with one layout, {} with the other", a.args.join(" "), a.status.short(), b.status.short()),
    );
    if a.args[0] != "check" {
        text::same_output(c, "report", &a.out, &b.out, &format!("`{}` depends on the layout", a.args.join(" ")));
    }
}

fn one_change(c: &mut Ctx) {
    let cmd = *c.pick("command", COMMANDS);
    let l = lines(c).0;
    let at = c.choose("line", l.len() as u32) as usize;
    let how = c.choose("change", 15);
    let mut m = l.clone();
    let line = l[at].clone();
    match how {
        0 => m[at] = format!("{}   ", line),
        1 => m[at] = format!("{}\t", line),
        2 => m[at] = format!("{}\r", line),
        3 | 4 | 5 => {
            if !may_end_with_comment(&line) {
                return;
            }
            let t = TEXTS[c.choose("text", TEXTS.len() as u32) as usize];
            m[at] = format!("{}{}{}", line, ["  ", "\t", "     "][how as usize - 3], t);
        }
        6 | 7 => {
            if !indented(&line) {
                return;
            }
            m[at] = format!("{}{}", ["\t", " "][how as usize - 6], line.trim_start());
        }
        8 | 9 | 10 => {
            if !line.trim_start().contains("    ") {
                return;
            }
            m[at] = separated(&line, ["  ", "\t", "         \t "][how as usize - 8]);
        }
        11 => m.insert(at, "".into()),
        12 => m.insert(at, "   \t".into()),
        _ => {
            let t = TEXTS[c.choose("text", TEXTS.len() as u32) as usize];
            // within an entry a comment is indented, between entries it need not be
            if indented(&line) {
                m.insert(at, format!("{}{}", if how == 13 { "    " } else { "\t" }, t));
            } else {
                let lead = ["#", "*", "%", "!"][at % 4];
                m.insert(at, if how == 13 { t.to_string() } else { format!("{}{}", lead, &t[1..]) });
            }
        }
    }
    c.cover(match how {
        0..=5 => "at the end",
        6..=10 => "separation",
        _ => "line before",
    });
    let end = "\n";
    let a = c.run(cmd, &format!("{}{}", l.join("\n"), end));
    must_run(c, &a);
    let b = c.run(cmd, &format!("{}{}", m.join("\n"), end));
    compare(c, &a, &b);
}

/// the changes of the bits of `how`, everywhere
fn relaid(l: &[String], how: u32) -> String {
    let on = |b: u32| how & (1 << b) != 0;
    let mut m: Vec<String> = vec![];
    for (i, x) in l.iter().enumerate() {
        let mut x = x.clone();
        if on(0) && indented(&x) {
            x = separated(&x, "\t");
            x = format!("\t{}", x.trim_start());
        }
        if on(1) {
            x.push_str(if i % 2 == 0 { "  " } else { " \t" });
        }
        if on(2) && may_end_with_comment(&x) {
            x.push_str("  ");
            x.push_str(TEXTS[i % TEXTS.len()]);
        }
        if on(3) {
            let t = TEXTS[(i + 1) % TEXTS.len()];
            m.push(if indented(&x) { format!("    {}", t) } else { t.to_string() });
        }
        if on(4) {
            m.push(if i % 2 == 0 { String::new() } else { "   ".into() });
        }
        m.push(x);
    }
    let nl = if on(5) { "\r\n" } else { "\n" };
    let mut s = m.join(nl);
    if !on(6) {
        s.push_str(nl);
    }
    s
}

fn everywhere(c: &mut Ctx) {
    let cmd = *c.pick("command", COMMANDS);
    let how = c.choose("changes", 127) + 1;
    let l = lines(c).0;
    let a = c.run(cmd, &relaid(&l, 0));
    must_run(c, &a);
    let b = c.run(cmd, &relaid(&l, how));
    c.cover("changed");
    compare(c, &a, &b);
}

fn directives(c: &mut Ctx) {
    let cmd: &[&str] = *c.pick(
        "command",
        &[&["bal"][..], &["reg", "@shop"], &["accounts"], &["payees"], &["commodities"], &["prices"], &["check"], &["bal", "--flat", "-X", "EUR"]],
    );
    let x = c.frac("x", 1, 4);
    c.assume_lt(&Val::zero(), &x);
    let d = c.date("d");
    c.assume_le(&d, &Val::int(today()));
    let day = c.day(&d);
    // keyword, the rest of the line
    let price = format!("{} ACME 3 EUR", day);
    let l: Vec<(&str, &str)> = vec![
        ("account", "Assets:Bank"),
        ("    alias", "bank"),
        ("    note", "hello"),
        ("account", "Expenses:Food"),
        ("    payee", "^Shop"),
        ("payee", "Shop"),
        ("    alias", "^Shopping"),
        ("commodity", "EUR"),
        ("    alias", "Euro"),
        ("    format", "1.00 EUR"),
        ("tag", "trip"),
        ("    check", "value =~ /x/"),
        ("P", &price),
        ("=", "bank"),
        ("include", "part.ledger"),
        ("include", "more/*.ledger"),
    ];
    let line = c.choose("line", l.len() as u32 + 1) as usize;
    let by = *c.pick("separation", &[" ", "   ", "\t", " \t "]);
    let end = *c.pick("end", &["", "  ", "\t", "\r"]);
    if line < l.len() {
        c.cover("one");
    } else {
        c.cover("all");
    }
    let amt = c.amt(&x);
    let build = |changed: bool| -> String {
        let mut s = String::new();
        for (i, (k, r)) in l.iter().enumerate() {
            let at = changed && (line == l.len() || line == i);
            s.push_str(&format!("{}{}{}{}\n", k, if at { by } else { " " }, r, if at { end } else { "" }));
            if *k == "=" {
                s.push_str("    (Budget)    -1\n\n");
            }
        }
        s.push_str(&format!("2021-01-01 Shopping\n    bank    {} Euro\n    Unknown\n", amt));
        s
    };
    let part = format!("2021-01-02 Two\n    Shares    2 ACME @ 5 EUR\n    bank    {} EUR\n    Equity\n", c.amt(&x.neg()));
    let more = "2021-01-03 Three\n    (Cash)    7 ACME\n";
    let a = c.run_files(cmd, &[("main.ledger", &build(false)), ("part.ledger", &part), ("more/a.ledger", more)]);
    must_run(c, &a);
    let b = c.run_files(cmd, &[("main.ledger", &build(true)), ("part.ledger", &part), ("more/a.ledger", more)]);
    compare(c, &a, &b);
}

fn verdict(c: &mut Ctx) {
    let how = c.choose("changes", 127) + 1;
    let v: Vec<Val> = (0..4).map(|i| c.real(&format!("v{}", i))).collect();
    let b = c.real("b");
    let l: Vec<String> = vec![
        "2020-01-01 ! One".into(),
        format!("    A    {} EUR", c.amt(&v[0])),
        format!("    B    3 ACME @@ {} EUR", c.amt(&v[1])),
        format!("    C    {} EUR", c.amt(&v[2])),
        "2020-01-02 Two".into(),
        format!("    A    {} EUR = {} EUR", c.amt(&v[3]), c.amt(&b)),
        "    D".into(),
    ];
    let a = c.run(&["check"], &relaid(&l, 0));
    let r = c.run(&["check"], &relaid(&l, how));
    let ok = accepted(c, &a);
    c.cover(if ok { "accepted" } else { "refused" });
    compare(c, &a, &r);
}

fn ends(c: &mut Ctx) {
    let x = c.frac("x", 1, 4);
    let amt = c.amt(&x);
    let last: Vec<String> = vec![
        "2021-01-01 P\n    (A)    ".to_string() + &amt + " EUR",
        "2021-01-01 P\n    B    2 EUR\n    Z    -2 EUR = -2 EUR".into(),
        "2021-01-01 P\n    B    2 EUR @ 2 USD\n    A".into(),
        "2021-01-01 P\n    B    2 EUR\n    Z    = -2 EUR".into(),
        "2021-01-01 P\n    A    0 EUR  ; trip: a".into(),
        "P 2021-01-01 ACME 3 EUR".into(),
        "commodity EUR\n    alias Euro".into(),
        "account A\n    alias aa".into(),
        "account A".into(),
        "payee P".into(),
        "= A\n    (C)    2".into(),
        "; the end".into(),
    ];
    let k = c.choose("last", last.len() as u32) as usize;
    let j = format!("2020-01-01 Q\n    A    {} EUR\n    Other\n{}", amt, last[k]);
    let e = *c.pick("end", &["", "   ", "\t", "\r\n", "\n\n\n", "\n   ", "\n; c", "\n; c\n", "\n    ; c", "\n\r\n\r\n", "\n\n# end"]);
    let cmd = *c.pick("command", &[&["bal", "--flat"][..], &["prices"]]);
    if e == "\n    ; c" && (k == 5 || k == 11) {
        return; // nothing can be indented below a price or a comment
    }
    let a = c.run(cmd, &format!("{}\n", j));
    must_run(c, &a);
    let b = c.run(cmd, &format!("{}{}", j, e));
    c.cover("end");
    compare(c, &a, &b);
}

fn widths(c: &mut Ctx) {
    const AFTER: &[&str] = &["  ", "\t", "   ", " \t"];
    const OPTIONAL: &[&str] = &["", " ", "   ", "\t"];
    let x = c.frac("x", 1, 4);
    let y = c.frac("y", 1, 4);
    let (s1, s2) = (*c.pick("account", AFTER), *c.pick("other account", AFTER));
    let o: Vec<&str> = (0..3).map(|i| *c.pick(&format!("blank {}", i), OPTIONAL)).collect();
    let before = c.flag("commodity first");
    let money = |v: &str, cur: &str| if before { format!("{}{}{}", cur, o[0], v) } else { format!("{}{}{}", v, o[0], cur) };
    let j = format!(
        "2020-01-01 P\n    Acc one{}{} ={}{}\n    B:c{}{}{}@{}{}\n\tCash\n",
        s1,
        money(&c.amt(&x), "EUR"),
        o[1],
        money(&c.amt(&x), "EUR"),
        s2,
        money(&c.amt(&y), "ACME"),
        // without a blank the sign would be read as part of the commodity
        if o[2].is_empty() { " " } else { o[2] },
        o[2],
        money("2", "EUR"),
    );
    let r = c.run(&["bal", "--flat"], &j);
    must_run(c, &r);
    c.cover("spaced");
    let mut a = Accounts::default();
    post(&mut a, "Acc one", "EUR", &x);
    post(&mut a, "B:c", "ACME", &y);
    post(&mut a, "Cash", "EUR", &x.add(&y.mul(&Val::int(2))).neg());
    check_flat(c, &r.out, &a, true);
}
