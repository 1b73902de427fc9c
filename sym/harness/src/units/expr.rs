//! Queries: expressions mean what they say.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;
use symcore::Val;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C08",
        "comparisons",
        comparisons,
        "one comparison of the amount with a constant, all six operators, constant on either side, with or without commodity (three spellings); amount an integer or an integer plus a half, constant an arbitrary rational",
    )
    .covers(&["selected", "not selected"]),
    Unit::new(
        "C08",
        "arithmetic",
        arithmetic,
        "sums and differences of three terms, each the amount or a constant, optionally multiplied, divided, negated or under abs, with every placement of parentheses, compared with a constant; amount and constants arbitrary, factors 2 and 4",
    )
    .covers(&["selected", "not selected"]),
    Unit::new(
        "C08",
        "products",
        products,
        "chains of three factors with * and /, the amount in any place, unit-less constants arbitrary rationals (not zero where divided by), compared with a constant",
    )
    .covers(&["selected", "not selected"]),
    Unit::new(
        "C08",
        "logic",
        logic,
        "three comparisons (thorough: four) joined by and / or (also & and |), each optionally negated (not, !), with every placement of one pair of parentheses; amount an integer, constants arbitrary rationals",
    )
    .covers(&["selected", "not selected"]),
    Unit::new(
        "C08",
        "dates",
        dates,
        "comparison of the date with a date constant, all six operators, either side, joined with an amount comparison; dates and amounts arbitrary",
    )
    .covers(&["selected", "not selected"]),
    Unit::new(
        "C08",
        "any_posting",
        any_posting,
        "transactions of 3 postings, any(...) over an amount comparison, alone, negated, combined with a condition on the posting or with an account test inside; amounts integers, constants arbitrary rationals",
    )
    .covers(&["selected", "not selected"]),
    Unit::new(
        "C08",
        "texts",
        texts,
        "conditions on account, payee, note and tags (transaction's and posting's own, on filled and given amounts), alone and combined with an amount comparison; amounts integers, constants arbitrary rationals",
    )
    .covers(&["selected", "not selected"]),
    Unit::new(
        "C08",
        "command_line",
        command_line,
        "command-line terms (plain, /regex/, @payee, %tag, expr) alone and in pairs and triples joined by nothing, or, and; three transactions with arbitrary integer amounts",
    )
    .covers(&["selected", "not selected"]),
    Unit::new(
        "C08",
        "carried",
        carried,
        "one transaction in 7 shapes (amounts, an amount left out in one or two commodities or beside a cost, an assigned balance, postings in brackets or parentheses), the tags on any of its postings or on the transaction, written in 6 ways; 7 conditions on tags; amounts integers plus a fraction",
    )
    .covers(&["selected", "not selected"]),
];

/// the accounts a register lists
fn listed(c: &Ctx, r: &Run) -> Vec<String> {
    must_run(c, r);
    text::register(c, &r.out).into_iter().map(|x| x.account).collect()
}
/// every posting is listed exactly when it should be
fn selection(c: &Ctx, r: &Run, want: &[(&str, bool)], what: &str) {
    let got = listed(c, r);
    let mut exp: Vec<&str> = want.iter().filter(|x| x.1).map(|x| x.0).collect();
    exp.sort_unstable();
    let mut g: Vec<&str> = got.iter().map(|x| x.as_str()).collect();
    g.sort_unstable();
    for (_, w) in want {
        c.cover(if *w { "selected" } else { "not selected" });
    }
    c.ok("selection", g == exp, &format!("`{}` selects {:?}, it is true for {:?}", what, g, exp));
}
fn holds(op: &str, a: &Val, b: &Val) -> bool {
    match op {
        "<" => a.lt(b),
        ">" => b.lt(a),
        "<=" => a.le(b),
        ">=" => b.le(a),
        "==" => a.eq(b),
        _ => !a.eq(b),
    }
}
const OPS: &[&str] = &["<", ">", "<=", ">=", "==", "!="];

fn comparisons(c: &mut Ctx) {
    let op = *c.pick("operator", OPS);
    let form = c.choose("form", 7);
    let half = c.flag("half");
    let a = if half { c.frac("amount", 1, 2) } else { c.int("amount") };
    let k = c.real("constant");
    let t = c.amt_d(&k, 4);
    let q = match form {
        0 => format!("amount {} {} EUR", op, t),
        1 => format!("amount {} {}", op, t),
        2 => format!("{} {} amount", t, op),
        3 => format!("{} EUR {} amount", t, op),
        4 => format!("amount{}EUR {}", op, t),
        5 => format!("amount {} \"EUR\" {}", op, t),
        _ => format!("(amount) {} ({} EUR)", op, t),
    };
    // a zero amount compared with money of a commodity is one thing, with a number another; both are just zero
    let j = format!("2021-01-01 Payee\n    Acc:A    {} EUR\n    Acc:B    {} EUR\n", c.amt(&a), c.amt(&a.neg()));
    let r = c.run(&["reg", "expr", &format!("({})", q)], &j);
    let flip = form == 2 || form == 3;
    let v = |x: &Val| if flip { holds(op, &k, x) } else { holds(op, x, &k) };
    selection(c, &r, &[("Acc:A", v(&a)), ("Acc:B", v(&a.neg()))], &q);
}

/// term of a sum: text (self-contained) and value for a posting of this amount
struct Term {
    text: String,
    f: Box<dyn Fn(&Val) -> Val>,
}
fn term(c: &Ctx, i: usize, k: &Val, plain: bool) -> Term {
    let t = c.amt_d(k, 4);
    let k = k.clone();
    let amount = i == 0;
    let base: (String, Box<dyn Fn(&Val) -> Val>) = if amount {
        ("amount".to_string(), Box::new(|a| a.clone()))
    } else {
        (format!("{} EUR", t), Box::new(move |_| k.clone()))
    };
    if plain {
        return Term { text: base.0, f: base.1 };
    }
    let f = base.1;
    match c.choose(&format!("term {}", i), 5) {
        0 => Term { text: base.0, f },
        1 => Term { text: format!("{} * 2", base.0), f: Box::new(move |a| f(a).mul(&Val::int(2))) },
        2 => Term { text: format!("{} / 4", base.0), f: Box::new(move |a| f(a).div(&Val::int(4))) },
        3 if amount => Term { text: format!("-{}", base.0), f: Box::new(move |a| f(a).neg()) },
        3 => Term { text: format!("2 * {}", base.0), f: Box::new(move |a| f(a).mul(&Val::int(2))) },
        _ => Term {
            text: format!("abs({})", base.0),
            f: Box::new(move |a| {
                let v = f(a);
                if v.is_neg() {
                    v.neg()
                } else {
                    v
                }
            }),
        },
    }
}

fn arithmetic(c: &mut Ctx) {
    let (o1, o2) = (*c.pick("first operator", &["+", "-"]), *c.pick("second operator", &["+", "-"]));
    let shape = c.choose("parentheses", 5);
    let at = c.choose("place of the amount", 3) as usize;
    let ks: Vec<Val> = (0..3).map(|i| c.real(&format!("k{}", i))).collect();
    let mut ts = vec![];
    for i in 0..3 {
        // number 0 is the amount
        let n = if i == at { 0 } else { i + 1 };
        ts.push(term(c, n, &ks[i.min(1)], !c.thorough() && i == 2));
    }
    let g = |o: &str, x: &Val, y: &Val| if o == "+" { x.add(y) } else { x.sub(y) };
    let (a, b, d) = (&ts[0], &ts[1], &ts[2]);
    let text = match shape {
        0 => format!("{} {} {} {} {}", a.text, o1, b.text, o2, d.text),
        1 => format!("({} {} {}) {} {}", a.text, o1, b.text, o2, d.text),
        2 => format!("{} {} ({} {} {})", a.text, o1, b.text, o2, d.text),
        3 => format!("-({} {} {}) {} {}", a.text, o1, b.text, o2, d.text),
        _ => format!("({} {} {}) * 2 {} {}", a.text, o1, b.text, o2, d.text),
    };
    let q = format!("{} > {} EUR", text, c.amt_d(&ks[2], 4));
    let v = |x: &Val| {
        let (p, q, r) = ((a.f)(x), (b.f)(x), (d.f)(x));
        let y = match shape {
            0 | 1 => g(o2, &g(o1, &p, &q), &r),
            2 => g(o1, &p, &g(o2, &q, &r)),
            3 => g(o2, &g(o1, &p, &q).neg(), &r),
            _ => g(o2, &g(o1, &p, &q).mul(&Val::int(2)), &r),
        };
        ks[2].lt(&y)
    };
    let x = c.int("amount");
    let j = format!("2021-01-01 Payee\n    Acc:A    {} EUR\n    Acc:B    {} EUR\n", c.amt(&x), c.amt(&x.neg()));
    let r = c.run(&["reg", "expr", &format!("({})", q)], &j);
    let want = [("Acc:A", v(&x)), ("Acc:B", v(&x.neg()))];
    selection(c, &r, &want, &q);
}

fn products(c: &mut Ctx) {
    let (o1, o2) = (*c.pick("first operator", &["*", "/"]), *c.pick("second operator", &["*", "/"]));
    let at = c.choose("place of the amount", 3) as usize;
    if (at == 1 && o1 == "/") || (at == 2 && o2 == "/") {
        return; // a number divided by an amount has no meaning
    }
    let paren = c.choose("parentheses", 3);
    if paren == 2 && ((o1 == "/" && at > 0) || at == 1 && o2 == "/" && o1 == "/") {
        return;
    }
    let p = c.real("p");
    let q = c.real("q");
    c.assume_ne(&p, &Val::zero());
    c.assume_ne(&q, &Val::zero());
    let x = c.int("amount");
    let k = c.real("k");
    let mut t = vec![c.amt_d(&p, 4), c.amt_d(&q, 4)];
    t.insert(at, "amount".into());
    let text = match paren {
        0 => format!("{} {} {} {} {}", t[0], o1, t[1], o2, t[2]),
        1 => format!("({} {} {}) {} {}", t[0], o1, t[1], o2, t[2]),
        _ => format!("{} {} ({} {} {})", t[0], o1, t[1], o2, t[2]),
    };
    let expr = format!("{} < {} EUR", text, c.amt_d(&k, 4));
    let j = format!("2021-01-01 Payee\n    Acc:A    {} EUR\n    Acc:B    {} EUR\n", c.amt(&x), c.amt(&x.neg()));
    let r = c.run(&["reg", "expr", &format!("({})", expr)], &j);
    let f = |o: &str, a: &Val, b: &Val| if o == "*" { a.mul(b) } else { a.div(b) };
    let v = |a: &Val| {
        let mut n = vec![p.clone(), q.clone()];
        n.insert(at, a.clone());
        let y = if paren < 2 { f(o2, &f(o1, &n[0], &n[1]), &n[2]) } else { f(o1, &n[0], &f(o2, &n[1], &n[2])) };
        y.lt(&k)
    };
    let want = [("Acc:A", v(&x)), ("Acc:B", v(&x.neg()))];
    selection(c, &r, &want, &expr);
}

fn logic(c: &mut Ctx) {
    let n = if c.thorough() { 4 } else { 3 };
    let x = c.int("amount");
    let words = c.flag("words");
    let ops: Vec<bool> = (1..n).map(|i| c.flag(&format!("and {}", i))).collect();
    let nots: Vec<bool> = (0..n).map(|i| c.flag(&format!("not {}", i))).collect();
    // parentheses around atoms from..=to, or none
    let mut spans = vec![None];
    for i in 0..n {
        for j in i + 1..n {
            if j - i + 1 < n {
                spans.push(Some((i, j)));
            }
        }
    }
    let span = *c.pick("parentheses", &spans);
    let neg_span = span.is_some() && c.flag("not before the parenthesis");
    let cmp = [">", "<", ">=", "=="];
    let ks: Vec<Val> = (0..n).map(|i| c.real(&format!("k{}", i))).collect();
    let mut q = String::new();
    for i in 0..n {
        if i > 0 {
            q.push_str(match (ops[i - 1], words) {
                (true, true) => " and ",
                (false, true) => " or ",
                (true, false) => " & ",
                (false, false) => " | ",
            });
        }
        let no = if words { "not " } else { "!" };
        if span.map_or(false, |s| s.0 == i) {
            if neg_span {
                q.push_str(no);
            }
            q.push('(');
        }
        if nots[i] {
            q.push_str(no);
        }
        q.push_str(&format!("amount {} {} EUR", cmp[i], c.amt_d(&ks[i], 4)));
        if span.map_or(false, |s| s.1 == i) {
            q.push(')');
        }
    }
    let j = format!("2021-01-01 Payee\n    (Acc:A)    {} EUR\n", c.amt(&x));
    let r = c.run(&["reg", "expr", &format!("({})", q)], &j);
    // `and` before `or`
    fn fold(v: &[bool], ops: &[bool]) -> bool {
        let mut any = false;
        let mut cur = v[0];
        for i in 1..v.len() {
            if ops[i - 1] {
                cur &= v[i];
            } else {
                any |= cur;
                cur = v[i];
            }
        }
        any | cur
    }
    let mut v: Vec<bool> = (0..n).map(|i| holds(cmp[i], &x, &ks[i]) != nots[i]).collect();
    let mut o = ops.clone();
    if let Some((i, j)) = span {
        let inner = fold(&v[i..=j], &o[i..j]) != neg_span;
        v.splice(i..=j, vec![inner]);
        o.drain(i..j);
    }
    let want = [("(Acc:A)", fold(&v, &o))];
    selection(c, &r, &want, &q);
}

fn dates(c: &mut Ctx) {
    let op = *c.pick("operator", OPS);
    let form = c.choose("form", 5);
    let (d, e) = (c.date("d"), c.date("e"));
    let x = c.int("amount");
    let k = c.real("k");
    let day = c.day(&e);
    let t = c.amt_d(&k, 4);
    let q = match form {
        0 => format!("date {} to_date('{}')", op, day),
        1 => format!("to_date(\"{}\") {} date", day, op),
        2 => format!("date {} to_date('{}') and amount > {}", op, day, t),
        3 => format!("amount > {} or date {} to_date('{}')", t, op, day),
        _ => format!("not (date {} to_date('{}'))", op, day),
    };
    let j = format!("{} Payee\n    Acc:A    {} EUR\n    Acc:B    {} EUR\n", c.day(&d), c.amt(&x), c.amt(&x.neg()));
    let r = c.run(&["reg", "expr", &format!("({})", q)], &j);
    let b = if form == 1 { holds(op, &e, &d) } else { holds(op, &d, &e) };
    let v = |a: &Val| match form {
        2 => b && k.lt(a),
        3 => b || k.lt(a),
        4 => !b,
        _ => b,
    };
    let want = [("Acc:A", v(&x)), ("Acc:B", v(&x.neg()))];
    selection(c, &r, &want, &q);
}

fn any_posting(c: &mut Ctx) {
    let form = c.choose("form", 7);
    let (x, y) = (c.int("x"), c.int("y"));
    let (k, m) = (c.real("k"), c.real("m"));
    let (t, u) = (c.amt_d(&k, 4), c.amt_d(&m, 4));
    let q = match form {
        0 => format!("any(amount > {})", t),
        1 => format!("not any(amount > {})", t),
        2 => format!("any(amount > {}) and amount < {}", t, u),
        3 => format!("any(amount > {} and account =~ /B$/)", t),
        4 => format!("any(account =~ /B$/) and amount > {}", t),
        5 => format!("any(amount > {} and amount < {})", t, u),
        _ => format!("any(not amount > {}) or account =~ /C$/", t),
    };
    let j = format!(
        "2021-01-01 Payee\n    Acc:A    {} EUR\n    Acc:B    {} EUR\n    Acc:C\n\n2021-01-02 Other\n    Acc:D    1.00 EUR\n    Acc:E    -1.00 EUR\n",
        c.amt(&x),
        c.amt(&y)
    );
    let r = c.run(&["reg", "expr", &format!("({})", q)], &j);
    let z = x.add(&y).neg();
    let one = Val::int(1);
    let mut t1: Vec<(&str, Val)> = vec![("Acc:A", x.clone()), ("Acc:B", y.clone())];
    if !z.is_zero() {
        // nothing is posted where there is nothing to fill
        t1.push(("Acc:C", z));
    }
    let t2: Vec<(&str, Val)> = vec![("Acc:D", one.clone()), ("Acc:E", one.neg())];
    let mut want = vec![];
    for t in [&t1, &t2].iter() {
        let any = |f: &dyn Fn(&str, &Val) -> bool| {
            let mut r = false;
            for (n, v) in t.iter() {
                r |= f(n, v);
            }
            r
        };
        for (n, v) in t.iter() {
            let w = match form {
                0 => any(&|_, a| k.lt(a)),
                1 => !any(&|_, a| k.lt(a)),
                2 => any(&|_, a| k.lt(a)) && v.lt(&m),
                3 => any(&|n, a| n == "Acc:B" && k.lt(a)),
                4 => any(&|n, _| n == "Acc:B") && k.lt(v),
                5 => any(&|_, a| k.lt(a) && a.lt(&m)),
                _ => any(&|_, a| !k.lt(a)) || *n == "Acc:C",
            };
            want.push((*n, w));
        }
    }
    selection(c, &r, &want, &q);
}

struct P {
    acc: &'static str,
    v: Val,
    payee: &'static str,
    note: &'static str,
    tags: Vec<(&'static str, &'static str)>,
}

fn people(c: &Ctx) -> (String, Vec<P>) {
    let (x, y, z) = (c.frac("x", 1, 2), c.frac("y", 1, 4), c.frac("z", 3, 4));
    let j = format!(
        "2021-01-01 Grocer  ; shopping :food:shared:\n    Expenses:Food    {} EUR  ; kind: fruit\n    Assets:Bank\n    ; :wallet:\n\n2021-01-02 Landlord  ; rent of May\n    ; paid late\n    ; by hand :may:\n    Expenses:Rent    {} EUR\n    ; kind: flat\n    ; second remark :cold:\n    Assets:BANK:Savings    {} EUR\n\n2021-01-03 grocery store\n    Income:foodstamps    {} EUR\n    Equity:Orland:Exprs    {} EUR  ; :Food:\n",
        c.amt(&x),
        c.amt(&y),
        c.amt(&y.neg()),
        c.amt(&z),
        c.amt(&z.neg()),
    );
    let t1 = vec![("food", ""), ("shared", "")];
    let with = |t: &Vec<(&'static str, &'static str)>, e: Vec<(&'static str, &'static str)>| {
        let mut r = t.clone();
        r.extend(e);
        r
    };
    let n1 = "shopping :food:shared:";
    let n2 = "rent of May\npaid late\nby hand :may:";
    let t2 = vec![("may", "")];
    let ps = vec![
        P { acc: "Expenses:Food", v: x.clone(), payee: "Grocer", note: n1, tags: with(&t1, vec![("kind", "fruit")]) },
        P { acc: "Assets:Bank", v: x.neg(), payee: "Grocer", note: n1, tags: with(&t1, vec![("wallet", "")]) },
        P { acc: "Expenses:Rent", v: y.clone(), payee: "Landlord", note: n2, tags: with(&t2, vec![("kind", "flat"), ("cold", "")]) },
        P { acc: "Assets:BANK:Savings", v: y.neg(), payee: "Landlord", note: n2, tags: t2.clone() },
        P { acc: "Income:foodstamps", v: z.clone(), payee: "grocery store", note: "", tags: vec![] },
        P { acc: "Equity:Orland:Exprs", v: z.neg(), payee: "grocery store", note: "", tags: vec![("Food", "")] },
    ];
    (j, ps)
}
/// the accounts of a flat balance, which names with blanks cannot disturb
fn check_selected(c: &Ctx, r: &Run, ps: &[P], sel: &dyn Fn(&P) -> bool, what: &str) {
    must_run(c, r);
    let mut want = Accounts::default();
    for p in ps {
        let s = sel(p);
        c.cover(if s { "selected" } else { "not selected" });
        if s {
            post(&mut want, p.acc, "EUR", &p.v);
        }
    }
    let b = text::balance(c, &r.out);
    let mut names: Vec<&str> = b.rows.iter().map(|r| r.name.as_str()).collect();
    names.sort_unstable();
    let exp: Vec<&str> = want.iter().filter(|x| !x.1.is_zero()).map(|x| x.0.as_str()).collect();
    c.ok("selection", names == exp, &format!("`{}` selects {:?}, it is true for {:?}", what, names, exp));
    for row in &b.rows {
        same_amounts(c, "selected amount", &row.name, &row.amounts, &want[&row.name]);
    }
}

fn texts(c: &mut Ctx) {
    let (j, ps) = people(c);
    let form = c.choose("form", 19);
    let join = c.choose("amount condition", 3);
    let k = c.real("k");
    let t = c.amt_d(&k, 4);
    let (q, f): (&str, fn(&P) -> bool) = match form {
        0 => ("account =~ /Food/", |p| p.acc.contains("Food")),
        1 => ("account =~ /(?i)bank/", |p| p.acc.to_lowercase().contains("bank")),
        2 => ("account =~ /^Assets:Bank$/", |p| p.acc == "Assets:Bank"),
        3 => ("payee =~ /Grocer/", |p| p.payee.contains("Grocer")),
        4 => ("payee =~ /(?i)^grocer/", |p| p.payee.to_lowercase().starts_with("grocer")),
        5 => ("note =~ /late/", |p| p.note.contains("late")),
        6 => ("has_tag(/^food$/)", |p| p.tags.iter().any(|t| t.0 == "food")),
        7 => ("has_tag(/(?i)food/)", |p| p.tags.iter().any(|t| t.0.to_lowercase() == "food")),
        8 => ("tag('kind') == 'fruit'", |p| p.tags.iter().any(|t| *t == ("kind", "fruit"))),
        9 => ("tag(/kin/) =~ /^fl/", |p| p.tags.iter().any(|t| t.0 == "kind" && t.1.starts_with("fl"))),
        10 => ("has_tag(/wallet/)", |p| p.tags.iter().any(|t| t.0 == "wallet")),
        11 => ("not has_tag(/shared/)", |p| !p.tags.iter().any(|t| t.0 == "shared")),
        12 => ("note =~ /rent/", |p| p.note.contains("rent")),
        13 => ("note =~ /hand/", |p| p.note.contains("hand")),
        14 => ("(account =~ /bank/ or account =~ /BANK/)", |p| p.acc.contains("bank") || p.acc.contains("BANK")),
        15 => ("(account =~ /BANK/ or payee =~ /bank/ or account =~ /Bank/)", |p| p.acc.contains("Bank") || p.acc.contains("BANK")),
        16 => ("(has_tag(/cold/) or has_tag(/^Food/))", |p| p.tags.iter().any(|t| t.0 == "cold" || t.0 == "Food")),
        17 => ("has_tag(/may/) and not (payee =~ /may/)", |p| p.tags.iter().any(|t| t.0 == "may")),
        _ => ("any(has_tag(/kind/)) and account =~ /Assets/", |p| p.acc.starts_with("Assets")),
    };
    let q = match join {
        0 => q.to_string(),
        1 => format!("{} and amount > {}", q, t),
        _ => format!("amount < {} or {}", t, q),
    };
    let r = c.run(&["bal", "--flat", "--no-total", "expr", &q], &j);
    check_selected(
        c,
        &r,
        &ps,
        &|p| match join {
            0 => f(p),
            1 => f(p) && k.lt(&p.v),
            _ => f(p) || p.v.lt(&k),
        },
        &q,
    );
}

fn command_line(c: &mut Ctx) {
    let (j, ps) = people(c);
    let k = c.real("k");
    let e = format!("amount > {}", c.amt_d(&k, 4));
    // text of the term, what it means
    let terms: [(&str, fn(&P) -> bool); 10] = [
        ("food", |p| p.acc.to_lowercase().contains("food")),
        ("/Bank/", |p| p.acc.contains("Bank")),
        ("@grocer", |p| p.payee.to_lowercase().contains("grocer")),
        ("%kind", |p| p.tags.iter().any(|t| t.0.to_lowercase().contains("kind"))),
        ("^assets:bank", |p| p.acc.to_lowercase().starts_with("assets:bank")),
        ("%FOOD", |p| p.tags.iter().any(|t| t.0.to_lowercase().contains("food"))),
        ("/bank/", |p| p.acc.contains("bank")),
        ("/BANK/", |p| p.acc.contains("BANK")),
        ("@STORE", |p| p.payee.to_lowercase().contains("store")),
        ("", |_| false),
    ];
    let n = 1 + c.choose("terms", 3) as usize;
    let mut args = vec!["bal", "--flat", "--no-total"];
    let mut picked = vec![];
    let mut joins = vec![];
    for i in 0..n {
        if i > 0 {
            let w = *c.pick(&format!("join {}", i), &["", "or", "and"]);
            if !w.is_empty() {
                args.push(w);
            }
            joins.push(w == "and");
        }
        // the third one from fewer, to keep the number of combinations small
        let m = if n < 3 || c.thorough() && i < 2 { terms.len() as u32 } else { 2 };
        let t = c.choose(&format!("term {}", i), m) as usize;
        if t == 9 {
            args.push("expr");
            args.push(&e);
        } else {
            args.push(terms[t].0);
        }
        picked.push(t);
    }
    let r = c.run(&args, &j);
    let what = args[3..].join(" ");
    check_selected(
        c,
        &r,
        &ps,
        &|p| {
            let v: Vec<bool> = picked.iter().map(|t| if *t == 9 { k.lt(&p.v) } else { terms[*t].1(p) }).collect();
            let mut any = false;
            let mut cur = v[0];
            for i in 1..v.len() {
                if joins[i - 1] {
                    cur &= v[i];
                } else {
                    any |= cur;
                    cur = v[i];
                }
            }
            any | cur
        },
        &what,
    );
}

/// the tags written at a posting are those of everything this posting becomes
fn carried(c: &mut Ctx) {
    let (x, y) = (c.frac("x", 1, 2), c.frac("y", 1, 4));
    let (xt, yt) = (c.amt(&x), c.amt(&y));
    let (nx, ny) = (x.neg(), y.neg());
    let shape = c.choose("shape", 7);
    // account, the rest of the line, what it posts
    let eur = |v: &Val| vec![("EUR", v.clone())];
    let lines: Vec<(&'static str, String, Vec<(&'static str, Val)>)> = match shape {
        0 => vec![("Acc:A", format!("{} EUR", xt), eur(&x)), ("Acc:B", format!("{} EUR", c.amt(&nx)), eur(&nx))],
        1 => vec![("Acc:A", format!("{} EUR", xt), eur(&x)), ("Acc:B", format!("{} EUR", yt), eur(&y)), ("Acc:C", String::new(), eur(&nx.sub(&y)))],
        2 => vec![
            ("Acc:A", format!("{} EUR", xt), eur(&x)),
            ("Acc:C", String::new(), vec![("EUR", nx.clone()), ("USD", ny.clone())]),
            ("Acc:B", format!("{} USD", yt), vec![("USD", y.clone())]),
        ],
        3 => vec![
            ("Acc:A", "2 ACME @ 3 EUR".to_string(), vec![("ACME", Val::int(2))]),
            ("Acc:B", format!("{} EUR", xt), eur(&x)),
            ("Acc:C", String::new(), eur(&nx.sub(&Val::int(6)))),
        ],
        4 => vec![
            ("Acc:B", format!("= {} EUR", xt), eur(&x)),
            ("Acc:A", String::new(), eur(&nx)),
        ],
        5 => vec![
            ("Acc:A", format!("{} EUR", xt), eur(&x)),
            ("[Acc:D]", format!("{} EUR", yt), eur(&y)),
            ("Acc:B", String::new(), eur(&nx)),
            ("[Acc:E]", format!("{} EUR", c.amt(&ny)), eur(&ny)),
        ],
        _ => vec![
            ("(Acc:D)", format!("{} EUR", yt), eur(&y)),
            ("Acc:A", String::new(), eur(&nx)),
            ("Acc:B", format!("{} EUR", xt), eur(&x)),
        ],
    };
    let n = lines.len();
    let on = c.choose("carrier", n as u32 + 1) as usize;
    let style = c.choose("style", 6);
    let (tail, note) = match style {
        0 => ("  ; :trip:", ""),
        1 => ("", "    ; :trip:\n"),
        2 => ("  ; :trip:where:", ""),
        3 => ("", "    ; with friends :trip:\n    ; where: Paris\n"),
        4 => ("  ; where: Paris", "    ; :trip:fun:\n"),
        _ => ("  ; no tag here", "    ; nor here\n    ; where: trip\n"),
    };
    let (trip, place) = match style {
        0 | 1 => (true, None),
        2 => (true, Some("")),
        3 | 4 => (true, Some("Paris")),
        _ => (false, Some("trip")),
    };
    let mut j = format!("2021-01-01 Payee{}\n", if on == n { tail } else { "" });
    if on == n {
        j.push_str(note);
    }
    for (i, (acc, rest, _)) in lines.iter().enumerate() {
        let own = on == i;
        j.push_str(&format!("    {}    {}{}\n{}", acc, rest, if own { tail } else { "" }, if own { note } else { "" }));
    }
    j.push_str("\n2021-01-02 Other\n    Acc:F    1 EUR  ; :else:\n    Acc:G    -1 EUR\n");
    let (q, f): (&[&str], &dyn Fn(bool) -> bool) = match c.choose("query", 7) {
        0 => (&["%trip"], &|t| t && trip),
        1 => (&["expr", "has_tag(/^where$/)"], &|t| t && place.is_some()),
        2 => (&["expr", "not has_tag(/trip/)"], &|t| !(t && trip)),
        3 => (&["expr", "tag('where') == 'Paris'"], &|t| t && place == Some("Paris")),
        4 => (&["expr", "(has_tag(/trip/) and account =~ /Acc/)"], &|t| t && trip),
        5 => (&["expr", "tag('where') =~ /r/"], &|t| t && place.map_or(false, |p| p.contains('r'))),
        _ => (&["%WHERE", "or", "%^trip"], &|t| t && (trip || place.is_some())),
    };
    let mut args = vec!["bal", "--flat", "--no-total"];
    args.extend(q);
    let r = c.run(&args, &j);
    must_run(c, &r);
    let mut want = Accounts::default();
    for (i, (acc, _, ps)) in lines.iter().enumerate() {
        let s = f(on == i || on == n);
        c.cover(if s { "selected" } else { "not selected" });
        if s {
            for (cur, v) in ps {
                post(&mut want, acc.trim_matches(|c| "()[]".contains(c)), cur, v);
            }
        }
    }
    if f(false) {
        post(&mut want, "Acc:F", "EUR", &Val::int(1));
        post(&mut want, "Acc:G", "EUR", &Val::int(-1));
    }
    check_flat(c, &r.out, &want, false);
}
