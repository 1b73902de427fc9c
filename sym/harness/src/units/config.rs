//! The init file.
use super::util::*;
use super::Unit;
use crate::ctx::*;
use crate::text;

pub static UNITS: &[Unit] = &[
    Unit::new(
        "C18",
        "same_effect",
        same_effect,
        "each of 8 options (begin, end, depth, real, flat, no-total, no-balance-check, file) with arbitrary dates, phrases of several words, or file names in the init file, with its value after a blank or an equals sign, or on the command line in short or long form; bal (flat or not), reg, accounts, check; 2 transactions of arbitrary dates and amounts, one with a virtual posting",
    )
    .covers(&["accepted", "refused", "begin", "end", "depth", "real", "flat", "no-total", "no-balance-check", "file"]),
    Unit::new(
        "C18",
        "command_line_wins",
        command_line_wins,
        "begin, end, depth, file, period, now, real or no-balance-check in the init file and, with another value if it has one, on the command line in each of its forms; bal and reg; 2 transactions of arbitrary dates and amounts",
    )
    .covers(&["both"]),
    Unit::new(
        "C18",
        "combined",
        combined,
        "begin, end, depth, real and flat each on the command line or in the init file (in either order), the rest of the init file blank lines and comments; 2 transactions of arbitrary dates and amounts",
    )
    .covers(&["some here, some there"]),
    Unit::new(
        "C18",
        "places",
        places,
        "begin, end, depth or flat in an init file named on the command line (in two forms, with another one at home), at home or in the current directory, the line with blanks before or behind it, Windows line ends or no line end; bal and reg; 2 transactions of arbitrary dates and amounts",
    )
    .covers(&["read"]),
];

fn journal(c: &mut Ctx) -> String {
    let mut s = String::new();
    for i in 0..2 {
        let d = c.date(&format!("d{}", i));
        let v = c.frac(&format!("v{}", i), 1, 4);
        let w = c.frac(&format!("w{}", i), 1, 2);
        if !c.thorough() {
            c.assume_lt(&symcore::Val::zero(), &v);
            c.assume_lt(&symcore::Val::zero(), &w);
        }
        s.push_str(&format!(
            "{} P{}\n    Acc:Bank    {} EUR{}\n    (Acc:Virt:Deep)    {} EUR\n    Equity\n\n",
            c.day(&d),
            i,
            c.amt(&v),
            if i == 1 { " = 3.25 EUR" } else { "" },
            c.amt(&w)
        ));
    }
    s
}
fn run(c: &mut Ctx, args: &[String], init: Option<&str>, files: &[(&str, &str)]) -> Run {
    let mut a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let mut f: Vec<(&str, &str)> = files.to_vec();
    if let Some(i) = init {
        a.extend(["--init-file", "$DIR/my.rc"]);
        f.push(("my.rc", i));
    }
    c.run_files(&a, &f)
}
fn compare(c: &Ctx, a: &Run, b: &Run, what: &str) {
    c.ok(
        "verdict",
        a.status.short() == b.status.short(),
        &format!("{}: `{}` ends with {}, `{}` with {}", what, a.args.join(" "), a.status.short(), b.args.join(" "), b.status.short()),
    );
    if a.args[0] != "check" && a.status.ok() {
        text::same_output(c, "report", &a.out, &b.out, &format!("{}: `{}` and `{}` differ", what, a.args.join(" "), b.args.join(" ")));
    }
}
fn strings(a: &[&str]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}

fn same_effect(c: &mut Ctx) {
    let opt = *c.pick("option", &["begin", "end", "depth", "real", "flat", "no-total", "no-balance-check", "file"]);
    let flags = ["real", "flat", "no-total", "no-balance-check"].contains(&opt);
    let cmds: &[&[&str]] = match opt {
        "flat" | "no-total" => &[&["bal"]],
        "no-balance-check" => &[&["reg"], &["accounts"]],
        "file" => &[&["bal"], &["check"], &["prices"]],
        _ => &[&["bal"], &["bal", "--flat"], &["reg"]],
    };
    let cmd = *c.pick("command", cmds);
    let j = journal(c);
    let day = c.date("day");
    // phrases with blanks in them, and file names
    let words = !flags && opt != "depth" && c.flag("words");
    let j = if words && opt == "file" { j.replace(" = 3.25 EUR", "") } else { j };
    let value = match opt {
        "begin" | "end" if words => c.pick("phrase", &["3 years ago", "June 3 2021", "the day after tomorrow", "5 months before today"]).to_string(),
        "begin" | "end" => c.day(&day),
        "file" if words => "$DIR/my own journal.ledger".to_string(),
        "depth" => (1 + c.choose("depth", 3)).to_string(),
        "file" => "$DIR/main.ledger".to_string(),
        _ => String::new(),
    };
    c.cover(opt);
    let (line, mut cl);
    cl = strings(cmd);
    if flags {
        line = format!("--{}\n", opt);
        cl.push(format!("--{}", opt));
    } else {
        line = format!("--{}{}{}", opt, if c.flag("equals sign") { "=" } else { "  " }, value);
        let short = match opt {
            "begin" => "-b",
            "end" => "-e",
            "depth" => "-d",
            _ => "-f",
        };
        match c.choose("form", 3) {
            0 => cl.extend([short.to_string(), value]),
            1 => cl.extend([format!("--{}", opt), value]),
            _ => cl.push(format!("--{}={}", opt, value)),
        }
    }
    let f: &[(&str, &str)] =
        if words && opt == "file" { &[("my own journal.ledger", j.as_str()), ("my", "2020-01-01 X\n    (Elsewhere)    1 GBP\n")] } else { &[("main.ledger", j.as_str())] };
    let a = run(c, &cl, None, f);
    c.cover(if accepted(c, &a) { "accepted" } else { "refused" });
    let b = run(c, &strings(cmd), Some(&line), f);
    compare(c, &a, &b, "an option in the init file and on the command line");
}

fn command_line_wins(c: &mut Ctx) {
    let opt = *c.pick("option", &["begin", "end", "depth", "file", "period", "now", "real", "no-balance-check"]);
    let cmd: &[&str] = *c.pick("command", &[&["bal"][..], &["reg"]]);
    let j = journal(c).replace(" = 3.25 EUR", "");
    let (d, e) = (c.date("day"), c.date("other day"));
    let (there, here) = match opt {
        "begin" | "end" => (c.day(&d), c.day(&e)),
        "depth" => (if c.flag("deeper") { "3" } else { "1" }.to_string(), "2".to_string()),
        "period" => ("last year".to_string(), "2021".to_string()),
        "now" => ("2021-05-06".to_string(), "2020-01-01".to_string()),
        "real" | "no-balance-check" => (String::new(), String::new()),
        _ => ("$DIR/other.ledger".to_string(), "$DIR/main.ledger".to_string()),
    };
    let line = format!("--{}{}{}\n", opt, if c.flag("equals sign") { "=" } else { " " }, there);
    let short = match opt {
        "begin" => "-b",
        "end" => "-e",
        "depth" => "-d",
        "period" => "-p",
        "now" => "--now",
        _ => "-f",
    };
    let mut cl = strings(cmd);
    let flag = there.is_empty();
    let line = if flag { format!("--{}\n", opt) } else { line };
    match if flag { 4 } else { c.choose("form", if opt == "now" { 3 } else { 4 }) } {
        4 => cl.push(format!("--{}", opt)),
        0 => cl.extend([short.to_string(), here]),
        1 => cl.extend([format!("--{}", opt), here]),
        2 => cl.push(format!("--{}={}", opt, here)),
        _ => cl.push(format!("{}{}", short, here)),
    }
    let f = [("main.ledger", j.as_str()), ("other.ledger", "2020-01-01 Other\n    (Elsewhere)    1 GBP\n")];
    let a = run(c, &cl, None, &f);
    must_run(c, &a);
    let b = run(c, &cl, Some(&line), &f);
    c.cover("both");
    compare(c, &a, &b, "an option on the command line with and without another value in the init file");
}

fn combined(c: &mut Ctx) {
    let j = journal(c).replace(" = 3.25 EUR", "");
    let (d, e) = (c.date("from"), c.date("to"));
    let opts = [
        ("--begin", c.day(&d)),
        ("--end", c.day(&e)),
        ("--depth", "2".to_string()),
        ("--real", String::new()),
        ("--flat", String::new()),
    ];
    let there = c.choose("in the init file", 31) + 1;
    let style = c.flag("comments");
    let rev = c.flag("reversed");
    let mut all = strings(&["bal"]);
    let mut here = strings(&["bal"]);
    let mut lines: Vec<String> = vec![];
    for (i, (o, v)) in opts.iter().enumerate() {
        all.push(o.to_string());
        if !v.is_empty() {
            all.push(v.clone());
        }
        if there & (1 << i) == 0 {
            here.push(o.to_string());
            if !v.is_empty() {
                here.push(v.clone());
            }
        } else {
            lines.push(if v.is_empty() { o.to_string() } else { format!("{} {}", o, v) });
        }
    }
    if rev {
        lines.reverse();
    }
    let mut init = String::new();
    if style {
        init.push_str("; settings\n\n");
    }
    for (i, l) in lines.iter().enumerate() {
        init.push_str(l);
        init.push_str(if style { "  \n" } else { "\n" });
        if style {
            init.push_str(["# --depth 1\n", "\n", "   ; --no-total\n", "! x\n", "% --file nowhere\n"][i]);
        }
    }
    let f = [("main.ledger", j.as_str())];
    let a = run(c, &all, None, &f);
    must_run(c, &a);
    let b = run(c, &here, Some(&init), &f);
    c.cover("some here, some there");
    compare(c, &a, &b, "options spread over command line and init file");
}

fn places(c: &mut Ctx) {
    let j = journal(c).replace(" = 3.25 EUR", "");
    let day = c.date("day");
    let day = c.day(&day);
    let cmd: &[&str] = *c.pick("command", &[&["bal"][..], &["reg"]]);
    let opt = *c.pick("option", if cmd[0] == "bal" { &["begin", "end", "depth", "flat"][..] } else { &["begin", "end", "real"] });
    let value = match opt {
        "begin" | "end" => day,
        "depth" => "1".to_string(),
        _ => String::new(),
    };
    // the places other than those named depend on the directory, which a run needs for itself
    let place = c.choose("place", if own_directory() { 5 } else { 2 });
    let text = format!("--{} {}", opt, value);
    let text = text.trim_end();
    let text = match c.choose("layout", 5) {
        0 => format!("{}\n", text),
        1 => format!("  \t{}\n", text),
        2 => format!("{}  \n\n", text),
        3 => format!("; mine\r\n{}\r\n\r\n", text),
        _ => format!("{}", text),
    };
    let mut all = strings(cmd);
    all.push(format!("--{}", opt));
    if !value.is_empty() {
        all.push(value);
    }
    let a = c.run_files(&all.iter().map(|x| x.as_str()).collect::<Vec<_>>(), &[("main.ledger", j.as_str())]);
    must_run(c, &a);
    let mut args = cmd.to_vec();
    let other = "--no-total\n--begin 2050-01-01\n";
    let m = ("main.ledger", j.as_str());
    let b = match place {
        0 => {
            args.extend(["--init-file", "$DIR/my.rc"]);
            c.run_files(&args, &[m, ("my.rc", &text)])
        }
        1 => {
            args.push("--init-file=$DIR/my.rc");
            c.run_files(&args, &[m, ("my.rc", &text)])
        }
        2 => {
            args.extend(["--init-file", "my.rc"]);
            c.run_files(&args, &[m, ("my.rc", &text), ("home/.ledgerrc", other), (".ledgerrc", other)])
        }
        3 => c.run_files(&args, &[m, ("home/.ledgerrc", &text)]),
        _ => c.run_files(&args, &[m, (".ledgerrc", &text)]),
    };
    c.cover("read");
    compare(c, &a, &b, "an option in the init file and on the command line");
}
