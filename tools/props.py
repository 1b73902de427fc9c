#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (which properties are claimed: those that have units)."""
import json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })
    if observe:
        P[-1]["anchors"]["observe_at"] = observe


OUT = ["exit status of the program", "standard output of the reports"]

prop("C01", "Only transactions that balance are accepted",
     "A journal is accepted exactly when, in every transaction, the real postings balance and, separately, the bracketed virtual postings balance; parenthesised virtual postings never matter. Postings balance when, with a posting that has a cost counted as its cost (unit cost times quantity, or total cost with the sign of the quantity), they add up exactly to zero in every commodity, or leave a surplus in one commodity and a deficit in another (an implied exchange). No rounding is involved, and a journal with a transaction that does not balance makes every command fail with an error.",
     "all amounts, quantities and positive prices, all arrangements of real and virtual postings and commodities, every command",
     "The tests balance a handful of literal journals; acceptance is a condition on all rational amounts and all posting arrangements.",
     ["src/models/transaction.rs", "src/models/balance.rs", "src/models/money.rs", "src/models/mod.rs"],
     [("per-commodity sums and the can-be-zero rule", "src/models/transaction.rs balance, total_balance, is_balanced; src/models/balance.rs can_be_zero"),
      ("exact rational arithmetic", "src/models/money.rs, src/models/balance.rs operators")], observe=OUT)
prop("C02", "An amount that is left out is filled with exactly what balances",
     "In a transaction with exactly one real posting without an amount, that posting receives, in every commodity that needs it, exactly the opposite of what the other real postings (at cost) add up to, wherever it stands and whatever its account. Virtual postings have no influence on it. Transactions with more than one real posting without an amount are rejected.",
     "all amounts and costs, all positions of the posting without an amount, one or several commodities",
     "Unit tests fill one or two literal examples; the filled amount is a function of all other amounts.",
     ["src/models/transaction.rs", "src/models/balance.rs"],
     [("filling the empty posting", "src/models/transaction.rs balance (empties, fill_account)")], observe=OUT)
prop("C03", "Balance assertions and assignments see the exact balance at their date",
     "A posting that asserts a balance is accepted exactly when the account's balance in the asserted commodity, after all postings to that very account (real ones, whether written or added by an automated transaction; not its sub-accounts or parents) in transactions of earlier dates, of the same date and earlier in the file, and earlier in its own transaction (a posting without an amount counts as the last one written, and what automated transactions add to it counts after that), plus this posting, equals the asserted amount. A posting that only gives a balance receives exactly the amount that brings the account to it. With --no-balance-check assertions are not checked.",
     "all amounts and dates, all file orders of the transactions, any number of earlier postings",
     "The running balance depends on every earlier posting and on the date order; the tests fix one such history.",
     ["src/models/transaction.rs", "src/models/mod.rs"],
     [("running balances in date order", "src/models/mod.rs to_ledger (sort, balances)"), ("assertion and assignment", "src/models/transaction.rs balance")],
     over=("inputs", "histories"), observe=OUT)
prop("C04", "The flat balance shows the exact sum of every account",
     "The flat balance report lists exactly the accounts whose postings do not add up to zero, each once, with for each commodity the exact sum of its postings (zero commodities left out, amounts shown to two decimals), and, when it lists several accounts, the exact total unless it is switched off. With a depth limit, account names are cut to that many components and the accounts that become equal are added up. No posting is lost, counted twice or attributed to another account.",
     "all journals: amounts, accounts, commodities, numbers of postings, dates, depth limits",
     "Sums over arbitrary postings; tests compare a few complete reports.",
     ["src/commands/balance.rs", "src/models/balance.rs", "src/models/money.rs"],
     [("accumulation per account", "src/commands/balance.rs execute"), ("multi-commodity sums", "src/models/balance.rs Add/Sub")], observe=OUT)
prop("C05", "The balance tree shows every account with its subtree's exact total",
     "In the tree balance report every account or parent account whose own and sub-accounts' postings do not add up to zero appears exactly once (within the depth limit) under its parent, with the exact total of everything at and below it; a line that shows several components at once stands for a chain of accounts with the same total. Parents whose total is zero appear exactly when something below them is shown. Accounts are related by their components only, never by a common textual prefix, and the total is that of the flat report.",
     "all journals and account hierarchies, all depth limits",
     "Which lines collapse or vanish depends on the amounts (sub-totals that cancel), not only on the names; tests show a few fixed trees.",
     ["src/commands/balance.rs"],
     [("parents, collapsing and depth", "src/commands/balance.rs execute (non-flat branch and printing)")], observe=OUT)
prop("C06", "The register lists every posting by date with exact running totals",
     "The register lists every selected posting of every transaction exactly once, transactions ordered by date and, on the same date, as in the journal, with date, payee, account and exact amount (shown to two decimals). The running total on each line is the exact sum, per commodity, of the amounts of that line and all lines above it (a zero total shown as 0). The last running total is the total of the balance report with the same options (-X, which only concerns balances, aside).",
     "all journals: dates, amounts, commodities, kinds of postings",
     "Order and running totals depend on all dates and amounts; the tests look at single examples.",
     ["src/commands/register.rs", "src/models/mod.rs", "src/models/balance.rs"],
     [("date order", "src/models/mod.rs to_ledger (sort_by date)"), ("running total", "src/commands/register.rs execute")], over=("inputs", "histories"), observe=OUT)
prop("C07", "Begin, end and --real select exactly the right postings",
     "With a begin date, reports contain exactly the postings of transactions dated on or after it; with an end date, exactly those dated before it; with --real, exactly the real postings; combined with each other and with a pattern, exactly those that satisfy all. What is left out contributes neither to lines nor to totals. Filling, assertions and balancing are not affected by what is selected.",
     "all dates, begin and end dates (also reversed or equal), posting kinds, balance and register reports",
     "Boundary cases are relations between dates that tests sample at a few points.",
     ["src/filter.rs", "src/app.rs", "src/commands/balance.rs", "src/commands/register.rs"],
     [("date and kind filter", "src/filter.rs filter"), ("option parsing", "src/app.rs CommonOpts, date_parser")], over=("inputs", "configurations"), observe=OUT)
prop("C08", "Queries and expressions select by their mathematical meaning",
     "A query expression selects exactly the postings for which it is true under the usual meaning: exact arithmetic with * and / before + and -, comparisons after that, `not`, then `and` before `or`, operators of equal precedence from left to right, parentheses first, and amount, account, payee, date, note, tags and the functions abs, any and has_tag referring to the posting and its transaction. Plain command-line terms select postings by account (ignoring case; /.../ as written), @term by payee and %term by tag, joined by `or` unless `and` stands between them.",
     "all amounts, dates and constants, all shapes of expressions up to the stated size",
     "Truth of an expression is a function of the amounts and constants in it and of its shape; tests evaluate a few literal expressions.",
     ["src/parser/value_expr.rs", "src/grammar/grammar.pest", "src/filter.rs"],
     [("grammar and evaluation", "src/grammar/grammar.pest; src/parser/value_expr.rs build_root_node_from_expression, eval"), ("command-line sugar", "src/filter.rs preprocess_query")], observe=OUT)
prop("C09", "Balances in another commodity use the latest known prices",
     "With -X, every amount of a balance report whose commodity has a chain of known prices (given, from costs, or implied) to the target commodity is shown in it, multiplied by exactly the product of the prices along the chain, a price in the other direction counting as its inverse. Of several prices of the same pair the latest one dated today or earlier counts. Amounts without such a chain, and all amounts when the target commodity is unknown, are shown unchanged, and the total is the sum of the converted amounts.",
     "all amounts, positive prices and price dates, direct, inverse and chained prices",
     "Which price counts depends on all price dates, and the result on all prices; tests use one fixed price list.",
     ["src/models/price.rs", "src/commands/balance.rs"],
     [("price graph search", "src/models/price.rs conversion"), ("conversion of the report", "src/commands/balance.rs convert_balance")], over=("inputs", "histories"), observe=OUT)
prop("C10", "The price list contains exactly the prices the journal states",
     "The price list contains, once each and with their date, the prices given by price directives, the unit price of every posting with a unit cost, the total cost divided by the size of the quantity for every posting with a total cost (never negative; nothing for a quantity of zero), and for every transaction that leaves exactly two commodities open the exact ratio of the two amounts. Nothing else appears, whether or not there are automated transactions.",
     "all amounts, costs and dates of transactions and price directives",
     "The prices are quotients of arbitrary amounts and depend on the sign of the quantity; no test looks at them beyond one example.",
     ["src/models/mod.rs", "src/models/price.rs", "src/commands/prices.rs"],
     [("prices from costs and implied exchanges", "src/models/mod.rs to_ledger, _transaction_to_ledger")], observe=OUT)
prop("C11", "The same journal always gives the same output",
     "Running the same command on the same files on the same day gives the same exit status and byte for byte the same output, for every command and option. Nothing depends on the order in which unordered containers happen to iterate.",
     "all iteration orders of hash tables at every place where one is iterated, all amounts",
     "Hash seeds differ per process, so a test passes or fails by luck; all orders have to be considered.",
     ["src/commands/balance.rs", "src/models/mod.rs", "src/models/price.rs", "src/list.rs", "src/models/balance.rs"],
     [("hash tables that reach the output", "src/list.rs, src/models/balance.rs, src/models/price.rs, src/commands/*.rs")], over=("inputs", "schedules"), observe=OUT)
prop("C12", "Amounts are shown rounded correctly with their sign",
     "Every amount a report or price list shows is the exact amount rounded to two decimals, halves away from zero, with its sign and commodity: never the wrong sign, never off by more than half a cent, never a missing or extra digit, carries included. Only exact zero is shown as a bare 0 or left out.",
     "all rational amounts, positive and negative, in every report that shows amounts",
     "Rounding has boundary cases between any two cents and at carries; tests try a few literals.",
     ["src/models/money.rs"],
     [("Display of amounts", "src/models/money.rs impl Display")], observe=OUT)
prop("C13", "Amounts are read exactly as written, or refused",
     "An amount written with digits, an optional minus sign directly before them and an optional decimal point is read as exactly that decimal number, whatever its number of digits, with the commodity before or after it, quoted or not, with or without blanks between them, for amounts, costs and balances alike (in price directives the commodity comes after the number). Text that is not such an amount (misplaced or repeated signs or points, digits of other scripts, a missing number, numbers with blanks or commas in them, more than one amount, cost or balance in a posting) is refused with an error, never read as a different number.",
     "all digits of numbers up to the stated length, all placements of sign, commodity and blanks",
     "There are too many numbers and placements to sample.",
     ["src/parser/tokenizers/transaction.rs", "src/parser/tokenizers/price.rs", "src/parser/utils.rs", "src/grammar/grammar.pest"],
     [("reading amounts", "src/parser/tokenizers/transaction.rs parse_amount; src/parser/tokenizers/price.rs; src/parser/utils.rs")], observe=OUT)
prop("C14", "Automated transactions add exactly the postings they prescribe",
     "For every posting written (or filled) in the journal that matches the query of an automated transaction, each posting of that automated transaction is added once to the same transaction: its fixed amount, its multiple of the matched posting's amount, or the value of its expression on the matched posting, with its own account and kind. Added postings are never matched again, other transactions are unchanged, and the resulting transactions must still balance or the journal is rejected.",
     "all amounts and multipliers, several rules, several matching postings, all posting kinds",
     "What is added depends on every matched amount and on the interplay of several rules; the tests use one example.",
     ["src/models/mod.rs", "src/parser/value_expr.rs", "src/models/transaction.rs"],
     [("applying automated transactions", "src/models/mod.rs to_ledger step 5")], over=("inputs", "programs"), observe=OUT)
prop("C15", "How a journal is spread over files does not matter",
     "Putting part of a journal into included files (also nested ones, or several at once with a wildcard), or reordering transactions of different dates, changes no report, no price and no verdict of a check. Directives and prices of included files apply as if they stood in place of the include. A file that includes itself, directly or through others, is refused with an error instead of hanging or being counted twice.",
     "all amounts and dates, all ways of splitting and ordering a small journal",
     "The combinations of orders and splits with the amounts are unbounded; tests include one fixed file.",
     ["src/parser/include.rs", "src/parser/mod.rs", "src/models/mod.rs"],
     [("include", "src/parser/include.rs; src/parser/mod.rs"), ("date order", "src/models/mod.rs to_ledger")], over=("inputs", "histories"), observe=OUT)
prop("C16", "Names and aliases denote one account, commodity or payee each",
     "An alias declared for an account, commodity or payee denotes it everywhere, whatever the order of declaration and use, and names that differ only in letter case denote the same one; amounts posted under any of these names are added up under the one declared name. Different names never get mixed up. The lists of accounts, payees and commodities show each one exactly once.",
     "all amounts, all combinations of declared names, aliases and letter case within the stated choice",
     "Sums under aliases must hold for all amounts and all orders of declaration; tests resolve one or two aliases.",
     ["src/list.rs", "src/models/account.rs", "src/models/currency.rs", "src/models/payee.rs", "src/models/mod.rs", "src/parser/tokenizers/account.rs", "src/parser/tokenizers/commodity.rs", "src/parser/tokenizers/payee.rs"],
     [("lists with aliases", "src/list.rs List"), ("resolving names", "src/models/mod.rs to_ledger steps 1 to 4")], observe=OUT)
prop("C17", "Comments, blanks and line endings carry no meaning",
     "Adding or removing comments (on lines of their own, indented within an entry, or at the end of a transaction's first line, a posting, a price or the declaration of a payee or commodity), blank lines, trailing blanks, wider or tabbed separation, Windows line endings or the newline at the end of the file changes no amount, no report, no price and no verdict of a check.",
     "all amounts and dates, all combinations of layout variations within the stated choice",
     "Layout variations combine with each other and with every construct; tests fix one layout per construct.",
     ["src/parser/mod.rs", "src/parser/chars.rs", "src/parser/tokenizers/transaction.rs", "src/parser/tokenizers/comment.rs", "src/parser/tokenizers/account.rs", "src/parser/tokenizers/price.rs"],
     [("reading lines and blanks", "src/parser/chars.rs; src/parser/tokenizers/*.rs")], observe=OUT)
prop("C18", "Options of the init file act like options of the command line",
     "An option in the init file has exactly the effect it has on the command line, for every command that accepts it, comments and blank lines in that file having none; an option given on the command line takes precedence over the same option in the init file.",
     "all amounts and dates, every option that changes a report, given in either or both places",
     "Which postings an option selects depends on amounts and dates; tests only check that an init file is read.",
     ["src/app.rs"],
     [("merging the init file into the arguments", "src/app.rs run_app")], over=("inputs", "configurations"), observe=OUT)
prop("C21", "Postings to an Unknown account go to the account that claims the payee",
     "A posting to an account whose name ends in `Unknown` (in any letter case) is booked on the account whose declaration has a `payee` pattern that matches the transaction's payee, wherever that declaration stands, in every report, balance assertion and automated transaction; its amount, cost, kind, notes and date are unaffected. If no account claims the payee it stays where it was written, and postings to other accounts never move.",
     "all amounts and dates, all combinations of payees, claiming declarations and unknown accounts within the stated choice",
     "Where the money goes must be right for every amount, payee, order of declaration and report; the tests look at one.",
     ["src/models/mod.rs", "src/models/account.rs", "src/parser/tokenizers/account.rs"],
     [("redirecting", "src/models/mod.rs _transaction_to_ledger"), ("payee sub-directive", "src/parser/tokenizers/account.rs")], observe=OUT)
prop("C22", "Declarations and prices move no money",
     "Adding price statements, or declarations of accounts, commodities, payees and tags with their notes, formats, checks and so on (that give no second name to anything used), anywhere in a journal, changes no balance, no register and no verdict of a check: without -X all amounts stay in the commodity they are written in.",
     "all amounts, prices and dates, every kind of declaration and price with the journals of the stated choice",
     "Has to hold for all amounts and for every construct a declaration could interfere with; tests have one journal per declaration.",
     ["src/models/mod.rs", "src/parser/tokenizers/account.rs", "src/parser/tokenizers/commodity.rs", "src/parser/tokenizers/payee.rs", "src/parser/tokenizers/tag.rs", "src/parser/tokenizers/price.rs", "src/commands/balance.rs"],
     [("building the ledger", "src/models/mod.rs to_ledger"), ("declarations", "src/parser/tokenizers/*.rs")], observe=OUT)
prop("C19", "Dates are read as written",
     "A date in any of the accepted notations is read as exactly that calendar day, and a date that does not exist is refused.",
     "all calendar days and all notations, in journals and on the command line",
     "Tests read a few literal dates.",
     ["src/parser/utils.rs", "src/app.rs", "src/parser/tokenizers/transaction.rs"],
     [("date grammar", "src/grammar/grammar.pest, src/parser/utils.rs parse_date; src/app.rs date_parser")])
prop("C20", "Every input ends in a report or an error message",
     "On every input file whatsoever the program ends by itself, either with its report or with an error message and a failure status; it never hangs and never crashes.",
     "all byte sequences as journals",
     "Arbitrary text is not sampled by any handful of tests.",
     ["src/parser/mod.rs", "src/parser/chars.rs", "src/parser/tokenizers", "src/parser/value_expr.rs"],
     [("hand-written and generated parsers", "src/parser/**")])

NA = {
    "C19": "Reading the characters of a date happens inside regular-expression and generated parser code over character sequences; symbolic characters through it are out of reach of the encoding, and with concrete text there is nothing left for a solver to decide. Symbolic dates enter the encoding after this step.",
    "C20": "Needs symbolic characters through the generated parser and regular-expression engine, which the encoding cannot carry; sampling text would be fuzzing, not solver-based checking. Crashes and hangs on every path of the other properties' journals are reported by their checks.",
}
LEVEL = ("Bounded symbolic execution of the program's own source, regenerated from /repo on every run, from the command line to the printed report: "
         "every path of the bounded journals is explored, each branch and assertion over the symbolic amounts, dates and hash orders is decided by z3, "
         "and counterexamples are confirmed on the real binary. Trusted: the stand-ins for num, chrono, hash tables and stdout, the explorer, z3. Outside: journal shapes beyond the unit's bounds.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    have = set()
    d = os.path.join(V, "sym/harness/src/units")
    for n in os.listdir(d):
        have |= set(re.findall(r'(?:^\s*|Unit::new\()"(C\d\d)",', open(os.path.join(d, n)).read(), re.M))
    checks, na = [], []
    for p in P:
        i = p["id"]
        assert len(p["title"]) <= 80, i
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif i in have:
            checks.append({
                "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                "technique": "symbolic execution of the compiled source with an SMT solver (z3)", "level": "model_checking", "level_note": LEVEL})
        else:
            na.append({"property": i, "reason": "the check is not built yet"})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
