From 5b787a0aa5571b42881cff5eb7ce413cc32ab944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:17 +0000
Subject: [PATCH 01/39] fix: keep the sign of amounts that round into or out of
 a zero integer part

-0.50 was printed as 0.50 and 0.999 as -1.00.
---
 src/models/money.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index 70a8bca..dcf2ada 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -119,16 +119,23 @@ impl Display for Money {
                 let len = format!("{}", decimal).len();
                 if len == decimals + 1 {
                     decimal = 0;
-                    if integer_part.is_positive() {
-                        integer_part += BigInt::from(1);
-                    } else {
+                    if amount.is_negative() {
                         integer_part -= BigInt::from(1);
+                    } else {
+                        integer_part += BigInt::from(1);
                     }
                 }
+                // The integer part is zero for amounts between -1 and 0, it can't hold the sign
+                let sign = if amount.is_negative() & integer_part.is_zero() & (decimal > 0) {
+                    "-"
+                } else {
+                    ""
+                };
                 decimal_str = format!("{:0width$}", decimal, width = decimals);
                 write!(
                     f,
-                    "{}.{} {}",
+                    "{}{}.{} {}",
+                    sign,
                     integer_part.numer(),
                     decimal_str,
                     currency.get_name()
-- 
2.43.0


From 821d3a51e3fa4df53db0b4791b846a00e043fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:49 +0000
Subject: [PATCH 02/39] fix: evaluate every operand of chained operators

'a or b or c' ignored c, 1 - 2 - 3 ignored 3: only the first two operands of a
chain made it into the expression tree.
---
 src/parser/value_expr.rs | 47 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index d95ab10..2e23d5c 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -412,31 +412,30 @@ fn build_ast_from_expr(
         | Rule::multiplicative_expr => {
             let mut pair = pair.into_inner();
             let lhspair = pair.next().unwrap();
-            let lhs = build_ast_from_expr(lhspair, regexes);
-            match pair.next() {
-                None => lhs,
-                Some(x) => {
-                    let op = match rule {
-                        Rule::or_expr => Binary::Or,
-                        Rule::and_expr => Binary::And,
-                        _ => match x.as_str() {
-                            "+" => Binary::Add,
-                            "-" => Binary::Subtract,
-                            "*" => Binary::Mult,
-                            "/" => Binary::Div,
-                            "=~" | "==" => Binary::Eq,
-                            "<" => Binary::Lt,
-                            ">" => Binary::Gt,
-                            "<=" => Binary::Le,
-                            ">=" => Binary::Ge,
-                            x => unreachable!("{}", x),
-                        },
-                    };
-                    let rhspair = pair.next().unwrap();
-                    let rhs = build_ast_from_expr(rhspair, regexes);
-                    parse_binary_expr(op, lhs, rhs)
-                }
+            let mut lhs = build_ast_from_expr(lhspair, regexes);
+            // Operators of the same precedence associate to the left
+            while let Some(x) = pair.next() {
+                let op = match rule {
+                    Rule::or_expr => Binary::Or,
+                    Rule::and_expr => Binary::And,
+                    _ => match x.as_str() {
+                        "+" => Binary::Add,
+                        "-" => Binary::Subtract,
+                        "*" => Binary::Mult,
+                        "/" => Binary::Div,
+                        "=~" | "==" => Binary::Eq,
+                        "<" => Binary::Lt,
+                        ">" => Binary::Gt,
+                        "<=" => Binary::Le,
+                        ">=" => Binary::Ge,
+                        x => unreachable!("{}", x),
+                    },
+                };
+                let rhspair = pair.next().unwrap();
+                let rhs = build_ast_from_expr(rhspair, regexes);
+                lhs = parse_binary_expr(op, lhs, rhs);
             }
+            lhs
         }
         Rule::primary => {
             let mut inner = pair.into_inner();
-- 
2.43.0


From 0124d35942efcf0d125a62b1eb7d123cd4918009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:04 +0000
Subject: [PATCH 03/39] fix: a comment inside a tag directive does not hang the
 parser

---
 src/parser/tokenizers/tag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index c0f54cb..52ef6b5 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -47,7 +47,9 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     }
     while let LineType::Indented = chars::consume_whitespaces_and_lines(tokenizer) {
         match tokenizer.get_char().unwrap() {
-            ';' => {} // Skip comments
+            ';' => {
+                chars::get_line(tokenizer);
+            } // Skip comments
             _ => match chars::get_string(tokenizer).as_str() {
                 "check" => {
                     check.push(chars::get_line(tokenizer).trim().to_string());
-- 
2.43.0


From af6fa3e1e8d7a986ddeb5a1f497c483a04860f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:05 +0000
Subject: [PATCH 04/39] fix: report an error on the first line of a file
 instead of crashing

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cadf9bb..382ade3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -220,7 +220,7 @@ impl<'a> Tokenizer<'a> {
         let string = self.content.iter().collect::<String>();
 
         for (i, line) in string.lines().enumerate() {
-            if i < self.line_index - 1 {
+            if i + 1 < self.line_index {
                 continue;
             };
             if i > self.line_index {
-- 
2.43.0


From d8ffeab006575f610a7566f03a79cb318e37f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:31 +0000
Subject: [PATCH 05/39] fix: list the commodities of a balance in a fixed order

Iterating a HashMap made the lines of multi-commodity balances, and the
direction of the price implied by a two-commodity transaction, change from run
to run.
---
 src/models/balance.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/models/balance.rs b/src/models/balance.rs
index 39a6785..1f0c1a0 100644
--- a/src/models/balance.rs
+++ b/src/models/balance.rs
@@ -1,7 +1,7 @@
 use crate::error::LedgerError;
 use crate::models::{Currency, Money};
-use std::collections::hash_map::Iter;
-use std::collections::HashMap;
+use std::collections::btree_map::Iter;
+use std::collections::BTreeMap;
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::ops::{Add, Neg, Sub};
@@ -9,13 +9,13 @@ use std::rc::Rc;
 
 #[derive(Debug, Clone)]
 pub struct Balance {
-    pub balance: HashMap<Option<Rc<Currency>>, Money>,
+    pub balance: BTreeMap<Option<Rc<Currency>>, Money>,
 }
 
 impl Balance {
     pub fn new() -> Balance {
         Balance {
-            balance: HashMap::new(),
+            balance: BTreeMap::new(),
         }
     }
 
@@ -81,7 +81,7 @@ impl<'a> Neg for Balance {
     type Output = Balance;
 
     fn neg(self) -> Self::Output {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         for (k, v) in self.balance {
             balance.insert(k, -v);
         }
@@ -93,7 +93,7 @@ impl Add for Balance {
     type Output = Balance;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let mut total: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut total: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         let balances = vec![self, rhs];
         for bal in balances.iter() {
             for (cur, money) in bal.balance.iter() {
@@ -136,7 +136,7 @@ impl Sub for Balance {
 // Converter
 impl From<Money> for Balance {
     fn from(money: Money) -> Self {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         match money {
             Money::Zero => balance.insert(None, Money::Zero),
             Money::Money { ref currency, .. } => {
-- 
2.43.0


From ae081d41660ea0f2996da17c48d7c83dea97bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:59 +0000
Subject: [PATCH 06/39] fix: look up names, aliases and payees in a fixed order

Which spelling of a name was shown, and which payee or account matched when
several could, depended on the iteration order of hash tables.
---
 src/list.rs       | 12 ++++++------
 src/models/mod.rs |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 7461a88..e26ba92 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -1,6 +1,6 @@
 use regex::Regex;
-use std::collections::hash_map::{Iter, Values};
-use std::collections::HashMap;
+use std::collections::btree_map::{Iter, Values};
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::hash::Hash;
 use std::rc::Rc;
@@ -19,15 +19,15 @@ use crate::LedgerError;
 /// - Retrieving elements with a regular expression
 #[derive(Debug, Clone)]
 pub struct List<T> {
-    aliases: HashMap<String, String>,
-    list: HashMap<String, Rc<T>>,
+    aliases: BTreeMap<String, String>,
+    list: BTreeMap<String, Rc<T>>,
     matches: HashMap<String, Option<String>>,
 }
 
 impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> List<T> {
     pub fn new() -> Self {
-        let aliases: HashMap<String, String> = HashMap::new();
-        let list: HashMap<String, Rc<T>> = HashMap::new();
+        let aliases: BTreeMap<String, String> = BTreeMap::new();
+        let list: BTreeMap<String, Rc<T>> = BTreeMap::new();
         let matches: HashMap<String, Option<String>> = HashMap::new();
         List {
             aliases,
diff --git a/src/models/mod.rs b/src/models/mod.rs
index 89cc367..684be6b 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -1,5 +1,5 @@
 use num::rational::BigRational;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub use account::Account;
 pub use balance::Balance;
@@ -55,9 +55,9 @@ impl Ledger {
 impl ParsedLedger {
     /// Creates a proper ledger from a parsed ledger
     pub fn to_ledger(mut self, no_checks: bool) -> Result<Ledger, Error> {
-        let mut commodity_strs = HashSet::<String>::new();
-        let mut account_strs = HashSet::<String>::new();
-        let mut payee_strs = HashSet::<String>::new();
+        let mut commodity_strs = BTreeSet::<String>::new();
+        let mut account_strs = BTreeSet::<String>::new();
+        let mut payee_strs = BTreeSet::<String>::new();
 
         // 1. Populate the directive lists
 
-- 
2.43.0


From 16dc05a221b55aacd1334cffe85840d664579a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:22 +0000
Subject: [PATCH 07/39] fix: make currency conversion independent of hash order

When prices form a cycle the multiplier depended on the iteration order of hash
tables, and on which node of a commodity was visited first.
---
 src/models/price.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/models/price.rs b/src/models/price.rs
index ab180b9..1230e2d 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -3,7 +3,7 @@ use chrono::{Duration, NaiveDate};
 use num::rational::BigRational;
 use num::BigInt;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::rc::Rc;
@@ -123,10 +123,9 @@ pub fn conversion(
                     continue;
                 }
             }
-            None => {
-                inserted.insert(currency.clone(), k.date);
-            }
+            None => {}
         }
+        inserted.insert(currency.clone(), k.date);
         for edge in v.iter().rev() {
             match edge.as_ref().price.as_ref() {
                 None => (), // do nothing, multiply by one and keep the same currency
@@ -178,12 +177,12 @@ struct Graph {
 
 impl Graph {
     fn from_prices(prices: &Vec<Price>, source: Node) -> Self {
-        let mut nodes = HashMap::new();
+        let mut nodes = BTreeMap::new();
         let mut edges = Vec::new();
-        let mut currency_dates = HashSet::new();
+        let mut currency_dates = BTreeSet::new();
         currency_dates.insert((source.currency.clone(), source.date));
         // Remove redundant prices and create the nodes
-        let mut prices_nodup = HashMap::new();
+        let mut prices_nodup = BTreeMap::new();
         for p in prices.iter() {
             if p.date > source.date {
                 continue;
-- 
2.43.0


From 38d2103286daaf82bc9d47a316c8bd9dc31beb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:35 +0000
Subject: [PATCH 08/39] fix: show the right name for every amount of the
 balance tree

A parent with postings of its own was merged with its only child, so its total
was shown under the child's name; parents whose total is zero were left out, so
their children appeared under another account; siblings like 'A-1' came between
an account and its children; and --depth was ignored when merging.
---
 src/commands/balance.rs | 59 ++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index dc15ab0..1741fc7 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -86,7 +86,6 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         }
         vec_balances = new_balances
             .iter()
-            .filter(|x| !x.1.is_zero())
             .map(|x| (x.0.clone(), x.1.clone()))
             .collect()
     } else {
@@ -153,22 +152,25 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         }
     }
 
-    vec_balances.sort_by(|a, b| a.0.cmp(b.0));
+    // Sort by account, children right after their parent
+    vec_balances.sort_by(|a, b| a.0.split(":").cmp(b.0.split(":")));
+    // Only show what is not zero and, in a tree, the accounts that contain it
+    let shown = vec_balances
+        .iter()
+        .filter(|x| !x.1.is_zero() & (x.0.split(":").count() <= depth.unwrap_or(usize::MAX)))
+        .map(|x| x.0)
+        .collect::<Vec<&str>>();
+    vec_balances.retain(|x| {
+        let prefix = format!("{}:", x.0);
+        shown
+            .iter()
+            .any(|name| (*name == x.0) | (!flat & name.starts_with(&prefix)))
+    });
     let num_bal = vec_balances.len();
     let mut index = 0;
     let mut showed_balances = 0;
     while index < num_bal {
         let (account, bal) = &vec_balances[index];
-        if let Some(depth) = depth {
-            if account.split(":").count() > depth {
-                index += 1;
-                continue;
-            }
-        }
-        if bal.is_zero() {
-            index += 1;
-            continue;
-        }
         showed_balances += 1;
 
         let mut first = true;
@@ -196,33 +198,24 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
             // start by getting the account name
             let mut text = account.split(":").last().unwrap().to_string();
             // This is where it gets tricky, we need to collapse while we can
-            let mut collapse = true;
+            // The only child has to account for everything, otherwise its balance would be lost
             loop {
                 if (index + 1) >= num_bal {
                     break;
                 }
-                if vec_balances[index + 1].0.split(":").count() != (n + 1) {
-                    break;
-                }
-                for j in (index + 2)..num_bal {
-                    let name = vec_balances[j].0.clone();
-                    if !name.starts_with(account) {
-                        break;
-                    }
-                    let this_depth = name.split(":").count();
-                    if this_depth == n + 1 {
-                        collapse = false;
-                        break;
-                    }
-                }
-                if collapse {
-                    text.push(':');
-                    text.push_str(&vec_balances[index + 1].0.split(":").last().unwrap());
-                    n = n + 1;
-                    index = index + 1;
-                } else {
+                let prefix = format!("{}:", vec_balances[index].0);
+                let children = vec_balances[(index + 1)..]
+                    .iter()
+                    .filter(|x| x.0.starts_with(&prefix) & (x.0.split(":").count() == n + 1))
+                    .count();
+                let next = &vec_balances[index + 1];
+                if (children != 1) | !(bal.clone() - next.1.clone()).is_zero() {
                     break;
                 }
+                text.push(':');
+                text.push_str(next.0.split(":").last().unwrap());
+                n = n + 1;
+                index = index + 1;
             }
             println!("{}", text.blue());
         }
-- 
2.43.0


From 07b8d73a3269defc7c9014c43278e00b5f6a31f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:57 +0000
Subject: [PATCH 09/39] fix: count the unit cost of a sold virtual posting with
 its sign

---
 src/models/transaction.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 8295fe3..439f8ee 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -239,12 +239,7 @@ fn total_balance(postings: &Vec<Posting>, kind: PostingType) -> Balance {
                         Money::Money { amount, .. } => amount.clone(),
                     };
                     let money = Money::Money {
-                        amount: units
-                            * (if p.amount.as_ref().unwrap().is_negative() {
-                                -BigInt::from(1)
-                            } else {
-                                BigInt::from(1)
-                            }),
+                        amount: units,
                         currency: currency.clone(),
                     };
                     Balance::from(money)
-- 
2.43.0


From 3d377ce5c6cdb0d8ea68ab827f072973c165cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:18 +0000
Subject: [PATCH 10/39] fix: a posting whose amount is left out keeps its own
 tags

---
 src/models/transaction.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 439f8ee..3526d25 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -290,6 +290,8 @@ impl Transaction<Posting> {
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
         let mut fill_payee = None;
+        let mut fill_comments = vec![];
+        let mut fill_tags = RefCell::new(vec![]);
         let mut postings: Vec<Posting> = Vec::new();
 
         for p in self.postings.get_mut().iter() {
@@ -391,6 +393,8 @@ impl Transaction<Posting> {
                 // We do nothing, but this is the account for the empty post
                 fill_account = p.account.clone();
                 fill_payee = p.payee.clone();
+                fill_comments = p.comments.clone();
+                fill_tags = p.tags.clone();
             }
         }
 
@@ -436,8 +440,8 @@ impl Transaction<Posting> {
                     balance: None,
                     cost: None,
                     kind: PostingType::Real,
-                    comments: self.comments.clone(),
-                    tags: RefCell::new(self.tags.clone()),
+                    comments: fill_comments.clone(),
+                    tags: fill_tags.clone(),
                     payee: fill_payee.clone(),
                     transaction: self.postings.borrow()[0].transaction.clone(),
                     origin: PostingOrigin::FromTransaction,
-- 
2.43.0


From ae4f3b5d3b5e4088b933a6727435e031466a2c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:52 +0000
Subject: [PATCH 11/39] fix: reject a posting with more than one amount

1,000 EUR was read as 1 of something, then silently replaced by 000 EUR.
---
 src/parser/tokenizers/transaction.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1d508b2..6270e26 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -324,6 +324,11 @@ fn parse_posting(
             }
             _ => match parse_money(tokenizer) {
                 Ok(money) => {
+                    if posting.money_amount.is_some() {
+                        return Err(ParserError::UnexpectedInput(Some(
+                            "More than one amount found".to_string(),
+                        )));
+                    }
                     posting.money_amount = Some(money.0);
                     posting.money_currency = Some(money.1);
                 }
-- 
2.43.0


From f99c8c14e8458b3067c878c9c99df8666d9f8be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 12/39] fix: record the price implied by a transaction once

With automated transactions in the journal every implied price was listed twice.
---
 src/models/mod.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 684be6b..3ce9489 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -309,25 +309,11 @@ impl ParsedLedger {
 
             // Balance the transactions
             for t in transactions.iter_mut() {
-                let date = t.date.unwrap().clone();
                 // output_balances(&balances);
-                let balance = match t.balance(&mut balances, no_checks) {
-                    Ok(balance) => balance,
-                    Err(e) => {
-                        eprintln!("{}", t);
-                        return Err(e.into());
-                    }
-                };
-                if balance.len() == 2 {
-                    let vec = balance.iter().map(|(_, x)| x.abs()).collect::<Vec<Money>>();
-
-                    let commodity = vec[0].get_commodity().unwrap().clone();
-                    let price = Money::Money {
-                        amount: vec[1].get_amount() / vec[0].get_amount(),
-                        currency: vec[1].get_commodity().unwrap().clone(),
-                    };
-
-                    prices.push(Price::new(date, commodity, price));
+                // The prices implied by the transactions are already recorded
+                if let Err(e) = t.balance(&mut balances, no_checks) {
+                    eprintln!("{}", t);
+                    return Err(e.into());
                 }
             }
         }
-- 
2.43.0


From b7f00d8d8dedb07807ae88299631309fc3481f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 13/39] fix: the total cost of a sale is not a negative price

'-2 ACME @@ 10 EUR' recorded a price of -5 EUR, and '0 ACME @@ 10 EUR' crashed.
---
 src/models/mod.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 3ce9489..c43b2f3 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -406,20 +406,21 @@ impl ParsedLedger {
                                 amount: amount.clone(),
                             }),
                         };
-                        prices.push(Price::new(
-                            transaction.date.unwrap(),
-                            posting_currency.clone(),
-                            Money::Money {
-                                amount: p.cost_amount.clone().unwrap()
-                                    / match p.cost_type.as_ref().unwrap() {
-                                        PriceType::Total => {
-                                            posting.amount.as_ref().unwrap().get_amount()
-                                        }
-                                        PriceType::PerUnit => BigRational::from(BigInt::from(1)),
-                                    },
-                                currency: amount.get_commodity().unwrap().clone(),
-                            },
-                        ))
+                        let units = match p.cost_type.as_ref().unwrap() {
+                            PriceType::Total => posting.amount.as_ref().unwrap().abs().get_amount(),
+                            PriceType::PerUnit => BigRational::from(BigInt::from(1)),
+                        };
+                        // The total cost of nothing says nothing about the price
+                        if units > BigRational::from(BigInt::from(0)) {
+                            prices.push(Price::new(
+                                transaction.date.unwrap(),
+                                posting_currency.clone(),
+                                Money::Money {
+                                    amount: p.cost_amount.clone().unwrap() / units,
+                                    currency: amount.get_commodity().unwrap().clone(),
+                                },
+                            ))
+                        }
                     }
                     if let Some(c) = &p.balance_currency {
                         posting.balance = Some(Money::from((
-- 
2.43.0


From 6929a537e51303b34754137fd24eae4e13e84252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:20 +0000
Subject: [PATCH 14/39] fix: read the account name of a posting to the end of
 its line and no further

A blank at the end of the line swallowed the next line, the end of the file or
a name starting with a non-ASCII letter crashed.
---
 src/parser/tokenizers/transaction.rs | 36 ++++++++++------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 6270e26..173c1db 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -196,33 +196,26 @@ fn parse_posting(
 ) -> Result<RawPosting, ParserError> {
     let mut account = String::new();
     let mut posting_type = PostingType::Real;
-    let mut finished = false;
-    // Get the account name
-    loop {
-        let c = tokenizer.next();
+    // Get the account name, it ends with the line, a tab or two spaces
+    while let Some(c) = tokenizer.get_char() {
+        if c == '\n' {
+            break;
+        }
+        tokenizer.next();
         if !c.is_whitespace() {
             account.push(c);
-        } else if (c == '\t') | (c == '\n') {
-            if c == '\n' {
-                // println!("1 {}-", account);
-                tokenizer.line_index -= 1;
-                tokenizer.position -= 1;
-                finished = true;
-            }
+        } else if c == '\t' {
             break;
         } else {
-            let d = tokenizer.next();
-            if d.is_whitespace() | (c == '\n') {
-                break;
-            } else {
-                account.push(c);
-                account.push(d);
+            match tokenizer.get_char() {
+                Some(d) if !d.is_whitespace() => account.push(c),
+                _ => break,
             }
         }
     }
     // See if it is a virtual account
-    match &account[0..1] {
-        "(" => {
+    match account.chars().next() {
+        Some('(') => {
             posting_type = PostingType::Virtual;
             if account.pop().unwrap() != ')' {
                 return Err(ParserError::UnexpectedInput(Some(
@@ -230,7 +223,7 @@ fn parse_posting(
                 )));
             }
         }
-        "[" => {
+        Some('[') => {
             posting_type = PostingType::VirtualMustBalance;
             if account.pop().unwrap() != ']' {
                 return Err(ParserError::UnexpectedInput(Some(
@@ -264,9 +257,6 @@ fn parse_posting(
         kind: posting_type,
         payee: default_payee.clone(),
     };
-    if finished {
-        return Ok(posting);
-    }
     chars::consume_whitespaces(tokenizer);
     // Amounts
     loop {
-- 
2.43.0


From d82199866f5e187544f0085552b74930800055c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:42 +0000
Subject: [PATCH 15/39] fix: ignore the carriage return of Windows line endings

Tags, payees and include directives were lost in files with CRLF line endings.
---
 src/parser/chars.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 2c44973..e541fa9 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -98,6 +98,9 @@ pub(super) fn get_line(tokenizer: &mut Tokenizer) -> String {
         }
         retval.push(*c);
     }
+    if let Some('\r') = retval.last() {
+        retval.pop(); // Windows line endings
+    }
     retval.iter().collect()
 }
 
-- 
2.43.0


From d1daf5457e1fefc87edf1426bd40686c854fc315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:48 +0000
Subject: [PATCH 16/39] fix: bind the unary operators of an expression to their
 operand

'-2 EUR - 3 EUR' was evaluated as -(2 EUR - 3 EUR), 'not a and b' as
not (a and b), and '!' was accepted only to crash.
---
 src/grammar/grammar.pest | 6 ++++--
 src/parser/value_expr.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 22d4594..0dfefe2 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -51,7 +51,8 @@ additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr
 multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
-    (unary ~ ws* ~ expr) |
+    (neg ~ ws* ~ primary) |
+    (not ~ ws* ~ comparison_expr) |
     term |
     (function ~ ws* ~ "(" ~ ws* ~ expr ~ ws* ~ ("," ~ ws* ~ expr ~ ws*)* ~ ")")
     }
@@ -103,7 +104,8 @@ add = { "+" | "-" }
 mult = { "*" | "/" }
 and = {"&" | "and"}
 or = {"|" | "or" }
-unary = { "-" | "!" | "not" }
+neg = { "-" }
+not = { "!" | "not" }
 function = { "abs" | "has_tag" | "to_date" | "any" | "tag" }
 comparison = { eq | ne | ge | gt | le | lt }
 eq = { "=~" | "=="}
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 2e23d5c..9c37d72 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -441,14 +441,14 @@ fn build_ast_from_expr(
             let mut inner = pair.into_inner();
             let first = inner.next().unwrap();
             match first.as_rule() {
-                Rule::function | Rule::unary => {
+                Rule::function | Rule::neg | Rule::not => {
                     let op = match first.as_str() {
                         "abs" => Unary::Abs,
                         "-" => Unary::Neg,
                         "has_tag" => Unary::HasTag,
                         "tag" => Unary::Tag,
                         "to_date" => Unary::ToDate,
-                        "not" => Unary::Not,
+                        "not" | "!" => Unary::Not,
                         "any" => Unary::Any,
                         unknown => panic!("Unknown expr: {:?}", unknown),
                     };
-- 
2.43.0


From 5f2d9afbde547932819034048c2e1d80791e7548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:57 +0000
Subject: [PATCH 17/39] fix: evaluate != in expressions instead of crashing

---
 src/parser/value_expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 9c37d72..c0061c2 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -415,6 +415,7 @@ fn build_ast_from_expr(
             let mut lhs = build_ast_from_expr(lhspair, regexes);
             // Operators of the same precedence associate to the left
             while let Some(x) = pair.next() {
+                let negated = x.as_str() == "!=";
                 let op = match rule {
                     Rule::or_expr => Binary::Or,
                     Rule::and_expr => Binary::And,
@@ -423,7 +424,7 @@ fn build_ast_from_expr(
                         "-" => Binary::Subtract,
                         "*" => Binary::Mult,
                         "/" => Binary::Div,
-                        "=~" | "==" => Binary::Eq,
+                        "=~" | "==" | "!=" => Binary::Eq,
                         "<" => Binary::Lt,
                         ">" => Binary::Gt,
                         "<=" => Binary::Le,
@@ -434,6 +435,9 @@ fn build_ast_from_expr(
                 let rhspair = pair.next().unwrap();
                 let rhs = build_ast_from_expr(rhspair, regexes);
                 lhs = parse_binary_expr(op, lhs, rhs);
+                if negated {
+                    lhs = parse_unary_expr(Unary::Not, lhs);
+                }
             }
             lhs
         }
-- 
2.43.0


From bb8bcfa0a0aca613f5f9a36c254ad4b1a2a53aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:24 +0000
Subject: [PATCH 18/39] fix: a number can be followed by an operator in
 expressions

'amount > 2 and ...' crashed, the operator was read as the commodity of the
number; a quoted commodity was looked up with its quotes.
---
 src/grammar/grammar.pest | 3 ++-
 src/parser/value_expr.rs | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 0dfefe2..f1b6eb0 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -59,7 +59,8 @@ primary = {
 
 
 term = _{ variable | money | number | regex | string }
-money = { (number ~ ws* ~ currency) | (currency ~ ws* ~ number) }
+money = { (number ~ ws* ~ !operator ~ currency) | (currency ~ ws* ~ number) }
+operator = _{ (("and" | "or") ~ !ASCII_ALPHANUMERIC) | "!=" } // can follow a number, they are not currencies
 currency = { string | unquoted }
 regex = { "/" ~ (!"/" ~ ANY)* ~ "/"}
 string = {
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index c0061c2..7bc4bb6 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -1,4 +1,4 @@
-use super::utils::parse_rational;
+use super::utils::{parse_rational, parse_string};
 use super::{GrammarParser, Rule};
 use crate::app;
 use crate::models::{Account, Currency, Money, Payee, Posting, Transaction};
@@ -463,11 +463,11 @@ fn build_ast_from_expr(
                     let child = money.next().unwrap();
                     match child.as_rule() {
                         Rule::number => Node::Money {
-                            currency: money.next().unwrap().as_str().to_string(),
+                            currency: parse_string(money.next().unwrap()),
                             amount: parse_rational(child),
                         },
                         Rule::currency => Node::Money {
-                            currency: child.as_str().to_string(),
+                            currency: parse_string(child),
                             amount: parse_rational(money.next().unwrap()),
                         },
                         unknown => panic!("Unknown rule: {:?}", unknown),
-- 
2.43.0


From 1c0e9d8760645652c121c0396b109f426fd5a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:12 +0000
Subject: [PATCH 19/39] fix: detect include cycles through different spellings
 of a path

---
 src/parser/include.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index dd4e708..ad77fb1 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -23,14 +23,17 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         match entry {
             Ok(path) => {
                 files.push(path.clone());
-                match tokenizer.seen_files.get(&path) {
-                    Some(_) => {
-                        return Err(tokenizer.error(ParserError::IncludeLoop(format!(
-                            "Cycle detected. {:?}",
-                            &path
-                        ))))
-                    }
-                    None => (),
+                // The same file can be written in many ways
+                let canonical = path.canonicalize().ok();
+                if tokenizer
+                    .seen_files
+                    .iter()
+                    .any(|seen| (*seen == &path) | (seen.canonicalize().ok() == canonical))
+                {
+                    return Err(tokenizer.error(ParserError::IncludeLoop(format!(
+                        "Cycle detected. {:?}",
+                        &path
+                    ))));
                 }
             }
             Err(e) => eprintln!("{:?}", e),
-- 
2.43.0


From 0550b8c8bda93f6610829af9b603e2bbbb6e97c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 20/39] fix: a balance assignment that changes nothing has a
 commodity

An automated transaction that multiplies such a posting crashed.
---
 src/models/transaction.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 3526d25..0705ae0 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -373,7 +373,11 @@ impl Transaction<Posting> {
                 // update the amount
                 let account_bal = balances.get(p.account.deref()).unwrap().clone();
                 let amount_bal = Balance::from(balance.clone()) - account_bal;
-                let money = amount_bal.to_money()?;
+                let money = match amount_bal.to_money()? {
+                    // It has a commodity, even if nothing changes
+                    Money::Zero => balance.clone() * BigRational::from(BigInt::from(0)),
+                    money => money,
+                };
                 transaction_balance = transaction_balance + Balance::from(money.clone());
                 // update the account balance
                 balances.insert(p.account.clone(), Balance::from(balance.clone()));
-- 
2.43.0


From 9444e962c17d4549b7fa6ce853ff4fdf03d6871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:16 +0000
Subject: [PATCH 21/39] fix: reject virtual postings without an amount

They were accepted, and every report crashed on them.
---
 src/models/transaction.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 0705ae0..e28c3f5 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -280,6 +280,17 @@ impl Transaction<Posting> {
     ) -> Result<Balance, LedgerError> {
         let mut transaction_balance = Balance::new();
 
+        // 0. Only real postings can be filled
+        let empty_virtual = self
+            .postings
+            .borrow()
+            .iter()
+            .filter(|p| (p.kind != PostingType::Real) & p.amount.is_none())
+            .count();
+        if empty_virtual > 0 {
+            return Err(LedgerError::TooManyEmptyPostings(empty_virtual));
+        }
+
         // 1. Check the virtual postings
         match total_balance(&*self.postings.borrow(), PostingType::VirtualMustBalance).can_be_zero()
         {
-- 
2.43.0


From aefdc09e00801249967d6f824ace990c0fceca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:24 +0000
Subject: [PATCH 22/39] fix: reject value expressions where they are not
 evaluated

The posting was taken as one without an amount and filled with something else.
---
 src/parser/tokenizers/transaction.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 173c1db..c6b412d 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -263,6 +263,12 @@ fn parse_posting(
         match tokenizer.get_char() {
             Some('(') => {
                 // This is a value expression
+                if let TransactionType::Real = transaction_type {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Value expressions are only supported in automated transactions"
+                            .to_string(),
+                    )));
+                }
                 posting.amount_expr = Some(chars::get_value_expression(tokenizer));
             }
             Some('\n') => break,
-- 
2.43.0


From 689d9b428420c4fc42224bad7a6ecfea45e96185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:30 +0000
Subject: [PATCH 23/39] fix: allow blanks between all operators of a chain

---
 src/grammar/grammar.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index f1b6eb0..6c44c21 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -44,11 +44,11 @@ value_expr = {"(" ~ ws* ~ expr ~ ws* ~ ")"}
 
 // Then the expression builds up in terms of increasing preference
 expr = { or_expr }
-or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ) * }
-and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ) * }
-comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ) * }
-additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ) * }
-multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
+or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ~ ws* ) * }
+and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ~ ws* ) * }
+comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ~ ws* ) * }
+additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ~ ws* ) * }
+multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
     (neg ~ ws* ~ primary) |
-- 
2.43.0


From 028a39b24b26ab4c8ebfc3ff954b7f01c9acc2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:12 +0000
Subject: [PATCH 24/39] fix: refuse a sign after the decimal point

---
 src/parser/tokenizers/transaction.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index c6b412d..26269a8 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -402,6 +402,11 @@ fn parse_amount(tokenizer: &mut Tokenizer) -> Result<BigRational, ParserError> {
                     decimal = true
                 }
             }
+            Some('-') if decimal => {
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Wrong number format".to_string(),
+                )));
+            }
             Some(c) if (c == '-') | c.is_numeric() => {
                 num.push(c);
                 if decimal {
-- 
2.43.0


From 34c0f029d3054b3e576ecca59118985236af737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:21 +0000
Subject: [PATCH 25/39] fix: reject a posting with more than one cost or
 balance

---
 src/parser/tokenizers/transaction.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 26269a8..da6000b 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -278,6 +278,11 @@ fn parse_posting(
                 return Ok(posting);
             }
             Some('=') => {
+                if posting.balance_amount.is_some() {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "More than one balance found".to_string(),
+                    )));
+                }
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
                 chars::consume_whitespaces(tokenizer);
@@ -297,6 +302,11 @@ fn parse_posting(
                         "Amount not found".to_string(),
                     )));
                 }
+                if posting.cost_amount.is_some() {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "More than one cost found".to_string(),
+                    )));
+                }
 
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
-- 
2.43.0


From a4d416647efb1a4e9eb9b1118d96ac9f606c1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:38 +0000
Subject: [PATCH 26/39] fix: report lines that cannot be parsed as errors
 instead of crashing

---
 src/parser/tokenizers/commodity.rs   | 2 +-
 src/parser/tokenizers/price.rs       | 2 +-
 src/parser/tokenizers/transaction.rs | 6 +++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/commodity.rs b/src/parser/tokenizers/commodity.rs
index bdf43ff..e2c9681 100644
--- a/src/parser/tokenizers/commodity.rs
+++ b/src/parser/tokenizers/commodity.rs
@@ -12,7 +12,7 @@ use pest::Parser;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Currency, ParserError> {
     let mystr = chars::get_line(tokenizer);
     let mut parsed = GrammarParser::parse(Rule::commodity, mystr.as_str())
-        .expect("Could not parse commodity!") // unwrap the parse result
+        .map_err(|_| ParserError::UnexpectedInput(Some("Could not parse commodity!".to_string())))?
         .next()
         .unwrap()
         .into_inner();
diff --git a/src/parser/tokenizers/price.rs b/src/parser/tokenizers/price.rs
index 6d0a89e..12f9bfe 100644
--- a/src/parser/tokenizers/price.rs
+++ b/src/parser/tokenizers/price.rs
@@ -8,7 +8,7 @@ use pest::Parser;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedPrice, ParserError> {
     let mystr = chars::get_line(tokenizer);
     let mut parsed = GrammarParser::parse(Rule::price, mystr.as_str())
-        .expect("Could not parse price!") // unwrap the parse result
+        .map_err(|_| ParserError::UnexpectedInput(Some("Could not parse price!".to_string())))?
         .next()
         .unwrap()
         .into_inner();
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index da6000b..24f07ca 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -20,7 +20,11 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPosting>
 fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPosting>, Error> {
     let mystr = chars::get_line(tokenizer);
     let mut parsed = GrammarParser::parse(Rule::transaction, mystr.as_str())
-        .expect("Could not parse transaction!") // unwrap the parse result
+        .map_err(|_| {
+            tokenizer.error(ParserError::UnexpectedInput(Some(
+                "Could not parse transaction!".to_string(),
+            )))
+        })?
         .next()
         .unwrap()
         .into_inner();
-- 
2.43.0


From 918da8f983ce14553bd59c6378b731c174196c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:35 +0000
Subject: [PATCH 27/39] fix: reject an amount after the balance of a posting

---
 src/parser/tokenizers/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 24f07ca..3adcfc7 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -334,7 +334,7 @@ fn parse_posting(
             }
             _ => match parse_money(tokenizer) {
                 Ok(money) => {
-                    if posting.money_amount.is_some() {
+                    if posting.money_amount.is_some() | posting.balance_amount.is_some() {
                         return Err(ParserError::UnexpectedInput(Some(
                             "More than one amount found".to_string(),
                         )));
-- 
2.43.0


From 7a028eba4b23682a7b27b8ff65a3bc1d33c1fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:08 +0000
Subject: [PATCH 28/39] fix: accept tabs as separators in directives and
 transaction headers

---
 src/grammar/grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 6c44c21..bb74100 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -69,7 +69,7 @@ string = {
     }
 reserved = _{"+" | "*" | "/" | "\\" | "|" | "%" | "<" | ">" | ":" | "?" |  "(" |  ")" | ";"}
 unquoted = { !reserved ~ !"=" ~ !"-" ~ !"&" ~
-    (!reserved ~ !SEPARATOR ~ ANY)+ }
+    (!reserved ~ !SEPARATOR ~ !ws ~ ANY)+ }
 variable = {
     "account" |
     "payee" |
@@ -97,7 +97,7 @@ variable = {
 // helpers
 number = { "-"? ~ bigint ~ ("." ~ bigint)? }
 bigint = _{ ASCII_DIGIT+ }
-ws = _{" "}
+ws = _{" " | "\t"}
 end = { EOI | NEWLINE }
 
 
-- 
2.43.0


From a2792240fcaa2e9f205a09253686ef9a3ec5b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:56 +0000
Subject: [PATCH 29/39] fix: leave trailing blanks and notes out of the name of
 a declared payee

---
 src/parser/tokenizers/payee.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index a0c0ff0..16370d8 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -13,8 +13,8 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
         r"(payee) +"            , // payee directive
-        r"(.*)"                 , // description
-        r"(  ;.*)?"             , // note
+        r"(.*?)"                , // description
+        r"((?:  |\t)\s*;.*)?$"  , // note
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
@@ -38,7 +38,7 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
                     2 =>
                     // description
                     {
-                        name = m.as_str().to_string()
+                        name = m.as_str().trim().to_string()
                     }
                     3 =>
                     // note
-- 
2.43.0


From 0a5f9af27e3fcc36dfd9c0e5d0a635f8a2695f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:56 +0000
Subject: [PATCH 30/39] fix: accept times after 20:00

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index bb74100..6cf2b90 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -32,7 +32,7 @@ month = {("1" ~ ("0" | "1" | "2")) | ("0"? ~ ASCII_NONZERO_DIGIT)}
 day = {("3" ~ ("0" | "1")) |
 	(("1" | "2") ~ ASCII_DIGIT ) |
     ("0"? ~ ASCII_NONZERO_DIGIT) }
-hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" ~"1" ~"2" ~"3"))}
+hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" | "1" | "2" | "3"))}
 minute = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT }
 second = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT ~ ("." ~ bigint)? }
 
-- 
2.43.0


From 5050672d09d349b5072ad892840a49cd5ea9e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:24 +0000
Subject: [PATCH 31/39] fix: let every form of a command line option take
 precedence over the init file

---
 src/app.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 0c2d7eb..6a61879 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -124,9 +124,12 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     // println!("{:?}", args);
     let mut possible_paths: Vec<String> = Vec::new();
     for i in 0..args.len() {
-        if args[i] == "--init-file" {
+        if (args[i] == "--init-file") & (i + 1 < args.len()) {
             possible_paths.push(args[i + 1].clone());
             break;
+        } else if args[i].starts_with("--init-file=") {
+            possible_paths.push(args[i]["--init-file=".len()..].to_string());
+            break;
         }
     }
     possible_paths.push(shellexpand::tilde("~/.ledgerrc").to_string());
@@ -142,6 +145,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     if let Some(file) = config_file {
         let mut aliases = HashMap::new();
         aliases.insert("-f".to_string(), "--file".to_string());
+        aliases.insert("-d".to_string(), "--depth".to_string());
+        aliases.insert("-b".to_string(), "--begin".to_string());
+        aliases.insert("-e".to_string(), "--end".to_string());
+        aliases.insert("-p".to_string(), "--period".to_string());
         let contents = read_to_string(file).unwrap();
         for line in contents.lines() {
             let option = line.trim_start();
@@ -149,13 +156,20 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                 Some(c) => match c {
                     '-' => {
                         assert!(
-                            line.starts_with("--"),
+                            option.starts_with("--"),
                             format!("Bad config file {:?}\n{}", file, line)
                         );
                         let mut iter = line.split_whitespace();
                         let option = iter.next().unwrap();
+                        // The value can come after a blank or after "=", or right after a short
+                        // option
+                        let name = option.split('=').next().unwrap();
                         if !args.iter().any(|x| {
-                            (x == option) | (aliases.get(x).unwrap_or(&String::new()) == option)
+                            (x.split('=').next().unwrap() == name)
+                                | (aliases
+                                    .get(&x.chars().take(2).collect::<String>())
+                                    .unwrap_or(&String::new())
+                                    == name)
                         }) {
                             args.push(option.to_string());
                             let mut rest = String::new();
-- 
2.43.0


From 05e0ea0e753b9035bbd40cc2ecf95a962dfbe937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:29 +0000
Subject: [PATCH 32/39] fix: keep the aliases of a repeated declaration

---
 src/list.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index e26ba92..e73cdf9 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -39,14 +39,14 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
     /// Inserts an ```element``` in the list
     pub fn insert(&mut self, element: T) {
         let found = self.list.get(&element.get_name().to_lowercase());
+        // Change the name which will be used as key to lowercase
+        let name = element.get_name().to_string().to_lowercase();
+        for alias in element.get_aliases().iter() {
+            self.aliases.insert(alias.to_lowercase(), name.clone());
+        }
         match found {
-            Some(_) => eprintln!("Duplicate element: {:?}", element), // do nothing
+            Some(_) => eprintln!("Duplicate element: {:?}", element), // keep the first one
             None => {
-                // Change the name which will be used as key to lowercase
-                let name = element.get_name().to_string().to_lowercase();
-                for alias in element.get_aliases().iter() {
-                    self.aliases.insert(alias.to_lowercase(), name.clone());
-                }
                 self.list.insert(name.clone(), Rc::new(element));
             }
         }
-- 
2.43.0


From d24229cf8826d0361fc15b87c30fb93b511b65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:19 +0000
Subject: [PATCH 33/39] fix: a declaration repeated in an included file does
 not replace the first

---
 src/list.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/list.rs b/src/list.rs
index e73cdf9..e9359cb 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -131,7 +131,12 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 
 impl<T: Clone> List<T> {
     pub fn append(&mut self, other: &List<T>) {
-        self.list.extend(other.to_owned().list.into_iter());
+        for (name, element) in other.list.iter() {
+            // As when inserting, the first one is kept
+            self.list
+                .entry(name.to_owned())
+                .or_insert_with(|| element.to_owned());
+        }
         self.aliases.extend(other.to_owned().aliases.into_iter());
     }
 }
-- 
2.43.0


From 22539a111886db26591b86a5da1dceda172847d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:18 +0000
Subject: [PATCH 34/39] fix: do not take the semicolon of a comment after the
 payee as part of it

---
 src/parser/tokenizers/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 3adcfc7..af75aab 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -58,7 +58,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item),
+            comment: parse_string(next_item)[1..].trim_start().to_string(),
         });
     }
 
-- 
2.43.0


From b75769fe01b30c2728b1ea4c5fc84a566feace38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:58 +0000
Subject: [PATCH 35/39] fix: keep the blanks in a value after an equals sign in
 the init file

---
 src/app.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app.rs b/src/app.rs
index 6a61879..11fa727 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -177,7 +177,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                                 rest.push_str(" ");
                                 rest.push_str(arg);
                             }
-                            if rest.len() > 0 {
+                            if option.contains('=') {
+                                // what comes after a blank belongs to the same value
+                                args.last_mut().unwrap().push_str(&rest);
+                            } else if rest.len() > 0 {
                                 args.push(rest.trim().to_string());
                             }
                         }
-- 
2.43.0


From 4be5971de4eed3de6c7f8978137928c7b65e4b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:19 +0000
Subject: [PATCH 36/39] fix: balance assertions and assignments count what
 automated transactions added before

The postings of automated transactions were added after all assertions had been checked, and the
assertions were then checked again with them: an assertion on an account that an automated
transaction posts to could not be met at all, and an assignment to it never was.
---
 src/models/mod.rs | 49 +++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index c43b2f3..8bdd9c3 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -173,6 +173,15 @@ impl ParsedLedger {
             balances.insert(account.clone(), Balance::new());
         }
 
+        // Build a cache of abstract value trees, it takes time to parse expressions, so better do it only once
+        let mut root_nodes = HashMap::new();
+        let mut regexes = HashMap::new();
+        for automated in automated_transactions.iter_mut() {
+            let query = automated.get_filter_query();
+            let node = build_root_node_from_expression(query.as_str(), &mut regexes);
+            root_nodes.insert(query, node);
+        }
+
         // Balance the transactions
         for t in transactions.iter_mut() {
             let date = t.date.unwrap().clone();
@@ -195,20 +204,9 @@ impl ParsedLedger {
 
                 prices.push(Price::new(date, commodity, price));
             }
-        }
-
-        // 5. Go over the transactions again and see if there is something we need to do with them
-        if automated_transactions.len() > 0 {
-            // Build a cache of abstract value trees, it takes time to parse expressions, so better do it only once
-            let mut root_nodes = HashMap::new();
-            let mut regexes = HashMap::new();
-            for automated in automated_transactions.iter_mut() {
-                let query = automated.get_filter_query();
-                let node = build_root_node_from_expression(query.as_str(), &mut regexes);
-                root_nodes.insert(query, node);
-            }
 
-            for t in transactions.iter_mut() {
+            // 5. See if there is something that automated transactions add to it
+            if automated_transactions.len() > 0 {
                 for automated in automated_transactions.iter_mut() {
                     let mut extra_postings = vec![];
 
@@ -300,18 +298,23 @@ impl ParsedLedger {
                     //     break;
                     // }
                 }
-            }
-            // Populate balances
-            let mut balances: HashMap<Rc<Account>, Balance> = HashMap::new();
-            for account in self.accounts.values() {
-                balances.insert(account.clone(), Balance::new());
-            }
 
-            // Balance the transactions
-            for t in transactions.iter_mut() {
-                // output_balances(&balances);
+                // What was added counts for the following transactions
+                let mut own_balances = HashMap::new();
+                for p in t.postings.borrow().iter() {
+                    own_balances.insert(p.account.clone(), Balance::new());
+                    if (p.origin == PostingOrigin::Automated) & (p.kind == PostingType::Real) {
+                        let balance = balances.remove(&p.account).unwrap_or(Balance::new());
+                        balances.insert(
+                            p.account.clone(),
+                            balance + Balance::from(p.amount.clone().unwrap()),
+                        );
+                    }
+                }
+
+                // It has to balance with it, the assertions have already been checked
                 // The prices implied by the transactions are already recorded
-                if let Err(e) = t.balance(&mut balances, no_checks) {
+                if let Err(e) = t.balance(&mut own_balances, true) {
                     eprintln!("{}", t);
                     return Err(e.into());
                 }
-- 
2.43.0


From ed24b4f5eb34945918b65ca6084f40587b98234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 37/39] fix: blanks behind a comment are not part of its tags
 and notes

---
 src/parser/tokenizers/comment.rs     | 2 +-
 src/parser/tokenizers/transaction.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/comment.rs b/src/parser/tokenizers/comment.rs
index 27e9061..15d75c5 100644
--- a/src/parser/tokenizers/comment.rs
+++ b/src/parser/tokenizers/comment.rs
@@ -30,6 +30,6 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Comment {
     tokenizer.line_position += 1;
     chars::consume_whitespaces(tokenizer);
     return Comment {
-        comment: chars::get_line(tokenizer),
+        comment: chars::get_line(tokenizer).trim_end().to_string(),
     };
 }
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index af75aab..66140a6 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -58,7 +58,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item)[1..].trim_start().to_string(),
+            comment: parse_string(next_item)[1..].trim().to_string(),
         });
     }
 
-- 
2.43.0


From 6df297cef5f1d9b1de3f0ee934f0b382bc6f2e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 38/39] fix: blanks behind an include, or a tab before its
 file, do not make it ignored

---
 src/parser/include.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index ad77fb1..9014ca2 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -6,7 +6,11 @@ use std::path::PathBuf;
 
 /// Handles include directive
 pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
-    chars::consume_str(tokenizer, &"include ".to_string())?;
+    chars::consume_str(tokenizer, &"include".to_string())?;
+    match tokenizer.get_char() {
+        Some(' ') | Some('\t') => (),
+        _ => return Err(tokenizer.error(ParserError::UnexpectedInput(None))),
+    }
     let mut pattern = String::new();
     let mut files: Vec<PathBuf> = Vec::new();
     if let Some(current_path) = tokenizer.file {
@@ -18,7 +22,7 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         parent.push('/');
         pattern.push_str(parent.as_str());
     }
-    pattern.push_str(chars::get_line(tokenizer).as_str());
+    pattern.push_str(chars::get_line(tokenizer).trim());
     for entry in glob(&pattern).expect("Failed to read glob pattern") {
         match entry {
             Ok(path) => {
-- 
2.43.0


From 5e30320304fc6eec74208c64f34516c4964280f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 39/39] fix: a tab can follow the keyword of a declaration

---
 src/parser/tokenizers/account.rs | 2 +-
 src/parser/tokenizers/payee.rs   | 2 +-
 src/parser/tokenizers/tag.rs     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index 90119d0..339c8d4 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -9,7 +9,7 @@ use std::collections::HashSet;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}",
-        r"(account) +"        , // directive commodity
+        r"(account)[ \t]+"        , // directive commodity
         r"(.*)"                 , // description
         ).as_str()).unwrap();
     }
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index 16370d8..9c581ab 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -12,7 +12,7 @@ use crate::ParserError;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
-        r"(payee) +"            , // payee directive
+        r"(payee)[ \t]+"            , // payee directive
         r"(.*?)"                , // description
         r"((?:  |\t)\s*;.*)?$"  , // note
         ).as_str()).unwrap();
diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index 52ef6b5..dd0f444 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -9,7 +9,7 @@ use crate::ParserError;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}",
-        r"(tag) +"        , // tag directive
+        r"(tag)[ \t]+"        , // tag directive
         r"(.*)"           , // description
         ).as_str()).unwrap();
     }
-- 
2.43.0

