From 8fcaa80d712c992d7d0cdb4b4ab7477ae77f9b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:31 +0000
Subject: [PATCH 01/15] fix: trimmed spans ending in a multi-byte character

trim_trailing_whitespace assumed the last non-whitespace character is one
byte, so a span ending in a multi-byte character resolved to empty content
and error_source_text panicked.
---
 src/trim.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trim.rs b/src/trim.rs
index 5922e1a..59151f1 100644
--- a/src/trim.rs
+++ b/src/trim.rs
@@ -3,8 +3,11 @@ use test_case::test_case;
 
 // adjust the span to exclude trailing whitespace
 pub fn trim_trailing_whitespace(content: &str, start: usize, end: usize) -> usize {
-    match &content[start..end].rfind(|c: char| !c.is_whitespace()) {
-        Some(i) => start + *i + 1,
+    match content[start..end]
+        .char_indices()
+        .rfind(|(_, c)| !c.is_whitespace())
+    {
+        Some((i, c)) => start + i + c.len_utf8(),
         None => end,
     }
 }
-- 
2.43.0


From 23b17177867752baa46bb94389769d35c5f0adfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:22 +0000
Subject: [PATCH 02/15] fix: currency validation panicked on non-ASCII text
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Currency::try_from mixed byte and character counts, so e.g.
option "operating_currency" "é" panicked instead of being reported.
---
 src/types.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 59919e0..9256698 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -9,7 +9,6 @@ use std::{
     collections::{HashMap, HashSet, hash_map},
     fmt::{self, Display, Formatter},
     hash::{Hash, Hasher},
-    iter::empty,
     mem::swap,
     ops::Deref,
 };
@@ -1691,16 +1690,8 @@ impl<'a> TryFrom<&'a str> for Currency<'a> {
         } else {
             let mut chars = s.chars();
             let first = chars.next().unwrap();
-            let intermediate: Vec<char> = if s.len() > 2 {
-                chars.by_ref().take(s.len() - 2).collect()
-            } else {
-                empty::<char>().collect()
-            };
-            let last = if s.len() > 1 {
-                chars.next().unwrap()
-            } else {
-                first
-            };
+            let last = chars.next_back().unwrap_or(first);
+            let intermediate: Vec<char> = chars.collect();
 
             use CurrencyErrorKind::*;
             if !Currency::is_valid_initial(&first) {
-- 
2.43.0


From 64b680ba305cc4ff8009906a623468fc6c498562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:22 +0000
Subject: [PATCH 03/15] fix: dates and times in non-ASCII digits panicked

\d matches decimal digits of every script, which parse_date and parse_time
then failed to convert.  Only ASCII digits make numbers, dates and times.
---
 src/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 99fae24..89f0b00 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -22,12 +22,12 @@ use unescaper::unescape;
 #[logos(subpattern ignored_whole_line= r"([*!&#?%:].*\r?\n)")] // rolled into end-of-line handling below
 #[logos(subpattern comment_to_eol= r"(;.*)")] // rolled into end-of-line handling below
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern time = r"\d{1,2}:\d{2}(:\d{2})?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern time = r"[0-9]{1,2}:[0-9]{2}(:[0-9]{2})?")]
 #[logos(subpattern account_type = r"[\p{Lu}\p{Lo}][\p{L}\p{N}\-]*")]
 #[logos(subpattern account_name = r"[\p{Lu}\p{Lo}\p{N}][\p{L}\p{N}\-]*")]
 #[logos(subpattern string_literal = r#""([^\\"]|\\.)*""#)]
-#[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
+#[logos(subpattern number = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?")]
 #[logos(subpattern tag_or_link_identifier = r"[A-Za-z0-9\-_/.]+")]
 #[logos(subpattern key = r"[a-z][a-zA-Z0-9\-_]+")]
 pub enum Token<'a> {
@@ -266,8 +266,8 @@ type SpannedToken<'a> = (Token<'a>, Span_);
 #[derive(Logos, Clone, Debug, PartialEq, Eq)]
 #[logos(error = LexerError)]
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern number = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?")]
 enum RecoveryToken {
     #[token("-")]
     Minus,
-- 
2.43.0


From ee74d9b22b9efc4675e8db9d899479d957914c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:22 +0000
Subject: [PATCH 04/15] fix: synthetic spans after a multi-byte fragment

The character index of a further fragment was offset by the number of
characters before it rather than bytes, giving wrong lines and report columns.
---
 src/sources.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 589d251..7081d2a 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -486,12 +486,7 @@ impl<'a> SyntheticSources<'a> {
                 end,
             };
 
-            let original_len = char_indices.len();
-            char_indices.extend(
-                content_fragment
-                    .char_indices()
-                    .map(|(i, _)| i + original_len),
-            );
+            char_indices.extend(content_fragment.char_indices().map(|(i, _)| i + start));
             content.push_str(content_fragment);
 
             span
-- 
2.43.0


From c0de6c436a93240ffdb8e9386b3d915fce7ee399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:40 +0000
Subject: [PATCH 05/15] fix: arithmetic expressions that cannot be evaluated
 panicked

Division by zero and decimal overflow in an expression are now reported as
parse errors at the expression.
---
 src/parsers.rs |  6 +++++-
 src/types.rs   | 40 +++++++++++++++++++++++-----------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index dc2b7ec..0795d31 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -1082,7 +1082,11 @@ pub(crate) fn expr_value<'s, I>() -> impl Parser<'s, I, ExprValue, Extra<'s>>
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    expr().map(ExprValue::from)
+    expr().try_map(|expr, span| {
+        ExprValue::checked_from(expr).ok_or_else(|| {
+            Rich::custom(span, "division by zero or value out of range".to_string())
+        })
+    })
 }
 
 /// Match an expression
diff --git a/src/types.rs b/src/types.rs
index 9256698..8167a50 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2208,6 +2208,14 @@ impl ExprValue {
     pub fn expr(&self) -> &Expr {
         &self.expr
     }
+
+    /// Evaluate the `Expr` rounding to the max scale it contains,
+    /// or `None` on division by zero or if some value is out of range.
+    pub(crate) fn checked_from(expr: Expr) -> Option<Self> {
+        let (mut value, scale) = expr.evaluate()?;
+        value.rescale(scale);
+        Some(Self { value, expr })
+    }
 }
 
 impl PartialEq<Decimal> for ExprValue {
@@ -2219,9 +2227,7 @@ impl PartialEq<Decimal> for ExprValue {
 impl From<Expr> for ExprValue {
     /// Evaluate the `Expr` rounding to the max scale it contains.
     fn from(expr: Expr) -> Self {
-        let (mut value, scale) = expr.evaluate();
-        value.rescale(scale);
-        Self { value, expr }
+        Self::checked_from(expr).expect("expression cannot be evaluated")
     }
 }
 
@@ -2251,31 +2257,31 @@ pub enum Expr {
 }
 
 impl Expr {
-    fn evaluate(&self) -> (Decimal, u32) {
-        fn evaluate_unary<F>(op: F, e1: &Expr) -> (Decimal, u32)
+    fn evaluate(&self) -> Option<(Decimal, u32)> {
+        fn evaluate_unary<F>(op: F, e1: &Expr) -> Option<(Decimal, u32)>
         where
             F: Fn(Decimal) -> Decimal,
         {
-            let (d1, s1) = e1.evaluate();
-            (op(d1), s1)
+            let (d1, s1) = e1.evaluate()?;
+            Some((op(d1), s1))
         }
 
-        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> (Decimal, u32)
+        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> Option<(Decimal, u32)>
         where
-            F: Fn(Decimal, Decimal) -> Decimal,
+            F: Fn(Decimal, Decimal) -> Option<Decimal>,
         {
-            let (d1, s1) = e1.evaluate();
-            let (d2, s2) = e2.evaluate();
-            (op(d1, d2), max(s1, s2))
+            let (d1, s1) = e1.evaluate()?;
+            let (d2, s2) = e2.evaluate()?;
+            Some((op(d1, d2)?, max(s1, s2)))
         }
 
         use Expr::*;
         match self {
-            Value(d) => (*d, d.scale()),
-            Add(e1, e2) => evaluate_binary(std::ops::Add::add, e1, e2),
-            Sub(e1, e2) => evaluate_binary(std::ops::Sub::sub, e1, e2),
-            Mul(e1, e2) => evaluate_binary(std::ops::Mul::mul, e1, e2),
-            Div(e1, e2) => evaluate_binary(std::ops::Div::div, e1, e2),
+            Value(d) => Some((*d, d.scale())),
+            Add(e1, e2) => evaluate_binary(Decimal::checked_add, e1, e2),
+            Sub(e1, e2) => evaluate_binary(Decimal::checked_sub, e1, e2),
+            Mul(e1, e2) => evaluate_binary(Decimal::checked_mul, e1, e2),
+            Div(e1, e2) => evaluate_binary(Decimal::checked_div, e1, e2),
             Neg(e1) => evaluate_unary(std::ops::Neg::neg, e1),
             Paren(e) => e.evaluate(),
         }
-- 
2.43.0


From 00c5fec9c8c928e6c9b5da709e9320511af1cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:58 +0000
Subject: [PATCH 06/15] fix: balance tolerance was rendered after the currency

---
 src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 8167a50..9e98412 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2421,7 +2421,11 @@ impl<'a> AmountWithTolerance<'a> {
 impl Display for AmountWithTolerance<'_> {
     fn fmt(&self, format: &mut Formatter<'_>) -> fmt::Result {
         if let Some(tolerance) = self.tolerance {
-            write!(format, "{} ~ {}", &self.amount, tolerance)
+            write!(
+                format,
+                "{} ~ {} {}",
+                &self.amount.number, tolerance, &self.amount.currency
+            )
         } else {
             write!(format, "{}", &self.amount)
         }
-- 
2.43.0


From b2d242d34dc7cf3175bbe9802461a30f54dd00b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:01 +0000
Subject: [PATCH 07/15] fix: total prices were rendered as per-unit prices with
 a hash

---
 src/types.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 9e98412..36531f8 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1784,7 +1784,16 @@ impl Display for Posting<'_> {
         simple_format(f, &self.amount, Some(" "))?;
         simple_format(f, self.currency, Some(" "))?;
         simple_format(f, &self.cost_spec, Some(" "))?;
-        simple_format(f, &self.price_annotation, Some(" @ "))?;
+        if let Some(price_annotation) = &self.price_annotation {
+            use PriceSpec::*;
+            use ScopedExprValue::Total;
+
+            match price_annotation.item() {
+                BareAmount(Total(e)) => write!(f, " @@ {}", e)?,
+                CurrencyAmount(Total(e), cur) => write!(f, " @@ {} {}", e, cur)?,
+                price_spec => write!(f, " @ {}", price_spec)?,
+            }
+        }
 
         self.metadata.fmt(f)
     }
-- 
2.43.0


From d4493b59eedd48cb44916cc42dfca8981e0c79cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:37 +0000
Subject: [PATCH 08/15] fix: strings were rendered without escaping quotes and
 backslashes

---
 src/format.rs |  5 +++--
 src/types.rs  | 40 ++++++++++++++++++++++++++++++----------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index a911537..99a5f76 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -59,12 +59,13 @@ where
     lazy_format!("'{s}'")
 }
 
-/// Format in double quotes.
+/// Format in double quotes, escaping any quotes or backslashes within.
 pub fn double_quoted<S>(s: S) -> impl Display
 where
     S: Display,
 {
-    lazy_format!("\"{s}\"")
+    let escaped = s.to_string().replace('\\', r"\\").replace('"', r#"\""#);
+    lazy_format!("\"{escaped}\"")
 }
 
 /// Format key/value.
diff --git a/src/types.rs b/src/types.rs
index 36531f8..dd7fce1 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1049,7 +1049,13 @@ pub struct Document<'a> {
 
 impl<'a> Document<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} document {} \"{}\"", date, self.account, self.path)?;
+        write!(
+            f,
+            "{} document {} {}",
+            date,
+            self.account,
+            double_quoted(&self.path)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1076,7 +1082,13 @@ pub struct Note<'a> {
 
 impl<'a> Note<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} note {} \"{}\"", date, self.account, self.comment)?;
+        write!(
+            f,
+            "{} note {} {}",
+            date,
+            self.account,
+            double_quoted(&self.comment)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1104,8 +1116,10 @@ impl<'a> Event<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
         write!(
             f,
-            "{} event \"{}\" \"{}\"",
-            date, self.event_type, self.description
+            "{} event {} {}",
+            date,
+            double_quoted(&self.event_type),
+            double_quoted(&self.description)
         )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
@@ -1132,7 +1146,13 @@ pub struct Query<'a> {
 
 impl<'a> Query<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} query \"{}\" \"{}\"", date, self.name, self.content)?;
+        write!(
+            f,
+            "{} query {} {}",
+            date,
+            double_quoted(&self.name),
+            double_quoted(&self.content)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1158,7 +1178,7 @@ pub struct Custom<'a> {
 
 impl<'a> Custom<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} custom \"{}\"", date, self.type_)?;
+        write!(f, "{} custom {}", date, double_quoted(&self.type_))?;
         format(f, &self.values, plain, SPACE, Some(SPACE))?;
         // show tags and links on separate lines rather than inline to avoid ambiguity with custom values
         metadata.fmt_tags_links_on_separate_lines(f)?;
@@ -1197,9 +1217,9 @@ impl<'a> Plugin<'a> {
 
 impl Display for Plugin<'_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        write!(f, "plugin \"{}\"", self.module_name)?;
+        write!(f, "plugin {}", double_quoted(&self.module_name))?;
         if let Some(config) = &self.config {
-            write!(f, " \"{}\"", config)?;
+            write!(f, " {}", double_quoted(config))?;
         }
         writeln!(f)
     }
@@ -1933,7 +1953,7 @@ impl Display for SimpleValue<'_> {
         use SimpleValue::*;
 
         match self {
-            String(x) => write!(f, r#""{}""#, x),
+            String(x) => write!(f, "{}", double_quoted(x)),
             Currency(x) => x.fmt(f),
             Account(x) => x.fmt(f),
             Tag(x) => x.fmt(f),
@@ -2568,7 +2588,7 @@ impl Display for CostSpec<'_> {
         }
 
         if let Some(label) = &self.label {
-            write!(f, "{}\"{}\"", sep, label)?;
+            write!(f, "{}{}", sep, double_quoted(label))?;
             sep = comma_space;
         }
 
-- 
2.43.0


From 7f4b7f7b5fdd8935787589990ce9dff93d624db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:30 +0000
Subject: [PATCH 09/15] fix: white space on the last line was a syntax error

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 89f0b00..5828367 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -591,6 +591,8 @@ where
         }
 
         match first_tok {
+            // an indent with nothing after it is trailing whitespace
+            Some((Token::EolThenIndent, span)) if second_tok.is_none() => Some((Token::Eol, span)),
             Some((Token::EolThenIndent, span)) => {
                 self.pending = [Some((Token::Indent, span.end - 1..span.end)), second_tok];
                 Some((Token::Eol, span))
-- 
2.43.0


From aa32fc14c87099c707fd2d88c32e9f947cd9701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:30 +0000
Subject: [PATCH 10/15] fix: section headings on the first or last line were
 syntax errors

---
 src/lexer.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 5828367..ef8a5c0 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -159,6 +159,8 @@ pub enum Token<'a> {
     EolThenIndent,
 
     #[regex(r"(?&comment_to_eol)?\r?\n(?&ignored_whole_line)*")]
+    // an ignored line without a following newline (occurs at EOF)
+    #[regex(r"(?&comment_to_eol)?\r?\n(?&ignored_whole_line)*[*!&#?%:][^\r\n]*", allow_greedy = true)]
     Eol,
 
     // A trailing comment without a following newline (occurs at EOF).
@@ -303,20 +305,31 @@ impl From<RecoveryToken> for Token<'_> {
 /// Lexing errors are returned as `Error` tokens.
 pub fn lex<'a>(s: &'a str) -> impl Iterator<Item = RangedToken<'a>> {
     let end_of_input = s.len()..s.len();
-    lex_with_final_eol(s, Some(end_of_input))
+    lex_with_final_eol(s, leading_ignored_lines_len(s), Some(end_of_input))
+}
+
+/// Length of the ignored lines at the start of the file, which have no preceding newline to be matched with.
+fn leading_ignored_lines_len(s: &str) -> usize {
+    s.split_inclusive('\n')
+        .take_while(|line| line.starts_with(['*', '!', '&', '#', '?', '%', ':']))
+        .map(str::len)
+        .sum()
 }
 
 /// Lex the input discarding empty lines.
 #[cfg(test)]
 pub fn bare_lex<'a>(s: &'a str) -> impl Iterator<Item = RangedToken<'a>> {
-    lex_with_final_eol(s, None)
+    lex_with_final_eol(s, 0, None)
 }
 
 fn lex_with_final_eol<'a>(
     s: &'a str,
+    skip_len: usize,
     final_eol: Option<Range<usize>>,
 ) -> impl Iterator<Item = RangedToken<'a>> {
-    Token::lexer(s)
+    let mut lexer = Token::lexer(s);
+    lexer.bump(skip_len);
+    lexer
         .spanned()
         .attempt_recovery(s)
         .keyword_then_colon_to_key()
-- 
2.43.0


From 5715f9cfc3652dfd4bf97dceaec3107461506cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:38 +0000
Subject: [PATCH 11/15] fix: the parse depended on the hash order of included
 files

---
 src/sources.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 7081d2a..feb5a55 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -350,22 +350,26 @@ impl BeancountSources {
     }
 
     pub(crate) fn content_iter(&self) -> impl Iterator<Item = (SourceId, Option<&Path>, &str)> {
+        let mut included = self
+            .included_content
+            .iter()
+            .filter_map(|(pathbuf, included_source)| {
+                if let IncludedSource::Content(source_id, content, _) = included_source {
+                    Some((*source_id, Some(pathbuf.as_path()), content.as_str()))
+                } else {
+                    None
+                }
+            })
+            .collect::<Vec<_>>();
+        // in the order they were included, since options in one file affect the parsing of those after it
+        included.sort_by_key(|(source_id, _, _)| Into::<usize>::into(*source_id));
+
         once((
             self.root_source_id,
             self.root_path.as_deref(),
             self.root_content.as_str(),
         ))
-        .chain(
-            self.included_content
-                .iter()
-                .filter_map(|(pathbuf, included_source)| {
-                    if let IncludedSource::Content(source_id, content, _) = included_source {
-                        Some((*source_id, Some(pathbuf.as_path()), content.as_str()))
-                    } else {
-                        None
-                    }
-                }),
-        )
+        .chain(included)
     }
 
     /// Number of real sources, excluding synthetic ones
-- 
2.43.0


From dc0a52f49bd0c461fc0a315c4c723daf5d5ce731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:20 +0000
Subject: [PATCH 12/15] fix: a file first included by another path to it was
 rejected as a duplicate

Included files are read breadth first and processed depth first, so the
first include to be processed may name the file by a path other than the
one it was read by.
---
 src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46715c4..463aa0d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -397,6 +397,24 @@ impl<'s> PragmaProcessor<'s> {
         }
     }
 
+    // the path by which the included file was read, which may be some other path to the same file
+    fn remaining_path<'a>(&'a self, included: &'a PathBuf) -> &'a PathBuf {
+        if self.remaining.contains_key(&Some(included.clone())) {
+            return included;
+        }
+
+        included
+            .canonicalize()
+            .ok()
+            .and_then(|canonical_path| {
+                self.remaining
+                    .keys()
+                    .flatten()
+                    .find(|path| path.canonicalize().is_ok_and(|p| p == canonical_path))
+            })
+            .unwrap_or(included)
+    }
+
     fn result(self) -> (Options<'s>, Vec<Plugin<'s>>, Vec<Error>, Vec<Warning>) {
         // any leftover tags or key/values is an error
         let mut errors = self.errors;
@@ -535,7 +553,8 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                                         }
 
                                         for included in paths {
-                                            let included = Some(included.clone());
+                                            let included =
+                                                Some(self.remaining_path(included).clone());
 
                                             match self.remaining.remove_entry(&included) {
                                                 Some((included_path, included_declarations)) => {
-- 
2.43.0


From 8b5ce2a5bc758ae1bc2bf7944d8e0f0025e45813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:36 +0000
Subject: [PATCH 13/15] fix: a repeated include was rejected if the same
 metadata had been pushed again in between

The positions of the pushed values were compared as well as the values.
---
 src/lib.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 463aa0d..a89b682 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -331,6 +331,22 @@ struct IncludeContext<'s> {
     span: Span,
 }
 
+// compare the pushed values, regardless of where they were pushed
+fn same_values<'s>(
+    a: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
+    b: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
+) -> bool {
+    a.len() == b.len()
+        && a.iter().all(|(key, a_values)| {
+            b.get(key).is_some_and(|b_values| {
+                a_values
+                    .iter()
+                    .map(|(_, value)| value)
+                    .eq(b_values.iter().map(|(_, value)| value))
+            })
+        })
+}
+
 fn fmt_include_context<'s>(
     tags: &HashMap<Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>>,
     meta_key_values: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
@@ -625,9 +641,11 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                                                                 .get(&canonical_path)
                                                             {
                                                                 if include_context.tags == self.tags
-                                                                    && include_context
-                                                                        .meta_key_values
-                                                                        == self.meta_key_values
+                                                                    && same_values(
+                                                                        &include_context
+                                                                            .meta_key_values,
+                                                                        &self.meta_key_values,
+                                                                    )
                                                                 {
                                                                     // include context is identical, so the include is harmless
                                                                     // and we ignore it
-- 
2.43.0


From ad64b321feb3879f880966bfa920a6e645488425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:35 +0000
Subject: [PATCH 14/15] fix: many pragmas in a row exhausted the stack

---
 src/lib.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a89b682..69684b8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -460,12 +460,10 @@ impl<'s> PragmaProcessor<'s> {
 
         (self.options, self.plugins, errors, warnings)
     }
-}
-
-impl<'s> Iterator for PragmaProcessor<'s> {
-    type Item = Spanned<Directive<'s>>;
 
-    fn next(&mut self) -> Option<Self::Item> {
+    /// Process one declaration, returning a directive or that there are no more,
+    /// or nothing if the next declaration is to be processed.
+    fn step(&mut self) -> Option<Option<Spanned<Directive<'s>>>> {
         match self.current_declarations.pop_front() {
             Some(declaration) => {
                 match declaration.item {
@@ -473,7 +471,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         directive.metadata.augment_tags(&self.tags);
                         directive.metadata.augment_key_values(&self.meta_key_values);
 
-                        Some(spanned(directive, declaration.span))
+                        Some(Some(spanned(directive, declaration.span)))
                     }
 
                     Declaration::Pragma(pragma) => {
@@ -688,7 +686,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         }
 
                         // having silently consumed a pragma, go on to the next declaration
-                        self.next()
+                        None
                     }
                 }
             }
@@ -696,14 +694,26 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                 Some((path, declarations)) => {
                     self.current_path = path;
                     self.current_declarations = declarations;
-                    self.next()
+                    None
                 }
-                None => None,
+                None => Some(None),
             },
         }
     }
 }
 
+impl<'s> Iterator for PragmaProcessor<'s> {
+    type Item = Spanned<Directive<'s>>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        loop {
+            if let Some(directive) = self.step() {
+                return directive;
+            }
+        }
+    }
+}
+
 fn end_of_input(source_id: SourceId, s: &str) -> Span_ {
     chumsky::span::Span::new(source_id, s.len()..s.len())
 }
-- 
2.43.0


From cac9de96e9e04eee33e996c4d034361fd8b50d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:39 +0000
Subject: [PATCH 15/15] fix: numbers of too many digits were rounded instead of
 rejected

---
 src/lexer.rs   | 9 +++------
 src/options.rs | 4 ++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ef8a5c0..20b1b54 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -6,7 +6,6 @@ use std::{
     error::Error,
     fmt::{self, Debug, Display, Formatter},
     ops::Range,
-    str::FromStr,
 };
 use time::{Date, Month, Time};
 use unescaper::unescape;
@@ -722,14 +721,12 @@ fn parse_number(s: &str) -> Result<Decimal, LexerError> {
     let result = if s.contains(',') {
         let mut without_commas = s.to_string();
         without_commas.retain(|c| c != ',');
-        FromStr::from_str(&without_commas)
+        Decimal::from_str_exact(&without_commas)
     } else {
-        FromStr::from_str(s)
+        Decimal::from_str_exact(s)
     };
 
-    result.map_err(|e: <rust_decimal::Decimal as std::str::FromStr>::Err| {
-        LexerError::new(e.to_string())
-    })
+    result.map_err(|e| LexerError::new(e.to_string()))
 }
 
 #[derive(PartialEq, Eq, Clone, Debug)]
diff --git a/src/options.rs b/src/options.rs
index e3f1288..edd5515 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -118,7 +118,7 @@ impl<'a> BeancountOption<'a> {
                 })
             }
 
-            "inferred_tolerance_multiplier" => Decimal::try_from(value.item)
+            "inferred_tolerance_multiplier" => Decimal::from_str_exact(value.item)
                 .map(InferredToleranceMultiplier)
                 .map_err(|e| BadValueErrorKind::Decimal(e).wrap()),
 
@@ -195,7 +195,7 @@ fn parse_inferred_tolerance_default<'a>(
         .by_ref()
         .next()
         .ok_or(Bad::MissingColon)
-        .and_then(|s| Decimal::try_from(s).map_err(Bad::Decimal))
+        .and_then(|s| Decimal::from_str_exact(s).map_err(Bad::Decimal))
         .map_err(Bad::wrap)?;
 
     if fields.next().is_none() {
-- 
2.43.0

