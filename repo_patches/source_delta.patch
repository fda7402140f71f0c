From 56a4ac316fa7bca063256b979e9578deb3357a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 01/15] fix: never report a reversed source range for a \kern
 or \hskip error

---
 crates/math-core/src/parser.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ad6ce85..6b3b86e 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3080,7 +3080,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let value: &str = &buf;
         if value.is_empty() {
             return Err(Box::new(LatexError(
-                arg_start.unwrap_or(span_end)..arg_end,
+                ordered_range(arg_start.unwrap_or(span_end), arg_end),
                 LatexErrKind::ExpectedLength("".into()),
             )));
         }
@@ -3109,7 +3109,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let start = unit_start.unwrap_or(peek_span.start());
                 let unit_str = core::str::from_utf8(&unit[..i]).unwrap_or("");
                 return Err(Box::new(LatexError(
-                    start..peek_span.start(),
+                    ordered_range(start, peek_span.start()),
                     LatexErrKind::InvalidUnit(KString::from_ref(unit_str)),
                 )));
             };
@@ -3120,7 +3120,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
         let unit = core::str::from_utf8(&unit).unwrap_or("");
 
-        let unit_span = unit_start.unwrap_or(arg_end)..arg_end;
+        let unit_span = ordered_range(unit_start.unwrap_or(arg_end), arg_end);
         let Ok(latex_unit) = LatexUnit::try_from(unit) else {
             return Err(Box::new(LatexError(
                 unit_span,
@@ -3137,7 +3137,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 },
             )));
         }
-        let arg_span = arg_start.unwrap_or(span_end)..arg_end;
+        let arg_span = ordered_range(arg_start.unwrap_or(span_end), arg_end);
         let Some(mut value) = limited_float_parse(value) else {
             buf.push_str(unit);
             return Err(Box::new(LatexError(
@@ -3321,6 +3321,14 @@ impl ParserState<'_> {
     }
 }
 
+/// The range from `start` to `end`, collapsed to an empty range if `end` comes before `start`.
+///
+/// That can happen because the tokens which come from the body of a custom command don't have
+/// the spans of the place where the command is used.
+fn ordered_range(start: usize, end: usize) -> Range<usize> {
+    start.min(end)..end
+}
+
 // Turn a vector of nodes into a single node.
 //
 // This is done either by returning the single node if there is only one,
-- 
2.43.0


From f0d44b5c567803325b235b27d1e76b562acfc679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 02/15] fix: keep U+FE0F attached to its base character when
 \not adds an overlay

---
 crates/math-core/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 6b3b86e..021827c 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1152,7 +1152,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         return s.len();
                     };
 
-                    if matches!(snd_char, '\u{FE00}'..'\u{FE0F}') {
+                    if matches!(snd_char, '\u{FE00}'..='\u{FE0F}') {
                         // There's a variation selector (3 bytes in utf8)
                         after_first_char_idx + 3
                     } else {
-- 
2.43.0


From a8db2a6f2a30a1922ed76fd46ef60bb2ca247e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 03/15] fix: escape operator names and unknown command names in
 the output

---
 crates/mathml-renderer/src/ast.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 5f77263..4964a50 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -356,7 +356,7 @@ impl<'state> Emitter<'state> {
                 name,
             } => {
                 emit_operator_attributes(&mut self.s, attrs, left, right)?;
-                write!(self.s, ">{name}</mo>")?;
+                write!(self.s, ">{}</mo>", EscapeHtml(name))?;
             }
             Node::IdentifierStr(letters) => {
                 // The "<mrow>" with "<mspace/>" is needed to prevent Firefox from adding
@@ -812,8 +812,9 @@ impl<'state> Emitter<'state> {
                 self.warnings.set_unknown_commands();
                 write!(
                     self.s,
-                    r#"<merror class="{}"><mtext>\{cmd_name}</mtext></merror>"#,
-                    self.css_classes.unknown_command
+                    r#"<merror class="{}"><mtext>\{}</mtext></merror>"#,
+                    self.css_classes.unknown_command,
+                    EscapeHtml(cmd_name)
                 )?;
             }
         }
-- 
2.43.0


From 3f37b4be419ba51dfa65c128039ae678d82f6055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 04/15] fix: report the error of the failed conversion instead
 of converting again

---
 crates/math-core-cli/src/replace.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index c9514b5..68f0602 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -185,18 +185,13 @@ impl<'args> Replacer<'args> {
             // Replace HTML entities
             let replaced = replace_html_entities(&mut self.entity_buffer, content);
             // Convert the content and check for error.
-            let is_error = { f(state, &mut result, replaced, open_typ).is_err() };
-            if is_error {
+            if let Err(latex_error) = f(state, &mut result, replaced, open_typ) {
                 // If we stop on error, return the error together with the snippet.
-                // Unfortunately, due to limitations in the borrow checker, we have to run the
-                // conversion again to get the error.
-                // The reason seems to be that the borrow checker cannot tell that when we
-                // return `replaced` here, we are not maintaining the borrow for the next
-                // iteration of the loop.
-                // This is quite unfortunate, but we only have to do this in the error case,
-                // which is hopefully not too common.
+                // Unfortunately, due to limitations in the borrow checker, we have to replace the
+                // entities again in order to return the snippet: the borrow checker cannot tell
+                // that when we return `replaced` here, we are not maintaining the borrow for the
+                // next iteration of the loop.
                 let replaced = replace_html_entities(&mut self.entity_buffer, content);
-                let latex_error = f(state, &mut result, replaced, open_typ).unwrap_err();
                 return Err(ConversionError(
                     start,
                     ConvErrKind::LatexError(*latex_error, replaced),
-- 
2.43.0


From 6031c96f6c6b1c9fa102a5349a1f248b843fbd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 05/15] fix: keep cell and row separators out of groups,
 arguments and declarations

A separator inside a group, an argument, a declaration like \displaystyle, with a script
attached or before an infix fraction ended up inside another node, where the emitter cannot
write it: a panic with debug assertions, otherwise a lost cell or row.
---
 crates/math-core/src/environments.rs |  16 ++++
 crates/math-core/src/parser.rs       | 121 +++++++++++++++++++--------
 2 files changed, 101 insertions(+), 36 deletions(-)

diff --git a/crates/math-core/src/environments.rs b/crates/math-core/src/environments.rs
index f4d4796..14476c6 100644
--- a/crates/math-core/src/environments.rs
+++ b/crates/math-core/src/environments.rs
@@ -12,6 +12,7 @@ use mathml_renderer::{
 };
 
 use crate::character_class::{StretchableOp, fenced};
+use crate::token::Token;
 
 static ENVIRONMENTS: phf::Map<&'static str, Env> = phf::phf_map! {
     "array" => Env::Array,
@@ -151,6 +152,7 @@ impl Env {
             allow_columns: self.allows_columns(),
             meaningful_newlines: !matches!(self, Env::Equation | Env::EquationStar),
             allow_hlines: self.allows_hlines(),
+            in_cell: false,
             numbered: self.get_numbered_env_state(),
         }
     }
@@ -322,9 +324,23 @@ pub struct EnvState<'arena> {
     /// `true` if we are inside an environment where `\hline` and `\hdashline` are allowed
     /// (directly after `\\` or at the start of the environment).
     pub allow_hlines: bool,
+    /// `true` if we are directly in a cell of the environment, not in a group or an argument.
+    pub in_cell: bool,
     pub numbered: Option<NumberedEnvState<'arena>>,
 }
 
+impl EnvState<'_> {
+    /// Whether `token` ends the current cell here.
+    pub(super) fn separates_cells(&self, token: &Token) -> bool {
+        self.in_cell
+            && match token {
+                Token::NewColumn => self.allow_columns,
+                Token::NewLine => self.meaningful_newlines,
+                _ => false,
+            }
+    }
+}
+
 #[derive(Clone, Copy, Debug, Default, PartialEq)]
 pub(super) enum NumberingMode {
     #[default]
diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 021827c..c046833 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -120,6 +120,17 @@ enum ControlFlow {
     ProcessToken,
 }
 
+/// The numerator, whether there is a fraction line, and the delimiters of an infix fraction.
+type InfixFrac<'arena> = (Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>);
+
+/// The index of the first node of the last cell in `nodes`.
+fn cell_start(nodes: &[&Node<'_>]) -> usize {
+    nodes
+        .iter()
+        .rposition(|node| matches!(node, Node::ColumnSeparator | Node::RowSeparator { .. }))
+        .map_or(0, |index| index + 1)
+}
+
 /// What one token turned into.
 enum Parsed<'arena> {
     Node(Class, &'arena Node<'arena>),
@@ -205,14 +216,32 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         keep_end_token: bool,
     ) -> ParseResult<Vec<&'arena Node<'arena>>> {
         let mut nodes = Vec::new();
-        let mut infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)> = None;
+        let mut infix_frac: Option<InfixFrac<'arena>> = None;
 
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
         let old_style = self.state.style;
+        // The separators of an environment may only appear in its outermost sequence, not in
+        // groups or arguments. A declaration like `\displaystyle` does not start a group.
+        let old_in_cell = self.state.env.in_cell;
+        self.state.env.in_cell = match sequence_end {
+            SequenceEnd::EndToken(end_token) => matches!(end_token, EndToken::End),
+            SequenceEnd::AnyEndToken => old_in_cell,
+        };
 
         // Because we don't want to consume the end token, we just peek here.
         while !sequence_end.matches(self.tokens.peek().token()) {
+            if self.state.env.separates_cells(self.tokens.peek().token()) {
+                if matches!(sequence_end, SequenceEnd::AnyEndToken) {
+                    // Declarations end with the cell they appear in.
+                    break;
+                }
+                if let Some(infix_frac) = infix_frac.take() {
+                    // An infix fraction does as well.
+                    self.finish_infix_frac(&mut nodes, infix_frac);
+                    self.state.style = old_style;
+                }
+            }
             // Check whether we need to collect letters.
             let (class, target) = if let Some(collected) = self.merge_and_transform_letters()? {
                 collected
@@ -235,6 +264,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             };
             prev_class = class;
 
+            if matches!(target, Node::ColumnSeparator | Node::RowSeparator { .. }) {
+                nodes.push(target);
+                continue;
+            }
+
             // Check if there are any superscripts or subscripts following the parsed node.
             let bounds = self.get_bounds(None)?.ensure_no_explicit_limits()?;
 
@@ -260,37 +294,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // If there are superscripts or subscripts, we need to wrap the node we just got into
             // one of the node types for superscripts and subscripts.
         }
-        if let Some((numerator, with_line, delim)) = infix_frac {
-            let denominator = mem::replace(&mut nodes, Vec::with_capacity(1));
-            let (lt_value, lt_unit) = if with_line {
-                Length::none().into_parts()
-            } else {
-                Length::zero().into_parts()
-            };
-            let frac = self.commit(Node::Frac {
-                num: node_vec_to_node(self.arena, &numerator, false),
-                denom: node_vec_to_node(self.arena, &denominator, false),
-                lt_value,
-                lt_unit,
-                attr: None,
-            });
-            let node = if let Some(delim) = delim {
-                let (open, close) = match delim {
-                    InfixDelim::Paren => (OPEN_PAREN, CLOSE_PAREN),
-                    InfixDelim::Brace => (OPEN_BRACE, CLOSE_BRACE),
-                    InfixDelim::Brack => (OPEN_BRACKET, CLOSE_BRACKET),
-                };
-                self.commit(fenced(
-                    self.arena,
-                    vec![frac],
-                    Some(open),
-                    Some(close),
-                    None,
-                ))
-            } else {
-                frac
-            };
-            nodes.push(node);
+        if let Some(infix_frac) = infix_frac {
+            self.finish_infix_frac(&mut nodes, infix_frac);
         }
         if !keep_end_token {
             // Discard the end token.
@@ -298,16 +303,55 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
         self.state.transform = old_tf;
         self.state.style = old_style;
+        self.state.env.in_cell = old_in_cell;
         Ok(nodes)
     }
 
+    /// Turn the nodes of the current cell into the denominator of an infix fraction.
+    fn finish_infix_frac(
+        &mut self,
+        nodes: &mut Vec<&'arena Node<'arena>>,
+        (numerator, with_line, delim): InfixFrac<'arena>,
+    ) {
+        let denominator = nodes.split_off(cell_start(nodes));
+        let (lt_value, lt_unit) = if with_line {
+            Length::none().into_parts()
+        } else {
+            Length::zero().into_parts()
+        };
+        let frac = self.commit(Node::Frac {
+            num: node_vec_to_node(self.arena, &numerator, false),
+            denom: node_vec_to_node(self.arena, &denominator, false),
+            lt_value,
+            lt_unit,
+            attr: None,
+        });
+        let node = if let Some(delim) = delim {
+            let (open, close) = match delim {
+                InfixDelim::Paren => (OPEN_PAREN, CLOSE_PAREN),
+                InfixDelim::Brace => (OPEN_BRACE, CLOSE_BRACE),
+                InfixDelim::Brack => (OPEN_BRACKET, CLOSE_BRACKET),
+            };
+            self.commit(fenced(
+                self.arena,
+                vec![frac],
+                Some(open),
+                Some(close),
+                None,
+            ))
+        } else {
+            frac
+        };
+        nodes.push(node);
+    }
+
     #[inline]
     fn handle_tokens_without_output(
         &mut self,
         tokspan: &TokSpan,
         sequence_end: SequenceEnd,
         collected_nodes: &mut Vec<&'arena Node<'arena>>,
-        infix_frac: &mut Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
+        infix_frac: &mut Option<InfixFrac<'arena>>,
     ) -> ParseResult<ControlFlow> {
         let span = tokspan.span().into();
         let result: Result<(), LatexError> = match *tokspan.token() {
@@ -321,7 +365,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::InfixGenFrac { with_line, delim } => {
                 if infix_frac.is_none() {
-                    *infix_frac = Some((mem::take(collected_nodes), with_line, delim));
+                    let numerator = collected_nodes.split_off(cell_start(collected_nodes));
+                    *infix_frac = Some((numerator, with_line, delim));
                     // The numerator was already parsed in the surrounding style (we only
                     // learn it's a fraction here), but we can at least shrink the style
                     // for the denominator. `parse_sequence` restores the style on exit.
@@ -1687,7 +1732,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 ));
             }
             Token::NewColumn => {
-                if self.state.env.allow_columns {
+                if matches!(parse_as, ParseAs::Sequence)
+                    && self.state.env.separates_cells(&Token::NewColumn)
+                {
                     class = Class::Close;
                     Ok(Node::ColumnSeparator)
                 } else {
@@ -1716,7 +1763,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::NewLine => 'new_line: {
                 class = Class::Open;
-                if !self.state.env.meaningful_newlines {
+                if !matches!(parse_as, ParseAs::Sequence)
+                    || !self.state.env.separates_cells(&Token::NewLine)
+                {
                     // FIXME: Return something other than a row here, so that we can avoid creating
                     //       empty rows in places where they are not needed.
                     break 'new_line Ok(Node::EMPTY_ROW);
-- 
2.43.0


From 4096acf3df98fb48097b318afdbced179c0a7422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 06/15] fix: bound the number of queued tokens and skip comment
 lines without recursion

---
 crates/math-core/src/lexer.rs       | 23 ++++++++---------
 crates/math-core/src/parser.rs      |  4 +--
 crates/math-core/src/token_queue.rs | 38 ++++++++++++++++++++++-------
 3 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index e8ceda5..c5009e9 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -144,14 +144,11 @@ impl<'source> Lexer<'source> {
             return Ok(LexerOutput::Token(TokSpan::new(Token::Whitespace, span)));
         }
 
-        let (loc, ch) = self.read_char();
-        let Some(ch) = ch else {
-            return Ok(LexerOutput::Token(TokSpan::new(
-                Token::Eoi,
-                Span::zero_width(loc),
-            )));
-        };
-        if ch == '%' {
+        let (loc, ch) = loop {
+            let (loc, ch) = self.read_char();
+            if ch != Some('%') {
+                break (loc, ch);
+            }
             // Skip comments.
             while self.peek.1 != Some('\n') && self.peek.1.is_some() {
                 self.read_char();
@@ -160,9 +157,13 @@ impl<'source> Lexer<'source> {
             // TeX skips whitespace on the line after a comment.
             // This also prevents two whitespace tokens following each other.
             self.skip_whitespace();
-            // FIXME: use `become` here when stabilized.
-            return self.next_token();
-        }
+        };
+        let Some(ch) = ch else {
+            return Ok(LexerOutput::Token(TokSpan::new(
+                Token::Eoi,
+                Span::zero_width(loc),
+            )));
+        };
         let mut span = Span::new(loc, loc + ch.len_utf8());
         let tok = match ch {
             '\u{0}' => {
diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index c046833..03b8233 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2322,7 +2322,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 self.count_expansion(span)?;
                 self.read_cmd_args(num_args)?;
                 self.tokens
-                    .queue_body_substituting(token_stream, &self.state.cmd_args, span);
+                    .queue_body_substituting(token_stream, &self.state.cmd_args, span)?;
                 return Ok(Parsed::Expansion);
             }
             Token::CustomCmdRef(source, num_args, _, start, end) => {
@@ -2334,7 +2334,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     end,
                     &self.state.cmd_args,
                     span,
-                ) {
+                )? {
                     return Err(Box::new(LatexError(span.into(), LatexErrKind::Internal)));
                 }
                 return Ok(Parsed::Expansion);
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 2447548..cade1a7 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -172,6 +172,13 @@ impl Stores<'_, '_> {
     }
 }
 
+/// How many tokens may be waiting in the queue when a custom command is expanded.
+///
+/// The number of expansions is limited, but a command which repeats its argument can double the
+/// number of tokens with every expansion, so that on its own does not keep the queue from
+/// growing without bounds.
+const MAX_QUEUED_TOKENS: usize = 1 << 16;
+
 static EOI_TOK: QueuedTok<'static> =
     QueuedTok::new(TokSpan::new(Token::Eoi, Span::zero_width(0)), None);
 
@@ -535,20 +542,21 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// an empty body.
     ///
     /// Always queues at least one token, so that the caller can parse the expansion by
-    /// simply taking the next token.
+    /// simply taking the next token. Fails if there would be too many tokens in the queue.
     pub(super) fn queue_body_substituting(
         &mut self,
         tokens: &[Token],
         args: &CmdArgs<'arena>,
         span: Span,
-    ) {
+    ) -> Result<(), Box<LatexError>> {
         if tokens.is_empty() {
             self.queue_empty_body(span);
-            return;
+            return Ok(());
         }
         self.queue.reserve(tokens.len());
         // Queue the token stream in the front in reverse order.
         for tok in tokens.iter().rev() {
+            check_queue_len(&self.queue, span)?;
             match *tok {
                 Token::CustomCmdArg(arg_num) => {
                     push_arg_front(&mut self.queue, args.get(arg_num), span);
@@ -557,6 +565,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             }
         }
         self.update_next_non_whitespace();
+        Ok(())
     }
 
     /// Queue the body of a custom command which is kept in one of the stores, as
@@ -567,8 +576,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     /// can be borrowed at once.
     ///
     /// Returns `false` if the range doesn't name a body in that store, which can only happen
-    /// if something has gone wrong.
-    #[must_use]
+    /// if something has gone wrong. Fails if there would be too many tokens in the queue.
     pub(super) fn queue_stored_body_substituting(
         &mut self,
         source: CmdSource,
@@ -576,17 +584,18 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         end: usize,
         args: &CmdArgs<'arena>,
         span: Span,
-    ) -> bool {
+    ) -> Result<bool, Box<LatexError>> {
         let Some(body) = self.stores.get_body(source, start, end) else {
-            return false;
+            return Ok(false);
         };
         if body.is_empty() {
             self.queue_empty_body(span);
-            return true;
+            return Ok(true);
         }
         self.queue.reserve(body.len());
         // Queue the token stream in the front in reverse order.
         for recorded in body.iter().rev() {
+            check_queue_len(&self.queue, span)?;
             match recorded {
                 RecordedToken::Token(Token::CustomCmdArg(arg_num)) => {
                     push_arg_front(&mut self.queue, args.get(*arg_num), span);
@@ -610,7 +619,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             }
         }
         self.update_next_non_whitespace();
-        true
+        Ok(true)
     }
 
     /// Queue what the body of a custom command with no tokens in it expands to.
@@ -930,6 +939,17 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
     }
 }
 
+/// Fail if there are too many tokens in the queue; see [`MAX_QUEUED_TOKENS`].
+fn check_queue_len(queue: &VecDeque<QueuedTok<'_>>, span: Span) -> Result<(), Box<LatexError>> {
+    if queue.len() > MAX_QUEUED_TOKENS {
+        return Err(Box::new(LatexError(
+            span.into(),
+            LatexErrKind::HardLimitExceeded,
+        )));
+    }
+    Ok(())
+}
+
 /// Queue the tokens of one argument of a custom command in the front of the buffer.
 ///
 /// An argument with no tokens is queued as an empty group, because an empty argument is
-- 
2.43.0


From 417271fc6823afc354985b3ca8dfa65a324cf681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 07/15] fix: reject colour specifications with wrong digits,
 components out of range or extra components

---
 crates/math-core/src/parser.rs | 36 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 03b8233..9a007cd 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1914,8 +1914,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     match type_name {
                         "rgb" => {
                             let mut parts = split_on_ascii(color_description, b',');
-                            let (Some(r), Some(g), Some(b)) =
-                                (parts.next(), parts.next(), parts.next())
+                            let (Some(r), Some(g), Some(b), None) =
+                                (parts.next(), parts.next(), parts.next(), parts.next())
                             else {
                                 break 'color Err(LatexError(
                                     span,
@@ -1924,10 +1924,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                                     )),
                                 ));
                             };
+                            let in_range = |v: &f32| (0.0..=1.0).contains(v);
                             let (Some(r), Some(g), Some(b)) = (
-                                limited_float_parse(r.trim()),
-                                limited_float_parse(g.trim()),
-                                limited_float_parse(b.trim()),
+                                limited_float_parse(r.trim()).filter(in_range),
+                                limited_float_parse(g.trim()).filter(in_range),
+                                limited_float_parse(b.trim()).filter(in_range),
                             ) else {
                                 break 'color Err(LatexError(
                                     span,
@@ -1944,8 +1945,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         }
                         "RGB" => {
                             let mut parts = split_on_ascii(color_description, b',');
-                            let (Some(r), Some(g), Some(b)) =
-                                (parts.next(), parts.next(), parts.next())
+                            let (Some(r), Some(g), Some(b), None) =
+                                (parts.next(), parts.next(), parts.next(), parts.next())
                             else {
                                 break 'color Err(LatexError(
                                     span,
@@ -1954,10 +1955,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                                     )),
                                 ));
                             };
+                            let in_range = |v: &f32| (0.0..=255.0).contains(v);
                             let (Some(r), Some(g), Some(b)) = (
-                                limited_float_parse(r.trim()),
-                                limited_float_parse(g.trim()),
-                                limited_float_parse(b.trim()),
+                                limited_float_parse(r.trim()).filter(in_range),
+                                limited_float_parse(g.trim()).filter(in_range),
+                                limited_float_parse(b.trim()).filter(in_range),
                             ) else {
                                 break 'color Err(LatexError(
                                     span,
@@ -1978,11 +1980,15 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                                 }
                             }
                             match color_description.as_bytes() {
-                                &[r1, r2, g1, g2, b1, b2] => (
-                                    hex(r1) * 16 + hex(r2),
-                                    hex(g1) * 16 + hex(g2),
-                                    hex(b1) * 16 + hex(b2),
-                                ),
+                                digits @ &[r1, r2, g1, g2, b1, b2]
+                                    if digits.iter().all(u8::is_ascii_hexdigit) =>
+                                {
+                                    (
+                                        hex(r1) * 16 + hex(r2),
+                                        hex(g1) * 16 + hex(g2),
+                                        hex(b1) * 16 + hex(b2),
+                                    )
+                                }
                                 _ => {
                                     break 'color Err(LatexError(
                                         span,
-- 
2.43.0


From 2a4fe0578f18e3048ea2f4d09de027c616178914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 08/15] fix: never write two stretchy attributes on one
 operator

\mathrel{\Big/} and \mathrel{\middle|} gave <mo stretchy="false" stretchy="true">.
---
 crates/math-core/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 9a007cd..71f9283 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -810,7 +810,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         right: _,
                     } => Ok(Node::Operator {
                         op,
-                        attrs: attrs | OpAttrs::STRETCHY_FALSE,
+                        // An operator that is explicitly stretchy (from `\middle` or `\big`)
+                        // stays so; the two attributes exclude each other.
+                        attrs: if attrs.contains(OpAttrs::STRETCHY_TRUE) {
+                            attrs
+                        } else {
+                            attrs | OpAttrs::STRETCHY_FALSE
+                        },
                         left,
                         right,
                         size,
-- 
2.43.0


From 2a9cdfe9e8d9a5d774e18438b61a54d97221b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 09/15] fix: a separator can't be the argument of a math class
 command

\begin{matrix}a\mathopen &b\end{matrix} lost the cell (and panicked with debug assertions).
---
 crates/math-core/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 71f9283..626db67 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -758,7 +758,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::MathClass(kind) => {
                 let tok_span = self.next_token()?;
+                // The argument can't be a separator of the environment we are in.
+                let old_in_cell = mem::replace(&mut self.state.env.in_cell, false);
                 let (_, node) = self.parse_token(Ok(tok_span), parse_as, prev_class)?;
+                self.state.env.in_cell = old_in_cell;
                 // Recompute the next class:
                 let next_class = self.peek_class_token(parse_as.in_sequence())?;
                 let (left, right) = match kind {
-- 
2.43.0


From 4fd4fb262d766c7c8793763adc7151c4a63448bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 10/15] fix: an expansion that is blank or starts with a
 declaration doesn't swallow what follows

{a\x} with \def\x{ } reported an unmatched brace, and \def\y{\over}a\y b failed.
---
 crates/math-core/src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 626db67..2a4017e 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -260,7 +260,17 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     }
                 }
                 // Parse the token.
-                self.parse_token(cur_tokloc, ParseAs::Sequence, prev_class)?
+                match self.parse_one_token(cur_tokloc, ParseAs::Sequence, prev_class)? {
+                    Parsed::Node(class, node) => (class, node),
+                    // An empty expansion leaves an empty group behind.
+                    Parsed::Expansion if matches!(self.tokens.peek().token(), Token::Relax) => {
+                        let relax = self.next_token();
+                        self.parse_token(relax, ParseAs::Sequence, prev_class)?
+                    }
+                    // Any other expansion may be blank or start with a token which is handled
+                    // above, so we go around again.
+                    Parsed::Expansion => continue,
+                }
             };
             prev_class = class;
 
-- 
2.43.0


From c7de2528b0bd135ba353fe6f3d86916d623fc32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:20 +0000
Subject: [PATCH 11/15] fix: an escaped delimiter no longer hides a delimiter
 that overlaps it

With escape handling on, `\$$$x$$` is an escaped dollar followed by block math, but the
search skipped the whole escaped `$$` and so missed the block delimiter starting inside it.
---
 crates/math-core-cli/src/replace.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index 68f0602..f00d666 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -236,8 +236,8 @@ impl<'args> Replacer<'args> {
             let end = window.min(input.len());
             let haystack = &input[..end];
 
-            let inline_result = self.find_delimiter_position(haystack, inline_finder, inline_len);
-            let block_result = self.find_delimiter_position(haystack, block_finder, block_len);
+            let inline_result = self.find_delimiter_position(haystack, inline_finder);
+            let block_result = self.find_delimiter_position(haystack, block_finder);
 
             // Take the closest delimiter, with block display taking priority on ties.
             let found = match (inline_result, block_result) {
@@ -272,12 +272,7 @@ impl<'args> Replacer<'args> {
     }
 
     /// Helper function to find the next unescaped delimiter position
-    fn find_delimiter_position(
-        &self,
-        input: &[u8],
-        finder: &Finder,
-        delimiter_len: usize,
-    ) -> Option<usize> {
+    fn find_delimiter_position(&self, input: &[u8], finder: &Finder) -> Option<usize> {
         if !self.ignore_escaped_delim {
             return finder.find(input);
         }
@@ -289,8 +284,8 @@ impl<'args> Replacer<'args> {
 
             // Check if this delimiter is escaped
             if absolute_pos > 0 && input[absolute_pos - 1] == b'\\' {
-                // Skip past this escaped delimiter
-                offset = absolute_pos + delimiter_len;
+                // Only skip the escaped byte: another delimiter may start inside the escaped one
+                offset = absolute_pos + 1;
                 continue;
             }
 
-- 
2.43.0


From 3fa32fd515bc07295eb94f580087157b605aa6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 12/15] fix: labels above and below symbols and arrows are in
 second-order script style inside scripts

---
 crates/math-core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 2a4017e..a81fa54 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1063,7 +1063,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 }
             }
             Token::Overset | Token::Underset => {
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let inner_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, inner_style);
                 let symbol = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
                 let token = self.next_token();
@@ -2268,7 +2269,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // Parse the over-argument in the same state the original token-stream
                 // expansion used: `style` is set by the outer `\overset`, and
                 // `right_boundary_hack` is set by the inner `\overset`'s target group.
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let inner_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, inner_style);
                 let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, true);
 
                 // Optional under-argument in square brackets (e.g. `\xrightarrow[a]{b}`),
-- 
2.43.0


From 180237e8421a891139bafd9216c843c010471175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 13/15] fix: the edges of the numerator and denominator of an
 infix fraction are edges of a formula

---
 crates/math-core/src/parser.rs | 8 +++++++-
 crates/math-core/src/token.rs  | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index a81fa54..f492384 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -249,13 +249,19 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // Get the current token.
                 let cur_tokloc = self.next_token();
                 if let Ok(tokloc) = &cur_tokloc {
+                    let starts_denominator = matches!(tokloc.token(), Token::InfixGenFrac { .. });
                     match self.handle_tokens_without_output(
                         tokloc,
                         sequence_end,
                         &mut nodes,
                         &mut infix_frac,
                     )? {
-                        ControlFlow::SkipToken => continue,
+                        ControlFlow::SkipToken => {
+                            if starts_denominator {
+                                prev_class = Class::Open;
+                            }
+                            continue;
+                        }
                         ControlFlow::ProcessToken => {}
                     }
                 }
diff --git a/crates/math-core/src/token.rs b/crates/math-core/src/token.rs
index 0674478..3eb0158 100644
--- a/crates/math-core/src/token.rs
+++ b/crates/math-core/src/token.rs
@@ -561,7 +561,10 @@ impl Token {
             | PseudoOperator(_)
             | PseudoOperatorLimits(_)
             | OperatorName { .. } => Some(Class::Operator),
-            End(_) | NewLine | NewColumn | GroupEnd | Eoi => Some(Class::End),
+            // An infix fraction command ends the numerator.
+            End(_) | NewLine | NewColumn | GroupEnd | Eoi | InfixGenFrac { .. } => {
+                Some(Class::End)
+            }
             Inner(_) | ForceMathInner(_) | Dots => Some(Class::Inner),
             Big(_, Some(paren_type)) => Some(match paren_type {
                 ParenType::Left => Class::Open,
@@ -623,7 +626,6 @@ impl Token {
             | Digit(_)
             | Big(_, None)
             | Frac(_)
-            | InfixGenFrac { .. }
             | Genfrac
             | Underscore
             | Circumflex
-- 
2.43.0


From 483d18f8bbb1e84f5df54063f06351a26bec5a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 14/15] fix: a single-token macro argument keeps its meaning in
 text

---
 crates/math-core/src/parser.rs      |  2 +-
 crates/math-core/src/token_queue.rs | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index f492384..a8cbad7 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2753,7 +2753,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         for arg_num in 0..num_args {
             // The tokens keep the names they came from, so that an argument which is
             // substituted into a `\newcommand` can be recorded by name like any other token.
-            let queued = self.tokens.next_keeping_name()?;
+            let queued = self.tokens.next_preserving_mode()?;
             match queued.token() {
                 Token::GroupBegin => {
                     self.tokens
diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index cade1a7..ddacd2e 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -433,6 +433,17 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         Ok(ret)
     }
 
+    /// Same as [`Self::next_keeping_name`], but a [`Token::MathOrTextMode`] is not unwrapped.
+    ///
+    /// This is for tokens which are queued again, because they may then end up in text mode.
+    pub(super) fn next_preserving_mode(&mut self) -> Result<QueuedTok<'arena>, Box<LatexError>> {
+        for _ in 0..self.next_non_whitespace {
+            let _ = self.queue.pop_front();
+        }
+        self.next_non_whitespace = 0;
+        self.next_any_token_keeping_name()
+    }
+
     /// Same as [`Self::next`], but unknown commands are returned as tokens instead of
     /// being rejected.
     ///
-- 
2.43.0


From 29d1c57102bbf2875ca66fdbe7b7afac53e91e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 15/15] fix: a command defined with \def is known to the tokens
 already buffered

A token from the body of another command carries no name, so the update by
name missed it, and a command defined in an argument of that command was
still reported as unknown right after its definition.
---
 crates/math-core/src/token_queue.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index ddacd2e..0cd53b8 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -718,11 +718,11 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
             if let Some(tok) = store.get(name, source) {
                 self.resolve_buffered_redefined_command(name, tok);
             }
-        } else {
-            // The token after the definition has already been loaded, so it may still say
-            // "unknown command" for the command we have just defined.
-            self.resolve_buffered_unknown_commands();
         }
+        // The token after the definition has already been loaded, so it may still say
+        // "unknown command" for the command we have just defined. This includes tokens from
+        // the body of another command, which don't carry the name they came from.
+        self.resolve_buffered_unknown_commands();
         true
     }
 
-- 
2.43.0

