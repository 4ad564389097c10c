From 13911fb392b5ac0e613a1f2266e0443ee93c530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 01/61] fix: text positions at the end of a last line without a
 line break

---
 crates/analyzer-core/src/lsp_file.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lsp_file.rs b/crates/analyzer-core/src/lsp_file.rs
index 11dd40a..be67da0 100644
--- a/crates/analyzer-core/src/lsp_file.rs
+++ b/crates/analyzer-core/src/lsp_file.rs
@@ -68,6 +68,16 @@ impl LspFile {
 	// used to get a valid lsp position for the current file
 	fn lsp_to_lsp(&self, lsp_pos: &Position) -> Position { self.byte_to_lsp(self.lsp_to_byte(lsp_pos)) }
 
+	// byte position after the last character of a line, excluding its line break (the last line may not have one)
+	fn line_end(&self, line: usize) -> usize {
+		let last = self.ranges[line];
+		if self.file.as_bytes()[last] == b'\n' {
+			last
+		} else {
+			last + 1
+		}
+	}
+
 	pub fn line_char(&self, line: usize) -> usize {
 		// a useful case to expect
 		if line >= self.ranges.len() {
@@ -95,7 +105,7 @@ impl LspFile {
 		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges.get(lsp_pos.line - 1).unwrap_or(&0) + 1 };
 
 		// get byte offset for character position in line
-		let slice = self.file.slice(start_byte..self.ranges[lsp_pos.line]).unwrap_or("").chars();
+		let slice = self.file.slice(start_byte..self.line_end(lsp_pos.line)).unwrap_or("").chars();
 		let mut byte_count = 0;
 		for (i, c) in slice.enumerate() {
 			if i == lsp_pos.character {
@@ -128,7 +138,7 @@ impl LspFile {
 
 		// calculate character position in byte offset
 		let mut byte_count = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
-		let slice = self.file.slice(byte_count..self.ranges[line]).unwrap_or("").chars();
+		let slice = self.file.slice(byte_count..self.line_end(line)).unwrap_or("").chars();
 		let mut char = slice.clone().count();
 
 		for (i, c) in slice.enumerate() {
-- 
2.43.0


From eea84424303aa1cc3cc7cf55f035934f592c3f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 02/61] fix: parser rules that match without examining a token

---
 crates/analyzer-core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index d1e33c7..a561b65 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -220,7 +220,8 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 		}
 
 		let col = &mut self.memo_table[pos];
-		let examined_length = (self.max_examined_pos - pos as isize + 1) as usize;
+		// a rule may match without examining any token at or after `pos`
+		let examined_length = (self.max_examined_pos + 1 - pos as isize).max(0) as usize;
 		let existing_match = cst.map(|cst| ExistingMatch { cst, match_length: self.pos - pos });
 
 		let entry = MemoTableEntry { existing_match, examined_length };
@@ -232,7 +233,7 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 	fn use_memoized_result(&mut self, rule_name: RuleName) -> Option<Rc<Cst<Token>>> {
 		self.memo_table.get(self.pos).and_then(|col| {
 			col.memo.get(rule_name).and_then(|entry| {
-				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length - 1) as isize);
+				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);
 
 				entry.existing_match.clone().map(|m| {
 					self.pos += m.match_length;
-- 
2.43.0


From 690b8c715a1b6ffa3213d9ad04fdeb1913f136d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 03/61] fix: parser edits beyond the memoised part of the input

---
 crates/analyzer-core/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index a561b65..5c105c5 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -100,7 +100,10 @@ impl<Token: Clone + PartialEq> Parser<Token> {
 		self.buffer.write().splice(range.clone(), r.iter().cloned());
 
 		// adjust the memo table: replace the affected range with empty entries
-		self.memo_table.splice(range.clone(), std::iter::repeat(Default::default()).take(r.len()));
+		// (the table only covers the positions that have been reached so far)
+		let len = self.memo_table.len();
+		let affected = range.start.min(len)..range.end.min(len);
+		self.memo_table.splice(affected, std::iter::repeat(Default::default()).take(r.len()));
 
 		// invalidate overlapping entries
 		for pos in 0..range.start {
-- 
2.43.0


From 38470205046c0cef0c8e51cbde14b737fac12186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 04/61] fix: parser evaluates rules again that are known not to
 match

---
 crates/analyzer-core/src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index 5c105c5..cfc771c 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -139,8 +139,8 @@ impl<Token: Clone + PartialEq> Parser<Token> {
 impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 	// originally under the (weird?) RuleApplication abstraction
 	fn memoized_eval_rule(&mut self, rule_name: RuleName) -> Option<Rc<Cst<Token>>> {
-		if let Some(cst) = self.use_memoized_result(rule_name) {
-			Some(cst)
+		if let Some(result) = self.use_memoized_result(rule_name) {
+			result
 		} else {
 			let orig_pos = self.pos;
 			let orig_max = self.max_examined_pos;
@@ -233,9 +233,10 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 		col.max_examined_length = col.max_examined_length.max(examined_length as isize)
 	}
 
-	fn use_memoized_result(&mut self, rule_name: RuleName) -> Option<Rc<Cst<Token>>> {
+	// `Some(None)` is a memoized failure to match
+	fn use_memoized_result(&mut self, rule_name: RuleName) -> Option<Option<Rc<Cst<Token>>>> {
 		self.memo_table.get(self.pos).and_then(|col| {
-			col.memo.get(rule_name).and_then(|entry| {
+			col.memo.get(rule_name).map(|entry| {
 				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);
 
 				entry.existing_match.clone().map(|m| {
-- 
2.43.0


From 350f16d85f4916cc302dac08234eda3aca433433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 05/61] fix: a message is read without reserving the length its
 sender announces

---
 crates/analyzer-host/src/json_rpc.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/json_rpc.rs b/crates/analyzer-host/src/json_rpc.rs
index 5c7b226..c1026b7 100644
--- a/crates/analyzer-host/src/json_rpc.rs
+++ b/crates/analyzer-host/src/json_rpc.rs
@@ -4,7 +4,7 @@ use message::*;
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use std::{
 	fmt::{self, Display},
-	io::{self, BufRead, Write},
+	io::{self, BufRead, Read, Write},
 };
 
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -114,9 +114,12 @@ fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>> {
 		}
 	}
 	let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
+	// Read what is there rather than reserve what was announced: the length is the sender's word.
 	let mut buf = buf.into_bytes();
-	buf.resize(size, 0);
-	inp.read_exact(&mut buf)?;
+	buf.clear();
+	if inp.take(size as u64).read_to_end(&mut buf)? < size {
+		return Err(io::ErrorKind::UnexpectedEof.into());
+	}
 	let buf = String::from_utf8(buf).map_err(invalid_data)?;
 	// log::debug!("< {}", buf);?
 	Ok(Some(buf))
-- 
2.43.0


From d69023d677cc0f0cd4f721931c52bd4fa35ef9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 06/61] fix: an incomplete JSON body is not mistaken for the
 end of the stream

---
 crates/analyzer-host/src/json_rpc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/json_rpc.rs b/crates/analyzer-host/src/json_rpc.rs
index c1026b7..92b0eda 100644
--- a/crates/analyzer-host/src/json_rpc.rs
+++ b/crates/analyzer-host/src/json_rpc.rs
@@ -56,7 +56,8 @@ impl Message {
 			None => return Ok(None),
 			Some(text) => text,
 		};
-		let msg = serde_json::from_str(&text)?;
+		// A body that is cut short is a malformed message, not the end of the stream (which serde would convert it to).
+		let msg = serde_json::from_str(&text).map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
 		Ok(Some(msg))
 	}
 
-- 
2.43.0


From c280f2e0381d356224fbfd8020a5febe0944881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 07/61] fix: two producers could both complete a
 FutureCompletionSource

---
 crates/analyzer-abstractions/src/futures_extensions.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index ac195d4..f90fd36 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -103,16 +103,15 @@ where
 
 	#[inline(always)]
 	fn set_inner_value(&self, result: Result<T, TError>) -> FutureCompletionSourceResult<()> {
-		let completed = self.state.completed.load(Ordering::Relaxed);
+		// Producers decide who completes the source while holding the lock, so that exactly one of them does.
+		let mut writer = self.state.value.write().unwrap();
 
-		if completed {
+		if self.state.completed.load(Ordering::Relaxed) {
 			return Err(FutureCompletionSourceError::Invalid);
 		}
 
 		// Store the result, set the `completed` state to true and then notify all those that are currently
 		// awaiting to resolve their 'Future'.
-		let mut writer = self.state.value.write().unwrap();
-
 		writer.replace(result);
 		self.state.completed.store(true, Ordering::Relaxed);
 		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.
-- 
2.43.0


From 81169fef6fd4d887aed6e188f0919a9f275cf068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 08/61] fix: a consumer of a FutureCompletionSource could miss
 its completion

---
 .../analyzer-abstractions/src/futures_extensions.rs   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index f90fd36..6dd61a0 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -73,8 +73,15 @@ where
 			return value;
 		}
 
-		// Otherwise, await for an on-completed event before returning the set result.
-		self.state.on_completed.listen().await; // Asynchronously wait for the on-completed event.
+		// Otherwise, await for an on-completed event before returning the set result. The state is checked again once
+		// listening, since a producer may have completed (and notified) in between.
+		let listener = self.state.on_completed.listen();
+
+		if let Poll::Ready(value) = self.state() {
+			return value;
+		}
+
+		listener.await; // Asynchronously wait for the on-completed event.
 
 		if let Poll::Ready(value) = self.state() {
 			return value;
-- 
2.43.0


From 57d1d16ced09bbd76cff65927b6565d9ee6d659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:56 +0000
Subject: [PATCH 09/61] fix: waking work while the pool is being stopped could
 panic

---
 .../src/futures_extensions/async_extensions.rs              | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index ba58e8d..0ffbf7e 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -28,12 +28,10 @@ impl AsyncWork {
 
 impl ArcWake for AsyncWork {
 	fn wake_by_ref(arc_self: &Arc<Self>) {
-		if arc_self.sender.is_closed() {
-			return;
-		}
 		let cloned = arc_self.clone();
 
-		arc_self.sender.send_blocking(cloned).unwrap();
+		// An error means that the pool has been stopped (possibly just now), and there is nothing left to wake.
+		let _ = arc_self.sender.send_blocking(cloned);
 	}
 }
 
-- 
2.43.0


From d35e72f444a3d8828531816ee73877b00448d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 10/61] fix: a line comment at the end of a file is a comment

Without a line break after it, the comment was lexed as two slashes followed by
whatever tokens and preprocessor directives its text spelled.
---
 crates/analyzer-core/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 9730a40..b7c26a2 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -45,7 +45,7 @@ pub enum Token {
 	#[token(",")]
 	Comma,
 
-	#[regex("//[^\n]*\n")]
+	#[regex("//[^\n]*\n?")]
 	#[regex("/\\*", |lex| Lexer(lex).read_comment())]
 	Comment,
 
-- 
2.43.0


From 78ca2fbc522a18d6e1c77f6de731c43479a5d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 11/61] fix: integer literals with a width, base or digit
 separators

The prefixes were searched for anywhere in the literal (10x0b1, 4w10d0), a
width beyond 32 bits panicked, and underscores made a literal malformed.
---
 crates/analyzer-core/src/lexer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index b7c26a2..d62248f 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -160,7 +160,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 			})
 			.unwrap_or(str);
 
-		lit.value = match i64::from_str_radix(str, lit.base as u32).ok() {
+		lit.value = match i64::from_str_radix(&str.replace('_', ""), lit.base as u32).ok() {
 			Some(i) => i,
 			None => {
 				self.report(Severity::Error, "malformed integer literal");
@@ -357,7 +357,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 
 fn parse_base(str: &str) -> Option<(u8, &str)> {
 	lazy_static! {
-		static ref BASE: Regex = Regex::new("0([bBdDoOxX])").unwrap();
+		static ref BASE: Regex = Regex::new("^0([bBdDoOxX])").unwrap();
 	}
 
 	BASE.captures(str).map(|caps| {
@@ -375,19 +375,20 @@ fn parse_base(str: &str) -> Option<(u8, &str)> {
 
 fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
 	lazy_static! {
-		static ref WIDTH: Regex = Regex::new("([0-9][0-9]*)([ws])").unwrap();
+		static ref WIDTH: Regex = Regex::new("^([0-9][0-9_]*)([ws])").unwrap();
 	}
 
-	WIDTH.captures(str).map(|caps| {
+	WIDTH.captures(str).and_then(|caps| {
 		let width = caps.get(1).unwrap();
 		let sign = caps.get(2).unwrap();
 
-		let width = width.as_str().parse().unwrap();
+		// a width that does not fit is left in place, and the literal reported as malformed
+		let width = width.as_str().replace('_', "").parse().ok()?;
 		let signed = match sign.as_str() {
 			"w" => false,
 			"s" => true,
 			_ => unreachable!(),
 		};
-		((width, signed), &str[sign.end()..])
+		Some(((width, signed), &str[sign.end()..]))
 	})
 }
-- 
2.43.0


From 289a884b9bb11879fe0aaa7554ecd9026deb30a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 12/61] fix: preprocessor lines with continuations and trailing
 backslashes

An escaped line break stayed in the line, so a continued #define ended at its
first continuation, and a replacement ending in a backslash panicked.
---
 crates/analyzer-core/src/lexer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index d62248f..e79643b 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -292,12 +292,14 @@ impl<'a, 'b> Lexer<'a, 'b> {
 
 			// FIXME: these escapes do not work for string literals
 			match (escape, ch) {
-				(true, Some(ch)) => rhs.push(ch),
+				(true, Some(ch)) => {
+					rhs.push(ch);
+					escape = false
+				}
 				(_, Some('\\')) => escape = true,
 				(_, Some('\n')) => break,
 				(_, Some(ch)) => rhs.push(ch),
-				(true, None) => todo!("unfinished macro"),
-				(false, None) => break,
+				(_, None) => break,
 			}
 		}
 
@@ -335,6 +337,8 @@ impl<'a, 'b> Lexer<'a, 'b> {
 			}) {
 				Some('\\') if !escape => escape = true,
 				Some('\n') if !escape => break,
+				// an escaped newline continues the line, and is not a part of it
+				Some('\n') => escape = false,
 				Some(char) => {
 					buf.push(char);
 					escape = false
-- 
2.43.0


From 1fb1a7e7c54c17e6bee8b7720fdaf9a89653df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 13/61] fix: a #pragma in an active branch does not panic

---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a7b30d6..13b13a2 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -354,7 +354,8 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorDirective::Undef(k) => {
 						self.definitions.remove(&k);
 					}
-					PreprocessorDirective::Pragma(_) => todo!(),
+					// pragmas are directed at compilers
+					PreprocessorDirective::Pragma(_) => (),
 					PreprocessorDirective::Other(name, _) => {
 						self.error(id, span, format!("Unrecognised directive: {name}"))
 					}
-- 
2.43.0


From f09b4f2473ed3830e1fdf5cc656b97b95a8fd067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 14/61] fix: the tokens of an included file keep their order

---
 crates/analyzer-core/src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 13b13a2..700cad4 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -301,6 +301,7 @@ impl<'a> PreprocessorState<'a> {
 								.iter()
 								.cloned()
 								.map(|(tk, span)| (file_id, tk, span))
+								.rev()
 								.for_each(|x| input.push_front(x));
 						} else {
 							self.error(id, span, not_found_err);
-- 
2.43.0


From 49ede3f767525300e2a5c2a07d73a186c8ffe66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 15/61] fix: only an include of a file within itself is
 recursive

A file included a second time, after its first inclusion ended, was reported as
a recursive import and left out; the analysed file itself was not considered.
---
 crates/analyzer-core/src/preprocessor.rs | 26 ++++++++----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 700cad4..5ec0ee4 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -240,7 +240,8 @@ pub type ResolvedToken = (FileId, PreprocessorDirective, Span);
 pub struct PreprocessorState<'a> {
 	definitions: HashMap<String, String>,
 	pub errors: Vec<((FileId, Span), String)>, // TODO: we should do better than strings here
-	state: HashMap<FileId, VertexState>,
+	/// The files being included, each with the number of tokens that were left to process when it was.
+	include_stack: Vec<(FileId, usize)>,
 	/// A stack of branches for conditional compilation.
 	/// This will contain the opening #if's and #ifdef's, popped when reaching #endif.
 	conditional_stack: Vec<(ResolvedToken, Vec<ResolvedToken>, bool)>,
@@ -250,12 +251,6 @@ pub struct PreprocessorState<'a> {
 
 type LexFn<'a> = dyn FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a;
 
-#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
-enum VertexState {
-	Open,
-	Closed,
-}
-
 impl<'a> PreprocessorState<'a> {
 	pub fn new<Idlyzer: FnMut(&str) -> FileId + 'a, FLex: FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a>(
 		to_id: Idlyzer,
@@ -264,7 +259,7 @@ impl<'a> PreprocessorState<'a> {
 		PreprocessorState {
 			definitions: Default::default(),
 			errors: vec![],
-			state: Default::default(),
+			include_stack: vec![],
 			conditional_stack: vec![],
 			lex: Box::new(lex),
 			to_id: Box::new(to_id),
@@ -276,13 +271,12 @@ impl<'a> PreprocessorState<'a> {
 
 	pub fn preprocess(&mut self, input: &mut VecDeque<(FileId, Token, Span)>) -> Vec<(FileId, Token, Span)> {
 		let mut result: Vec<(FileId, Token, Span)> = vec![];
-		let mut previous_file = None;
+		let root = input.front().map(|&(id, ..)| id);
 
 		while let Some((id, tk, span)) = input.pop_front() {
-			if let Some(file) = previous_file {
-				if file != id {
-					self.state.insert(file, VertexState::Closed);
-				}
+			// leave the included files that ended before this token
+			while self.include_stack.last().map_or(false, |&(_, left)| input.len() < left) {
+				self.include_stack.pop();
 			}
 
 			match tk {
@@ -292,10 +286,10 @@ impl<'a> PreprocessorState<'a> {
 						let not_found_err = format!("Could not find {path}");
 
 						let file_id = (self.to_id)(&path); // TODO: path resolution here or in to_id
-						if self.state.get(&file_id).is_some() {
+						if root == Some(file_id) || self.include_stack.iter().any(|&(open, _)| open == file_id) {
 							self.error(id, span, recursive_err);
 						} else if let Some(tokens) = (self.lex)(file_id) as Option<&Vec<(Token, Span)>> {
-							self.state.insert(file_id, VertexState::Open);
+							self.include_stack.push((file_id, input.len()));
 							input.reserve(input.len() + tokens.len());
 							tokens
 								.iter()
@@ -372,8 +366,6 @@ impl<'a> PreprocessorState<'a> {
 				},
 				_ => result.push((id, tk, span)),
 			}
-
-			previous_file = Some(id);
 		}
 
 		self.check_empty_cond_stack();
-- 
2.43.0


From a6e2532393fb4db223d9bb68fdb609b887970f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 16/61] fix: merged whitespace keeps a span that is in order

Whitespace at the end of one inclusion of a file and at the start of the next
was merged into a span that ends before it starts.
---
 crates/analyzer-core/src/preprocessor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 5ec0ee4..7c41408 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -357,7 +357,9 @@ impl<'a> PreprocessorState<'a> {
 				},
 				Token::Whitespace => match result.last() {
 					// avoid consecutive whitespace in the same file
-					Some((existing_id, Token::Whitespace, existing_span)) if *existing_id == id => {
+					Some((existing_id, Token::Whitespace, existing_span))
+						if *existing_id == id && existing_span.end <= span.start =>
+					{
 						let combined_span = existing_span.start..span.end;
 						result.pop();
 						result.push((id, Token::Whitespace, combined_span))
-- 
2.43.0


From b4e0e33cfb634bc1142dd3215feb3615277a3734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 17/61] fix: <=, >= and >> in preprocessor expressions

< was matched in place of <=, > in place of >=, and >> shifted its right operand by itself.
---
 crates/analyzer-core/src/preprocessor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 7c41408..4bcc752 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -119,6 +119,7 @@ mod parser {
 	) -> impl FnMut(&'a str) -> IResult<&'a str, PreprocessorExpression> {
 		use std::rc::Rc;
 		let lhs = lhs.clone();
+		// later variants are tried first, so a variant must follow its prefixes
 		let mut f: Rc<dyn Fn(&'a str) -> IResult<&'a str, PreprocessorBinOp>> = Rc::new(fail);
 		for (sym, op) in variants {
 			let sym: &'static str = sym;
@@ -173,7 +174,7 @@ mod parser {
 		use PreprocessorBinOp::*;
 		let (input, e) = ws(exp5)(input)?;
 
-		bin_op(&e, exp5, &[("<=", LessOrEqual), ("<", LessThan), (">=", GreaterOrEqual), (">", GreaterThan)])(input)
+		bin_op(&e, exp5, &[("<", LessThan), ("<=", LessOrEqual), (">", GreaterThan), (">=", GreaterOrEqual)])(input)
 			.or(Ok((input, e)))
 	}
 
@@ -494,7 +495,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::GreaterThan => (l > r) as i64,
 					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
 					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => r >> r,
+					PreprocessorBinOp::BitwiseShiftRight => l >> r,
 				})
 			}
 			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
-- 
2.43.0


From fb2a8b757a96e0185236e51875de6125d2173984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 18/61] fix: arithmetic in preprocessor expressions does not
 panic

Overflow, division by zero and out of range shifts panicked, the operands that
&& and || do not need included.
---
 crates/analyzer-core/src/preprocessor.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 4bcc752..7fe2f63 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -475,17 +475,25 @@ impl<'a> PreprocessorState<'a> {
 			}
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
 				let l = self.interpret_pp_expr(lhs)?;
+				// the right operand of a logical operator is evaluated only when it decides
+				match op {
+					PreprocessorBinOp::LogicalOr if l != 0 => return Some(1),
+					PreprocessorBinOp::LogicalAnd if l == 0 => return Some(0),
+					_ => (),
+				}
 				let r = self.interpret_pp_expr(rhs)?;
 
 				Some(match op {
 					PreprocessorBinOp::Or => l | r,
 					PreprocessorBinOp::Xor => l ^ r,
 					PreprocessorBinOp::And => l & r,
-					PreprocessorBinOp::Plus => l + r,
-					PreprocessorBinOp::Minus => l - r,
-					PreprocessorBinOp::Times => l * r,
-					PreprocessorBinOp::Divide => l / r,
-					PreprocessorBinOp::Modulo => l % r,
+					PreprocessorBinOp::Plus => l.wrapping_add(r),
+					PreprocessorBinOp::Minus => l.wrapping_sub(r),
+					PreprocessorBinOp::Times => l.wrapping_mul(r),
+					PreprocessorBinOp::Divide if r == 0 => return None,
+					PreprocessorBinOp::Divide => l.wrapping_div(r),
+					PreprocessorBinOp::Modulo if r == 0 => return None,
+					PreprocessorBinOp::Modulo => l.wrapping_rem(r),
 					PreprocessorBinOp::Equals => (l == r) as i64,
 					PreprocessorBinOp::NotEquals => (l != r) as i64,
 					PreprocessorBinOp::LogicalOr => (l != 0 || r != 0) as i64,
@@ -494,8 +502,8 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::LessOrEqual => (l <= r) as i64,
 					PreprocessorBinOp::GreaterThan => (l > r) as i64,
 					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
-					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => l >> r,
+					PreprocessorBinOp::BitwiseShiftLeft => l.checked_shl(u32::try_from(r).ok()?)?,
+					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(u32::try_from(r).ok()?)?,
 				})
 			}
 			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
-- 
2.43.0


From f3b76e24cbdd6af09c5a689582c64bd513f158fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 19/61] fix: an undefined identifier in a preprocessor
 expression is zero

---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 7fe2f63..94dedcf 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -470,7 +470,8 @@ impl<'a> PreprocessorState<'a> {
 					let (_, expr) = expression(rhs).ok()?;
 					self.interpret_pp_expr(&expr)
 				} else {
-					None
+					// as in C, an identifier that is not a macro is zero
+					Some(0)
 				}
 			}
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
-- 
2.43.0


From 6a8fd57db8f0d682ea266e588eb9c1c7f5f8587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 20/61] fix: 'defined (X)' with a space before the parenthesis

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 94dedcf..4b3c336 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -107,7 +107,7 @@ mod parser {
 
 	fn defined(input: &str) -> IResult<&str, &str> {
 		alt((
-			delimited(tag("defined("), ws(identifier), tag(")")),
+			delimited(tuple((tag("defined"), multispace0, tag("("))), ws(identifier), tag(")")),
 			preceded(tuple((tag("defined"), multispace1)), identifier),
 		))(input)
 	}
-- 
2.43.0


From 3c1498f6740d52442a617e05ce145c691fa4e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 21/61] fix: evaluation of preprocessor expressions is bounded

A macro that expands to itself, a long chain of macros or a deeply nested
expression overflowed the stack, and macros that expand to exponentially many
operands were evaluated for as long.
---
 crates/analyzer-core/src/preprocessor.rs | 66 ++++++++++++++++++++----
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 4b3c336..2f55e98 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -220,7 +220,27 @@ mod parser {
 		bin_op(&e, exp11, &[("||", LogicalOr)])(input).or(Ok((input, e)))
 	}
 
-	pub fn expression(input: &str) -> IResult<&str, PreprocessorExpression> { complete(ws(exp12))(input) }
+	/// The parser is recursive: longer or more deeply nested expressions could overflow the stack.
+	const MAX_LENGTH: usize = 4096;
+	const MAX_NESTING: usize = 64;
+
+	pub fn expression(input: &str) -> IResult<&str, PreprocessorExpression> {
+		let mut nesting = 0usize;
+		for ch in input.chars() {
+			match ch {
+				'(' => nesting += 1,
+				')' => nesting = nesting.saturating_sub(1),
+				_ => (),
+			}
+			if nesting > MAX_NESTING {
+				return fail(input);
+			}
+		}
+		if input.len() > MAX_LENGTH {
+			return fail(input);
+		}
+		complete(ws(exp12))(input)
+	}
 }
 
 // TODO: is taking ownership necessary?
@@ -462,27 +482,51 @@ impl<'a> PreprocessorState<'a> {
 	}
 
 	fn interpret_pp_expr(&self, cond: &PreprocessorExpression) -> Option<PreprocessorValue> {
+		self.evaluate(cond, &mut vec![], &mut 0, 0)
+	}
+
+	/// Evaluate an expression met `depth` levels down, within the macros in `expanding`, counting the `steps` taken.
+	fn evaluate(
+		&self,
+		cond: &PreprocessorExpression,
+		expanding: &mut Vec<String>,
+		steps: &mut usize,
+		depth: usize,
+	) -> Option<PreprocessorValue> {
+		/// Chains of macros can nest deeply, and expand to exponentially many operands.
+		const MAX_DEPTH: usize = 1024;
+		const MAX_STEPS: usize = 100_000;
+
+		*steps += 1;
+		if depth > MAX_DEPTH || *steps > MAX_STEPS {
+			return None;
+		}
+
 		match cond {
 			&PreprocessorExpression::IntLiteral(n) => Some(n),
-			PreprocessorExpression::Identifier(name) => {
-				if let Some(rhs) = self.definitions.get(name) {
+			PreprocessorExpression::Identifier(name) => match self.definitions.get(name) {
+				// as in C, a macro is not expanded within its own expansion
+				Some(rhs) if !expanding.contains(name) => {
 					// TODO: avoid reparses?
 					let (_, expr) = expression(rhs).ok()?;
-					self.interpret_pp_expr(&expr)
-				} else {
-					// as in C, an identifier that is not a macro is zero
-					Some(0)
+					*steps += rhs.len();
+					expanding.push(name.clone());
+					let value = self.evaluate(&expr, expanding, steps, depth + 1);
+					expanding.pop();
+					value
 				}
-			}
+				// as in C, an identifier that is not a macro is zero
+				_ => Some(0),
+			},
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
-				let l = self.interpret_pp_expr(lhs)?;
+				let l = self.evaluate(lhs, expanding, steps, depth + 1)?;
 				// the right operand of a logical operator is evaluated only when it decides
 				match op {
 					PreprocessorBinOp::LogicalOr if l != 0 => return Some(1),
 					PreprocessorBinOp::LogicalAnd if l == 0 => return Some(0),
 					_ => (),
 				}
-				let r = self.interpret_pp_expr(rhs)?;
+				let r = self.evaluate(rhs, expanding, steps, depth + 1)?;
 
 				Some(match op {
 					PreprocessorBinOp::Or => l | r,
@@ -507,7 +551,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(u32::try_from(r).ok()?)?,
 				})
 			}
-			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
+			PreprocessorExpression::Not(inner) => Some((self.evaluate(inner, expanding, steps, depth + 1)? == 0) as i64),
 			PreprocessorExpression::Defined(name) => Some(self.definitions.contains_key(name) as i64),
 		}
 	}
-- 
2.43.0


From ca8b444f16016a409709bde9ee344a11b7f86f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 22/61] fix: diagnostics of the lexer are reported once

---
 crates/analyzer-core/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 7ac0d79..2245c3c 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -122,12 +122,10 @@ impl Analyzer {
 	}
 
 	pub fn diagnostics(&self, id: FileId) -> Vec<Diagnostic> {
-		if let Some(buf) = self.filesystem().get(&id) {
-			let mut d = lex::accumulated::<Diagnostics>(&self.db, id, *buf);
-			d.append(&mut preprocess::accumulated::<Diagnostics>(&self.db, self.fs.unwrap(), id));
-			d
-		} else {
-			vec![]
+		// those of the queries that preprocessing relies on, lexing included, are accumulated with its own
+		match self.fs {
+			Some(fs) if self.buffer(id).is_some() => preprocess::accumulated::<Diagnostics>(&self.db, fs, id),
+			_ => vec![],
 		}
 	}
 
-- 
2.43.0


From 7daf328bcdd330d5e10b10c957afcafc057770d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:33 +0000
Subject: [PATCH 23/61] fix: an include path that cannot be resolved does not
 panic

---
 crates/analyzer-core/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 2245c3c..d7fb59b 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -49,7 +49,8 @@ pub trait Db: salsa::DbWithJar<Jar> {
 // impl<DB> Db for DB where DB: ?Sized + salsa::DbWithJar<Jar> {
 impl Db for Database {
 	fn resolve_path(&self, file_id: FileId, path: &str) -> String {
-		(self.resolver_fn)(&file_id.path(self), path).expect("failed to resolve a path")
+		// a path that cannot be resolved names no file, and is reported as one that could not be found
+		(self.resolver_fn)(&file_id.path(self), path).unwrap_or_else(|_| path.to_string())
 	}
 }
 
-- 
2.43.0


From b0d62f049777935924f2c1548ca5f047a0009074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 24/61] fix: a host without a file system of its own uses that
 of its client

---
 crates/analyzer-host/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 41f8119..c1ab372 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -65,7 +65,7 @@ impl AnalyzerHost {
 		*(self.protocol_machine.write().await) = Some(LspProtocolMachine::new(
 			self.trace_value.clone(),
 			request_manager.clone(),
-			self.file_system.clone().unwrap(),
+			file_system.clone(),
 		));
 
 		match join_all(
-- 
2.43.0


From 5f66b977dfdf953c2f09ca71395b09d58e214112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 25/61] fix: copies of a RequestManager share the sequence of
 request ids

---
 crates/analyzer-host/src/lsp/request.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index cf9a0ae..ee02fb1 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -33,7 +33,7 @@ type AnyFutureCompletionSource = FutureCompletionSource<Arc<Message>, LspProtoco
 pub struct RequestManager {
 	requests: Sender<Message>,
 	responses: Receiver<Message>,
-	request_id: AtomicI32,
+	request_id: Arc<AtomicI32>,
 	awaiting_requests: Arc<AsyncRwLock<HashMap<RequestId, Arc<AnyFutureCompletionSource>>>>,
 }
 
@@ -45,7 +45,7 @@ impl RequestManager {
 		Self {
 			requests: sender,
 			responses: receiver,
-			request_id: AtomicI32::new(0),
+			request_id: Arc::new(AtomicI32::new(0)),
 			awaiting_requests: Arc::new(AsyncRwLock::new(HashMap::new())),
 		}
 	}
@@ -210,7 +210,7 @@ impl Clone for RequestManager {
 		Self {
 			requests: self.requests.clone(),
 			responses: self.responses.clone(),
-			request_id: AtomicI32::new(self.request_id.load(Ordering::Relaxed)),
+			request_id: self.request_id.clone(),
 			awaiting_requests: self.awaiting_requests.clone(),
 		}
 	}
-- 
2.43.0


From 41a7e75a2e3125e1b9fc937b5b9e2c79f6ce8298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 26/61] fix: the protocol machine ends when no more messages
 can be received

---
 crates/analyzer-host/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index c1ab372..f1d57fb 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -157,6 +157,7 @@ impl AnalyzerHost {
 				}
 				Err(err) => {
 					error!("Unexpected error receiving request or notification: {:?}", err);
+					break;
 				}
 			}
 		}
-- 
2.43.0


From 2e983e1252f74a37044473cc0b258a2f3dd54973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 27/61] fix: a host that was told to exit does not report a
 cancellation

---
 crates/analyzer-host/src/lib.rs         | 6 +++++-
 crates/analyzer-host/src/lsp/request.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index f1d57fb..53cfa5b 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -113,7 +113,11 @@ impl AnalyzerHost {
 		requests_sender.close();
 		responses_sender.close();
 
-		return Err(OperationCanceled);
+		if cancel_token.is_canceled() {
+			return Err(OperationCanceled);
+		}
+
+		Ok(())
 	}
 
 	async fn run_protocol_machine(
diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index ee02fb1..48f8ecd 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,7 +88,11 @@ impl RequestManager {
 			}
 		}
 
-		return Err(OperationCanceled);
+		if cancel_token.is_canceled() {
+			return Err(OperationCanceled);
+		}
+
+		Ok(())
 	}
 
 	/// Sends a typed notification to the LSP client.
-- 
2.43.0


From caa48bbbeba8c788c00893a86ca9f10fe11ef779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 28/61] fix: messages that cross the end of a session do not
 panic the host

---
 crates/analyzer-host/src/lib.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 53cfa5b..dbea8ad 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -99,10 +99,17 @@ impl AnalyzerHost {
 	) -> Result<(), OperationCanceled> {
 		while !cancel_token.is_canceled() {
 			match self.receiver.recv().await {
-				Ok(message) => match message {
-					Message::Response(_) => responses_sender.send(message).await.unwrap(),
-					_ => requests_sender.send(message).await.unwrap(),
-				},
+				Ok(message) => {
+					let sender = match message {
+						Message::Response(_) => &responses_sender,
+						_ => &requests_sender,
+					};
+
+					// An error means that the protocol machine has stopped, and is no longer interested in messages.
+					if sender.send(message).await.is_err() {
+						break;
+					}
+				}
 				Err(err) => {
 					error!("Unexpected error receiving message: {:?}", err);
 					break;
@@ -148,7 +155,9 @@ impl AnalyzerHost {
 						{
 							Ok(response_message) => {
 								if let Some(Message::Response(_)) = &response_message {
-									self.sender.send(response_message.unwrap()).await.unwrap();
+									if self.sender.send(response_message.unwrap()).await.is_err() {
+										error!("Unexpected error sending response: the client has gone away.");
+									}
 								}
 							}
 							Err(err) => {
-- 
2.43.0


From a01f075f1f42099811d40c843180fdc1b75c733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 29/61] fix: requests awaiting a response are completed when no
 more responses can be received

---
 crates/analyzer-host/src/lsp/request.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index 48f8ecd..d4184c9 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,6 +88,13 @@ impl RequestManager {
 			}
 		}
 
+		// No further responses will be received, so complete the requests that are still awaiting one.
+		self.responses.close();
+
+		for (_, awaiting_request) in self.awaiting_requests.write().await.drain() {
+			let _ = awaiting_request.set_err(LspProtocolError::TransportError);
+		}
+
 		if cancel_token.is_canceled() {
 			return Err(OperationCanceled);
 		}
@@ -184,7 +191,7 @@ impl RequestManager {
 		let request = Request::new(id.clone(), method.into(), params);
 		let awaiting_request = self.create_active_request(&id).await;
 
-		if let Err(_) = self.requests.send(Message::Request(request)).await {
+		if self.responses.is_closed() || self.requests.send(Message::Request(request)).await.is_err() {
 			self.take_awaiting_request(&id).await; // Take the awaiting_request if we couldn't send the request.
 
 			return Err(LspProtocolError::TransportError);
-- 
2.43.0


From 5faa5650dd3bad01263130948b1034943d1716ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 30/61] fix: a request with invalid parameters is answered

---
 crates/analyzer-host/src/lsp/dispatch_target.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/dispatch_target.rs b/crates/analyzer-host/src/lsp/dispatch_target.rs
index eb434d1..223f1cf 100644
--- a/crates/analyzer-host/src/lsp/dispatch_target.rs
+++ b/crates/analyzer-host/src/lsp/dispatch_target.rs
@@ -127,7 +127,21 @@ where
 		match &*message {
 			Message::Request(request) => {
 				let method = request.method.as_str();
-				let params = from_json::<TParams>(&request.params)?;
+				let params = match from_json::<TParams>(&request.params) {
+					Ok(params) => params,
+					Err(err) => {
+						error!(method = method, "Error reading the parameters of request '{}': {}", method, err);
+
+						return Ok((
+							Some(Message::Response(Response::new_error(
+								request.id.clone(),
+								ErrorCode::InvalidParams as i32,
+								"The parameters of the request are invalid.",
+							))),
+							current_state,
+						));
+					}
+				};
 				let (response, next_state) = match self.handler_fn.call(current_state, params, state).await {
 					Ok(result) => (Response::new(request.id.clone(), result), self.next_state(current_state)),
 					Err(err) => {
-- 
2.43.0


From 9f3026fcef3b52d230af42f27711c9725ba7cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 31/61] fix: ask the client for the open and close
 notifications of documents

---
 crates/analyzer-host/src/lsp_impl/active_uninitialized.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
index 6130870..3798a9f 100644
--- a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
@@ -120,6 +120,7 @@ fn create_initialize_result(include_workspace_folders: bool) -> InitializeResult
 					include_text: Some(true),
 				})),
 				change: Some(TextDocumentSyncKind::INCREMENTAL),
+				open_close: Some(true),
 				..Default::default()
 			})),
 			workspace,
-- 
2.43.0


From 93b5526987aadb03ee5becd35b4507131f903475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 32/61] fix: watched file events of an unknown type do not
 panic

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index a38675e..4c85969 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -275,7 +275,7 @@ async fn on_watched_file_change(
 			FileChangeType::CREATED => created_file(&event.uri, &state).await,
 			FileChangeType::CHANGED => created_file(&event.uri, &state).await, // Does the same
 			FileChangeType::DELETED => deleted_file(&event.uri, &state).await,
-			_ => panic!("Type not supported in 1.17 specification"),
+			_ => error!(uri = event.uri.as_str(), "Ignoring a file event of type {:?}.", event.typ),
 		}
 	}
 
-- 
2.43.0


From 028eb3128d067ad9aeeda4e4a165433bb23d4324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 33/61] fix: saving a file that the analyzer has no contents of
 does not panic

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 4c85969..1410187 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -213,10 +213,10 @@ async fn on_text_document_did_save(
 
 		info!("Syncing buffer on save.");
 		let file_id = analyzer.file_id(params.text_document.uri.as_str());
-		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
-		// TODO: report diagnostics, and process *after* the update below!
 		analyzer.update(file_id, &text);
 		file.open_or_update(file_id);
+		// TODO: report diagnostics
+		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
 	}
 
 	Ok(())
-- 
2.43.0


From e82f7a7d9f98d75fd9e16a72f176f47b49062140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:40 +0000
Subject: [PATCH 34/61] fix: waking the work of a stopped pool does not
 deadlock

---
 .../src/futures_extensions/async_extensions.rs             | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index 0ffbf7e..b4ae9a5 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -30,8 +30,11 @@ impl ArcWake for AsyncWork {
 	fn wake_by_ref(arc_self: &Arc<Self>) {
 		let cloned = arc_self.clone();
 
-		// An error means that the pool has been stopped (possibly just now), and there is nothing left to wake.
-		let _ = arc_self.sender.send_blocking(cloned);
+		// An error means that the pool has been stopped (possibly just now), and there is nothing left to wake. The work
+		// is not dropped here, since whoever is waking it can be holding a lock that dropping its future needs as well.
+		if let Err(err) = arc_self.sender.send_blocking(cloned) {
+			std::mem::forget(err);
+		}
 	}
 }
 
-- 
2.43.0


From 0b80e500eedec6bba9ce65b4c4a100a71d848e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:30 +0000
Subject: [PATCH 35/61] fix: spawning work on a stopped pool does not panic

---
 .../src/futures_extensions/async_extensions.rs                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index b4ae9a5..f947894 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -87,6 +87,7 @@ impl AsyncPool {
 		let future = Box::pin(future);
 		let work = Arc::new(AsyncWork::new(future, sender.clone()));
 
-		sender.send_blocking(work).unwrap();
+		// An error means that the pool has been stopped, and is no longer running work.
+		let _ = sender.send_blocking(work);
 	}
 }
-- 
2.43.0


From 404558526d6dec0f2f21296008f364d6a7707e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:30 +0000
Subject: [PATCH 36/61] fix: a client that refuses progress does not panic the
 host

---
 crates/analyzer-host/src/lsp/workspace.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index ec76687..1a9218a 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -104,15 +104,31 @@ impl WorkspaceManager {
 			return; // Do nothing if there are no workspace folders.
 		}
 
-		let progress = progress.begin("Indexing").await.unwrap();
+		// The client can refuse to show progress (or go away). The workspaces are indexed regardless.
+		let progress = match progress.begin("Indexing").await {
+			Ok(progress) => Some(progress),
+			Err(err) => {
+				error!("Failed to begin reporting the progress of indexing. {}", err);
+
+				None
+			}
+		};
 
 		for (_, workspace) in (&self.workspaces).into_iter() {
-			progress.report(&format!("{}", workspace)).await.unwrap();
+			if let Some(progress) = &progress {
+				if let Err(err) = progress.report(&format!("{}", workspace)).await {
+					error!("Failed to report the progress of indexing. {}", err);
+				}
+			}
 
 			workspace.index().await;
 		}
 
-		progress.end(None).await.unwrap();
+		if let Some(progress) = &progress {
+			if let Err(err) = progress.end(None).await {
+				error!("Failed to end reporting the progress of indexing. {}", err);
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 1c008dd3f4227d931b5e9b6b36d3638b31ce066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 37/61] fix: documents outside of the workspace folders do not
 panic the host

---
 crates/analyzer-host/src/lsp/workspace.rs | 60 ++++++++++++++---------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index 1a9218a..779a838 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -29,6 +29,9 @@ use super::{
 pub struct WorkspaceManager {
 	has_workspaces: bool,
 	pub workspaces: HashMap<Url, Arc<Workspace>>,
+
+	/// The 'catch-all' workspace for the files that are not contained in any of the workspace folders. It is not indexed.
+	catch_all: Arc<Workspace>,
 }
 
 impl WorkspaceManager {
@@ -51,18 +54,20 @@ impl WorkspaceManager {
 			)
 		}
 
-		let (has_workspaces, workspace_folders) = workspace_folders.map_or_else(
-			|| (false, vec![WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() }]),
-			|folders| (true, folders),
+		let catch_all_folder = WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() };
+		let (catch_all_uri, catch_all) = to_workspace(file_system.clone(), catch_all_folder, background_load.clone());
+		let has_workspaces = workspace_folders.is_some();
+		let workspaces = workspace_folders.map_or_else(
+			|| HashMap::from([(catch_all_uri, catch_all.clone())]),
+			|folders| {
+				folders
+					.into_iter()
+					.map(|wf| to_workspace(file_system.clone(), wf, background_load.clone()))
+					.collect()
+			},
 		);
 
-		Self {
-			has_workspaces,
-			workspaces: workspace_folders
-				.into_iter()
-				.map(|wf| to_workspace(file_system.clone(), wf, background_load.clone()))
-				.collect(),
-		}
+		Self { has_workspaces, workspaces, catch_all }
 	}
 
 	/// Returns `true` if the [`WorkspaceManager`] was initialized with workspace folders; otherwise `false`.
@@ -71,29 +76,36 @@ impl WorkspaceManager {
 	/// Retrieves a file from a workspace.
 	///
 	/// [`WorkspaceManager::get_file`] will always return a [`File`] for `uri`. It does this because requests for
-	/// files may be made in contexts in which no workspace folders were opened. If this is the case, then the file will
-	/// be retrieved relative to the 'catch-all' workspace which is not indexed.
+	/// files may be made in contexts in which no workspace folders were opened, or for files that are not contained in
+	/// any of them. If this is the case, then the file will be retrieved relative to the 'catch-all' workspace which is
+	/// not indexed.
 	///
 	/// The overall state of the file can be determined from its [`File::get_parsed_unit`] method which will
 	/// inform its final state.
 	pub fn get_file(&self, uri: Url) -> Arc<File> {
 		fn is_descendant_path(base: &Url, target: &Url) -> bool {
-			if let Some(relative) = base.make_relative(target) {
-				return !relative.starts_with("..");
+			if base.scheme() != target.scheme()
+				|| base.host_str() != target.host_str()
+				|| base.port_or_known_default() != target.port_or_known_default()
+			{
+				return false;
 			}
 
-			false
-		}
-
-		// If not initialized with any workspace folders, then the path should always be a descendant of the
-		// 'catch-all' workspace.
-		match (&self.workspaces).into_iter().find(|(workspace_uri, _)| is_descendant_path(&workspace_uri, &uri)) {
-			Some((_, workspace)) => workspace.get_file(uri),
-			None => {
-				error!(file_uri = uri.as_str(), "Failed to locate a workspace for a given file.");
-				unreachable!("failed to locate a workspace");
+			// Only complete path segments count: 'file:///foobar' is not a descendant of 'file:///foo'.
+			match target.path().strip_prefix(base.path().trim_end_matches('/')) {
+				Some(relative) => relative.is_empty() || relative.starts_with('/'),
+				None => false,
 			}
 		}
+
+		// Workspace folders can be nested, in which case the innermost one is the workspace of the file.
+		let workspace = (&self.workspaces)
+			.into_iter()
+			.filter(|(workspace_uri, _)| is_descendant_path(workspace_uri, &uri))
+			.max_by_key(|(workspace_uri, _)| workspace_uri.path().trim_end_matches('/').len())
+			.map_or(&self.catch_all, |(_, workspace)| workspace);
+
+		workspace.get_file(uri)
 	}
 
 	/// Asynchronously indexes the contents of each [`Workspace`].
-- 
2.43.0


From 80dd77c6508a338f08e4338f2e826b58fd1391dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:05 +0000
Subject: [PATCH 38/61] fix: an included file that is not located by a URL does
 not panic the host

---
 crates/analyzer-host/src/lsp_impl/state.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 9773f33..0e9f7e5 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -8,7 +8,7 @@ use analyzer_abstractions::{
 	futures::future::join_all,
 	futures_extensions::async_extensions::AsyncPool,
 	lsp_types::{TraceValue, Url},
-	tracing::info,
+	tracing::{error, info},
 };
 use analyzer_core::base_abstractions::FileId;
 use async_channel::{Receiver, Sender};
@@ -41,16 +41,17 @@ impl AnalyzerWrapper {
 				return Ok(absolute_target_url.as_str().into());
 			}
 
-			let base_url = Url::parse(absolute_base_url).unwrap();
-
-			match base_url.join(path) {
+			match Url::parse(absolute_base_url).and_then(|base_url| base_url.join(path)) {
 				Ok(target_url) => Ok(target_url.as_str().into()),
 				Err(err) => {
 					Err(format!("Could not find path '{}' (relative to '{}'). {}", path, absolute_base_url, err))
 				}
 			}
 		};
-		let require = move |file_path: &str| background_queue.enqueue(Url::parse(file_path).unwrap());
+		let require = move |file_path: &str| match Url::parse(file_path) {
+			Ok(file_url) => background_queue.enqueue(file_url),
+			Err(err) => error!(file_path, "Could not load a file that is not located by a URL. {}", err),
+		};
 
 		Self {
 			inner: RefCell::new(analyzer_core::Analyzer::new(resolve_path, require)),
-- 
2.43.0


From 709588b9dfd2386a21c368ebb0391fb85c9d661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 39/61] fix: a message that waits for background work does not
 keep a cancelled host running

---
 crates/analyzer-host/src/lib.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index dbea8ad..0664277 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -6,7 +6,9 @@ mod lsp_impl;
 pub mod tracing;
 
 use analyzer_abstractions::{
-	fs::AnyEnumerableFileSystem, futures::future::join4 as join_all, futures_extensions::async_extensions::AsyncPool,
+	fs::AnyEnumerableFileSystem,
+	futures::future::{join4 as join_all, select},
+	futures_extensions::async_extensions::AsyncPool,
 	tracing::*,
 };
 use async_channel::{Receiver, Sender};
@@ -55,6 +57,7 @@ impl AnalyzerHost {
 	pub async fn start(&self, cancel_token: Arc<CancellationToken>) -> Result<(), OperationCanceled> {
 		let (requests_sender, requests_receiver) = async_channel::unbounded::<Message>();
 		let (responses_sender, responses_receiver) = async_channel::unbounded::<Message>();
+		let (cancelled_sender, cancelled_receiver) = async_channel::unbounded::<()>();
 		let request_manager = RequestManager::new((self.sender.clone(), responses_receiver.clone()));
 		// If no file system was supplied, then default to the standard LSP based one.
 		let file_system: Arc<AnyEnumerableFileSystem> = match self.file_system.as_ref() {
@@ -69,11 +72,17 @@ impl AnalyzerHost {
 		));
 
 		match join_all(
-			self.receive_messages(requests_sender.clone(), responses_sender.clone(), cancel_token.clone()),
+			self.receive_messages(
+				requests_sender.clone(),
+				responses_sender.clone(),
+				cancelled_sender.clone(),
+				cancel_token.clone(),
+			),
 			self.run_protocol_machine(
 				request_manager.clone(),
 				file_system,
 				requests_receiver.clone(),
+				cancelled_receiver,
 				cancel_token.clone(),
 			),
 			request_manager.start(cancel_token.clone()),
@@ -95,6 +104,7 @@ impl AnalyzerHost {
 		&self,
 		requests_sender: Sender<Message>,
 		responses_sender: Sender<Message>,
+		cancelled_sender: Sender<()>,
 		cancel_token: Arc<CancellationToken>,
 	) -> Result<(), OperationCanceled> {
 		while !cancel_token.is_canceled() {
@@ -121,6 +131,8 @@ impl AnalyzerHost {
 		responses_sender.close();
 
 		if cancel_token.is_canceled() {
+			cancelled_sender.close();
+
 			return Err(OperationCanceled);
 		}
 
@@ -132,6 +144,7 @@ impl AnalyzerHost {
 		request_manager: RequestManager,
 		file_system: Arc<AnyEnumerableFileSystem>,
 		requests_receiver: Receiver<Message>,
+		cancelled_receiver: Receiver<()>,
 		cancel_token: Arc<CancellationToken>,
 	) -> Result<(), OperationCanceled> {
 		while self.protocol_machine.read().await.as_ref().unwrap().is_active() && !cancel_token.is_canceled() {
@@ -143,7 +156,7 @@ impl AnalyzerHost {
 
 					let request_message_span = info_span!("[Message]", message = format!("{}", message));
 
-					async {
+					let processing = async {
 						match self
 							.protocol_machine
 							.write()
@@ -165,8 +178,10 @@ impl AnalyzerHost {
 							}
 						}
 					}
-					.instrument(request_message_span)
-					.await;
+					.instrument(request_message_span);
+
+					// The message may be waiting for background work, which is no longer carried out once cancelled.
+					select(Box::pin(processing), Box::pin(cancelled_receiver.recv())).await;
 				}
 				Err(err) => {
 					error!("Unexpected error receiving request or notification: {:?}", err);
-- 
2.43.0


From 345f36c2ce83dd01c9ff4d13e56921c25cce4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:15 +0000
Subject: [PATCH 40/61] fix: an initialization that is refused leaves no state
 behind

---
 .../src/lsp_impl/active_uninitialized.rs      | 33 ++++++++++---------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
index 3798a9f..70aaa5f 100644
--- a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
@@ -49,6 +49,21 @@ async fn on_initialize(
 	params: InitializeParams,
 	state: Arc<AsyncRwLock<State>>,
 ) -> HandlerResult<InitializeResult> {
+	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
+	// This is checked before anything else, since an initialization that fails leaves the current state as it is.
+	let has_workspaces = params.workspace_folders.is_some();
+
+	if has_workspaces {
+		match params.capabilities.workspace {
+			Some(capabilities) if capabilities.did_change_watched_files != None => {}
+			_ => {
+				return Err(
+					HandlerError::new(
+						"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."))
+			}
+		}
+	}
+
 	initialize_client_dependant_state(state.clone(), params.workspace_folders, params.capabilities.window).await;
 
 	let state = state.read().await;
@@ -58,22 +73,8 @@ async fn on_initialize(
 		state.set_trace_value(trace_value);
 	}
 
-	// If the server has been started without any workspace context, then simply return our 'default' capability.
-	if !state.has_workspaces() {
-		return Ok(create_initialize_result(false));
-	}
-
-	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
-	// If the client supports that capability, then start indexing
-	match params.capabilities.workspace {
-		Some(capabilities)
-			if capabilities.did_change_watched_files != None => Ok(create_initialize_result(true)),
-		_ => {
-			Err(
-				HandlerError::new(
-					"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."))
-		}
-	}
+	// If the server has been started without any workspace context, then this returns our 'default' capability.
+	Ok(create_initialize_result(has_workspaces))
 }
 
 /// Responds to an 'exit' notification from the LSP client.
-- 
2.43.0


From c8933a05446e2310caaf02c1f08ea934492e2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:33 +0000
Subject: [PATCH 41/61] fix: a file that comes into existence is loaded

---
 .../src/lsp_impl/active_initialized.rs        | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 1410187..1916afb 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -22,6 +22,7 @@ use crate::{
 	lsp::{
 		dispatch_target::{HandlerError, HandlerResult},
 		state::LspServerState,
+		workspace::IndexError,
 		DispatchBuilder,
 	},
 };
@@ -239,15 +240,24 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 		return; // we don't need to query filesystem
 	}
 
-	match file.get_parsed_unit().await {
-		Ok(file_id) => {
-			let lock = state.write().await;
-			let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();
-			lock.analyzer.unwrap().update(file_id, &content);
+	// Wait for any background analyze of the file to finish. It may not have found the file, or found what it was before.
+	let _ = file.get_parsed_unit().await;
+
+	let state = state.write().await;
+
+	match state.file_system.file_contents(uri.clone()).await {
+		Some(content) => {
+			let mut analyzer = state.analyzer.unwrap();
+			let file_id = analyzer.file_id(uri.as_str());
+
+			analyzer.update(file_id, &content);
+			file.set_parsed_unit(file_id, None);
 			info!("{} file updated from file system", uri.path());
 		}
-		Err(err) => {
-			error!(uri = uri.as_str(), "Could not query completions. Index error: {}", err);
+		None => {
+			state.analyzer.unwrap().delete(uri.as_str());
+			file.set_index_error(IndexError::NotFound);
+			info!("{} file is no longer in the file system", uri.path());
 		}
 	}
 }
-- 
2.43.0


From a4d137c3cbc6b445d0824cde69fd60a2376ca6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 42/61] fix: indexing a folder does not forget the files that
 are already open

The files of a folder are enumerated while the client already opens some of
them. Replacing their state made them appear closed, and the background load
overwrote the buffers of the IDE with what is on disk.
---
 crates/analyzer-host/src/lsp/workspace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index 779a838..fed93be 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -205,7 +205,10 @@ impl Workspace {
 			let mut files = workspace.files.write().unwrap();
 
 			for document_identifier in document_identifiers.into_iter() {
-				files.insert(document_identifier.uri.clone(), Arc::new(File::new(document_identifier.clone())));
+				// The file may already be known (i.e., it was opened in the IDE while the folder was being enumerated).
+				files
+					.entry(document_identifier.uri.clone())
+					.or_insert_with(|| Arc::new(File::new(document_identifier.clone())));
 
 				// Background load the file now that its known to the Workspace.
 				workspace.background_load.load(document_identifier.uri.clone());
-- 
2.43.0


From 89435fe0da521b2abc1208008bb869aec5dcdee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 43/61] fix: a file that is closed is loaded from the file
 system

Closing a file removed its contents from the analyzer, and nothing put those
on disk in their place, although the file exists and may be included by
others.
---
 crates/analyzer-host/src/lsp/workspace.rs               | 6 +++++-
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index fed93be..a838c77 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -307,7 +307,11 @@ impl File {
 	pub fn close(&self) {
 		let mut state = self.state.try_write().unwrap();
 
-		state.is_open_in_ide = false;
+		// What was parsed while the file was open is of its buffer.
+		if state.is_open_in_ide {
+			state.is_open_in_ide = false;
+			state.parsed_unit = FutureCompletionSource::new();
+		}
 	}
 
 	pub(crate) fn set_parsed_unit(
diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 1916afb..2a6ab47 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -20,6 +20,7 @@ use analyzer_abstractions::{
 use crate::{
 	fsm::LspServerStateDispatcher,
 	lsp::{
+		analyzer::BackgroundLoad,
 		dispatch_target::{HandlerError, HandlerResult},
 		state::LspServerState,
 		workspace::IndexError,
@@ -199,6 +200,9 @@ async fn on_text_document_did_close(
 	analyzer.delete(params.text_document.uri.as_str());
 	file.close();
 
+	// The file system is now the source of truth for this file.
+	state.analyzer.load(params.text_document.uri);
+
 	Ok(())
 }
 
-- 
2.43.0


From b34ab8ed2b37904bde229702c711db29c9ab7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 44/61] fix: an open document need not exist in the file system

A load that was in progress while the document was opened, and that did not
find it, made completions in it fail.
---
 crates/analyzer-host/src/lsp_impl/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 0e9f7e5..19b57a5 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -224,6 +224,7 @@ impl State {
 
 								file.set_parsed_unit(file_id, None);
 							}
+							None if file.is_open_in_ide() => return, // The IDE doesn't need the file to exist
 							None => file.set_index_error(IndexError::NotFound), // The file was not found
 						}
 
-- 
2.43.0


From 5e4588f4e3db4085272a4615b7487f341b62545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:46 +0000
Subject: [PATCH 45/61] fix: what a superseded load of a file reads is ignored

A file can be opened and closed, change or be deleted while its contents are
being read. What was read before then replaced what is known now: deleted
files came back, and changed ones were reverted.
---
 crates/analyzer-host/src/lsp/workspace.rs     | 24 +++++++++++++++++++
 .../src/lsp_impl/active_initialized.rs        | 14 +++++++----
 crates/analyzer-host/src/lsp_impl/state.rs    |  9 ++++---
 3 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index a838c77..d2f7b27 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -253,6 +253,9 @@ pub enum IndexError {
 #[derive(Clone)]
 pub(crate) struct FileState {
 	is_open_in_ide: bool,
+
+	/// The number of the latest load of the file. What an earlier one reads is obsolete.
+	load: usize,
 	parsed_unit: FutureCompletionSource<Arc<RwLock<ParsedUnit>>, IndexError>,
 }
 
@@ -271,6 +274,7 @@ impl File {
 			document_identifier,
 			state: Arc::new(AsyncRwLock::new(FileState {
 				is_open_in_ide: false,
+				load: 0,
 				parsed_unit: FutureCompletionSource::<Arc<RwLock<ParsedUnit>>, IndexError>::new(),
 			})),
 		}
@@ -283,6 +287,25 @@ impl File {
 		state.is_open_in_ide
 	}
 
+	/// Begins to load the file, or to replace what a load in progress will read.
+	///
+	/// Whoever begins a load sets either a parsed unit or an error if the load is still the current one when it
+	/// completes.
+	pub(crate) fn begin_load(&self) -> usize {
+		let mut state = self.state.try_write().unwrap();
+
+		state.load += 1;
+
+		state.load
+	}
+
+	/// Returns `true` if the file was neither opened in the IDE nor loaded again since a given load began.
+	pub(crate) fn is_current_load(&self, load: usize) -> bool {
+		let state = self.state.try_read().unwrap();
+
+		!state.is_open_in_ide && state.load == load
+	}
+
 	pub async fn get_parsed_unit(&self) -> Result<ParsedUnit, IndexError> {
 		let state = self.state.read().await;
 		let parsed_unit = state.parsed_unit.clone();
@@ -300,6 +323,7 @@ impl File {
 		let mut state = self.state.try_write().unwrap();
 
 		state.is_open_in_ide = true;
+		state.load += 1;
 
 		self.set_parsed_unit(parsed_unit, Some(state)); // Use the writable state that we already have.
 	}
diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 2a6ab47..6f79586 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -244,12 +244,13 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 		return; // we don't need to query filesystem
 	}
 
-	// Wait for any background analyze of the file to finish. It may not have found the file, or found what it was before.
-	let _ = file.get_parsed_unit().await;
-
 	let state = state.write().await;
 
+	// A background analyze of the file that is in progress may not find the file, or find what it was before.
+	let load = file.begin_load();
+
 	match state.file_system.file_contents(uri.clone()).await {
+		_ if !file.is_current_load(load) => {} // it is being loaded again
 		Some(content) => {
 			let mut analyzer = state.analyzer.unwrap();
 			let file_id = analyzer.file_id(uri.as_str());
@@ -275,7 +276,12 @@ async fn deleted_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 		return; // we don't need to query filesystem
 	}
 
-	state.write().await.analyzer.unwrap().delete(uri.as_str());
+	let state = state.write().await;
+
+	// A background analyze of the file that is in progress may still find it.
+	file.begin_load();
+	state.analyzer.unwrap().delete(uri.as_str());
+	file.set_index_error(IndexError::NotFound);
 	info!("{} file deleted from file system", uri.path());
 }
 
diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 19b57a5..2e8a140 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -209,13 +209,16 @@ impl State {
 							return;
 						}
 
+						let load = file.begin_load();
+
 						match file_system.file_contents(file_url.clone()).await {
 							Some(text) => {
 								info!(file_uri = file_url.as_str(), "Got text: {}", text);
 
 								// If the file has been opened in the IDE during the fetching of its contents, then simply
-								// throw it all away. The IDE is now the source of truth for this file...
-								if file.is_open_in_ide() {
+								// throw it all away. The IDE is now the source of truth for this file. The same goes for
+								// contents that are known to have changed since...
+								if !file.is_current_load(load) {
 									return;
 								}
 
@@ -224,7 +227,7 @@ impl State {
 
 								file.set_parsed_unit(file_id, None);
 							}
-							None if file.is_open_in_ide() => return, // The IDE doesn't need the file to exist
+							None if !file.is_current_load(load) => return, // The file is open in the IDE, or has changed since
 							None => file.set_index_error(IndexError::NotFound), // The file was not found
 						}
 
-- 
2.43.0


From 02f76bffbb815506e6f7925f0706fcce362f5b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 46/61] fix: a malformed message costs only itself

---
 crates/p4-analyzer/src/driver.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/p4-analyzer/src/driver.rs b/crates/p4-analyzer/src/driver.rs
index cda0124..8ab2480 100644
--- a/crates/p4-analyzer/src/driver.rs
+++ b/crates/p4-analyzer/src/driver.rs
@@ -3,7 +3,7 @@ use async_channel::{Receiver, Sender};
 use async_std::task::block_on;
 use cancellation::{CancellationToken, OperationCanceled};
 use std::{
-	io::{stdin, stdout},
+	io::{stdin, stdout, ErrorKind},
 	sync::Arc,
 };
 use tokio::task;
@@ -68,9 +68,16 @@ impl Driver {
 	}
 
 	fn sender_task(sender: Sender<Message>, input_source: DriverType) {
-		while let Ok(Some(message)) = input_source.reader() {
-			if sender.send_blocking(message).is_err() {
-				break;
+		loop {
+			match input_source.reader() {
+				Ok(Some(message)) => {
+					if sender.send_blocking(message).is_err() {
+						break;
+					}
+				}
+				// A malformed message costs only itself.
+				Err(err) if err.kind() == ErrorKind::InvalidData => continue,
+				_ => break,
 			}
 		}
 	}
-- 
2.43.0


From d2955b10001cd6ee626f769d306ecdb0e1b6f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 47/61] fix: the server ends when its input does

---
 crates/p4-analyzer/src/driver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/p4-analyzer/src/driver.rs b/crates/p4-analyzer/src/driver.rs
index 8ab2480..ead1e6d 100644
--- a/crates/p4-analyzer/src/driver.rs
+++ b/crates/p4-analyzer/src/driver.rs
@@ -80,6 +80,9 @@ impl Driver {
 				_ => break,
 			}
 		}
+
+		// There is nothing more to come.
+		sender.close();
 	}
 
 	fn receiver_task(receiver: Receiver<Message>, output_source: DriverType) {
-- 
2.43.0


From 9fe5d95d597eb4917c6134ee3b6e6965bd3f1420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 48/61] fix: the buffered driver counts and removes messages in
 one step, and takes its locks in one order

---
 .../p4-analyzer/src/driver/buffer_driver.rs   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/p4-analyzer/src/driver/buffer_driver.rs b/crates/p4-analyzer/src/driver/buffer_driver.rs
index 16e4ef9..907a8b5 100644
--- a/crates/p4-analyzer/src/driver/buffer_driver.rs
+++ b/crates/p4-analyzer/src/driver/buffer_driver.rs
@@ -57,14 +57,13 @@ impl BufferStruct {
 						continue;
 					} // Not ready to read, so continue looping
 
-					*guard -= 1; // confirm we're doing a Read
-					drop(guard); // drop lock to avoid dead locks
-
-					// now wait for data lock because we're been give the all clear
+					// The counter is kept locked until the message is removed, so that both always change together
 					let mut lock = self.data.write().unwrap();
 
-					let ret = Some(lock.input_queue.remove().unwrap());
-					return Ok(ret);
+					if let Ok(message) = lock.input_queue.remove() {
+						*guard -= 1; // confirm we did a Read
+						return Ok(Some(message));
+					}
 				}
 				Err(_) => async_std::task::sleep(Duration::from_millis(1)).await, // couldn't get lock, so wait
 			}
@@ -88,7 +87,11 @@ impl BufferStruct {
 
 	/// Allows Driver to read every message in the Queue & hands over concurrency handler
 	pub async fn allow_all_read_blocking(&self) {
-		*(self.read_queue_count.lock().unwrap()) = self.data.read().unwrap().input_queue.size();
+		{
+			// The counter is always locked before the data, as in `read_queue()`
+			let mut count = self.read_queue_count.lock().unwrap();
+			*count = self.data.read().unwrap().input_queue.size();
+		}
 		async_std::task::sleep(Duration::from_millis(0)).await; // see comment above
 	}
 
@@ -173,8 +176,9 @@ impl BufferStruct {
 
 	/// Removes all incoming messages from the Queue and stops any further message reads by Driver
 	pub fn clear_message_buffer(&self) {
+		let mut count = self.read_queue_count.lock().unwrap();
 		while self.data.write().unwrap().input_queue.remove().is_ok() {}
-		*(self.read_queue_count.lock().unwrap()) = 0;
+		*count = 0;
 	}
 
 	pub fn clear_both_buffers(&self) {
-- 
2.43.0


From 44f94e215b1a48e3552e31c7842d28e04a470182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 49/61] fix: stdout carries nothing but the protocol

---
 crates/p4-analyzer/src/main.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/p4-analyzer/src/main.rs b/crates/p4-analyzer/src/main.rs
index 7046615..09fa13f 100644
--- a/crates/p4-analyzer/src/main.rs
+++ b/crates/p4-analyzer/src/main.rs
@@ -133,10 +133,8 @@ impl<C: Command> RunnableCommand<C> {
 
 		match cmd.run(cancellation_token).await {
 			Ok(_) => {}
-			Err(err) => match err {
-				CommandInvocationError::Cancelled => println!("{}", err),
-				_ => eprintln!("{}", err),
-			},
+			// `stdout` belongs to the protocol.
+			Err(err) => eprintln!("{}", err),
 		};
 	}
 
-- 
2.43.0


From e1d46510c95768e46dfa36357861c8c5beab0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 50/61] fix: the native file system copes with what is no file,
 no text or no pattern

---
 crates/p4-analyzer/src/native_fs.rs | 32 +++++++++++++++--------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index e63d65e..5f10254 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -4,7 +4,7 @@ pub mod native_fs {
 		lsp_types::{TextDocumentIdentifier, Url},
 		BoxFuture,
 	};
-	use glob::glob;
+	use glob::{glob, Pattern};
 
 	pub struct NativeFs {}
 
@@ -20,18 +20,23 @@ pub mod native_fs {
 			file_pattern: String,
 		) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
 			async fn enumerate_folder(folder_uri: Url, file_pattern: String) -> Vec<TextDocumentIdentifier> {
-				let mut folder_uri = folder_uri.clone();
-				folder_uri.path_segments_mut().unwrap().push(&file_pattern);
+				let mut output = Vec::new();
 
-				let glob_pattern = folder_uri.to_file_path().unwrap();
-				let glob_pattern = glob_pattern.to_str().unwrap();
+				// A folder that is not located in the file system has no files in it.
+				let folder_path = match folder_uri.to_file_path() {
+					Ok(path) => path,
+					Err(_) => return output,
+				};
 
-				let mut output = Vec::new();
+				// Only `file_pattern` is a pattern, whatever characters there are in the path of the folder.
+				let folder_pattern = Pattern::escape(&folder_path.to_string_lossy());
+				let glob_pattern = format!("{}/{}", folder_pattern.trim_end_matches('/'), file_pattern);
 
-				for files in glob(glob_pattern).expect("Failed to read glob pattern") {
+				for files in glob(&glob_pattern).expect("Failed to read glob pattern") {
 					match files {
+						Ok(path) if path.is_dir() => {}
 						Ok(path) => output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() }),
-						Err(e) => println!("{:?}", e),
+						Err(e) => eprintln!("{:?}", e), // `stdout` belongs to the protocol.
 					}
 				}
 
@@ -43,14 +48,11 @@ pub mod native_fs {
 
 		fn file_contents<'a>(&'a self, file_uri: Url) -> BoxFuture<'a, Option<String>> {
 			async fn file_contents(file_uri: Url) -> Option<String> {
-				let path = file_uri.to_file_path().unwrap();
+				// Something that is not located in the file system, or that is not text, has no contents.
+				let path = file_uri.to_file_path().ok()?;
+				let data = tokio::fs::read(path).await.ok()?;
 
-				let data = tokio::fs::read(path).await;
-
-				match data {
-					Ok(data) => Some(String::from_utf8(data).unwrap()),
-					Err(_) => None,
-				}
+				String::from_utf8(data).ok()
 			}
 
 			Box::pin(file_contents(file_uri))
-- 
2.43.0


From 551056ac81eab02450436b13df07383decb0cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 51/61] fix: work that wakes itself does not starve everything
 else

---
 .../futures_extensions/async_extensions.rs    | 48 +++++++++++++++----
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index f947894..74f519b 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -1,13 +1,14 @@
 use std::{
 	cell::RefCell,
 	sync::{Arc, Mutex},
-	task::Context,
+	task::{Context, Poll},
 };
 
 use crate::BoxFuture;
 use async_channel::{Receiver, Sender};
 use cancellation::{CancellationToken, OperationCanceled};
 use futures::{
+	future::poll_fn,
 	task::{waker_ref, ArcWake},
 	Future,
 };
@@ -51,15 +52,9 @@ impl AsyncPool {
 		while !cancel_token.is_canceled() {
 			match receiver.recv().await {
 				Ok(work) => {
-					let mut future_slot = work.future.lock().unwrap();
-
-					if let Some(mut future) = future_slot.take() {
-						let waker = waker_ref(&work);
-						let context = &mut Context::from_waker(&*waker);
-
-						if future.as_mut().poll(context).is_pending() {
-							*future_slot = Some(future)
-						}
+					// Work that has already woken itself waits for everything else to have had its turn.
+					if Self::run(work) == Poll::Pending {
+						Self::yield_now().await;
 					}
 				}
 				Err(_) => break, // `work_channel` has been closed.
@@ -73,6 +68,39 @@ impl AsyncPool {
 		Ok(())
 	}
 
+	fn run(work: Arc<AsyncWork>) -> Poll<()> {
+		let mut future_slot = work.future.lock().unwrap();
+
+		if let Some(mut future) = future_slot.take() {
+			let waker = waker_ref(&work);
+			let context = &mut Context::from_waker(&*waker);
+
+			if future.as_mut().poll(context).is_pending() {
+				*future_slot = Some(future);
+
+				return Poll::Pending;
+			}
+		}
+
+		Poll::Ready(())
+	}
+
+	async fn yield_now() {
+		let mut yielded = false;
+
+		poll_fn(|context| {
+			if yielded {
+				return Poll::Ready(());
+			}
+
+			yielded = true;
+			context.waker().wake_by_ref();
+
+			Poll::Pending
+		})
+		.await
+	}
+
 	pub fn stop() {
 		let (sender, _) = WORK_CHANNEL.with(|c| c.borrow().clone());
 
-- 
2.43.0


From e55eea1bbc46873ee89bf217b916172c6ac285b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:48 +0000
Subject: [PATCH 52/61] fix: a file in both folders is one document of the dump

---
 crates/lsif-p4/src/lsif_generator.rs | 5 ++++-
 crates/lsif-p4/src/lsif_writer.rs    | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/lsif-p4/src/lsif_generator.rs b/crates/lsif-p4/src/lsif_generator.rs
index ee3b241..71b3dc6 100644
--- a/crates/lsif-p4/src/lsif_generator.rs
+++ b/crates/lsif-p4/src/lsif_generator.rs
@@ -165,7 +165,10 @@ impl LsifGenerator {
 		let workspace_manager = self.read_workspace_manager().await;
 		for workspace in workspace_manager.workspaces {
 			for (url, _file) in workspace.1.files.read().unwrap().iter() {
-				self.writer.document(url);
+				// A file may be found in both folders, when one of them is located in the other.
+				if !self.data().files.contains_key(url) {
+					self.writer.document(url);
+				}
 			}
 		}
 	}
diff --git a/crates/lsif-p4/src/lsif_writer.rs b/crates/lsif-p4/src/lsif_writer.rs
index d15787c..21b4600 100644
--- a/crates/lsif-p4/src/lsif_writer.rs
+++ b/crates/lsif-p4/src/lsif_writer.rs
@@ -17,7 +17,7 @@ pub struct LsifWriter {
 }
 
 pub struct LsifData {
-	files: HashMap<Url, i32>,
+	pub(crate) files: HashMap<Url, i32>,
 }
 
 impl LsifData {
-- 
2.43.0


From 347122fc873893a129029319211cafa3192cf9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:49 +0000
Subject: [PATCH 53/61] fix: the dump waits for the workspaces to be indexed

---
 crates/lsif-p4/src/lsif_generator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/lsif-p4/src/lsif_generator.rs b/crates/lsif-p4/src/lsif_generator.rs
index 71b3dc6..557d5b1 100644
--- a/crates/lsif-p4/src/lsif_generator.rs
+++ b/crates/lsif-p4/src/lsif_generator.rs
@@ -151,8 +151,9 @@ impl LsifGenerator {
 			.unwrap()
 			.send_messages(queue![initialize_request, initialized_notification])
 			.await;
-		// results
-		let _ = self.driver.as_ref().unwrap().get_output_buffer(1).await;
+		// results: the response to 'initialize', and the request (the first one, hence its id) to register for watched
+		// files. The workspaces are indexed once that was answered.
+		let _ = self.driver.as_ref().unwrap().get_output_buffer(2).await;
 
 		let initialized_response =
 			Message::Response(Response { id: 0.into(), result: Some(serde_json::json!(())), error: None });
-- 
2.43.0


From eba4896d67656cf6f8a20622e2210552fc632d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 54/61] fix: a message that waits for background work does not
 outlive the pool

---
 crates/analyzer-host/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 0664277..5fd0838 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -86,7 +86,7 @@ impl AnalyzerHost {
 				cancel_token.clone(),
 			),
 			request_manager.start(cancel_token.clone()),
-			AsyncPool::start(cancel_token.clone()),
+			self.run_background_work(cancelled_sender.clone(), cancel_token.clone()),
 		)
 		.await
 		{
@@ -139,6 +139,19 @@ impl AnalyzerHost {
 		Ok(())
 	}
 
+	async fn run_background_work(
+		&self,
+		cancelled_sender: Sender<()>,
+		cancel_token: Arc<CancellationToken>,
+	) -> Result<(), OperationCanceled> {
+		let result = AsyncPool::start(cancel_token).await;
+
+		// Whatever is still waiting for background work is waiting in vain.
+		cancelled_sender.close();
+
+		result
+	}
+
 	async fn run_protocol_machine(
 		&self,
 		request_manager: RequestManager,
-- 
2.43.0


From 53fb44b81fab986a7f80a195b7cbf54fcd83948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:24 +0000
Subject: [PATCH 55/61] fix: the Node.js adapter copies a chunk from its start,
 wherever it lies in its own buffer

---
 packages/p4-analyzer/src/server/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index 8708962..a853550 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -77,7 +77,7 @@ export default class {
 			this.requestBuffer = Buffer.concat([this.requestBuffer, Buffer.alloc(BUFFER_CHUNK_SIZEBYTES * (Math.floor(chunk.byteLength / BUFFER_CHUNK_SIZEBYTES) + 1))]);
 		}
 
-		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset, chunk.byteOffset, chunk.byteLength);
+		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
 
 		const splitOffset = this.requestBuffer.indexOf(BODY_SPLIT_CHARS);
 
-- 
2.43.0


From e10785503a1ae72cd54c66a6e73d25f605358fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:47 +0000
Subject: [PATCH 56/61] fix: the Node.js adapter reads every message that a
 chunk completes, and keeps what follows

---
 packages/p4-analyzer/src/server/index.ts | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index a853550..f33f4b6 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -79,9 +79,19 @@ export default class {
 
 		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
 
-		const splitOffset = this.requestBuffer.indexOf(BODY_SPLIT_CHARS);
+		// A chunk can complete any number of messages.
+		while (this.readRequestMessage());
+	}
 
-		if (splitOffset < 0) return; // Still reading the headers. Continue until we get them.
+	/**
+	 * Reads a single message out of the _running_ `Buffer`, and queues it for processing.
+	 *
+	 * @returns `true` if a message was read; otherwise `false` if none has been fully received yet.
+	 */
+	private readRequestMessage(): boolean {
+		const splitOffset = this.requestBuffer.subarray(0, this.requestBufferOffset).indexOf(BODY_SPLIT_CHARS);
+
+		if (splitOffset < 0) return false; // Still reading the headers. Continue until we get them.
 
 		const headers = this.requestBuffer.subarray(0, splitOffset).toString();
 		const contentLength = Number(CONTENTLENGTH_HEADER_EXP.exec(headers)?.groups["length"]);
@@ -90,19 +100,21 @@ export default class {
 
 		const minRequiredOffset = splitOffset + BODY_SPLIT_CHARS.length + contentLength;
 
-		if (this.requestBufferOffset < minRequiredOffset) return; // Still reading the expected body. Continue until we get it.
+		if (this.requestBufferOffset < minRequiredOffset) return false; // Still reading the expected body. Continue until we get it.
 
-		// We have now received at least one full message. Pull it out and reset the request buffer to continue reading
+		// We have now received at least one full message. Pull it out and keep what follows it, which belongs to
 		// the next one.
 		const requestMessageBuffer = Buffer.alloc(contentLength);
 
 		this.requestBuffer.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);
-		this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset);
-		this.requestBufferOffset = 0;
+		this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset, this.requestBufferOffset);
+		this.requestBufferOffset -= minRequiredOffset;
 
 		this.requestMessageBufferQueue.push(requestMessageBuffer);
 
 		setImmediate(this.sendRequestMessageBuffer.bind(this)); // Queue the request message buffer for processing.
+
+		return true;
 	}
 
 	/**
-- 
2.43.0


From fc8d178a0817a72a9a2ef01e8a764815afb16962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:47 +0000
Subject: [PATCH 57/61] fix: a message that the server refuses does not end the
 Node.js adapter

---
 packages/p4-analyzer/src/server/index.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index f33f4b6..303b527 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -121,7 +121,12 @@ export default class {
 	 * Dequeues a request message and sends it to the P4 Analyzer webassembly instance.
 	 */
 	private async sendRequestMessageBuffer(): Promise<void> {
-		await this.server.sendRequest(this.requestMessageBufferQueue.shift());
+		try {
+			await this.server.sendRequest(this.requestMessageBufferQueue.shift());
+		}
+		catch (err: unknown) {
+			console.error(err instanceof Error ? err.message : String(err)); // The message is refused, and the next one can be processed.
+		}
 	}
 
 	/**
-- 
2.43.0


From f0c25973a1bf5f80ad7a56726c25501b0196d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:36 +0000
Subject: [PATCH 58/61] fix: the extension enumerates the files of the folder
 that it was asked for

---
 packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts b/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts
index 6acb5bf..c5c1a71 100644
--- a/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts
+++ b/packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts
@@ -24,7 +24,7 @@ function setP4AnalyzerHandlers(this: BaseLanguageClient): void {
 
 		if (!folder) throw new Error(`Invalid or unknown workspace ('${uri.toString()}')`);
 
-		const files = await workspace.findFiles(new RelativePattern(folder, params.filePattern).pattern);
+		const files = await workspace.findFiles(new RelativePattern(folder, params.filePattern));
 
 		return files.map(file => TextDocumentIdentifier.create(file.toString()));
 	});
-- 
2.43.0


From 93d6ef4c99e916ac1f339cffa95d64b306e59bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:39 +0000
Subject: [PATCH 59/61] fix: the version tool reads the tag that Git reports

---
 tools/src/version.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/version.ts b/tools/src/version.ts
index 30fe3bb..9db4052 100644
--- a/tools/src/version.ts
+++ b/tools/src/version.ts
@@ -18,7 +18,7 @@ interface Options {
  */
 export function getCurrentTag(): string | undefined {
   try {
-    return execSync(`git describe --exact-match HEAD`, { stdio: "ignore" }).toString().trim()
+    return execSync(`git describe --exact-match HEAD`, { stdio: ["ignore", "pipe", "ignore"] }).toString().trim()
   }
   catch(err) {
     return undefined;
-- 
2.43.0


From 6bad30a21de6fa6edf1ef2708f36a1d5b9cda073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:39 +0000
Subject: [PATCH 60/61] fix: the version tool finds version.json in workspaces
 with blanks in their path

---
 tools/src/version.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/src/version.ts b/tools/src/version.ts
index 9db4052..f97f154 100644
--- a/tools/src/version.ts
+++ b/tools/src/version.ts
@@ -1,5 +1,5 @@
 import { ExecutorContext, logger, readJsonFile } from "@nrwl/devkit";
-import { execSync } from "node:child_process";
+import { execFileSync, execSync } from "node:child_process";
 import { join, resolve, normalize } from "node:path";
 import { writePackageJson } from "./jsonUtils";
 import { writeTomlManifest } from "./tomlUtils";
@@ -34,7 +34,7 @@ export function getCurrentTag(): string | undefined {
 export function getLatestCommit(filePath?: string): string {
   try {
     return filePath
-      ? execSync(`git log --format=%h -1 -- ${filePath}`).toString().trim()
+      ? execFileSync("git", ["log", "--format=%h", "-1", "--", filePath]).toString().trim()
       : execSync("git log --format=%h -1").toString().trim()
   }
   catch(err) {
-- 
2.43.0


From e0ce34e1361948c5de20732b350058fb2f9a84a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:39 +0000
Subject: [PATCH 61/61] fix: the version tool honours that a local version is
 asked for

---
 tools/src/version.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/version.ts b/tools/src/version.ts
index f97f154..600672b 100644
--- a/tools/src/version.ts
+++ b/tools/src/version.ts
@@ -107,7 +107,7 @@ export function getVersion(context: ExecutorContext, local: boolean = false): st
  * workspace.
  */
 export default async function versionPackagesExecutor(options: Options, context: ExecutorContext) {
-	const version = getVersion(context);
+	const version = getVersion(context, options.local);
 	const projectRoot = join(
 		context.root,
 		context.workspace.projects[context.projectName].root);
-- 
2.43.0

