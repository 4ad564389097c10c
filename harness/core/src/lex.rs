//! C13 spans, C14 tokens against a scanner written from the token definitions, C15 diagnostics of lexical errors.
use crate::gen;
use analyzer_core::{
	base_abstractions::*,
	lexer::{Literal, Token},
	preprocessor::{PreprocessorDirective as D, PreprocessorQuotationStyle as Q},
	Analyzer,
};
use vcommon::*;

/// What the scanner expects at a span.
#[derive(Debug, Clone, PartialEq)]
pub enum Want {
	Token(Token),
	/// No token; adjacent ones are one region.
	Error,
	/// An `#if`/`#elif` whose condition this scanner does not judge.
	Condition,
	/// A `#define` of this name whose replacement (with backslashes in it) this scanner does not judge.
	Define(String),
	/// A `#define` without a name.
	Nameless,
	/// An `#undef`, `#define` or `#include` among blanks of which it is a matter of taste whether they separate words
	/// (such as a vertical tab).
	Blanks,
}

fn word(c: char) -> bool { c.is_alphanumeric() || c == '_' || c == '\u{301}' }

/// A literal, from the characters of its token.
fn literal(s: &str) -> Option<Literal> {
	let (mut width, mut signed, mut rest) = (None, false, s);
	if let Some(i) = s.find(|c| c == 'w' || c == 's') {
		if s[..i].chars().all(|c| c.is_ascii_digit() || c == '_') {
			width = Some(s[..i].replace('_', "").parse::<u32>().ok()?);
			signed = &s[i..i + 1] == "s";
			rest = &s[i + 1..];
		}
	}
	let mut base = 10;
	let low = rest.to_ascii_lowercase();
	for (p, b) in [("0x", 16u8), ("0b", 2), ("0o", 8), ("0d", 10)] {
		if low.starts_with(p) {
			base = b;
			rest = &rest[2..];
			break;
		}
	}
	let mut value: i64 = 0;
	let mut any = false;
	for c in rest.chars().filter(|c| *c != '_') {
		let d = c.to_digit(base as u32)? as i64;
		value = value.checked_mul(base as i64)?.checked_add(d)?;
		any = true;
	}
	if !any {
		return None;
	}
	Some(Literal { base, signed, width, value })
}

fn directive(name: &str, arg: &str) -> Want {
	// (arg has its line continuations removed)
	let trimmed = arg.trim_start_matches(|c: char| c.is_ascii_whitespace());
	if matches!(name, "include" | "define" | "undef") && arg.chars().any(|c| c.is_whitespace() && !c.is_ascii_whitespace()) {
		return Want::Blanks;
	}
	match name {
		"include" => {
			let mut cs = trimmed.chars();
			let (style, end) = match cs.next() {
				Some('<') => (Q::AngleBrackets, '>'),
				Some('"') => (Q::DoubleQuotes, '"'),
				_ => return Want::Error,
			};
			match cs.as_str().find(end) {
				Some(i) => Want::Token(Token::PreprocessorDirective(D::Include(style, cs.as_str()[..i].to_string()))),
				None => Want::Error,
			}
		}
		"if" | "elif" => Want::Condition,
		"else" => Want::Token(Token::PreprocessorDirective(D::Else)),
		"endif" => Want::Token(Token::PreprocessorDirective(D::EndIf)),
		"define" => {
			match trimmed.chars().next() {
				None => return Want::Nameless,
				Some(c) if !c.is_ascii_alphabetic() && c != '_' => return Want::Error,
				_ => (),
			}
			let n = trimmed.find(|c: char| !c.is_ascii_alphanumeric() && c != '_').unwrap_or(trimmed.len());
			let rhs = trimmed[n..].trim_start_matches(|c: char| c.is_ascii_whitespace());
			if rhs.contains('\\') {
				return Want::Define(trimmed[..n].to_string());
			}
			Want::Token(Token::PreprocessorDirective(D::Define(trimmed[..n].to_string(), rhs.to_string())))
		}
		"undef" => {
			let words: Vec<_> = arg.split_ascii_whitespace().collect();
			match words[..] {
				[w] => Want::Token(Token::PreprocessorDirective(D::Undef(w.to_string()))),
				_ => Want::Error,
			}
		}
		"pragma" => Want::Token(Token::PreprocessorDirective(D::Pragma(trimmed.to_string()))),
		_ => Want::Token(Token::PreprocessorDirective(D::Other(name.to_string(), arg.to_string()))),
	}
}

/// Scans a text. Stops early (and says so) at a `#` that no word follows, where only the extent of the error is a
/// matter of taste.
pub fn scan(s: &str) -> (Vec<(Want, Span)>, bool) {
	let mut out = vec![];
	let mut at = 0;
	while at < s.len() {
		let rest = &s[at..];
		let c = rest.chars().next().unwrap();
		let upto = |f: &dyn Fn(char) -> bool| rest.find(|c| !f(c)).unwrap_or(rest.len());
		let (want, n) = if c.is_whitespace() {
			(Want::Token(Token::Whitespace), upto(&|c| c.is_whitespace()))
		} else if rest.starts_with("//") {
			(Want::Token(Token::Comment), rest.find('\n').map_or(rest.len(), |i| i + 1))
		} else if rest.starts_with("/*") {
			match rest[2..].find("*/") {
				Some(i) => (Want::Token(Token::Comment), i + 4),
				None => (Want::Error, rest.len()),
			}
		} else if c == '#' {
			let ws = 1 + rest[1..].find(|c: char| !c.is_whitespace()).unwrap_or(rest.len() - 1);
			let name_len = rest[ws..].find(|c| !word(c)).unwrap_or(rest.len() - ws);
			if name_len == 0 {
				return (out, false);
			}
			let name = &rest[ws..ws + name_len];
			// the logical line: a backslash takes the next character along
			let mut n = ws + name_len;
			let mut arg = String::new();
			let mut cs = rest[n..].chars();
			while let Some(c) = cs.next() {
				n += c.len_utf8();
				match c {
					'\n' => break,
					'\\' => {
						if let Some(e) = cs.next() {
							n += e.len_utf8();
							if e != '\n' {
								arg.push(e);
							}
						}
					}
					c => arg.push(c),
				}
			}
			let mut want = directive(name, &arg);
			if rest[..n].contains('\\') && !rest[..n].contains("\\\n") && !rest[..n].contains("\\\r") {
				// escapes other than continuations
				if let Want::Token(Token::PreprocessorDirective(D::Define(n, _))) = &want {
					want = Want::Define(n.clone());
				}
			}
			(want, n)
		} else if c.is_ascii_alphabetic() || c == '_' {
			let n = upto(&|c| c.is_ascii_alphanumeric() || c == '_');
			let t = match &rest[..n] {
				"action" => Token::KwAction,
				"apply" => Token::KwApply,
				"control" => Token::KwControl,
				"else" => Token::KwElse,
				"header" => Token::KwHeader,
				"if" => Token::KwIf,
				"return" => Token::KwReturn,
				"state" => Token::KwState,
				"table" => Token::KwTable,
				"transition" => Token::KwTransition,
				"typedef" => Token::KwTypedef,
				id => Token::Identifier(id.to_string()),
			};
			(Want::Token(t), n)
		} else if c.is_ascii_digit() {
			let n = upto(&|c| c.is_ascii_hexdigit() || "wsoOxX_".contains(c));
			(literal(&rest[..n]).map_or(Want::Error, |l| Want::Token(Token::Integer(l))), n)
		} else {
			let t = match c {
				'{' => Some(Token::OpenBrace),
				'}' => Some(Token::CloseBrace),
				'[' => Some(Token::OpenBracket),
				']' => Some(Token::CloseBracket),
				'(' => Some(Token::OpenParen),
				')' => Some(Token::CloseParen),
				'<' => Some(Token::OpenChevron),
				'>' => Some(Token::CloseChevron),
				':' => Some(Token::Colon),
				';' => Some(Token::Semicolon),
				',' => Some(Token::Comma),
				'.' => Some(Token::Dot),
				'=' => Some(Token::Equals),
				'*' => Some(Token::Asterisk),
				'/' => Some(Token::Slash),
				'+' => Some(Token::Plus),
				'-' => Some(Token::Minus),
				_ => None,
			};
			(t.map_or(Want::Error, Want::Token), c.len_utf8())
		};
		out.push((want, at..at + n));
		at += n;
	}
	(out, true)
}

fn analyzer() -> Analyzer { Analyzer::new(|_, p| Ok(format!("/{p}")), |_| ()) }

fn show(text: &str, s: &Span) -> String { format!("{s:?} {:?}", text.get(s.clone()).unwrap_or("<not a slice>")) }

fn spans(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let text = gen::any_text(r);
	let mut a = analyzer();
	let id = a.file_id("/root.p4");
	a.update(id, &text);
	let toks = no_panic("panic", || format!("lexing {text:?}"), || a.lexed(id))?;
	let toks = match toks {
		Some(t) => t,
		None => return Err(violation!("missing", "no tokens for a file that was just stored")),
	};
	let mut at = 0;
	for (t, s) in toks {
		ensure!(s.start == at, "gap", "token {t:?} spans {s:?}, the one before ends at {at}\n  text {text:?}");
		ensure!(s.end > s.start, "empty", "token {t:?} has the empty span {s:?}\n  text {text:?}");
		ensure!(text.get(s.clone()).is_some(), "boundary", "token {t:?} spans {s:?}, no slice of the text {text:?}");
		match t {
			Token::Identifier(n) => ensure!(*n == text[s.clone()], "text", "identifier {n:?} spans {}\n  text {text:?}", show(&text, s)),
			Token::Whitespace => ensure!(text[s.clone()].trim().is_empty(), "text", "whitespace spans {}\n  text {text:?}", show(&text, s)),
			Token::PreprocessorDirective(_) => ensure!(text[s.clone()].starts_with('#'), "text", "a directive spans {}\n  text {text:?}", show(&text, s)),
			Token::Comment => ensure!(text[s.clone()].starts_with('/'), "text", "a comment spans {}\n  text {text:?}", show(&text, s)),
			_ => (),
		}
		at = s.end;
		obs.distinct_of("token kinds", format!("{:?}", std::mem::discriminant(t)).as_bytes());
	}
	ensure!(at == text.len(), "tail", "the tokens end at {at}, the text at {}\n  text {text:?}", text.len());
	obs.eval();
	obs.count("tokens", toks.len() as u64);
	if toks.len() > 3 {
		obs.nontrivial(text.as_bytes());
	}
	obs.sample(|| format!("{text:?}"));
	Ok(())
}

/// Compares the lexer's tokens with the scanner's.
fn compare(text: &str, got: &[(Token, Span)], want: &[(Want, Span)], whole: bool, obs: &mut Obs) -> CaseResult {
	let mut i = 0;
	let mut w = 0;
	let fail = |i: usize, w: usize, why: &str| -> CaseResult {
		Err(violation!(
			"token",
			"{why}\n  lexer   {:?}\n  scanner {:?}\n  at      {}\n  text    {text:?}",
			got.get(i),
			want.get(w),
			want.get(w).map(|x| show(text, &x.1)).unwrap_or_default()
		))
	};
	while w < want.len() {
		let (k, s) = &want[w];
		let (t, g) = match got.get(i) {
			Some((t, g)) => (t, g.clone()),
			None => return fail(i, w, "the lexer stops early"),
		};
		if *k == Want::Error {
			// a region of errors, however it is cut up
			let mut end = s.end;
			let mut n = w + 1;
			while n < want.len() && want[n].0 == Want::Error {
				end = want[n].1.end;
				n += 1;
			}
			if g.start != s.start {
				return fail(i, w, "spans differ");
			}
			while let Some((Token::Error, g)) = got.get(i) {
				if g.start >= end {
					break;
				}
				if g.end > end {
					return fail(i, w, "an error token covers what is a token");
				}
				i += 1;
			}
			if got.get(i).map_or(text.len(), |(_, g)| g.start) != end {
				return fail(i, w, "not an error");
			}
			obs.count("error regions", 1);
			w = n;
			continue;
		}
		if g != *s {
			return fail(i, w, "spans differ");
		}
		let same = match k {
			Want::Token(Token::PreprocessorDirective(D::Define(n, rhs))) => {
				matches!(t, Token::PreprocessorDirective(D::Define(m, x)) if m == n && x.trim_end() == rhs.trim_end())
			}
			Want::Token(Token::PreprocessorDirective(D::Pragma(p))) => {
				matches!(t, Token::PreprocessorDirective(D::Pragma(x)) if x.trim_end() == p.trim_end())
			}
			Want::Token(Token::PreprocessorDirective(D::Other(n, p))) => {
				matches!(t, Token::PreprocessorDirective(D::Other(m, x)) if m == n && x.trim() == p.trim())
			}
			Want::Token(k) => k == t,
			Want::Condition => matches!(t, Token::Error | Token::PreprocessorDirective(D::If(_) | D::ElseIf(_))),
			Want::Define(n) => matches!(t, Token::Error | Token::PreprocessorDirective(D::Define(_, _))) && (*t == Token::Error || matches!(t, Token::PreprocessorDirective(D::Define(m, _)) if m == n)),
			Want::Nameless => matches!(t, Token::Error | Token::PreprocessorDirective(D::Define(_, _))),
			Want::Blanks => matches!(t, Token::Error | Token::PreprocessorDirective(D::Include(..) | D::Define(..) | D::Undef(_))),
			Want::Error => unreachable!(),
		};
		if !same {
			return fail(i, w, "tokens differ");
		}
		i += 1;
		w += 1;
	}
	if whole && i < got.len() {
		return fail(i, w, "the lexer has more tokens");
	}
	Ok(())
}

fn tokens(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let text = gen::any_text(r);
	check_tokens(&text, obs)?;
	obs.sample(|| format!("{text:?}"));
	Ok(())
}

fn check_tokens(text: &str, obs: &mut Obs) -> CaseResult {
	let mut a = analyzer();
	let id = a.file_id("/root.p4");
	a.update(id, &text.to_string());
	let toks = no_panic("panic", || format!("lexing {text:?}"), || a.lexed(id).unwrap())?;
	let (want, whole) = scan(text);
	compare(text, toks, &want, whole, obs)?;
	obs.eval();
	obs.count("tokens", want.len() as u64);
	for (k, _) in &want {
		match k {
			Want::Token(Token::Integer(_)) => obs.count("integers", 1),
			Want::Token(Token::Comment) => obs.count("comments", 1),
			Want::Token(Token::PreprocessorDirective(_)) => obs.count("directives", 1),
			_ => (),
		}
	}
	if want.len() > 3 {
		obs.nontrivial(text.as_bytes());
	}
	Ok(())
}

fn integers_probe(obs: &mut Obs) -> CaseResult {
	// every combination of prefixes and separators in short literals
	let parts = ["0", "1", "9", "x", "b", "o", "d", "X", "w", "s", "_", "f"];
	for a in ["0", "1", "8"] {
		for b in parts {
			for c in parts {
				for d in parts {
					for e in ["", "1", "_", "w", "s"] {
						check_tokens(&format!("{a}{b}{c}{d}{e}"), obs)?;
					}
				}
			}
		}
	}
	Ok(())
}

fn comments_probe(obs: &mut Obs) -> CaseResult {
	// all short texts over the characters that start, continue and end comments
	let alphabet = ['/', '*', '\n', 'x', ' '];
	for n in 1..=6usize {
		for mut k in 0..alphabet.len().pow(n as u32) {
			let mut s = String::new();
			for _ in 0..n {
				s.push(alphabet[k % alphabet.len()]);
				k /= alphabet.len();
			}
			check_tokens(&s, obs)?;
		}
	}
	Ok(())
}

fn error_runs(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let n = r.range(1, 30);
	let text = match r.below(5) {
		0 => gen::spelled(r, n, 0),
		1 => gen::any_text(r),
		_ => gen::spelled(r, n, 15),
	};
	let mut a = analyzer();
	let id = a.file_id("/root.p4");
	a.update(id, &text);
	let (toks, diags) = no_panic("panic", || format!("analysing {text:?}"), || (a.lexed(id).unwrap().clone(), a.diagnostics(id)))?;
	let mut runs: Vec<Span> = vec![];
	let mut open = false;
	for (t, s) in &toks {
		match (t, open) {
			(Token::Error, true) => runs.last_mut().unwrap().end = s.end,
			(Token::Error, false) => runs.push(s.clone()),
			_ => (),
		}
		open = *t == Token::Error;
	}
	let mut got: Vec<Span> = diags.iter().filter(|d| d.message == "unexpected token").map(|d| d.location.clone()).collect();
	got.sort_by_key(|s| (s.start, s.end));
	ensure!(
		got == runs,
		"runs",
		"the maximal runs of error tokens and the reported ones differ\n  runs     {:?}\n  reported {:?}\n  text {text:?}",
		runs.iter().map(|s| show(&text, s)).collect::<Vec<_>>(),
		got.iter().map(|s| show(&text, s)).collect::<Vec<_>>()
	);
	for (i, d) in diags.iter().enumerate() {
		ensure!(d.file == id, "file", "a diagnostic of another file: {:?} in {:?}", d.message, a.path(d.file));
		ensure!(text.get(d.location.clone()).is_some(), "location", "{:?} is reported at {:?}, no range of the text {text:?}", d.message, d.location);
		ensure!(d.severity == Severity::Error, "severity", "{:?} is not an error", d.message);
		for e in &diags[..i] {
			ensure!(d != e, "duplicate", "{:?} is reported twice at {}\n  text {text:?}", d.message, show(&text, &d.location));
		}
	}
	// a malformed literal is explained where it stands
	for (t, s) in &toks {
		if *t == Token::Error && text[s.clone()].starts_with(|c: char| c.is_ascii_digit()) {
			ensure!(diags.iter().any(|d| d.location == *s && d.message != "unexpected token") , "literal", "the malformed literal {} is not explained\n  text {text:?}", show(&text, s));
			obs.count("malformed literals", 1);
		}
		let word = text[s.clone()].strip_prefix('#').map(|l| l.trim_start_matches(|c: char| c.is_ascii_whitespace()));
		if *t == Token::Error && word.map_or(false, |w| w.starts_with("include ") || w.starts_with("define ")) {
			let there = |l: &Span| l.start >= s.start && l.end <= s.end;
			ensure!(diags.iter().any(|d| there(&d.location) && d.message != "unexpected token"), "directive", "the malformed directive {} is not explained\n  text {text:?}", show(&text, s));
			obs.count("malformed includes and definitions", 1);
		}
	}
	obs.eval();
	obs.count("error runs", runs.len() as u64);
	obs.count("error runs of several tokens", runs.iter().filter(|s| toks.iter().filter(|t| t.1.start >= s.start && t.1.end <= s.end).count() > 1).count() as u64);
	if toks.last().map_or(false, |t| t.0 == Token::Error) {
		obs.count("texts that end in an error", 1);
	}
	if !runs.is_empty() {
		obs.nontrivial(text.as_bytes());
	}
	obs.sample(|| format!("{text:?}: {runs:?}"));
	Ok(())
}

const ASSUME: &[&str] = &["salsa is a stand-in (/verif/standins/salsa) whose memoisation is observationally that of salsa: results are those of the query on the current inputs"];

pub fn checks() -> Vec<Check> {
	vec![
		Check {
			id: "C13",
			rule: "random texts: spelled tokens, P4 programs, junk, spliced and cut at random; non-trivial = distinct texts of more than three tokens",
			quick: 300_000,
			thorough: 3_000_000,
			min_distinct: 1000,
			must_observe: &["tokens", "token kinds"],
			run: spans,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C14",
			rule: "random texts, all short literals over 12 characters, all texts up to six characters over / * newline x space; non-trivial = distinct texts of more than three tokens",
			quick: 720_000,
			thorough: 3_000_000,
			min_distinct: 1000,
			must_observe: &["tokens", "integers", "comments", "directives", "error regions"],
			run: tokens,
			probes: &[("short literals", integers_probe), ("short comments", comments_probe)],
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C15",
			rule: "random texts rich in characters that start no token; non-trivial = distinct texts with at least one run of errors",
			quick: 320_000,
			thorough: 2_000_000,
			min_distinct: 1000,
			must_observe: &["error runs", "error runs of several tokens", "texts that end in an error", "malformed literals", "malformed includes and definitions"],
			run: error_runs,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
	]
}
