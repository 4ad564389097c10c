//! C01 incremental text synchronisation, C02 positions: against a model that knows nothing of line indexes.
use analyzer_core::lsp_file::{ChangeEvent, LspFile, Position, Range};
use vcommon::*;

/// Byte offset of a position in `text`: lines end at '\n', columns count characters (as the repository's own tests fix
/// it; LSP counts UTF-16 units, see the known finding), positions past the end of a line mean its end (before the terminator), lines past the end mean the end of the text.
pub fn offset(text: &str, line: usize, character: usize) -> usize {
	let mut start = 0;
	for _ in 0..line {
		match text[start..].find('\n') {
			Some(i) => start += i + 1,
			None => return text.len(),
		}
	}
	let mut units = 0;
	let mut at = start;
	for c in text[start..].chars() {
		if c == '\n' || units >= character {
			break;
		}
		units += 1;
		at += c.len_utf8();
	}
	at
}

/// The position a client would send for a byte offset on a character boundary.
pub fn position(text: &str, at: usize) -> (usize, usize) {
	let before = &text[..at];
	let line = before.matches('\n').count();
	let start = before.rfind('\n').map_or(0, |i| i + 1);
	(line, text[start..at].chars().count())
}

pub fn random_text(r: &mut Rng, max: usize) -> String {
	let n = r.below(max + 1);
	let style = r.below(5);
	let mut s = String::new();
	for _ in 0..n {
		match (style, r.below(14)) {
			(_, 0..=4) => s.push(*r.pick(&['a', 'b', 'x', '0', ' ', ';', '\t'])),
			(_, 5..=6) => s.push('\n'),
			(1 | 4, 7) => s.push_str("\r\n"),
			(2 | 3 | 4, 8) => s.push(*r.pick(&['é', 'ß', 'Ω'])),
			(2 | 3 | 4, 9) => s.push(*r.pick(&['€', '漢', '\u{2028}', '\u{feff}'])),
			(3 | 4, 10) => s.push(*r.pick(&['😀', '𝒳', '\u{10ffff}'])),
			(0, 11) => s.push_str("\n\n"),
			_ => s.push(*r.pick(&['k', 'q', '#', '/'])),
		}
	}
	// texts with and without a final newline, equally
	match r.below(4) {
		0 if !s.is_empty() && !s.ends_with('\n') => s.push('\n'),
		1 => {
			while s.ends_with('\n') || s.ends_with('\r') {
				s.pop();
			}
		}
		_ => (),
	}
	s
}

/// Documents of the size people edit: many lines, long lines, more bytes than 8, 16 or 17 bits count.
pub fn big_text(r: &mut Rng) -> String {
	let mut s = String::new();
	let goal = match r.below(4) {
		0 => r.range(250, 5_000),
		1 => r.range(5_000, 64_000),
		2 => r.range(65_000, 70_000),
		_ => r.range(70_000, 150_000),
	};
	let long_lines = r.chance(1, 3);
	while s.len() < goal {
		let mut piece = random_text(r, 60);
		if long_lines && !r.chance(1, 40) {
			piece = piece.replace('\n', " ");
		}
		for _ in 0..r.range(1, 30) {
			s += &piece;
		}
	}
	if r.chance(1, 2) {
		s.push('\n');
	}
	s
}

fn brief(s: &str) -> String {
	if s.len() <= 200 {
		format!("{s:?}")
	} else {
		format!("{:?}... ({} bytes)", s.chars().take(40).collect::<String>(), s.len())
	}
}

fn boundary(r: &mut Rng, text: &str) -> usize {
	// line ends, starts and the end of the text are where bugs live
	match r.below(6) {
		0 => text.len(),
		1 => 0,
		2 => {
			let nl: Vec<_> = text.match_indices('\n').map(|(i, _)| i).collect();
			if nl.is_empty() {
				text.len()
			} else {
				*r.pick(&nl) + r.below(2)
			}
		}
		_ => {
			let mut k = r.below(text.len() + 1);
			while !text.is_char_boundary(k) {
				k -= 1;
			}
			k
		}
	}
}

/// A position meaning byte offset `at`: usually the canonical one, sometimes one beyond the end that clamps to it.
fn spell(r: &mut Rng, text: &str, at: usize) -> Position {
	let (line, ch) = position(text, at);
	let rest = &text[at..];
	if rest.is_empty() && r.chance(1, 3) {
		return Position::new(line + 1 + r.below(3), r.below(5));
	}
	// past the end of the line (not on CRLF lines, where the terminator is two characters)
	if (rest.is_empty() || rest.starts_with('\n')) && !text[..at].ends_with('\r') && r.chance(1, 3) {
		return Position::new(line, ch + 1 + r.below(4));
	}
	Position::new(line, ch)
}

fn check_index(f: &LspFile, text: &str, what: &dyn Fn() -> String) -> CaseResult {
	ensure!(f.get_file_content() == text, "content", "text differs from the edits applied\n  got      {}\n  expected {}\n  {}", brief(f.get_file_content()), brief(text), what());
	let fresh = LspFile::new(&text.to_string());
	ensure!(f.get_ranges() == fresh.get_ranges(), "index", "line index differs from that of the same text parsed afresh\n  text {}\n  got   {}\n  fresh {}\n  {}", brief(text), brief(&format!("{:?}", f.get_ranges())), brief(&format!("{:?}", fresh.get_ranges())), what());
	// and the index must still mean the text
	let starts = [0].into_iter().chain(text.match_indices('\n').map(|(i, _)| i + 1)).chain([text.len()]);
	for (l, want) in starts.enumerate() {
		let got = f.lsp_to_byte(&Position::new(l, 0));
		ensure!(got == want, "line-start", "line {l} of {} starts at {want}, not {got}\n  {}", brief(text), what());
	}
	Ok(())
}

fn sync(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let big = r.chance(1, 1000);
	let mut text = if big { big_text(r) } else { random_text(r, 50) };
	let mut f = LspFile::new(&text);
	let mut log: Vec<String> = vec![format!("new {}", brief(&text))];
	let n = r.range(1, 14);
	let mut key = brief(&text).into_bytes();
	if big {
		obs.count("documents of realistic size", 1);
	}
	for _ in 0..n {
		let (range, ins);
		if r.chance(1, 25) {
			range = None;
			ins = random_text(r, 40);
			text = ins.clone();
		} else {
			let (mut a, mut b) = (boundary(r, &text), boundary(r, &text));
			if a > b {
				std::mem::swap(&mut a, &mut b);
			}
			// keep texts from only growing or collapsing
			if r.chance(1, 3) || big && r.chance(1, 2) {
				b = a;
			}
			ins = match r.below(5) {
				0 => String::new(),
				1 => "\n".into(),
				2 if big => big_text(r),
				_ => random_text(r, 14),
			};
			let mut s = spell(r, &text, a);
			let e = spell(r, &text, b);
			if s.line > e.line || s.line == e.line && s.character > e.character {
				let (l, c) = position(&text, a);
				s = Position::new(l, c);
			}
			if s.line > e.line || s.line == e.line && s.character > e.character {
				continue;
			}
			range = Some(Range::new(s, e));
			obs.count(if a == b { "insertions" } else if ins.is_empty() { "deletions" } else { "replacements" }, 1);
			if b == text.len() {
				obs.count("edits touching end of text", 1);
			}
			text.replace_range(a..b, &ins);
		}
		log.push(format!("{:?} <- {}", range, brief(&ins)));
		key.extend_from_slice(log.last().unwrap().as_bytes());
		let event = ChangeEvent { range, text: ins };
		no_panic("panic", || log.join("\n  "), || f.lazy_add(&event))?;
		let l2 = log.clone();
		no_panic("panic", || l2.join("\n  "), || check_index(&f, &text, &|| l2.join("\n  ")))??;
		obs.eval();
	}
	obs.nontrivial(&key);
	obs.sample(|| log.join(" | "));
	Ok(())
}

/// The same on documents of realistic size, at sampled places.
fn big_positions(r: &mut Rng, obs: &mut Obs) -> CaseResult {
	let text = big_text(r);
	let f = LspFile::new(&text);
	let b = brief(&text);
	let starts: Vec<usize> = [0].into_iter().chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
	let line_text = |l: usize| &text[starts[l]..starts.get(l + 1).map_or(text.len(), |e| e - 1)];
	let to_byte = |l: usize, c: usize| {
		if l >= starts.len() {
			return text.len();
		}
		starts[l] + line_text(l).char_indices().nth(c).map_or(line_text(l).len(), |(i, _)| i)
	};
	for _ in 0..150 {
		let at = match r.below(8) {
			0 => text.len() - r.below(4).min(text.len()),
			1 => *r.pick(&[255, 256, 257, 65_535, 65_536, 65_537]),
			_ => r.below(text.len() + 2),
		};
		let p = no_panic("panic", || format!("byte_to_lsp({at}) in {b}"), || f.byte_to_lsp(at))?;
		let mut floor = at.min(text.len());
		while !text.is_char_boundary(floor) {
			floor -= 1;
		}
		let back = to_byte(p.line, p.character);
		ensure!(back == floor, "byte-to-position", "byte {at} of {b} became {p:?}, which denotes byte {back}, not {floor}");
		let l = if r.chance(1, 2) { p.line } else { r.below(starts.len() + 2) };
		let width = if l < starts.len() { line_text(l).chars().count() } else { 0 };
		let c = r.below(width + 3);
		let want = to_byte(l, c);
		let got = no_panic("panic", || format!("lsp_to_byte({l},{c}) in {b}"), || f.lsp_to_byte(&Position::new(l, c)))?;
		ensure!(got == want, "position-to-byte", "({l},{c}) in {b} became byte {got}, expected {want}");
		if l < starts.len() {
			let n = f.line_char(l);
			let terminated = l + 1 < starts.len();
			ensure!(n == width + terminated as usize, "line-length", "line {l} of {b} has {n} characters, expected {width} and {}", if terminated { "its terminator" } else { "no terminator" });
		}
		obs.evals(2);
	}
	obs.count("documents of realistic size", 1);
	Ok(())
}

fn positions(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	if r.chance(1, 60) {
		return big_positions(r, obs);
	}
	let text = random_text(r, 60);
	// half the time reach the text through an edit, so the index under test is the incremental one
	let f = if r.chance(1, 2) {
		LspFile::new(&text)
	} else {
		let at = boundary(r, &text);
		let end = at + boundary(r, &text[at..]);
		let mut before = text.clone();
		before.replace_range(at..end, "");
		let mut f = LspFile::new(&before);
		let (l, c) = position(&before, at);
		let p = Position::new(l, c);
		let ev = ChangeEvent { range: Some(Range::new(p, p)), text: text[at..end].to_string() };
		no_panic("panic", || format!("building {:?} by inserting {:?} at {:?}", text, &text[at..end], p), || f.lazy_add(&ev))?;
		if f.get_file_content() != &text {
			return Err(violation!("content", "inserting {:?} at {:?} in {:?} gave {:?}", &text[at..end], p, before, f.get_file_content()));
		}
		f
	};
	let mut previous = Position::new(0, 0);
	for at in 0..text.len() + 3 {
		let p = no_panic("panic", || format!("byte_to_lsp({at}) in {:?}", text), || f.byte_to_lsp(at))?;
		let mut floor = at.min(text.len());
		while !text.is_char_boundary(floor) {
			floor -= 1;
		}
		let back = offset(&text, p.line, p.character);
		ensure!(back == floor, "byte-to-position", "byte {at} of {:?} became {:?}, which denotes byte {back}, not {floor}", text, p);
		ensure!(previous <= p, "not-monotonic", "byte {at} of {:?}: {:?} after {:?}", text, p, previous);
		previous = p;
		obs.eval();
	}
	let lines = text.matches('\n').count() + 1;
	let widest = text.split('\n').map(|l| l.chars().count()).max().unwrap_or(0);
	for l in 0..lines + 2 {
		let wide = if r.chance(1, 20) { 100_000 } else { widest + 2 };
		for c in (0..widest + 3).chain([wide]) {
			let want = offset(&text, l, c);
			let got = no_panic("panic", || format!("lsp_to_byte({l},{c}) in {:?}", text), || f.lsp_to_byte(&Position::new(l, c)))?;
			ensure!(got <= text.len() && text.is_char_boundary(got), "not-a-boundary", "({l},{c}) in {:?} became byte {got}", text);
			ensure!(got == want, "position-to-byte", "({l},{c}) in {:?} became byte {got}, expected {want}", text);
			obs.eval();
		}
	}
	// line lengths, terminator included
	for (l, line) in text.split_inclusive('\n').enumerate() {
		let n = f.line_char(l);
		ensure!(n == line.chars().count(), "line-length", "line {l} of {:?} has {} characters, not {n}", text, line.chars().count());
		obs.eval();
	}
	let past = f.line_char(text.split_inclusive('\n').count());
	ensure!(past == 0, "line-length", "the line after the last of {:?} has {past} characters", text);
	// ranges are their two ends
	let (mut a, mut b) = (boundary(r, &text), boundary(r, &text));
	if a > b {
		std::mem::swap(&mut a, &mut b);
	}
	let range = f.byte_range_to_lsp_range(&(a..b));
	ensure!(offset(&text, range.start.line, range.start.character) == a && offset(&text, range.end.line, range.end.character) == b, "range", "{a}..{b} of {:?} became {:?}", text, range);
	let back = f.lsp_range_to_byte_range(&range);
	ensure!(back == (a..b), "range", "{a}..{b} of {:?} came back as {:?}", text, back);
	if text.len() > 3 {
		obs.nontrivial(text.as_bytes());
	}
	if !text.is_ascii() {
		obs.count("texts with multi-byte characters", 1);
	}
	if !text.ends_with('\n') {
		obs.count("texts without a final newline", 1);
	}
	obs.sample(|| format!("{:?}", text));
	Ok(())
}

/// LSP positions count UTF-16 code units (the server negotiates no other encoding).
fn utf16_columns(obs: &mut Obs) -> CaseResult {
	let f = LspFile::new(&"\u{1F600}x\n".to_string());
	obs.eval();
	let (p, b) = (f.byte_to_lsp(4), f.lsp_to_byte(&Position::new(0, 2)));
	ensure!(
		p == Position::new(0, 2) && b == 4,
		"utf16-columns",
		"in \"\\u{{1F600}}x\", the x is at column 2 in UTF-16 units; byte 4 became {p:?} and column 2 became byte {b}"
	);
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![
		Check {
			id: "C01",
			rule: "random text (ASCII, CRLF, 2- to 4-byte characters, with and without final newline) edited 1-14 times by ranges biased to line ends and the end of text, spelled canonically or beyond the end; one in a thousand on a document of 250 bytes to 150 KB; after each edit the text, line index and line starts are compared with a model; a case is its text plus edits",
			quick: 300_000,
			thorough: 20_000_000,
			min_distinct: 2000,
			must_observe: &["insertions", "deletions", "replacements", "edits touching end of text", "documents of realistic size"],
			run: sync,
			assumptions: &["edit ranges are well formed: start not after end", "columns count characters (known finding: LSP counts UTF-16 units)"],
			..Check::DEFAULT
		},
		Check {
			id: "C02",
			rule: "random text, built afresh or by one edit; every byte offset and every (line, column) up to two past the end is converted and compared with a model of LSP positions; a case is non-trivial if its text is longer than 3 bytes",
			quick: 400_000,
			thorough: 1_500_000,
			min_distinct: 2000,
			must_observe: &["texts with multi-byte characters", "texts without a final newline", "documents of realistic size"],
			run: positions,
			probes: &[("columns are UTF-16 units", utf16_columns)],
			assumptions: &["lines end at LF or CRLF", "columns count characters (known finding: LSP counts UTF-16 units)"],
			..Check::DEFAULT
		},
	]
}
