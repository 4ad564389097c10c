//! Source texts: spelled tokens, P4-looking programs, hostile bytes.
use vcommon::*;

pub const KEYWORDS: &[&str] =
	&["action", "apply", "control", "else", "header", "if", "return", "state", "table", "transition", "typedef"];

pub fn identifier(r: &mut Rng) -> String {
	match r.below(6) {
		0 => {
			// looks like a keyword, is none
			let k = r.word(KEYWORDS);
			match r.below(4) {
				0 => format!("{k}_"),
				1 => format!("{k}s"),
				2 => k[..k.len() - 1].to_string() + "_x",
				_ => k.to_uppercase(),
			}
		}
		1 => "_".repeat(r.range(1, 3)),
		_ => {
			let mut s = String::new();
			s.push(*r.pick(&['a', 'Z', '_', 'i', 'w', 'x', 's']));
			for _ in 0..r.below(8) {
				s.push(*r.pick(&['a', 'Z', '_', '0', '9', 'f', 'w', 's', 'x', 'n']));
			}
			s
		}
	}
}

pub fn integer(r: &mut Rng) -> String {
	let mut s = String::new();
	if r.chance(1, 2) {
		s += r.word(&["8", "16", "1", "0", "128", "4294967295", "4294967296", "99999999999999999999", "1_6", "08"]);
		s += r.word(&["w", "s", "w", "s", "ww", ""]);
	}
	let (p, digits): (&str, &str) = *r.pick(&[
		("", "0123456789"),
		("", "0123456789"),
		("0x", "0123456789abcdefABCDEF"),
		("0X", "0123456789abcdefABCDEF"),
		("0b", "01"),
		("0B", "01"),
		("0o", "01234567"),
		("0O", "01234567"),
		("0d", "0123456789"),
		("0D", "0123456789"),
	]);
	s += p;
	let n = if r.chance(1, 12) { r.range(15, 24) } else { r.range(1, 8) };
	let ds: Vec<char> = digits.chars().collect();
	for i in 0..n {
		s.push(*r.pick(&ds));
		if i + 1 < n && r.chance(1, 8) {
			s.push('_');
		}
	}
	match r.below(16) {
		0 => s.push_str(r.word(&["_", "b", "x", "d", "o", "w", "s", "0b1", "0x1", "w1", "s0x", "g", "."])),
		_ => (),
	}
	s
}

pub fn blank(r: &mut Rng) -> String {
	(0..r.range(1, 3)).map(|_| r.word(&[" ", "\t", "\n", " ", "\r\n", "\u{0b}", "\u{a0}", "\u{2028}", "\n\n"])).collect()
}

pub fn comment(r: &mut Rng) -> String {
	let body = || ["x", "*", "/", " ", "é", "😀", "#if 1", "**", "/*", "//", "\"", "if", "\t", "\\"];
	let text: String = (0..r.below(6)).map(|_| *r.pick(&body())).collect();
	match r.below(5) {
		0 | 1 => format!("//{text}\n"),
		2 => format!("/*{}*/", text.replace("*/", "* /")),
		3 => format!("/*{}\n{}*/", text.replace("*/", "* /"), "*".repeat(r.below(3))),
		_ => r.word(&["/**/", "/***/", "/****/", "//\n", "/* // */", "/*/ */", "// /*\n"]).to_string(),
	}
}

pub fn punctuation(r: &mut Rng) -> &'static str {
	r.word(&["{", "}", "[", "]", "(", ")", "<", ">", ":", ";", ",", ".", "=", "*", "/", "+", "-"])
}

/// A preprocessor line; well formed except for the odd one out.
pub fn directive(r: &mut Rng) -> String {
	let hash = r.word(&["#", "# ", "#\t", "#  "]);
	let cont = |r: &mut Rng, s: String| -> String {
		if r.chance(1, 8) {
			s.replacen(' ', " \\\n ", 1)
		} else {
			s
		}
	};
	let line = match r.below(14) {
		0 => format!("include <{}.p4>", identifier(r)),
		1 => format!("include \"{}/{}.p4\"", identifier(r), identifier(r)),
		2 => r.word(&["include foo", "include \"foo", "include <foo", "include", "include<a>", "include\"b\"", "include \"\"", "include <a> x", "include \"a>\""]).to_string(),
		3 => format!("define {} {}", identifier(r), integer(r)),
		4 => format!("define {}", identifier(r)),
		5 => format!("define {} {} + {}", identifier(r), identifier(r), identifier(r)),
		6 => format!("undef {}", identifier(r)),
		7 => r.word(&["undef", "undef a b", "define 1x 2", "define", "define +", "define f(x) x", "define a\\b c", "define x \\"]).to_string(),
		8 => format!("if {}", identifier(r)),
		9 => format!("elif {} == {}", identifier(r), integer(r)),
		10 => r.word(&["else", "endif", "else // x", "endif x"]).to_string(),
		11 => format!("pragma {}", identifier(r)),
		12 => r.word(&["if", "if (", "if ) 1", "if 1 +", "elif", "if defined", "if defined(", "if +", "if \"x\""]).to_string(),
		_ => format!("{} {}", r.word(&["ifdef", "ifndef", "error", "warning", "line", "includes", "define_", "é", "1", "_"]), identifier(r)),
	};
	let end = r.word(&["\n", "\n", "\n", "\r\n", "\\\n\n", " \n"]);
	hash.to_string() + &cont(r, line) + end
}

pub fn junk(r: &mut Rng) -> &'static str {
	r.word(&["$", "@", "\"", "'", "!", "&", "|", "^", "%", "~", "?", "\\", "`", "é", "漢", "😀", "\u{301}", "\u{0}", "\u{7f}", "\u{feff}", "$$", "!$", "&&"])
}

/// Spelled tokens one after another. `dirty`: how many in 40 are no tokens at all.
pub fn spelled(r: &mut Rng, max: usize, dirty: usize) -> String {
	let mut s = String::new();
	for _ in 0..r.below(max + 1) {
		if r.chance(dirty, 40) {
			for _ in 0..r.range(1, 3) {
				s += junk(r);
			}
			continue;
		}
		match r.below(20) {
			0..=3 => s += &identifier(r),
			4..=5 => s += r.word(KEYWORDS),
			6..=8 => s += &integer(r),
			9..=11 => s += punctuation(r),
			12 => s += &comment(r),
			13 => s += &directive(r),
			_ => s += &blank(r),
		}
	}
	// what a file ends with is half of the trouble
	match r.below(24) {
		0 => s += "/",
		1 => s += "//",
		2 => s += "// end",
		3 => s += "/*",
		4 => s += "/* *",
		5 => s += "#",
		6 => s += "# ",
		7 => s += "#endif",
		8 => s += "#define x 1",
		9 => s += "#define x \\",
		10 => s += "0x",
		11 => s += "#include \"a",
		_ => (),
	}
	s
}

/// Cuts, doubles and splices a text at character boundaries.
pub fn mutate(r: &mut Rng, s: &str) -> String {
	let mut cs: Vec<char> = s.chars().collect();
	for _ in 0..r.range(1, 4) {
		if cs.is_empty() {
			return s.to_string();
		}
		let at = r.below(cs.len());
		let n = r.below(6).min(cs.len() - at);
		match r.below(4) {
			0 => drop(cs.drain(at..at + n)),
			1 => {
				let part: Vec<char> = cs[at..at + n].to_vec();
				let to = r.below(cs.len());
				cs.splice(to..to, part);
			}
			2 => cs.insert(at, *r.pick(&['/', '*', '#', '\\', '\n', '"', '0', 'x', 'w', ' ', '(', ')', 'é', '<'])),
			_ => cs[at] = *r.pick(&['/', '*', '#', '\\', '\n', '"', '0', 'x', 'w', ' ', '(', ')', 'é', '<']),
		}
	}
	cs.into_iter().collect()
}

pub fn p4_program(r: &mut Rng) -> String {
	let mut s = String::from("// Include P4 core library\n# include <core.p4>\n\n");
	for i in 0..r.range(1, 6) {
		match r.below(5) {
			0 => s += &format!("typedef bit<{}>  {};\n", r.range(1, 64), identifier(r)),
			1 => s += &format!("header H{i} {{\n\tbit<16> {};\n\tbit<{}> f;\n}}\n", identifier(r), r.range(1, 9)),
			2 => s += &format!("control C{i}(inout H h) {{\n\tapply {{ if (h.f == {}) return; else t.apply(); }}\n}}\n", integer(r)),
			3 => s += &format!("state s{i} {{ transition {}; }}\n", identifier(r)),
			_ => s += &directive(r),
		}
	}
	s
}

pub fn any_text(r: &mut Rng) -> String {
	let n = if r.chance(1, 40) { 400 } else { 24 };
	let s = match r.below(5) {
		0 => p4_program(r),
		1 => spelled(r, n, 20),
		_ => spelled(r, n, 3),
	};
	if r.chance(1, 3) {
		mutate(r, &s)
	} else {
		s
	}
}
