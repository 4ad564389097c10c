use std::{fmt, fs, io, path::{Path, PathBuf}, vec::IntoIter};

#[derive(Debug)]
pub struct PatternError { pub pos: usize, pub msg: &'static str }
impl fmt::Display for PatternError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Pattern syntax error near position {}: {}", self.pos, self.msg) }
}
impl std::error::Error for PatternError {}

#[derive(Debug)]
pub struct GlobError { path: PathBuf, error: io::Error }
impl GlobError {
	pub fn path(&self) -> &Path { &self.path }
	pub fn error(&self) -> &io::Error { &self.error }
	pub fn into_error(self) -> io::Error { self.error }
}
impl fmt::Display for GlobError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "attempting to read `{}` resulted in an error: {}", self.path.display(), self.error) }
}
impl std::error::Error for GlobError {}
pub type GlobResult = Result<PathBuf, GlobError>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MatchOptions { pub case_sensitive: bool, pub require_literal_separator: bool, pub require_literal_leading_dot: bool }
impl Default for MatchOptions {
	fn default() -> Self { MatchOptions { case_sensitive: true, require_literal_separator: false, require_literal_leading_dot: false } }
}
impl MatchOptions {
	pub fn new() -> Self { Self::default() }
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Tok { Char(char), Any, Seq, RecSeq, Within(Vec<(char, char)>), Except(Vec<(char, char)>) }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pattern { original: String, toks: Vec<Tok> }

impl Pattern {
	pub fn new(pattern: &str) -> Result<Self, PatternError> {
		let c: Vec<char> = pattern.chars().collect();
		let mut toks = vec![];
		let mut i = 0;
		while i < c.len() {
			match c[i] {
				'?' => { toks.push(Tok::Any); i += 1; }
				'*' => {
					let s = i;
					while i < c.len() && c[i] == '*' { i += 1; }
					match i - s {
						1 => toks.push(Tok::Seq),
						2 => {
							let before = s == 0 || c[s - 1] == '/';
							let after = i == c.len() || c[i] == '/';
							if !before || !after { return Err(PatternError { pos: s, msg: "recursive wildcards must form a single path component" }); }
							if i < c.len() { i += 1; }
							toks.push(Tok::RecSeq);
						}
						_ => return Err(PatternError { pos: s + 2, msg: "wildcards are either regular `*` or recursive `**`" }),
					}
				}
				'[' => {
					let not = i + 1 < c.len() && c[i + 1] == '!';
					let first = if not { i + 2 } else { i + 1 };
					// the first character may be ']'
					let end = (first + 1..c.len()).find(|&j| c[j] == ']').ok_or(PatternError { pos: i, msg: "invalid range pattern" })?;
					let mut set = vec![];
					let mut j = first;
					while j < end {
						if j + 2 < end && c[j + 1] == '-' { set.push((c[j], c[j + 2])); j += 3; } else { set.push((c[j], c[j])); j += 1; }
					}
					toks.push(if not { Tok::Except(set) } else { Tok::Within(set) });
					i = end + 1;
				}
				x => { toks.push(Tok::Char(x)); i += 1; }
			}
		}
		Ok(Pattern { original: pattern.to_string(), toks })
	}

	pub fn escape(s: &str) -> String {
		s.chars().map(|c| match c { '?' | '*' | '[' | ']' => format!("[{c}]"), c => c.to_string() }).collect()
	}

	pub fn as_str(&self) -> &str { &self.original }

	pub fn matches(&self, s: &str) -> bool { self.matches_with(s, MatchOptions::default()) }

	pub fn matches_path(&self, p: &Path) -> bool { p.to_str().map_or(false, |s| self.matches(s)) }

	pub fn matches_with(&self, s: &str, o: MatchOptions) -> bool {
		fn go(t: &[Tok], s: &[char], at_start: bool, o: MatchOptions) -> bool {
			let eq = |a: char, b: char| if o.case_sensitive { a == b } else { a.to_lowercase().eq(b.to_lowercase()) };
			let within = |set: &[(char, char)], c: char| set.iter().any(|&(a, b)| a <= c && c <= b);
			let dot = |i: usize| o.require_literal_leading_dot && s.get(i) == Some(&'.') && (if i == 0 { at_start } else { s[i - 1] == '/' });
			match t.first() {
				None => s.is_empty(),
				Some(Tok::RecSeq) => {
					if go(&t[1..], s, at_start, o) { return true; }
					(0..s.len()).any(|i| !dot(i) && s[i] == '/' && go(&t[1..], &s[i + 1..], true, o)) || (t.len() == 1)
				}
				Some(Tok::Seq) => {
					let mut i = 0;
					loop {
						if go(&t[1..], &s[i..], if i == 0 { at_start } else { s[i - 1] == '/' }, o) { return true; }
						if i == s.len() || dot(i) || (o.require_literal_separator && s[i] == '/') { return false; }
						i += 1;
					}
				}
				Some(x) => {
					if s.is_empty() { return false; }
					let c = s[0];
					let sep = o.require_literal_separator && c == '/';
					let ok = match x {
						Tok::Char(d) => eq(*d, c),
						Tok::Any => !sep && !dot(0),
						Tok::Within(set) => !sep && !dot(0) && within(set, c),
						Tok::Except(set) => !sep && !dot(0) && !within(set, c),
						_ => unreachable!(),
					};
					ok && go(&t[1..], &s[1..], c == '/', o)
				}
			}
		}
		go(&self.toks, &s.chars().collect::<Vec<_>>(), true, o)
	}
}

#[derive(Debug)]
pub struct Paths(IntoIter<GlobResult>);
impl Iterator for Paths {
	type Item = GlobResult;
	fn next(&mut self) -> Option<GlobResult> { self.0.next() }
}

pub fn glob(pattern: &str) -> Result<Paths, PatternError> { glob_with(pattern, MatchOptions::default()) }

pub fn glob_with(pattern: &str, options: MatchOptions) -> Result<Paths, PatternError> {
	Pattern::new(pattern)?; // for the errors
	let absolute = pattern.starts_with('/');
	let parts: Vec<Pattern> = pattern.split('/').filter(|p| !p.is_empty()).map(Pattern::new).collect::<Result<_, _>>()?;
	let mut out = vec![];
	let root = if absolute { PathBuf::from("/") } else { PathBuf::new() };
	walk(&root, &parts, options, &mut out);
	Ok(Paths(out.into_iter()))
}

fn is_dir(p: &Path) -> bool { if p.as_os_str().is_empty() { true } else { fs::metadata(p).map_or(false, |m| m.is_dir()) } }

fn children(dir: &Path, out: &mut Vec<GlobResult>) -> Vec<(String, PathBuf)> {
	let at = if dir.as_os_str().is_empty() { Path::new(".") } else { dir };
	match fs::read_dir(at).and_then(|d| d.collect::<io::Result<Vec<_>>>()) {
		Ok(es) => {
			let mut v: Vec<(String, PathBuf)> = es.iter().filter_map(|e| e.file_name().to_str().map(|n| (n.to_string(), dir.join(n)))).collect();
			v.sort();
			v
		}
		Err(error) => {
			out.push(Err(GlobError { path: dir.to_path_buf(), error }));
			vec![]
		}
	}
}

fn walk(dir: &Path, parts: &[Pattern], o: MatchOptions, out: &mut Vec<GlobResult>) {
	let (first, rest) = match parts.split_first() {
		Some(x) => x,
		None => return,
	};
	let literal = first.toks.iter().all(|t| matches!(t, Tok::Char(_)) || matches!(t, Tok::Within(s) if s.len() == 1 && s[0].0 == s[0].1));
	if first.toks == [Tok::RecSeq] {
		// `dir` itself, and every directory below
		fn below(dir: &Path, rest: &[Pattern], o: MatchOptions, out: &mut Vec<GlobResult>) {
			let mut found: Vec<GlobResult> = vec![];
			for (name, path) in children(dir, out) {
				if o.require_literal_leading_dot && name.starts_with('.') { continue; }
				let d = is_dir(&path);
				if let Some((p, more)) = rest.split_first() {
					if p.matches_with(&name, o) {
						if more.is_empty() { found.push(Ok(path.clone())); } else if d { walk(&path, more, o, &mut found); }
					}
				} else if d {
					found.push(Ok(path.clone()));
				}
				if d { below(&path, rest, o, &mut found); }
			}
			out.append(&mut found);
		}
		let mut rest = rest;
		while rest.first().map_or(false, |p| p.toks == [Tok::RecSeq]) { rest = &rest[1..]; }
		if is_dir(dir) { below(dir, rest, o, out); }
		return;
	}
	if literal {
		let name: String = first.toks.iter().map(|t| match t { Tok::Char(c) => *c, Tok::Within(s) => s[0].0, _ => unreachable!() }).collect();
		let path = dir.join(&name);
		if rest.is_empty() {
			if fs::symlink_metadata(&path).is_ok() { out.push(Ok(path)); }
		} else if is_dir(&path) {
			walk(&path, rest, o, out);
		}
		return;
	}
	for (name, path) in children(dir, out) {
		if first.matches_with(&name, o) {
			if rest.is_empty() { out.push(Ok(path)); } else if is_dir(&path) { walk(&path, rest, o, out); }
		}
	}
}
