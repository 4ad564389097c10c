//! C16 conditional selection, C17 conditions, C18 includes: programs built from a structure, judged against an
//! evaluation of that structure. C19: hostile inputs.
use crate::gen;
use analyzer_core::{base_abstractions::*, lexer::Token, Analyzer};
use std::{
	cell::RefCell,
	collections::{BTreeMap, BTreeSet, HashMap},
	rc::Rc,
};
use vcommon::*;

// ---------------------------------------------------------------- conditions

#[derive(Clone, Debug)]
pub enum E {
	Int(i64, String),
	Id(String),
	Defined(String),
	Bin(&'static str, Box<E>, Box<E>),
	Paren(Box<E>),
}

const OPS: &[(&str, u8)] = &[
	("*", 10),
	("/", 10),
	("%", 10),
	("+", 9),
	("-", 9),
	("<<", 8),
	(">>", 8),
	("<", 7),
	("<=", 7),
	(">", 7),
	(">=", 7),
	("==", 6),
	("!=", 6),
	("&", 5),
	("^", 4),
	("|", 3),
	("&&", 2),
	("||", 1),
];

fn prec(e: &E) -> u8 {
	match e {
		E::Bin(op, ..) => OPS.iter().find(|o| o.0 == *op).unwrap().1,
		_ => 11,
	}
}

fn int(r: &mut Rng) -> E {
	let v: i64 = match r.below(8) {
		0..=4 => r.below(5) as i64,
		5 => r.below(70) as i64,
		6 => *r.pick(&[255, 256, 65535, 1 << 31, (1 << 31) - 1, 1 << 32, 1_000_000]),
		_ => *r.pick(&[i64::MAX, i64::MAX - 1, 1 << 62, 1 << 40]),
	};
	let mut s = match r.below(5) {
		0 => format!("0x{v:x}"),
		1 => format!("0X{v:X}"),
		_ => v.to_string(),
	};
	if r.chance(1, 6) && s.len() > 1 && !s.starts_with("0") {
		s.insert(r.range(1, s.len()), '_');
	}
	E::Int(v, s)
}

pub fn expr(r: &mut Rng, depth: usize, ids: &[String], flags: &[String]) -> E {
	if depth == 0 || r.chance(1, 5) {
		return match r.below(6) {
			0 | 1 if !ids.is_empty() => E::Id(r.pick(ids).clone()),
			2 if !flags.is_empty() => E::Defined(r.pick(flags).clone()),
			_ => int(r),
		};
	}
	if r.chance(1, 8) {
		return E::Paren(Box::new(expr(r, depth - 1, ids, flags)));
	}
	let op = r.pick(OPS).0;
	let l = expr(r, depth - 1, ids, flags);
	let mut x = expr(r, depth - 1, ids, flags);
	if (op == "<<" || op == ">>") && r.chance(4, 5) {
		let n = r.below(12) as i64;
		x = E::Int(n, n.to_string());
	}
	E::Bin(op, Box::new(l), Box::new(x))
}

fn sp(r: &mut Rng) -> &'static str { r.word(&["", " ", " ", "  ", "\t"]) }

pub fn render(r: &mut Rng, e: &E, out: &mut String) {
	match e {
		E::Int(_, s) => out.push_str(s),
		E::Id(n) => out.push_str(n),
		E::Defined(n) => match r.below(5) {
			0 => *out += &format!("defined {n}"),
			1 => *out += &format!("defined( {n} )"),
			2 => *out += &format!("defined ({n})"),
			_ => *out += &format!("defined({n})"),
		},
		E::Paren(x) => {
			out.push('(');
			out.push_str(sp(r));
			render(r, x, out);
			out.push_str(sp(r));
			out.push(')');
		}
		E::Bin(op, l, x) => {
			let p = prec(e);
			for (i, s) in [l, x].into_iter().enumerate() {
				if i == 1 {
					out.push_str(sp(r));
					out.push_str(op);
					out.push_str(sp(r));
				}
				// all operators are left-associative
				if prec(s) < p || (i == 1 && prec(s) == p) {
					out.push('(');
					render(r, s, out);
					out.push(')');
				} else {
					render(r, s, out);
				}
			}
		}
	}
}

/// C's value of an expression, or None where C gives it none (or a preprocessor may reject it).
pub fn value(e: &E, defs: &HashMap<String, Option<E>>, hide: &mut Vec<String>) -> Option<i64> {
	Some(match e {
		E::Int(v, _) => *v,
		E::Defined(n) => defs.contains_key(n) as i64,
		E::Paren(x) => value(x, defs, hide)?,
		E::Id(n) => match defs.get(n) {
			Some(None) => return None,
			Some(Some(rhs)) if !hide.contains(n) => {
				hide.push(n.clone());
				let v = value(rhs, defs, hide);
				hide.pop();
				v?
			}
			_ => 0,
		},
		E::Bin(op, l, x) => {
			let a = value(l, defs, hide)?;
			match (*op, a) {
				("&&", 0) => return Some(0),
				("||", a) if a != 0 => return Some(1),
				_ => (),
			}
			let b = value(x, defs, hide)?;
			match *op {
				"*" => a.checked_mul(b)?,
				"/" => a.checked_div(b)?,
				"%" => a.checked_rem(b)?,
				"+" => a.checked_add(b)?,
				"-" => a.checked_sub(b)?,
				"<<" if a < 0 || !(0..63).contains(&b) => return None,
				"<<" => i64::try_from((a as i128) << b).ok()?,
				">>" if !(0..63).contains(&b) => return None,
				">>" => a >> b,
				"<" => (a < b) as i64,
				"<=" => (a <= b) as i64,
				">" => (a > b) as i64,
				">=" => (a >= b) as i64,
				"==" => (a == b) as i64,
				"!=" => (a != b) as i64,
				"&" => a & b,
				"^" => a ^ b,
				"|" => a | b,
				"&&" => (b != 0) as i64,
				"||" => (b != 0) as i64,
				_ => unreachable!(),
			}
		}
	})
}

// ---------------------------------------------------------------- programs

#[derive(Clone, Debug)]
pub enum Dir {
	If(E),
	Elif(E),
	Else,
	Endif,
	Define(String, Option<E>),
	Undef(String),
	Include(String),
	Pragma,
	Unknown,
}

#[derive(Clone, Debug)]
pub enum Item {
	/// A token that is neither whitespace nor a directive.
	Token(Span),
	Dir(Dir, Span),
}

#[derive(Clone, Default, Debug)]
pub struct Source {
	pub text: String,
	pub items: Vec<Item>,
	marker: usize,
}

impl Source {
	fn token(&mut self, s: &str) {
		let at = self.text.len();
		self.text += s;
		self.items.push(Item::Token(at..self.text.len()));
	}

	fn marker(&mut self) {
		self.marker += 1;
		let m = format!("m{}", self.marker);
		self.token(&m);
		self.text += " ";
	}

	fn filler(&mut self, r: &mut Rng) {
		for _ in 0..r.range(1, 3) {
			match r.below(8) {
				0 => self.token(r.word(&["{", ";", "=", ">", "state", "8w0xff", "if"])),
				1 => self.token(r.word(&["/* #else */", "// #endif\n", "/* #if 0\n */"])),
				2 => self.text += "\n\n",
				_ => self.marker(),
			}
			self.text += r.word(&[" ", "\n", "\t"]);
		}
	}

	fn dir(&mut self, r: &mut Rng, d: Dir) {
		if !self.text.is_empty() && !self.text.ends_with('\n') {
			self.text.push('\n');
		}
		let at = self.text.len();
		let hash = r.word(&["#", "# ", "#", "#\t"]);
		let mut line = hash.to_string();
		let tail = r.word(&["", "", "", " ", " // c", " /* c */"]);
		match &d {
			Dir::If(e) | Dir::Elif(e) => {
				line += if matches!(d, Dir::If(_)) { "if " } else { "elif " };
				render(r, e, &mut line);
				line += tail;
			}
			Dir::Else => line = line + "else" + tail,
			Dir::Endif => line = line + "endif" + tail,
			Dir::Define(n, rhs) => {
				line += &format!("define {n}");
				match rhs {
					Some(e) => {
						line.push_str(r.word(&[" ", "  ", "\t"]));
						render(r, e, &mut line);
						line += r.word(&["", "", " ", " // c"]);
					}
					None => (),
				}
			}
			Dir::Undef(n) => line += &format!("undef {n}"),
			Dir::Include(p) => line += &(if r.chance(1, 2) { format!("include \"{p}\"") } else { format!("include <{p}>") } + tail),
			Dir::Pragma => line += "pragma once",
			Dir::Unknown => line += r.word(&["warning x", "error \"e\"", "line 3"]),
		}
		if r.chance(1, 10) {
			// a continued line is one line
			if let Some(i) = line.rfind(' ').filter(|i| line[..*i].contains(char::is_alphabetic)) {
				line.insert_str(i, "\\\n");
			}
		}
		self.text += &line;
		self.text += r.word(&["\n", "\n", "\n", "\r\n"]);
		self.items.push(Item::Dir(d, at..self.text.len()));
	}
}

pub struct Names {
	pub ids: Vec<String>,
	pub flags: Vec<String>,
}

impl Names {
	pub fn new() -> Names { Names { ids: (0..4).map(|i| format!("V{i}")).collect(), flags: (0..4).map(|i| if i < 2 { format!("F{i}") } else { format!("V{i}") }).collect() } }
}

fn replacement(r: &mut Rng, n: &Names) -> E {
	match r.below(4) {
		0 => E::Id(r.pick(&n.ids).clone()),
		1 => E::Paren(Box::new(expr(r, 2, &n.ids, &n.flags))),
		_ => int(r),
	}
}

fn condition(r: &mut Rng, n: &Names) -> E {
	match r.below(6) {
		0 => E::Defined(r.pick(&n.flags).clone()),
		1 => E::Id(r.pick(&n.ids).clone()),
		2 => {
			let v = r.below(2) as i64;
			E::Int(v, v.to_string())
		}
		_ => expr(r, 2, &n.ids, &n.flags),
	}
}

/// Appends a random block; conditionals in it are balanced.
pub fn block(r: &mut Rng, s: &mut Source, n: &Names, depth: usize, includes: &[String]) {
	for _ in 0..r.range(1, 4) {
		match r.below(12) {
			0..=3 => s.filler(r),
			4 => {
				let k = r.pick(&n.ids).clone();
				let rhs = replacement(r, n);
				s.dir(r, Dir::Define(k, Some(rhs)));
			}
			5 => {
				let f = format!("F{}", r.below(2));
				s.dir(r, Dir::Define(f, None))
			}
			6 => {
				let k = if r.chance(1, 2) { r.pick(&n.ids).clone() } else { r.pick(&n.flags).clone() };
				s.dir(r, Dir::Undef(k));
			}
			7 if !includes.is_empty() => {
				let p = r.pick(includes).clone();
				s.dir(r, Dir::Include(p));
			}
			7 => {
				let d = if r.chance(1, 2) { Dir::Pragma } else { Dir::Unknown };
				s.dir(r, d)
			}
			_ if depth > 0 => {
				let c = condition(r, n);
				s.dir(r, Dir::If(c));
				block(r, s, n, depth - 1, includes);
				for _ in 0..r.below(3) {
					let c = condition(r, n);
					s.dir(r, Dir::Elif(c));
					block(r, s, n, depth - 1, includes);
				}
				if r.chance(1, 2) {
					s.dir(r, Dir::Else);
					block(r, s, n, depth - 1, includes);
				}
				s.dir(r, Dir::Endif);
			}
			_ => s.marker(),
		}
	}
}

// ---------------------------------------------------------------- reference preprocessor

#[derive(Default)]
pub struct Outcome {
	pub tokens: Vec<(String, Span)>,
	/// (file, place, kind)
	pub problems: BTreeSet<(String, usize, usize, &'static str)>,
	pub dependencies: BTreeSet<(String, bool)>,
	/// A condition had no value in C: nothing after it is judged.
	pub undefined: bool,
	pub unclosed: Vec<Span>,
	defs: HashMap<String, Option<E>>,
	pub taken: u64,
	pub skipped: u64,
	pub repeated: u64,
	open: Vec<String>,
	seen: BTreeSet<String>,
	budget: usize,
}

struct Cond {
	place: Span,
	outer: bool,
	active: bool,
	done: bool,
	has_else: bool,
}

impl Outcome {
	/// Follows a file; `resolve` as the analyzer's.
	pub fn run(files: &BTreeMap<String, Source>, root: &str, resolve: &dyn Fn(&str) -> String) -> Outcome {
		let mut o = Outcome { budget: 3000, ..Default::default() };
		o.file(files, root, resolve);
		o
	}

	fn file(&mut self, files: &BTreeMap<String, Source>, name: &str, resolve: &dyn Fn(&str) -> String) {
		let src = &files[name];
		self.open.push(name.to_string());
		let mut stack: Vec<Cond> = vec![];
		for item in &src.items {
			if self.undefined {
				return;
			}
			self.budget = self.budget.saturating_sub(1);
			if self.budget == 0 {
				self.undefined = true;
				return;
			}
			let active = stack.last().map_or(true, |c| c.active);
			match item {
				Item::Token(s) => {
					if active {
						self.tokens.push((name.to_string(), s.clone()));
						self.taken += 1;
					} else {
						self.skipped += 1;
					}
				}
				Item::Dir(d, s) => {
					let mut problem = |k: &'static str| {
						self.problems.insert((name.to_string(), s.start, s.end, k));
					};
					match d {
						Dir::If(e) => {
							let mut c = false;
							if active {
								match value(e, &self.defs, &mut vec![]) {
									Some(v) => c = v != 0,
									None => {
										self.undefined = true;
										return;
									}
								}
							}
							stack.push(Cond { place: s.clone(), outer: active, active: active && c, done: c, has_else: false });
						}
						Dir::Elif(e) => match stack.last_mut() {
							None => problem("dangling"),
							Some(c) if !c.outer || c.done => c.active = false,
							Some(c) => match value(e, &self.defs, &mut vec![]) {
								Some(v) => {
									c.active = v != 0;
									c.done = v != 0;
								}
								None => {
									self.undefined = true;
									return;
								}
							},
						},
						Dir::Else => match stack.last_mut() {
							None => problem("dangling"),
							Some(c) => {
								if c.has_else && c.outer {
									problem("second else");
								}
								c.has_else = true;
								c.active = c.outer && !c.done;
								c.done = true;
							}
						},
						Dir::Endif => {
							if stack.pop().is_none() {
								problem("dangling")
							}
						}
						_ if !active => self.skipped += 1,
						Dir::Define(k, rhs) => drop(self.defs.insert(k.clone(), rhs.clone())),
						Dir::Undef(k) => drop(self.defs.remove(k)),
						Dir::Pragma => (),
						Dir::Unknown => problem("unknown"),
						Dir::Include(p) => {
							let path = resolve(p);
							if self.open.contains(&path) {
								problem("recursive");
							} else {
								let there = files.contains_key(&path);
								self.dependencies.insert((path.clone(), there));
								if there {
									if !self.seen.insert(path.clone()) {
										self.repeated += 1;
									}
									self.file(files, &path, resolve);
								} else {
									problem("not found");
								}
							}
						}
					}
				}
			}
		}
		self.unclosed.extend(stack.iter().map(|c| c.place.clone()));
		self.open.pop();
	}
}

pub fn resolver(_: &str, path: &str) -> Result<String, String> {
	if path.starts_with('/') {
		return Ok(path.to_string());
	}
	if path.starts_with('!') {
		return Err("unresolvable".into());
	}
	Ok(format!("/ws/{path}"))
}

pub fn resolve(path: &str) -> String { resolver("", path).unwrap_or_else(|_| path.to_string()) }

fn describe(files: &BTreeMap<String, Source>) -> String {
	files.iter().map(|(n, s)| format!("--- {n}\n{}\n", s.text)).collect()
}

fn check(files: &BTreeMap<String, Source>, root: &str, r: &mut Rng, obs: &mut Obs) -> Result<Outcome, Violation> {
	let required = Rc::new(RefCell::new(vec![]));
	let log = required.clone();
	let bases = Rc::new(RefCell::new(BTreeSet::new()));
	let b = bases.clone();
	let mut a = Analyzer::new(
		move |base, p| {
			b.borrow_mut().insert(base.to_string());
			resolver(base, p)
		},
		move |p| log.borrow_mut().push(p.to_string()),
	);
	let mut order: Vec<_> = files.keys().cloned().collect();
	r.shuffle(&mut order);
	for n in &order {
		let id = a.file_id(n);
		a.update(id, &files[n].text);
	}
	let id = a.file_id(root);
	let want = Outcome::run(files, root, &resolve);
	let ctx = || format!("preprocessing {root} of\n{}", describe(files));
	if want.undefined {
		// no claim about the outcome but that there is one
		no_panic("panic", ctx, || (a.preprocessed(id).map(|v| v.len()), a.diagnostics(id).len()))?;
		obs.count("programs without a meaning", 1);
		return Ok(want);
	}
	let got = no_panic("panic", ctx, || a.preprocessed(id).cloned())?;
	let got = got.ok_or_else(|| violation!("missing", "nothing came of {}", ctx()))?;
	let tokens: Vec<(String, Span)> = got.iter().filter(|t| t.1 != Token::Whitespace).map(|t| (a.path(t.0), t.2.clone())).collect();
	let piece = |t: Option<&(String, Span)>| t.map(|(f, s)| format!("{f} {s:?} {:?}", files.get(f).and_then(|x| x.text.get(s.clone())).unwrap_or("?"))).unwrap_or("the end".into());
	if tokens != want.tokens {
		let i = tokens.iter().zip(&want.tokens).take_while(|(a, b)| a == b).count();
		return Err(violation!("tokens", "token {i} of the result is {}, not {}\n  {}", piece(tokens.get(i)), piece(want.tokens.get(i)), ctx()));
	}
	let lexed: HashMap<String, HashMap<(usize, usize), Token>> =
		files.keys().map(|n| (n.clone(), a.lexed(a.file_id(n)).unwrap().iter().map(|(t, s)| ((s.start, s.end), t.clone())).collect())).collect();
	for w in got.windows(2) {
		let both = w[0].1 == Token::Whitespace && w[1].1 == Token::Whitespace && w[0].0 == w[1].0;
		ensure!(!both || w[1].2.start < w[0].2.end, "whitespace", "whitespace at {:?} and {:?} is not merged\n  {}", w[0].2, w[1].2, ctx());
	}
	for (f, t, s) in &got {
		let f = a.path(*f);
		ensure!(s.start < s.end && files[&f].text.get(s.clone()).is_some(), "span", "{t:?} has the span {s:?} in {f}\n  {}", ctx());
		ensure!(*t == Token::Whitespace || lexed[&f].get(&(s.start, s.end)) == Some(t), "kind", "{t:?} at {s:?} of {f} is not what was lexed there\n  {}", ctx());
	}
	// diagnostics
	let diags = no_panic("panic", ctx, || a.diagnostics(id))?;
	let places: BTreeSet<(String, usize, usize)> = diags.iter().map(|d| (a.path(d.file), d.location.start, d.location.end)).collect();
	let mut expected: BTreeSet<(String, usize, usize)> = want.problems.iter().map(|p| (p.0.clone(), p.1, p.2)).collect();
	if let Some(u) = want.unclosed.first() {
		// which of several unclosed conditionals is named is a matter of taste; one must be
		let named = want.unclosed.iter().find(|u| places.contains(&(root.to_string(), u.start, u.end)));
		ensure!(named.is_some(), "unclosed", "no #endif closes the conditional at {u:?}, and nothing says so\n  {}", ctx());
		for u in &want.unclosed {
			if places.contains(&(root.to_string(), u.start, u.end)) {
				expected.insert((root.to_string(), u.start, u.end));
			}
		}
		obs.count("unclosed conditionals", 1);
	}
	if places != expected {
		let missing: Vec<_> = expected.difference(&places).collect();
		let surplus: Vec<_> = places.difference(&expected).collect();
		return Err(violation!(
			"diagnostics",
			"diagnostics missing at {missing:?}, unfounded at {surplus:?} ({:?})\n  {}",
			diags.iter().map(|d| &d.message).collect::<Vec<_>>(),
			ctx()
		));
	}
	for (i, d) in diags.iter().enumerate() {
		let again = diags[..i].iter().any(|e| d == e);
		ensure!(!again || want.repeated > 0, "duplicate", "{:?} is reported twice\n  {}", d.message, ctx());
	}
	for p in &want.problems {
		obs.count(&format!("problem: {}", p.3), 1);
	}
	// dependencies
	let deps: BTreeSet<(String, bool)> = a.include_dependencies(id).iter().map(|d| (a.path(d.file_id), d.is_resolved)).collect();
	ensure!(deps == want.dependencies, "dependencies", "dependencies {deps:?}, not {:?}\n  {}", want.dependencies, ctx());
	let req: BTreeSet<String> = required.borrow().iter().cloned().collect();
	let missing: BTreeSet<String> = want.dependencies.iter().filter(|d| !d.1).map(|d| d.0.clone()).collect();
	ensure!(req == missing, "required", "files asked for: {req:?}, missing: {missing:?}\n  {}", ctx());
	for b in bases.borrow().iter() {
		ensure!(files.contains_key(b), "base", "a path is resolved against {b:?}, no file\n  {}", ctx());
	}
	obs.eval();
	obs.count("tokens kept", want.taken);
	obs.count("tokens left out", want.skipped);
	obs.count("includes", want.dependencies.len() as u64);
	obs.count("files included more than once", want.repeated);
	Ok(want)
}

fn conditionals(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let n = Names::new();
	let mut s = Source::default();
	let d = r.range(1, 4);
	block(r, &mut s, &n, d, &[]);
	if r.chance(1, 3) {
		// a conditional that was never opened or never closed, or that has two alternatives
		let d = match r.below(5) {
			0 => Dir::Else,
			1 => Dir::Endif,
			2 => Dir::Elif(condition(r, &n)),
			3 => {
				s.dir(r, Dir::If(E::Int(1, "1".into())));
				s.filler(r);
				s.dir(r, Dir::Else);
				s.filler(r);
				s.dir(r, Dir::Else);
				s.filler(r);
				Dir::Endif
			}
			_ => Dir::If(condition(r, &n)),
		};
		s.dir(r, d);
		let deep = r.below(2);
		block(r, &mut s, &n, deep, &[]);
	}
	let text = s.text.clone();
	let dirs = s.items.iter().filter(|i| matches!(i, Item::Dir(Dir::If(_) | Dir::Elif(_) | Dir::Else, _))).count();
	let files: BTreeMap<String, Source> = [("/ws/root.p4".to_string(), s)].into_iter().collect();
	let o = check(&files, "/ws/root.p4", r, obs)?;
	if dirs > 1 && !o.undefined {
		obs.nontrivial(text.as_bytes());
	}
	obs.count("conditionals", dirs as u64);
	obs.sample(|| text.clone());
	Ok(())
}

/// All nestings of two conditionals with every combination of truth values, in every position.
fn truth_probe(obs: &mut Obs) -> CaseResult {
	let mut r = Rng::new(7);
	for shape in 0..4usize {
		for bits in 0..64u32 {
			let bit = |i: u32| {
				let v = (bits >> i & 1) as i64;
				E::Int(v, v.to_string())
			};
			let mut s = Source::default();
			s.marker();
			s.dir(&mut r, Dir::If(bit(0)));
			s.marker();
			for at in 0..3 {
				if shape == at || shape == 3 {
					s.dir(&mut r, Dir::If(bit(1)));
					s.marker();
					s.dir(&mut r, Dir::Elif(bit(2)));
					s.marker();
					s.dir(&mut r, Dir::Else);
					s.marker();
					s.dir(&mut r, Dir::Endif);
					s.marker();
				}
				if at == 0 {
					s.dir(&mut r, Dir::Elif(bit(3)));
					s.marker();
					s.dir(&mut r, Dir::Elif(bit(4)));
					s.marker();
				} else if at == 1 {
					s.dir(&mut r, Dir::Else);
					s.marker();
				}
			}
			s.dir(&mut r, Dir::Endif);
			s.marker();
			let files: BTreeMap<String, Source> = [("/ws/root.p4".to_string(), s)].into_iter().collect();
			check(&files, "/ws/root.p4", &mut r, obs)?;
		}
	}
	Ok(())
}

fn conditions(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let n = Names::new();
	let mut s = Source::default();
	let mut defs: HashMap<String, Option<E>> = HashMap::new();
	for _ in 0..r.below(5) {
		let k = r.pick(&n.ids).clone();
		let rhs = replacement(r, &n);
		defs.insert(k.clone(), Some(rhs.clone()));
		s.dir(r, Dir::Define(k, Some(rhs)));
	}
	if r.chance(1, 2) {
		defs.insert("F0".into(), None);
		s.dir(r, Dir::Define("F0".into(), None));
	}
	let d = r.range(1, 4);
	let e = expr(r, d, &n.ids, &n.flags);
	let v = value(&e, &defs, &mut vec![]);
	let mut text = String::new();
	render(r, &e, &mut text);
	if text.len() > 3000 {
		return Ok(());
	}
	s.dir(r, Dir::If(e.clone()));
	s.marker();
	s.dir(r, Dir::Else);
	s.marker();
	s.dir(r, Dir::Endif);
	if let Some(v) = v {
		// pin down the value, not only its truth
		let (l, k) = if v >= 0 { (e.clone(), v) } else { (E::Bin("+", Box::new(E::Paren(Box::new(e.clone()))), Box::new(E::Paren(Box::new(E::Bin("+", Box::new(E::Int(i64::MAX, i64::MAX.to_string())), Box::new(E::Int(0, "0".into()))))))), v.wrapping_add(i64::MAX)) };
		if k >= 0 {
			s.dir(r, Dir::If(E::Bin("==", Box::new(E::Paren(Box::new(l))), Box::new(E::Int(k, k.to_string())))));
			s.marker();
			s.dir(r, Dir::Endif);
		}
		obs.nontrivial(format!("{text} {v}").as_bytes());
		obs.distinct_of("values", &v.to_le_bytes());
		obs.count("conditions with a value", 1);
	} else {
		obs.count("conditions without a value", 1);
	}
	obs.sample(|| format!("{text} = {v:?}"));
	let files: BTreeMap<String, Source> = [("/ws/root.p4".to_string(), s)].into_iter().collect();
	check(&files, "/ws/root.p4", r, obs)?;
	Ok(())
}

/// Every pair of operators, side by side, with operands that tell precedence and associativity apart.
fn operators_probe(obs: &mut Obs) -> CaseResult {
	let mut r = Rng::new(3);
	for (o1, p1) in OPS {
		for (o2, p2) in OPS {
			for (a, b, c) in [(7, 3, 2), (1, 2, 3), (12, 5, 1), (0, 1, 2), (6, 6, 1), (3, 0, 4), (1, 1, 0)] {
				let i = |v: i64| Box::new(E::Int(v, v.to_string()));
				// a o1 b o2 c, without parentheses
				let e = if p1 >= p2 {
					E::Bin(o2, Box::new(E::Bin(o1, i(a), i(b))), i(c))
				} else {
					E::Bin(o1, i(a), Box::new(E::Bin(o2, i(b), i(c))))
				};
				if let Some(v) = value(&e, &HashMap::new(), &mut vec![]) {
					if v < 0 {
						continue;
					}
					let mut s = Source::default();
					s.dir(&mut r, Dir::If(e.clone()));
					s.marker();
					s.dir(&mut r, Dir::Endif);
					s.dir(&mut r, Dir::If(E::Bin("==", Box::new(E::Paren(Box::new(e))), i(v))));
					s.marker();
					s.dir(&mut r, Dir::Endif);
					let files: BTreeMap<String, Source> = [("/ws/root.p4".to_string(), s)].into_iter().collect();
					check(&files, "/ws/root.p4", &mut r, obs)?;
				}
			}
		}
	}
	Ok(())
}

fn includes(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let n = Names::new();
	let count = r.range(2, 6);
	let mut names: Vec<String> = (0..count).map(|i| if i % 2 == 0 { format!("f{i}.p4") } else { format!("d/f{i}.p4") }).collect();
	let odd = r.chance(1, 3);
	if odd {
		// each a different file: what a path means is up to the resolver
		let mut pool: Vec<&str> = vec![
			"f0.p4", "./f0.p4", "../f0.p4", "d/../f0.p4", "d//f0.p4", "d/f0.p4", "F0.p4", "f0.P4", "f0", " f0.p4", "f0.p4 ", "f0 .p4", "é.p4", "f%30.p4",
			"f0.p4/", "d\t.p4", "f0.p4?x", "'f0.p4'", "//f0.p4", "~f0", "_", "0", "x:f0.p4", "f0.p4;", "/*", "f0.p4.p4", "$f", "€∑",
		];
		r.shuffle(&mut pool);
		for i in 0..count {
			names[i] = pool[i].to_string();
		}
	}
	let mut files = BTreeMap::new();
	let acyclic = r.chance(1, 2);
	for i in 0..count {
		let mut s = Source { marker: i * 1000, ..Default::default() };
		let mut inc: Vec<String> = vec![];
		for j in 0..count {
			if !acyclic || j > i {
				inc.push(if r.chance(1, 6) && !names[j].starts_with('/') { format!("/ws/{}", names[j]) } else { names[j].clone() });
			}
		}
		if r.chance(1, 3) {
			inc.push(r.word(&["gone.p4", "!x", "/nowhere/y.p4"]).to_string());
		}
		for _ in 0..r.range(1, 3) {
			block(r, &mut s, &n, 1, &inc);
			if !inc.is_empty() && r.chance(1, 2) {
				let p = r.pick(&inc).clone();
				s.dir(r, Dir::Include(p));
			}
			s.marker();
		}
		if r.chance(1, 8) {
			s = Source::default();
		}
		files.insert(resolve(&names[i]), s);
	}
	if odd {
		obs.count("sets of files with odd paths", 1);
	}
	let root = resolve(&names[0]);
	let o = check(&files, &root, r, obs)?;
	if !o.dependencies.is_empty() && !o.undefined {
		obs.nontrivial(describe(&files).as_bytes());
	}
	obs.sample(|| describe(&files));
	Ok(())
}

// ---------------------------------------------------------------- robustness

fn survives(files: &[(String, String)], what: &str, obs: &mut Obs) -> CaseResult {
	let mut a = Analyzer::new(resolver, |_| ());
	let cut = |s: &str| s.chars().take(600).collect::<String>();
	let ctx = || format!("{what}\n{}", files.iter().map(|(n, t)| format!("--- {n} ({} bytes)\n{}\n", t.len(), cut(t))).collect::<String>());
	no_panic("panic", ctx, || {
		for (n, t) in files {
			let id = a.file_id(n);
			a.update(id, t);
		}
		for (n, _) in files {
			let id = a.file_id(n);
			let l = a.lexed(id).map_or(0, |l| l.len());
			let p = a.preprocessed(id).map_or(0, |l| l.len());
			let d = a.diagnostics(id);
			let i = a.include_dependencies(id).len();
			obs.count("tokens", l as u64);
			obs.count("preprocessed tokens", p as u64);
			obs.count("diagnostics", d.len() as u64);
			obs.count("dependencies", i as u64);
		}
	})?;
	obs.eval();
	Ok(())
}

fn hostile(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let n = Names::new();
	let count = r.range(1, 4);
	let mut files = vec![];
	for i in 0..count {
		let names: Vec<String> = (0..=count).map(|j| format!("f{j}.p4")).collect();
		let text = match r.below(6) {
			0 => gen::any_text(r),
			1 => {
				// conditionals that do not match up, over several files
				let mut s = Source::default();
				for _ in 0..r.range(1, 12) {
					let d = match r.below(8) {
						0 | 1 => Dir::If(condition(r, &n)),
						2 => Dir::Elif(condition(r, &n)),
						3 => Dir::Else,
						4 => Dir::Endif,
						5 => Dir::Include(r.pick(&names).clone()),
						6 => Dir::Define(r.pick(&n.ids).clone(), Some(replacement(r, &n))),
						_ => Dir::Pragma,
					};
					s.dir(r, d);
					if r.chance(1, 2) {
						s.marker();
					}
				}
				s.text
			}
			2 => {
				let bytes: Vec<u8> = (0..r.below(200)).map(|_| r.below(256) as u8).collect();
				String::from_utf8_lossy(&bytes).into_owned()
			}
			_ => {
				let mut s = Source::default();
				block(r, &mut s, &n, 2, &names);
				if r.chance(3, 4) {
					gen::mutate(r, &s.text)
				} else {
					s.text
				}
			}
		};
		files.push((format!("/ws/f{i}.p4"), text));
	}
	let key: String = files.iter().map(|f| f.1.as_str()).collect::<Vec<_>>().join("\u{1}");
	obs.nontrivial(key.as_bytes());
	obs.sample(|| key.clone());
	survives(&files, "hostile files", obs)
}

macro_rules! probe {
	($name:ident, $obs:ident, $files:expr) => {
		fn $name($obs: &mut Obs) -> CaseResult {
			let files: Vec<(String, String)> = $files.into_iter().map(|(a, b): (&str, String)| (a.to_string(), b)).collect();
			survives(&files, stringify!($name), $obs)
		}
	};
}

probe!(self_macro, obs, [("/ws/a", "#define x x\n#if x\na\n#endif\n#define y z\n#define z y\n#if y + z\n#endif\n".to_string())]);
probe!(macro_chain, obs, [("/ws/a", (0..20_000).map(|i| format!("#define a{} a{i}\n", i + 1)).collect::<String>() + "#if a20000\nx\n#endif\n")]);
probe!(macro_doubling, obs, [("/ws/a", (0..60).map(|i| format!("#define a{} a{i}+a{i}\n", i + 1)).collect::<String>() + "#if a60\nx\n#endif\n")]);
probe!(deep_parens, obs, [("/ws/a", format!("#if {}1{}\nx\n#endif\n", "(".repeat(100_000), ")".repeat(100_000)))]);
probe!(open_parens, obs, [("/ws/a", format!("#if {}\nx\n#endif\n", "(1+".repeat(50_000)))]);
probe!(long_sum, obs, [("/ws/a", format!("#if 1{}\nx\n#endif\n", "+1".repeat(50_000)))]);
probe!(macro_sums, obs, [("/ws/a", (0..200).map(|i| format!("#define a{} a{i}{}\n", i + 1, "+1".repeat(1500))).collect::<String>() + "#if a200\nx\n#endif\n")]);
probe!(deep_conditionals, obs, [("/ws/a", "#if 1\n".repeat(20_000) + &"#endif\n".repeat(20_000)), ("/ws/b", "#if 0\n".repeat(20_000)), ("/ws/c", "#endif\n".repeat(20_000))]);
probe!(include_chain, obs, (0..1000usize).map(|i| (Box::leak(format!("/ws/f{i}").into_boxed_str()) as &str, format!("a #include \"f{}\"\nb", i + 1))).collect::<Vec<_>>().into_iter().take(400));
probe!(include_self, obs, [("/ws/a", "#include \"a\"\nx\n#include \"b\"\n".to_string()), ("/ws/b", "#include \"a\"\ny\n#include \"b\"\n".to_string())]);
probe!(unresolvable, obs, [("/ws/a", "#include \"!\"\n#include <>\n#include \"\"\n#include <\u{0}>\n".to_string())]);
probe!(arithmetic, obs, [("/ws/a", ["1/0", "1%0", "0/0", "9223372036854775807+1", "0-9223372036854775807-2", "9223372036854775807*9223372036854775807", "1<<64", "1<<63", "1>>64", "1<<(0-1)", "1>>(0-1)", "(0-9223372036854775807-1)/(0-1)", "(0-9223372036854775807-1)%(0-1)", "99999999999999999999", "0xffffffffffffffffffff", "1<<4294967296", "1<<9223372036854775807"].iter().map(|e| format!("#if {e}\n#else\n#endif\n")).collect())]);
probe!(backslashes, obs, [("/ws/a", "#define x \\".to_string()), ("/ws/b", "#define x \\\\".to_string()), ("/ws/c", "#define x \\\\\\".to_string()), ("/ws/d", "#define x a\\\\b\n#define y \\\\\n".to_string()), ("/ws/e", "#if \\".to_string())]);
probe!(large, obs, [("/ws/a", "/*".to_string() + &"*".repeat(500_000)), ("/ws/b", "//".repeat(200_000)), ("/ws/c", "$".repeat(100_000)), ("/ws/d", "\n".repeat(300_000)), ("/ws/e", "9".repeat(300_000)), ("/ws/f", "a".repeat(300_000)), ("/ws/g", "#".repeat(50_000))]);
probe!(integers, obs, [("/ws/a", "4294967296w1 99999999999999999999s1 0x 0b 0o 0d 1w 1s 0w0w0 1_w_1 _ 0x_ 9223372036854775808 0xffffffffffffffff".to_string())]);
probe!(empties, obs, [("/ws/a", "".to_string()), ("/ws/b", "\u{feff}".to_string()), ("/ws/c", "#".to_string()), ("/ws/d", "#if".to_string()), ("/ws/e", "#define".to_string()), ("/ws/f", "#include".to_string()), ("/ws/g", "#undef".to_string()), ("/ws/h", "#pragma".to_string()), ("/ws/i", "# \n\n define\n".to_string())]);

const ASSUME: &[&str] = &["salsa is a stand-in (/verif/standins/salsa) whose memoisation is observationally that of salsa: results are those of the query on the current inputs"];

pub fn checks() -> Vec<Check> {
	vec![
		Check {
			id: "C16",
			rule: "random nestings of #if/#elif/#else with definitions, dangling and unclosed ones included, and all truth assignments of nested pairs; non-trivial = distinct programs with at least two conditional directives whose conditions all have a value",
			quick: 240_000,
			thorough: 3_000_000,
			min_distinct: 1000,
			must_observe: &["tokens kept", "tokens left out", "unclosed conditionals", "problem: dangling", "problem: second else", "problem: unknown"],
			run: conditionals,
			probes: &[("truth", truth_probe)],
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C17",
			rule: "random expressions over all operators, macros and defined(), and all pairs of operators side by side; non-trivial = distinct expressions that have a value in C",
			quick: 480_000,
			thorough: 3_000_000,
			min_distinct: 1000,
			must_observe: &["conditions with a value", "values"],
			run: conditions,
			probes: &[("operators", operators_probe)],
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C18",
			rule: "random include graphs of two to six files, cyclic ones, missing and unresolvable files included, with definitions and conditionals; non-trivial = distinct file sets in which something is included",
			quick: 120_000,
			thorough: 1_500_000,
			min_distinct: 1000,
			must_observe: &["includes", "problem: recursive", "problem: not found", "files included more than once"],
			run: includes,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C19",
			rule: "random, mutated and mismatched sources over one to four files, and directed extremes (depth, length, recursion, doubling, arithmetic, truncation); non-trivial = distinct file sets",
			quick: 80_000,
			thorough: 2_000_000,
			min_distinct: 1000,
			must_observe: &["tokens", "preprocessed tokens", "diagnostics", "dependencies"],
			run: hostile,
			probes: &[
				("self macro", self_macro),
				("macro chain", macro_chain),
				("macro doubling", macro_doubling),
				("deep parens", deep_parens),
				("open parens", open_parens),
				("long sum", long_sum),
				("macro sums", macro_sums),
				("deep conditionals", deep_conditionals),
				("include chain", include_chain),
				("include self", include_self),
				("unresolvable", unresolvable),
				("arithmetic", arithmetic),
				("backslashes", backslashes),
				("large", large),
				("integers", integers),
				("empties", empties),
			],
			assumptions: ASSUME,
			..Check::DEFAULT
		},
	]
}
