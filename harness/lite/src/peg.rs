//! C03 incremental parsing, C04 grammar semantics, C05 grammar validation, C12 linear work: against a reference PEG
//! interpreter. Tokens count their comparisons, so work is measured in logical steps.
use analyzer_core::parser::{Cst, Parser, Rule};
use std::{
	cell::Cell,
	collections::{HashMap, HashSet},
	rc::Rc,
};
use vcommon::*;

std::thread_local! {
	static STEPS: Cell<u64> = Cell::new(0);
	static BUDGET: Cell<u64> = Cell::new(u64::MAX);
}

#[derive(Clone, Debug, Eq, PartialOrd, Ord)]
pub struct Tok(u8);
impl PartialEq for Tok {
	fn eq(&self, o: &Tok) -> bool {
		STEPS.with(|s| {
			s.set(s.get() + 1);
			if s.get() > BUDGET.with(|b| b.get()) {
				panic!("step budget exceeded: {} token comparisons", s.get());
			}
		});
		self.0 == o.0
	}
}

const NAMES: [&str; 12] = ["start", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11"];
type Grammar = Vec<(&'static str, Rule<Tok>)>;

fn toks(s: &[u8]) -> Vec<Tok> { s.iter().map(|b| Tok(*b)).collect() }
fn show(t: &[Tok]) -> String { t.iter().map(|t| t.0 as char).collect() }
fn show_grammar(g: &Grammar) -> String {
	g.iter()
		.map(|(n, r)| match r {
			Rule::Terminal(t) => format!("{n} => {:?}", show(t)),
			Rule::Choice(o) => format!("{n} => {}", o.join(" | ")),
			Rule::Sequence(o) => format!("{n} => [{}]", o.join(", ")),
			Rule::Repetition(o) => format!("{n} => {o}*"),
			Rule::Not(o) => format!("{n} => !{o}"),
		})
		.collect::<Vec<_>>()
		.join("; ")
}

/// Parts, nullability and well-formedness (no left recursion, no repetition of something that can match nothing).
fn well_formed(g: &HashMap<&str, Rule<Tok>>) -> bool {
	let mut nullable: HashSet<&str> = HashSet::new();
	loop {
		let before = nullable.len();
		for (n, r) in g {
			let yes = match r {
				Rule::Terminal(t) => t.is_empty(),
				Rule::Choice(o) => o.iter().any(|x| nullable.contains(x)),
				Rule::Sequence(o) => o.iter().all(|x| nullable.contains(x)),
				Rule::Repetition(_) | Rule::Not(_) => true,
			};
			if yes {
				nullable.insert(*n);
			}
		}
		if nullable.len() == before {
			break;
		}
	}
	if g.values().any(|r| matches!(r, Rule::Repetition(x) if nullable.contains(x))) {
		return false;
	}
	let left: HashMap<&str, Vec<&str>> = g
		.iter()
		.map(|(n, r)| {
			(
				*n,
				match r {
					Rule::Terminal(_) => vec![],
					Rule::Choice(o) => o.clone(),
					Rule::Repetition(x) | Rule::Not(x) => vec![*x],
					Rule::Sequence(o) => {
						let mut v = vec![];
						for x in o {
							v.push(*x);
							if !nullable.contains(x) {
								break;
							}
						}
						v
					}
				},
			)
		})
		.collect();
	fn cyclic<'a>(n: &'a str, left: &HashMap<&'a str, Vec<&'a str>>, state: &mut HashMap<&'a str, u8>) -> bool {
		match state.get(n) {
			Some(1) => return true,
			Some(2) => return false,
			_ => (),
		}
		state.insert(n, 1);
		for m in left.get(n).into_iter().flatten() {
			if cyclic(m, left, state) {
				return true;
			}
		}
		state.insert(n, 2);
		false
	}
	let mut state = HashMap::new();
	!g.keys().any(|n| cyclic(n, &left, &mut state))
}

fn random_grammar(r: &mut Rng) -> Grammar {
	loop {
		let n = r.range(2, NAMES.len());
		let mut g: Grammar = vec![];
		for i in 0..n {
			let later = |r: &mut Rng| -> &'static str {
				// mostly forward references; backward ones give recursion
				if i + 1 < n && !r.chance(1, 6) {
					NAMES[r.range(i + 1, n - 1)]
				} else {
					NAMES[r.below(n)]
				}
			};
			let kind = if i + 1 == n || i * 2 > n && r.chance(1, 2) { 0 } else { r.range(1, 9) };
			let rule = match kind {
				0 => {
					let len = *r.pick(&[0, 1, 1, 1, 1, 2, 2, 3]);
					Rule::Terminal(Rc::new((0..len).map(|_| Tok(*r.pick(b"abc"))).collect()))
				}
				1..=3 => {
					let k = r.range(1, 4);
					Rule::Choice((0..k).map(|_| later(r)).collect())
				}
				4..=6 => {
					let k = *r.pick(&[0, 1, 2, 2, 2, 3, 3, 4]);
					Rule::Sequence((0..k).map(|_| later(r)).collect())
				}
				7..=8 => Rule::Repetition(later(r)),
				_ => Rule::Not(later(r)),
			};
			g.push((NAMES[i], rule));
		}
		let map: HashMap<_, _> = g.iter().cloned().collect();
		if well_formed(&map) {
			return g;
		}
	}
}

/// A sentence of the grammar, more or less (negation is ignored).
fn sentence(r: &mut Rng, g: &HashMap<&str, Rule<Tok>>, n: &str, depth: usize, out: &mut Vec<Tok>) {
	if out.len() > 60 || depth > 40 {
		return;
	}
	match &g[n] {
		Rule::Terminal(t) => out.extend(t.iter().cloned()),
		Rule::Choice(o) => sentence(r, g, *r.clone().pick(o), depth + 1, out),
		Rule::Sequence(o) => {
			for x in o {
				sentence(r, g, x, depth + 1, out)
			}
		}
		Rule::Repetition(x) => {
			for _ in 0..r.below(4) {
				sentence(r, g, x, depth + 1, out);
				r.next();
			}
		}
		Rule::Not(_) => (),
	}
	r.next();
}

fn random_input(r: &mut Rng, g: &HashMap<&str, Rule<Tok>>) -> Vec<Tok> {
	let mut v = vec![];
	if !r.chance(1, 8) {
		sentence(r, g, "start", 0, &mut v);
	}
	let edits = *r.pick(&[0, 0, 0, 1, 1, 2, 5]);
	for _ in 0..edits {
		let at = r.below(v.len() + 1);
		if r.chance(1, 2) || v.is_empty() {
			v.insert(at, Tok(*r.pick(b"abc")))
		} else {
			v.remove(at.min(v.len() - 1));
		}
	}
	v
}

/// Textbook PEG semantics.
struct Reference<'a> {
	g: &'a HashMap<&'static str, Rule<Tok>>,
	input: &'a [Tok],
	memo: HashMap<(&'static str, usize), Option<(Rc<Cst<Tok>>, usize)>>,
}

impl<'a> Reference<'a> {
	fn eval(&mut self, n: &'static str, pos: usize) -> Option<(Rc<Cst<Tok>>, usize)> {
		if let Some(r) = self.memo.get(&(n, pos)) {
			return r.clone();
		}
		let g = self.g;
		let r = match &g[n] {
			Rule::Terminal(t) => {
				let ok = self.input.len() >= pos + t.len() && self.input[pos..pos + t.len()].iter().zip(t.iter()).all(|(a, b)| a.0 == b.0);
				if ok {
					Some((Rc::new(Cst::Terminal(t.clone())), pos + t.len()))
				} else {
					None
				}
			}
			Rule::Choice(o) => {
				let mut res = None;
				for x in o {
					if let Some((c, p)) = self.eval(x, pos) {
						res = Some((Rc::new(Cst::Choice(x, c)), p));
						break;
					}
				}
				res
			}
			Rule::Sequence(o) => {
				let (mut p, mut cs, mut ok) = (pos, vec![], true);
				for x in o {
					match self.eval(x, p) {
						Some((c, q)) => {
							cs.push(c);
							p = q
						}
						None => {
							ok = false;
							break;
						}
					}
				}
				if ok {
					Some((Rc::new(Cst::Sequence(cs)), p))
				} else {
					None
				}
			}
			Rule::Repetition(x) => {
				let (mut p, mut cs) = (pos, vec![]);
				while let Some((c, q)) = self.eval(x, p) {
					cs.push(c);
					p = q;
				}
				Some((Rc::new(Cst::Repetition(cs)), p))
			}
			Rule::Not(x) => match self.eval(x, pos) {
				Some(_) => None,
				None => Some((Rc::new(Cst::Not(x)), pos)),
			},
		};
		self.memo.insert((n, pos), r.clone());
		r
	}
}

fn reference(g: &HashMap<&'static str, Rule<Tok>>, input: &[Tok]) -> Option<Cst<Tok>> {
	let mut r = Reference { g, input, memo: HashMap::new() };
	r.eval("start", 0).filter(|(_, p)| *p == input.len()).map(|(c, _)| (*c).clone())
}

/// The tokens a tree stands for.
fn leaves(c: &Cst<Tok>, out: &mut Vec<Tok>) {
	match c {
		Cst::Terminal(t) => out.extend(t.iter().cloned()),
		Cst::Choice(_, c) => leaves(c, out),
		Cst::Sequence(v) | Cst::Repetition(v) => v.iter().for_each(|c| leaves(c, out)),
		Cst::Not(_) => (),
	}
}

fn new_parser(g: &Grammar, input: &[Tok]) -> Result<Parser<Tok>, Violation> {
	let map: HashMap<&'static str, Rule<Tok>> = g.iter().cloned().collect();
	match Parser::from_rules(&map) {
		Ok(f) => Ok(f(input.to_vec().into())),
		Err(e) => Err(violation!("valid-grammar-refused", "{e}: {}", show_grammar(g))),
	}
}

fn same(a: &Option<Cst<Tok>>, b: &Option<Cst<Tok>>) -> bool {
	BUDGET.with(|x| x.set(u64::MAX));
	a == b
}

fn fresh(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let g = random_grammar(r);
	let map: HashMap<_, _> = g.iter().cloned().collect();
	for _ in 0..4 {
		let input = random_input(r, &map);
		let what = || format!("grammar {}\n  input {:?}", show_grammar(&g), show(&input));
		let mut p = new_parser(&g, &input)?;
		let want = reference(&map, &input);
		let got = no_panic("panic", what, || {
			STEPS.with(|s| s.set(0));
			BUDGET.with(|b| b.set(20_000_000));
			p._match()
		})?;
		ensure!(same(&got, &want), if got.is_some() == want.is_some() { "tree" } else { "acceptance" }, "{}\n  got  {:?}\n  want {:?}", what(), got, want);
		if let Some(c) = &got {
			let mut l = vec![];
			leaves(c, &mut l);
			ensure!(l == input, "leaves", "{}\n  the tree's leaves spell {:?}", what(), show(&l));
			obs.count("inputs accepted", 1);
		} else {
			obs.count("inputs rejected", 1);
		}
		// asking again must not change the answer
		let again = no_panic("panic", what, || p._match())?;
		ensure!(same(&again, &want), "second-match", "{}\n  got  {:?}\n  then {:?}", what(), got, again);
		obs.eval();
		if input.len() > 1 {
			obs.nontrivial(what().as_bytes());
		}
		obs.sample(|| what());
	}
	Ok(())
}

fn incremental(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	if r.chance(1, 250) {
		return long_texts(r, obs);
	}
	let g = random_grammar(r);
	let map: HashMap<_, _> = g.iter().cloned().collect();
	let mut input = random_input(r, &map);
	let mut p = new_parser(&g, &input)?;
	let mut log = vec![format!("grammar {}", show_grammar(&g)), format!("input {:?}", show(&input))];
	if !r.chance(1, 4) {
		no_panic("panic", || log.join("\n  "), || p._match())?;
		log.push("match".into());
	}
	// how often further edits come before the next parse, and whether those move towards the front: what was remembered
	// is then invalidated in steps
	let unparsed = r.chance(1, 2);
	let mut before = None;
	for _ in 0..r.range(2, if unparsed { 16 } else { 10 }) {
		let (range, ins);
		if let (Some(limit), true) = (before, r.chance(2, 3)) {
			let a = r.below(limit + 1);
			range = a..(a + r.below(2)).min(input.len());
			ins = (0..*r.pick(&[0, 1, 1, 1, 2])).map(|_| Tok(*r.pick(b"abc"))).collect::<Vec<_>>();
		} else if r.chance(1, 3) {
			// jump to (part of) another sentence, replacing the differing middle
			let target = random_input(r, &map);
			let pre = input.iter().zip(&target).take_while(|(a, b)| a.0 == b.0).count();
			let suf = input[pre..].iter().rev().zip(target[pre..].iter().rev()).take_while(|(a, b)| a.0 == b.0).count();
			range = pre..input.len() - suf;
			ins = target[pre..target.len() - suf].to_vec();
		} else {
			let a = r.below(input.len() + 1);
			let b = (a + *r.pick(&[0, 0, 1, 1, 2, 5])).min(input.len());
			range = a..b;
			let n = *r.pick(&[0, 1, 1, 1, 2, 3]);
			ins = (0..n).map(|_| Tok(*r.pick(b"abc"))).collect::<Vec<_>>();
		}
		log.push(format!("edit {:?} <- {:?}", range, show(&ins)));
		input.splice(range.clone(), ins.iter().cloned());
		no_panic("panic", || log.join("\n  "), || p.apply_edit(range.clone(), &ins))?;
		obs.count("edits", 1);
		if r.chance(if unparsed { 3 } else { 1 }, 6) {
			before = Some(range.start);
			continue; // several edits before the next parse
		}
		before = None;
		let got = no_panic("panic", || log.join("\n  "), || {
			STEPS.with(|s| s.set(0));
			BUDGET.with(|b| b.set(20_000_000));
			p._match()
		})?;
		let want = reference(&map, &input);
		ensure!(same(&got, &want), "stale", "{}\n  text is now {:?}\n  got  {:?}\n  want {:?}", log.join("\n  "), show(&input), got, want);
		log.push("match".into());
		obs.count(if got.is_some() { "re-parses accepted" } else { "re-parses rejected" }, 1);
		obs.eval();
	}
	obs.nontrivial(log.join(";").as_bytes());
	obs.sample(|| log.join(" | "));
	Ok(())
}

fn validation(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let mut g = random_grammar(r);
	// break it, or not
	let what = r.below(5);
	match what {
		0 => g.retain(|(n, _)| *n != "start"),
		1 => {
			let i = r.below(g.len());
			g.remove(i);
		}
		2 => {
			let i = r.below(g.len());
			let ghost = *r.pick(&["ghost", "Start", "r99", ""]);
			match &mut g[i].1 {
				Rule::Choice(o) | Rule::Sequence(o) => {
					let at = r.below(o.len() + 1);
					o.insert(at, ghost)
				}
				Rule::Repetition(x) | Rule::Not(x) => *x = ghost,
				t => *t = if r.chance(1, 2) { Rule::Not(ghost) } else { Rule::Repetition(ghost) },
			}
		}
		_ => (),
	}
	let map: HashMap<&'static str, Rule<Tok>> = g.iter().cloned().collect();
	let defined = |n: &&'static str| map.contains_key(n);
	let valid = map.contains_key("start")
		&& map.values().all(|r| match r {
			Rule::Terminal(_) => true,
			Rule::Choice(o) | Rule::Sequence(o) => o.iter().all(|n| defined(&n)),
			Rule::Repetition(n) | Rule::Not(n) => defined(&n),
		});
	let result = no_panic("panic", || show_grammar(&g), || Parser::from_rules(&map).map(|f| f))?;
	ensure!(result.is_ok() == valid, if valid { "valid-grammar-refused" } else { "invalid-grammar-accepted" }, "{}: {}", show_grammar(&g), match &result {
		Ok(_) => "accepted".to_string(),
		Err(e) => format!("refused: {e}"),
	});
	obs.count(if valid { "valid grammars" } else { "invalid grammars" }, 1);
	obs.eval();
	if let Ok(f) = result {
		// an accepted grammar can be run on anything
		let input: Vec<Tok> = (0..r.below(8)).map(|_| Tok(*r.pick(b"abc"))).collect();
		if well_formed(&map) {
			let mut p = f(input.clone().into());
			BUDGET.with(|b| b.set(u64::MAX));
			no_panic("panic-after-acceptance", || format!("{} on {:?}", show_grammar(&g), show(&input)), || p._match())?;
		}
	}
	obs.nontrivial(show_grammar(&g).as_bytes());
	obs.sample(|| format!("valid={valid}: {}", show_grammar(&g)));
	Ok(())
}

/// Texts of realistic length, tokens that look far ahead: a list of words, some of them long, edited here and there.
fn long_texts(r: &mut Rng, obs: &mut Obs) -> CaseResult {
	let huge = r.chance(1, 12);
	let long = *r.pick(&[3usize, 120, 254, 255, 256, 300, 700]);
	let n = if huge { 70_000 / (long + 4) + 5 } else { 2 + r.below(3000) / (long + 4) };
	// word = a^long b | a^long c | b | c c, with a guard that looks past a whole word
	let pad = vec![b'a'; long];
	let words: Vec<Vec<u8>> = vec![[&pad[..], b"b"].concat(), [&pad[..], b"c"].concat(), b"b".to_vec(), b"cc".to_vec()];
	let g: Grammar = vec![
		("start", Rule::Sequence(vec!["r1", "r7"])),
		("r1", Rule::Repetition("r8")),
		("r8", Rule::Sequence(vec!["r9", "r10"])),
		("r9", Rule::Not("r11")),
		// the forbidden word: a long one twice in a row
		("r11", Rule::Sequence(vec!["r2", "r2"])),
		("r10", Rule::Choice(vec!["r2", "r3", "r4", "r5"])),
		("r2", Rule::Terminal(Rc::new(toks(&words[0])))),
		("r3", Rule::Terminal(Rc::new(toks(&words[1])))),
		("r4", Rule::Terminal(Rc::new(toks(&words[2])))),
		("r5", Rule::Terminal(Rc::new(toks(&words[3])))),
		("r7", Rule::Repetition("r2")),
	];
	let map: HashMap<_, _> = g.iter().cloned().collect();
	let mut input = vec![];
	for _ in 0..n {
		input.extend(toks(&words[r.below(4)]));
	}
	let mut p = new_parser(&g, &input)?;
	let mut log = vec![format!("list of {n} words, {} tokens, long words of {} tokens", input.len(), long + 1)];
	BUDGET.with(|b| b.set(u64::MAX));
	for round in 0..if huge { 3 } else { 6 } {
		let got = no_panic("panic", || log.join("\n  "), || p._match())?;
		let want = reference(&map, &input);
		if !same(&got, &want) {
			let brief = |c: &Option<Cst<Tok>>| c.as_ref().map_or("rejected".to_string(), |c| {
				let mut l = vec![];
				leaves(c, &mut l);
				format!("accepted with {} leaves", l.len())
			});
			return Err(violation!("stale", "{}\n  got {}, want {}", log.join("\n  "), brief(&got), brief(&want)));
		}
		if let Some(c) = &got {
			let mut l = vec![];
			leaves(c, &mut l);
			ensure!(l == input, "leaves", "{}", log.join("\n  "));
			obs.count("long texts accepted", 1);
		} else {
			obs.count("long texts rejected", 1);
		}
		obs.eval();
		if round == 0 {
			continue;
		}
		for _ in 0..r.range(1, 3) {
			let a = match r.below(4) {
				0 => input.len() - r.below(input.len().min(long + 2) + 1),
				1 => r.below(input.len().min(2 * long + 2) + 1),
				_ => r.below(input.len() + 1),
			};
			// mostly turn one token into another, so that words stay words
			let b = (a + *r.pick(&[0, 1, 1, 1, 2])).min(input.len());
			let ins: Vec<Tok> = if b > a { (a..b).map(|_| Tok(*r.pick(b"bc"))).collect() } else { toks(&words[r.below(4)]) };
			log.push(format!("edit {:?} <- {} tokens", a..b, ins.len()));
			input.splice(a..b, ins.iter().cloned());
			no_panic("panic", || log.join("\n  "), || p.apply_edit(a..b, &ins))?;
		}
	}
	obs.nontrivial(log.join(";").as_bytes());
	Ok(())
}

/// Each rule is tried at most once per position and parse, so comparisons are bounded by rules x positions.
fn work(r: &mut Rng, case: u64, obs: &mut Obs) -> CaseResult {
	if r.chance(1, 4) {
		return local_work(r, case, obs);
	}
	let g: Grammar = if r.chance(1, 3) {
		// nests that share a prefix and fail late: the classic blow-up without memoised failures
		let depth = r.range(2, 10);
		let names: &'static [[&'static str; 4]] = &NESTS;
		let mut g: Grammar = vec![("start", Rule::Choice(vec![names[0][0]]))];
		for i in 0..depth {
			let [e, f, h, t] = names[i];
			let next = if i + 1 < depth { names[i + 1][0] } else { "leaf" };
			g.push((e, Rule::Choice(vec![f, h])));
			g.push((f, Rule::Sequence(vec!["open", next, "x"])));
			g.push((h, Rule::Sequence(vec!["open", next, t])));
			g.push((t, Rule::Terminal(Rc::new(toks(b"b")))));
		}
		g.push(("open", Rule::Terminal(Rc::new(toks(b"a")))));
		g.push(("x", Rule::Terminal(Rc::new(toks(b"c")))));
		g.push(("leaf", Rule::Terminal(Rc::new(toks(b"c")))));
		g
	} else {
		random_grammar(r)
	};
	let map: HashMap<_, _> = g.iter().cloned().collect();
	let mut input = if map.contains_key("leaf") {
		let mut v = toks(&vec![b'a'; r.range(1, 14)]);
		v.extend(toks(&vec![*r.pick(b"bc"); r.below(14)]));
		v
	} else {
		random_input(r, &map)
	};
	let mut p = new_parser(&g, &input)?;
	let per_position: u64 = g.iter().map(|(_, r)| if let Rule::Terminal(t) = r { t.len() as u64 } else { 0 }).sum();
	let mut log = vec![format!("grammar {}", show_grammar(&g)), format!("input {:?}", show(&input))];
	for round in 0..3 {
		let bound = per_position * (input.len() as u64 + 1);
		let what = log.join("\n  ");
		let steps = {
			STEPS.with(|s| s.set(0));
			BUDGET.with(|b| b.set(bound.max(1) * 64 + 4096));
			let r = no_panic("superlinear", || format!("{what}\n  bound {bound}"), || p._match());
			BUDGET.with(|b| b.set(u64::MAX));
			r?;
			STEPS.with(|s| s.get())
		};
		ensure!(steps <= bound, "superlinear", "{what}\n  {steps} token comparisons, at most {bound} when every rule is tried once per position");
		obs.eval();
		obs.count("token comparisons", steps);
		if round < 2 {
			// an unchanged text costs nothing more
			STEPS.with(|s| s.set(0));
			p._match();
			let again = STEPS.with(|s| s.get());
			ensure!(again == 0, "re-examined", "{what}\n  parsing the unchanged text again: {again} comparisons");
			obs.count("unchanged texts parsed again", 1);
			let a = r.below(input.len() + 1);
			let b = (a + r.below(3)).min(input.len());
			let ins: Vec<Tok> = (0..r.below(3)).map(|_| Tok(*r.pick(b"abc"))).collect();
			log.push(format!("edit {:?} <- {:?}", a..b, show(&ins)));
			input.splice(a..b, ins.iter().cloned());
			let what = log.join("\n  ");
			no_panic("panic", || what, || p.apply_edit(a..b, &ins))?;
		}
	}
	obs.nontrivial(log.join(";").as_bytes());
	obs.sample(|| log.join(" | "));
	Ok(())
}

/// A one-word edit in a long list of words examines the neighbourhood of the edit, however long the list.
fn local_work(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let words: Vec<Vec<u8>> = (0..r.range(1, 4)).map(|i| vec![[b'a'], [b'b'], [b'c'], [b'd']][i].repeat(1).into_iter().chain((0..r.below(4)).map(|_| b'e')).chain([b'f']).collect()).collect();
	let mut g: Grammar = vec![("start", Rule::Repetition("r1")), ("r1", Rule::Choice(vec!["r2", "r3", "r4", "r5"][..words.len()].to_vec()))];
	for (i, w) in words.iter().enumerate() {
		g.push((["r2", "r3", "r4", "r5"][i], Rule::Terminal(Rc::new(toks(w)))));
	}
	let map: HashMap<_, _> = g.iter().cloned().collect();
	let n = r.range(20, 200);
	let mut list: Vec<usize> = (0..n).map(|_| r.below(words.len())).collect();
	let text = |list: &[usize]| -> Vec<Tok> { toks(&list.iter().flat_map(|w| words[*w].clone()).collect::<Vec<u8>>()) };
	let mut p = new_parser(&g, &text(&list))?;
	STEPS.with(|s| s.set(0));
	BUDGET.with(|b| b.set(20_000_000));
	p._match();
	let fresh = STEPS.with(|s| s.get());
	let per_position: u64 = words.iter().map(|w| w.len() as u64).sum();
	let longest = words.iter().map(|w| w.len() as u64).max().unwrap();
	for _ in 0..4 {
		let at = r.below(list.len() + 1);
		let remove = if at < list.len() { r.below(2) } else { 0 };
		let add: Vec<usize> = (0..r.range(1 - remove, 2)).map(|_| r.below(words.len())).collect();
		let start = text(&list[..at]).len();
		let end = start + text(&list[at..at + remove]).len();
		let ins = text(&add);
		list.splice(at..at + remove, add);
		no_panic("panic", || show_grammar(&g), || p.apply_edit(start..end, &ins))?;
		STEPS.with(|s| s.set(0));
		let got = no_panic("panic", || show_grammar(&g), || p._match())?;
		let steps = STEPS.with(|s| s.get());
		let now = text(&list);
		ensure!(same(&got, &reference(&map, &now)), "stale", "{} on {:?}", show_grammar(&g), show(&now));
		let bound = per_position * (2 * longest + ins.len() as u64 + 2);
		ensure!(steps <= bound, "re-examined", "{}; {} words: replacing {start}..{end} by {:?} took {steps} token comparisons, the neighbourhood allows {bound} (a fresh parse took {fresh})", show_grammar(&g), list.len(), show(&ins));
		obs.evals(2);
		obs.count("local edits of long texts", 1);
		obs.count("token comparisons", steps);
	}
	obs.nontrivial(format!("{} {list:?}", show_grammar(&g)).as_bytes());
	Ok(())
}

const NESTS: [[&str; 4]; 10] = [
	["e0", "f0", "h0", "t0"],
	["e1", "f1", "h1", "t1"],
	["e2", "f2", "h2", "t2"],
	["e3", "f3", "h3", "t3"],
	["e4", "f4", "h4", "t4"],
	["e5", "f5", "h5", "t5"],
	["e6", "f6", "h6", "t6"],
	["e7", "f7", "h7", "t7"],
	["e8", "f8", "h8", "t8"],
	["e9", "f9", "h9", "t9"],
];

pub fn checks() -> Vec<Check> {
	let assumptions: &'static [&'static str] = &["grammars are well formed: no left recursion, no repetition of a rule that can match nothing"];
	vec![
		Check {
			id: "C03",
			rule: "random well-formed grammar of 2-12 rules, input derived from it, 2-16 random or sentence-to-sentence edits, one or several between parses; one in 250 a list of up to 70,000 tokens with words and lookahead of up to 1,400; every parse is compared with a reference PEG interpreter on the current text; a case is its grammar, input and edits",
			quick: 1_250_000,
			thorough: 8_000_000,
			min_distinct: 2000,
			must_observe: &["edits", "re-parses accepted", "re-parses rejected", "long texts accepted", "long texts rejected"],
			run: incremental,
			assumptions,
			..Check::DEFAULT
		},
		Check {
			id: "C04",
			rule: "random well-formed grammar of 2-12 rules with four inputs derived from it and mutated; acceptance, the whole tree, its leaves and a repeated parse are compared with a reference PEG interpreter; a case is a grammar and input longer than one token",
			quick: 600_000,
			thorough: 5_000_000,
			min_distinct: 2000,
			must_observe: &["inputs accepted", "inputs rejected"],
			run: fresh,
			assumptions,
			..Check::DEFAULT
		},
		Check {
			id: "C05",
			rule: "random grammar, intact or with the start rule or another rule removed or a reference made dangling in any position of any rule kind; acceptance is compared with an independent check; a case is a grammar",
			quick: 800_000,
			thorough: 5_000_000,
			min_distinct: 2000,
			must_observe: &["valid grammars", "invalid grammars"],
			run: validation,
			..Check::DEFAULT
		},
		Check {
			id: "C12",
			rule: "random grammars and nested grammars with shared failing prefixes, parsed, re-parsed and edited; token comparisons (counted by the token type) must stay within rules x positions, be none for an unchanged text, and stay local for a local edit of a long text; a case is its grammar, input and edits",
			quick: 240_000,
			thorough: 3_000_000,
			min_distinct: 2000,
			must_observe: &["token comparisons", "unchanged texts parsed again", "local edits of long texts"],
			run: work,
			assumptions,
			..Check::DEFAULT
		},
	]
}
