//! C20: what the analyzer answers depends on the current files only, not on how they came to be.
use crate::{gen, pp};
use analyzer_core::{
	base_abstractions::*,
	lsp_file::{ChangeEvent, Position, Range},
	Analyzer,
};
use std::collections::BTreeMap;
use vcommon::*;

type Answers = (Option<String>, Option<String>, Option<String>, Vec<String>, Vec<String>);

/// Every query about a file, spelled independently of ids.
fn ask(a: &Analyzer, name: &str) -> Answers {
	let id = a.file_id(name);
	let lexed = a.lexed(id).map(|l| format!("{l:?}"));
	let pre = a.preprocessed(id).map(|p| p.iter().map(|(f, t, s)| format!("{} {t:?} {s:?};", a.path(*f))).collect::<String>());
	let show = |d: &Diagnostic| format!("{} {:?} {} {}", a.path(d.file), d.location, d.message, d.severity == Severity::Error);
	let mut diags: Vec<String> = a.diagnostics(id).iter().map(show).collect();
	diags.sort();
	let mut deps: Vec<String> = a.include_dependencies(id).iter().map(|d| format!("{} {}", a.path(d.file_id), d.is_resolved)).collect();
	deps.sort();
	(a.input(id).map(|s| s.to_string()), lexed, pre, diags, deps)
}

fn fresh(files: &BTreeMap<String, String>, r: &mut Rng) -> Analyzer {
	let mut a = Analyzer::new(pp::resolver, |_| ());
	let mut order: Vec<_> = files.iter().collect();
	r.shuffle(&mut order);
	for (n, t) in order {
		let id = a.file_id(n);
		a.update(id, t);
	}
	a
}

fn source(r: &mut Rng, names: &[String]) -> String {
	if r.chance(1, 4) {
		return gen::spelled(r, 12, 4);
	}
	let mut s = pp::Source::default();
	let inc: Vec<String> = names.iter().map(|n| n.trim_start_matches("/ws/").to_string()).collect();
	pp::block(r, &mut s, &pp::Names::new(), 1, &inc);
	if r.chance(1, 2) {
		s.text += &format!("\n#include \"{}\"\n", r.pick(&inc));
	}
	s.text
}

fn position(text: &str, at: usize) -> Position {
	let line = text[..at].matches('\n').count();
	let start = text[..at].rfind('\n').map_or(0, |i| i + 1);
	Position::new(line, text[start..at].chars().count())
}

fn boundary(r: &mut Rng, text: &str) -> usize {
	let mut at = r.below(text.len() + 1);
	while !text.is_char_boundary(at) {
		at -= 1;
	}
	at
}

fn histories(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let names: Vec<String> = (0..4).map(|i| format!("/ws/f{i}.p4")).collect();
	let mut files: BTreeMap<String, String> = BTreeMap::new();
	let mut a = Analyzer::new(pp::resolver, |_| ());
	let mut log = vec![];
	let n = r.range(3, 14);
	for step in 0..n {
		let name = r.pick(&names).clone();
		let id = a.file_id(&name);
		match r.below(8) {
			0 | 1 => {
				let t = source(r, &names);
				log.push(format!("update {name} {t:?}"));
				a.update(id, &t);
				files.insert(name.clone(), t);
				obs.count("updates", 1);
			}
			2..=4 if files.contains_key(&name) => {
				let mut events = vec![];
				let mut text = files[&name].clone();
				for _ in 0..r.range(1, 3) {
					let (mut x, mut y) = (boundary(r, &text), boundary(r, &text));
					if x > y {
						std::mem::swap(&mut x, &mut y);
					}
					if r.chance(1, 2) {
						y = x;
					}
					let ins = match r.below(4) {
						0 => String::new(),
						1 => gen::directive(r),
						2 => format!("\n#include \"f{}.p4\"\n", r.below(4)),
						_ => gen::spelled(r, 4, 4),
					};
					log.push(format!("edit {name} {x}..{y} {ins:?}"));
					events.push(ChangeEvent { range: Some(Range::new(position(&text, x), position(&text, y))), text: ins.clone() });
					text.replace_range(x..y, &ins);
				}
				a.file_change_event(id, &events);
				files.insert(name.clone(), text);
				obs.count("edits", 1);
			}
			5 => {
				log.push(format!("delete {name}"));
				let was = files.remove(&name).is_some();
				let did = a.delete(&name).is_some();
				ensure!(was == did, "delete", "deleting {name} reports {did}, it was there: {was}\n  {log:#?}");
				obs.count("deletions", did as u64);
			}
			_ => {
				// a query between changes may leave something remembered
				log.push(format!("ask {name}"));
				let _ = no_panic("panic", || format!("{log:#?}"), || ask(&a, &name))?;
				obs.count("queries in between", 1);
			}
		}
		if step + 1 == n || r.chance(1, 4) {
			let f = fresh(&files, r);
			let mut have = a.files();
			have.sort();
			ensure!(have == files.keys().cloned().collect::<Vec<_>>(), "files", "the files are {have:?}, not {:?}\n  {log:#?}", files.keys());
			for name in &names {
				let what = || format!("about {name}\n  {log:#?}\n  now {files:#?}");
				let got = no_panic("panic", what, || ask(&a, name))?;
				let want = no_panic("panic", what, || ask(&f, name))?;
				ensure!(got.0.as_ref() == files.get(name), "content", "the content is {:?}\n  {}", got.0, what());
				ensure!(got.1 == want.1, "lexed", "tokens\n  {:?}\nare those of a fresh analyzer\n  {:?}\n  {}", got.1, want.1, what());
				ensure!(got.2 == want.2, "preprocessed", "preprocessed\n  {:?}\n  fresh {:?}\n  {}", got.2, want.2, what());
				ensure!(got.3 == want.3, "diagnostics", "diagnostics\n  {:?}\n  fresh {:?}\n  {}", got.3, want.3, what());
				ensure!(got.4 == want.4, "dependencies", "dependencies\n  {:?}\n  fresh {:?}\n  {}", got.4, want.4, what());
				obs.eval();
				obs.count("dependencies compared", got.4.len() as u64);
				obs.count("diagnostics compared", got.3.len() as u64);
			}
		}
	}
	obs.nontrivial(log.join("\n").as_bytes());
	obs.sample(|| log.join("\n"));
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C20",
		rule: "random histories of updates, incremental edits, deletions and queries over four files that include one another; non-trivial = distinct histories",
		quick: 45_000,
		thorough: 800_000,
		min_distinct: 1000,
		must_observe: &["updates", "edits", "deletions", "queries in between", "dependencies compared", "diagnostics compared"],
		run: histories,
		assumptions: &["salsa is a stand-in (/verif/standins/salsa): stale results inside salsa itself are out of reach, stale inputs handed to it are not"],
		..Check::DEFAULT
	}]
}
