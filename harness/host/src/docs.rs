//! C24 (buffers are authoritative), C25 (document synchronisation), C26 (files on disk), C34 (documents anywhere):
//! sessions with documents that open, change, save and close while files change on disk, judged by the completions the
//! server offers: the words of the document and of what it includes.
use crate::session::on_thread;
use crate::sim::{labels, Disk, FsMode, Sim};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::{ensure, CaseResult, Check, Obs, Rng, Violation};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Theme {
	/// Open documents among disk activity.
	Authority,
	/// Documents that are edited.
	Sync,
	/// Files that are not open.
	Disk,
	/// Unusual places.
	Anywhere,
}

struct Doc {
	uri: String,
	/// Lies in a workspace folder, so that the client reports its changes on disk.
	watched: bool,
	open: Option<String>,
	version: i64,
	/// Every word of every version.
	ever: BTreeSet<String>,
}

struct World {
	docs: Vec<Doc>,
	flat: bool,
	words: u64,
	big: bool,
	/// Some lines are very long.
	long: bool,
}

/// Consonants only, so that any piece of a word is a word and none is a keyword.
fn word(n: u64) -> String {
	const L: &[u8] = b"bcdfghjkmnpqrstvwxz";
	let mut n = n;
	let mut s = String::from("z");
	loop {
		s.push(L[(n % L.len() as u64) as usize] as char);
		n /= L.len() as u64;
		if n == 0 {
			return s;
		}
	}
}

fn word_char(c: char) -> bool { c.is_ascii_lowercase() }

/// The words of a text, and what it includes, or None if it is not one of the texts that this model understands.
fn parse(text: &str) -> Option<(Vec<String>, Vec<String>)> {
	let (mut words, mut includes) = (vec![], vec![]);
	for line in text.split('\n') {
		let line = line.strip_suffix('\r').unwrap_or(line);
		if line.contains('\r') {
			return None;
		}
		if line.contains('#') {
			let path = line.strip_prefix("#include \"")?.strip_suffix('"')?;
			if path.is_empty() || path.contains(&['#', '"', '∑', '€', ' ', '\\'][..]) {
				return None;
			}
			includes.push(path.to_string());
			continue;
		}
		let code = match line.find("//") {
			Some(i) => {
				if line.contains('\\') {
					return None;
				}
				&line[..i]
			}
			None => line,
		};
		if !code.chars().all(|c| word_char(c) || c == ' ' || c == '\t' || c == ';') {
			return None;
		}
		words.extend(code.split(|c| !word_char(c)).filter(|w| !w.is_empty()).map(String::from));
	}
	Some((words, includes))
}

fn resolve(root: &str, path: &str) -> Option<String> {
	if let Ok(u) = url(path) {
		return Some(u);
	}
	analyzer_abstractions::lsp_types::Url::parse(root).ok()?.join(path).ok().map(|u| u.to_string())
}

fn url(s: &str) -> Result<String, ()> { analyzer_abstractions::lsp_types::Url::parse(s).map(|u| u.to_string()).map_err(|_| ()) }

impl World {
	fn fresh(&mut self) -> String {
		self.words += 1;
		word(self.words)
	}

	/// A line of some ten thousands of columns.
	fn long_line(&mut self, r: &mut Rng) -> String {
		let mut s = String::new();
		let columns = *r.pick(&[5_000, 66_000, 70_000, 140_000]);
		while s.len() < columns {
			s.push_str(&self.fresh());
			s.push_str(*r.pick(&[" ", ";", "\t", "  "]));
			if r.chance(1, 20_000) {
				// what remains is a comment of wide characters
				s.push_str("//");
				s.extend((0..r.range(1, columns)).map(|_| *r.pick(&['€', '∑', 'x'])));
				break;
			}
		}
		s
	}

	fn line(&mut self, r: &mut Rng, own: usize) -> String {
		if self.long && r.chance(1, 3) {
			return self.long_line(r);
		}
		if r.chance(1, 5) {
			let path = match r.below(12) {
				0 => "gone.p4".to_string(),
				1 => "file:///nowhere/gone.p4".to_string(),
				_ => {
					let d = r.below(self.docs.len());
					let u = self.docs[d].uri.clone();
					if d == own && r.chance(3, 4) {
						"gone.p4".into()
					} else if self.flat && r.chance(2, 3) {
						u.rsplit('/').next().unwrap().to_string()
					} else {
						u
					}
				}
			};
			// relative names need a base, and mean the same from everywhere only if all files are in one place
			let path = if !self.flat && url(&path).is_err() { "file:///nowhere/gone.p4".into() } else { path };
			return format!("#include \"{path}\"");
		}
		let mut s = String::new();
		for _ in 0..r.below(4) {
			s.push_str(&self.fresh());
			s.push_str(*r.pick(&[" ", ";", "\t", "  "]));
		}
		if r.chance(1, 5) {
			s.push_str("// ∑ € xx");
		}
		s
	}

	fn text(&mut self, r: &mut Rng, own: usize) -> String {
		let n = if self.big { r.range(50, 400) } else { r.range(0, 5) };
		let nl = if r.chance(1, 6) { "\r\n" } else { "\n" };
		let mut includes = 0;
		let mut lines: Vec<String> = vec![];
		for _ in 0..n {
			let l = self.line(r, own);
			if l.starts_with('#') {
				includes += 1;
				if includes > 3 {
					continue;
				}
			}
			lines.push(l);
		}
		let mut t = lines.join(nl);
		if r.chance(3, 4) {
			t.push_str(nl);
		}
		t
	}

	fn learn(&mut self, d: usize, text: &str) {
		if let Some((w, _)) = parse(text) {
			self.docs[d].ever.extend(w);
		}
	}

	fn index(&self, uri: &str) -> Option<usize> { self.docs.iter().position(|d| d.uri == uri) }

	/// What `uri` contains: the buffer if it is open, else the file.
	fn contents<'a>(&'a self, disk: &'a Disk, uri: &str) -> Option<&'a String> {
		if let Some(i) = self.index(uri) {
			if let Some(t) = &self.docs[i].open {
				return Some(t);
			}
		}
		disk.get(uri)
	}

	/// The words of a document with everything it includes.
	fn words(&self, disk: &Disk, uri: &str) -> Option<BTreeSet<String>> {
		fn go(w: &World, disk: &Disk, root: &str, uri: &str, within: &mut Vec<String>, out: &mut BTreeSet<String>) -> bool {
			let text = match w.contents(disk, uri) {
				Some(t) => t,
				None => return false,
			};
			let (words, includes) = parse(text).expect("a text of the model");
			out.extend(words);
			within.push(uri.to_string());
			for i in includes {
				if let Some(u) = resolve(root, &i) {
					if !within.contains(&u) {
						go(w, disk, root, &u, within, out);
					}
				}
			}
			within.pop();
			true
		}
		let mut out = BTreeSet::new();
		if go(self, disk, uri, uri, &mut vec![], &mut out) {
			Some(out)
		} else {
			None
		}
	}
}

fn position(text: &str, at: usize) -> Value {
	let before = &text[..at];
	let line = before.matches('\n').count();
	let start = before.rfind('\n').map_or(0, |i| i + 1);
	json!({ "line": line, "character": before[start..].chars().count() })
}

/// One content change, of which the result is a text that the model understands.
fn content_change(w: &mut World, r: &mut Rng, d: usize, text: &mut String) -> Value {
	for _ in 0..8 {
		let (a, b, ins);
		let bounds: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
		// not between \r and \n, which is no position of the protocol
		let legal = |i: usize| !(i > 0 && text.as_bytes()[i - 1] == b'\r' && text.as_bytes().get(i) == Some(&b'\n'));
		match r.below(10) {
			0 => {
				let t = w.text(r, d);
				*text = t.clone();
				return json!({ "text": t });
			}
			1 | 2 => {
				// a whole line in or out
				let starts: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
				a = *r.pick(&starts);
				let end = text[a..].find('\n').map_or(text.len(), |i| a + i + 1);
				b = if r.chance(1, 2) { a } else { end };
				ins = if r.chance(2, 3) { w.line(r, d) + "\n" } else { String::new() };
			}
			3 | 4 => {
				let i = r.below(bounds.len());
				a = bounds[i];
				b = bounds[(i + r.below(4)).min(bounds.len() - 1)];
				ins = String::new();
			}
			5 => {
				a = *r.pick(&bounds);
				b = a;
				ins = r.word(&["b", " ", "\n", "\r\n", ";", "kk", " \n ", "//", "// €\n"]).to_string();
			}
			6 => {
				a = text.len();
				b = a;
				let l = w.line(r, d);
				ins = if text.is_empty() || text.ends_with('\n') { l } else { format!("\n{l}") };
			}
			_ => {
				let i = r.below(bounds.len());
				a = bounds[i];
				b = bounds[(i + *r.pick(&[0, 0, 1, 2, 3, 8])).min(bounds.len() - 1)];
				ins = format!("{}{}", r.word(&["", " ", ";", "\n"]), w.fresh());
			}
		}
		if !legal(a) || !legal(b) {
			continue;
		}
		let t = format!("{}{ins}{}", &text[..a], &text[b..]);
		match parse(&t) {
			Some((_, inc)) if inc.len() <= 4 => (),
			_ => continue,
		}
		let mut v = json!({ "range": { "start": position(text, a), "end": position(text, b) }, "text": ins });
		if r.chance(1, 3) {
			v["rangeLength"] = json!(text[a..b].chars().count());
		}
		*text = t;
		return v;
	}
	let t = w.text(r, d);
	*text = t.clone();
	json!({ "text": t })
}

struct Eager {
	asked: usize,
	doc: usize,
	/// Own words at the time of asking, if open.
	own: Option<BTreeSet<String>>,
}

struct Play<'a> {
	w: World,
	sim: Sim,
	r: &'a mut Rng,
	eager: Vec<Eager>,
	path: String,
}

impl<'a> Play<'a> {
	fn disk(&self) -> Disk { self.sim.fs.disk.lock().unwrap().clone() }

	fn set_disk(&mut self, d: usize, text: Option<String>) -> u64 {
		let uri = self.w.docs[d].uri.clone();
		if let Some(t) = &text {
			self.w.learn(d, t);
		}
		self.sim.note(format!("on disk: {uri} {}", text.as_ref().map_or("is deleted".into(), |t| format!("becomes {t:?}"))));
		let mut disk = self.sim.fs.disk.lock().unwrap();
		match text {
			Some(t) => {
				if disk.insert(uri, t).is_some() {
					2
				} else {
					1
				}
			}
			None => {
				disk.remove(&uri);
				3
			}
		}
	}

	fn open(&mut self, d: usize) {
		let uri = self.w.docs[d].uri.clone();
		let on_disk = self.disk().get(&uri).cloned();
		let text = match on_disk {
			Some(t) if self.r.chance(2, 3) => t,
			_ => self.w.text(self.r, d),
		};
		self.w.learn(d, &text);
		self.sim.did_open(&uri, &text);
		self.w.docs[d].open = Some(text);
		self.w.docs[d].version = 1;
	}

	fn change(&mut self, d: usize) {
		let mut text = self.w.docs[d].open.clone().unwrap();
		let mut changes = vec![];
		for _ in 0..*self.r.pick(&[1, 1, 1, 2, 3, 0]) {
			changes.push(content_change(&mut self.w, self.r, d, &mut text));
		}
		self.w.learn(d, &text);
		let doc = &mut self.w.docs[d];
		doc.version += 1;
		self.sim.notify("textDocument/didChange", json!({ "textDocument": { "uri": doc.uri, "version": doc.version }, "contentChanges": changes }));
		doc.open = Some(text);
	}

	fn save(&mut self, d: usize) {
		let text = self.w.docs[d].open.clone().unwrap();
		let uri = self.w.docs[d].uri.clone();
		let kind = self.set_disk(d, Some(text.clone()));
		let first = self.r.chance(1, 2);
		if first && self.w.docs[d].watched {
			self.sim.watched(&[(&uri, kind)]);
		}
		let mut p = json!({ "textDocument": { "uri": uri } });
		if self.r.chance(3, 4) {
			p["text"] = json!(text);
		}
		self.sim.notify("textDocument/didSave", p);
		if !first && self.w.docs[d].watched {
			self.sim.watched(&[(&uri, kind)]);
		}
	}

	fn close(&mut self, d: usize) {
		let uri = self.w.docs[d].uri.clone();
		self.sim.did_close(&uri);
		self.w.docs[d].open = None;
	}

	/// Something else changes watched files, and the client says so.
	fn disk_change(&mut self) {
		let watched: Vec<usize> = (0..self.w.docs.len()).filter(|&i| self.w.docs[i].watched).collect();
		if watched.is_empty() {
			return;
		}
		// files that are being read right now, and the answers to which may be overtaken by the news
		let mut reading = vec![];
		if self.r.chance(1, 2) {
			let uris = self.sim.reading();
			reading.extend(watched.iter().copied().filter(|&i| uris.contains(&self.w.docs[i].uri)));
			if self.r.chance(2, 3) {
				while self.sim.answer_one(self.r) {}
			}
		}
		let mut events: Vec<(String, u64)> = vec![];
		for _ in 0..*self.r.pick(&[1, 1, 1, 2, 4]) {
			let d = *self.r.pick(if reading.is_empty() { &watched } else { &reading });
			let uri = self.w.docs[d].uri.clone();
			if self.r.chance(if reading.is_empty() { 1 } else { 2 }, 3) {
				if self.disk().contains_key(&uri) {
					let k = self.set_disk(d, None);
					// news of a change can arrive after the file is gone
					let k = if self.r.chance(1, 5) { 2 } else { k };
					events.push((uri, k));
				}
			} else {
				let t = self.w.text(self.r, d);
				let k = self.set_disk(d, Some(t));
				// a file that is replaced is also said to have been created
				let k = if self.r.chance(1, 6) { 3 - k } else { k };
				events.push((uri, k));
			}
		}
		if !events.is_empty() {
			let e: Vec<(&str, u64)> = events.iter().map(|(u, k)| (u.as_str(), *k)).collect();
			self.sim.watched(&e);
		}
	}

	fn own(&self, d: usize) -> Option<BTreeSet<String>> {
		self.w.docs[d].open.as_ref().map(|t| parse(t).unwrap().0.into_iter().collect())
	}

	fn ask(&mut self, d: usize) {
		let own = self.own(d);
		let asked = self.sim.request("textDocument/completion", Sim::completion_params(&self.w.docs[d].uri.clone()));
		self.eager.push(Eager { asked, doc: d, own });
	}

	/// Judges the answers that came while things were in motion.
	fn judge_eager(&mut self, obs: &mut Obs) -> CaseResult {
		let all = std::mem::take(&mut self.eager);
		for e in all {
			let r = match self.sim.response(e.asked) {
				Some(r) => r.clone(),
				None => {
					self.eager.push(e);
					continue;
				}
			};
			let uri = &self.w.docs[e.doc].uri;
			obs.eval();
			let got = match labels(&self.sim, &r)? {
				Some(l) => l,
				None => {
					if e.own.is_some() {
						return Err(self.sim.fail("open-unavailable", format!("{uri} is open, and completions in it fail: {r}")));
					}
					continue;
				}
			};
			let set: BTreeSet<String> = got.iter().cloned().collect();
			ensure!(set.len() == got.len(), "repeated-word", "completions in {uri} repeat themselves: {got:?}\n{}", self.sim.witness());
			if let Some(own) = &e.own {
				if let Some(m) = own.iter().find(|w| !set.contains(*w)) {
					return Err(self.sim.fail("buffer-ignored", format!("{uri} is open and contains {m}, and its completions {got:?} (request {}) do not", self.sim.asked[e.asked].id)));
				}
				for x in &set {
					let elsewhere = self.w.docs.iter().enumerate().any(|(i, d)| i != e.doc && d.ever.contains(x));
					if !own.contains(x) && !elsewhere {
						return Err(self.sim.fail("not-in-buffer", format!("{uri} is open and does not contain {x}, nor does any other file; its completions (request {}) do: {got:?}", self.sim.asked[e.asked].id)));
					}
				}
				obs.count("answers about open documents in motion", 1);
			} else {
				for x in &set {
					if !self.w.docs.iter().any(|d| d.ever.contains(x)) {
						return Err(self.sim.fail("invented", format!("no version of any file contains {x}, and the completions of {uri} do")));
					}
				}
				obs.count("answers about other files in motion", 1);
			}
		}
		Ok(())
	}

	/// Settled, completions must be exactly right.
	fn probe(&mut self, d: usize, obs: &mut Obs) -> CaseResult {
		self.sim.settle_answered(self.r)?;
		self.judge_eager(obs)?;
		let uri = self.w.docs[d].uri.clone();
		let p = Sim::completion_params(&uri);
		self.sim.call(self.r, "textDocument/completion", p.clone())?;
		let r = self.sim.call(self.r, "textDocument/completion", p)?;
		let got = labels(&self.sim, &r)?;
		let want = self.w.words(&self.disk(), &uri);
		obs.eval();
		let open = self.w.docs[d].open.is_some();
		let kind = if open { "open document" } else { "file that is not open" };
		match (&want, &got) {
			(None, None) => {
				obs.count("probes of files that do not exist", 1);
				return Ok(());
			}
			(None, Some(l)) => {
				if !l.is_empty() {
					return Err(self.sim.fail("deleted-file", format!("{uri} is neither open nor on disk, and its completions are {l:?}")));
				}
				obs.count("probes of files that do not exist", 1);
				return Ok(());
			}
			(Some(w), None) => {
				return Err(self.sim.fail("unavailable", format!("{uri} ({kind}) exists with the words {w:?}, and completions in it fail: {r}")));
			}
			(Some(w), Some(l)) => {
				let set: BTreeSet<String> = l.iter().cloned().collect();
				ensure!(set.len() == l.len(), "repeated-word", "completions in {uri} repeat themselves: {l:?}\n{}", self.sim.witness());
				if set != *w {
					let own = self.own(d);
					let missing: Vec<_> = w.difference(&set).take(8).collect();
					let extra: Vec<_> = set.difference(w).take(8).collect();
					return Err(self.sim.fail(
						if open { "open-differs" } else { "file-differs" },
						format!("completions in {uri} ({kind}): missing {missing:?}, surplus {extra:?}\n  own words {own:?}\n  want {w:?}"),
					));
				}
			}
		}
		obs.count(if open { "probes of open documents" } else { "probes of files that are not open" }, 1);
		Ok(())
	}
}

fn play(theme: Theme, r: &mut Rng, obs: &mut Obs) -> CaseResult {
	let mode = if r.chance(1, 2) { FsMode::Given } else { FsMode::Client };
	let big = r.chance(1, 150);
	let long = r.chance(1, if theme == Theme::Sync { 250 } else { 1500 }) && !big; // both at once takes minutes
	// where the documents are
	let (uris, flat): (Vec<&str>, bool) = match theme {
		Theme::Anywhere => (
			vec![
				"file:///w/a.p4", "file:///w/sub/b.p4", "file:///w2/c.p4", "file:///w", "untitled:Untitled-1", "file:///W/d.p4", "file:///wa.p4",
				"file:///w/with%20space/e.p4", "vscode-vfs://github/w/f.p4", "file://host/w/g.p4", "file:///w/noext", "file:///h.p4", "file:///v/%C3%A9.p4",
				"git:/w/a.p4?ref", "file:///w/a.p4?x=1", "file:///w/sub2/b.p4", "http://localhost:8080/w/k.p4", "file:///w/%5Bx%5D.p4",
			],
			false,
		),
		_ => {
			if r.chance(1, 2) {
				(vec!["file:///w/a.p4", "file:///w/b.p4", "file:///w/c.p4", "file:///w/d.p4", "file:///w/e.p4"], true)
			} else {
				(vec!["file:///w/a.p4", "file:///w/sub/b.p4", "file:///v/c.p4", "file:///w/d.p4", "file:///other/e.p4"], false)
			}
		}
	};
	let folders: Option<Vec<String>> = match (theme, r.below(8)) {
		(_, 0) => None,
		(_, 1) => Some(vec![]),
		(Theme::Anywhere, 2) => Some(vec!["file:///w".into(), "file:///w/sub".into()]),
		(Theme::Anywhere, 3) => Some(vec!["file:///w/sub/".into(), "file:///w/".into(), "file:///v".into()]),
		(Theme::Anywhere, 4) => Some(vec!["vscode-vfs://github/w".into(), "file:///w".into()]),
		(_, 5) => Some(vec!["file:///w/".into(), "file:///v/".into()]),
		(_, 6) => Some(vec!["file:///w".into(), "file:///w/sub".into()]),
		_ => Some(vec!["file:///w".into()]),
	};
	let n = r.range(2, uris.len().min(6));
	let mut chosen: Vec<&str> = uris.clone();
	while chosen.len() > n {
		let i = r.below(chosen.len());
		chosen.remove(i);
	}
	let in_folder = |u: &str| {
		folders.as_ref().map_or(false, |f| f.iter().any(|f| u.starts_with(&format!("{}/", f.trim_end_matches('/')))) && u.ends_with(".p4"))
	};
	let docs = chosen
		.iter()
		.map(|u| Doc { uri: url(u).unwrap(), watched: in_folder(&url(u).unwrap()), open: None, version: 0, ever: BTreeSet::new() })
		.collect();
	let mut w = World { docs, flat, words: r.below(2000) as u64, big, long };
	let mut disk = Disk::new();
	for d in 0..w.docs.len() {
		if r.chance(2, 3) && !w.docs[d].uri.starts_with("untitled") {
			let t = w.text(r, d);
			w.learn(d, &t);
			disk.insert(w.docs[d].uri.clone(), t);
		}
	}
	let sim = Sim::new(mode, disk.clone());
	let mut p = Play { w, sim, r, eager: vec![], path: format!("{mode:?} {} docs {} folders ", n, folders.as_ref().map_or(-1, |f| f.len() as i32)) };
	for (u, t) in &disk {
		p.sim.note(format!("on disk: {u} is {t:?}"));
	}
	p.sim.note(format!("folders {folders:?}"));
	let progress = *p.r.pick(&[None, Some(true)]);
	if folders.is_some() && p.r.chance(1, 8) {
		// an initialize that lacks a capability is refused, and repeated
		p.sim.request("initialize", Sim::initialize_params(folders.as_deref(), false, progress));
		p.sim.settle_answered(p.r)?;
		p.path.push_str("retried ");
	}
	if p.r.chance(1, 2) {
		p.sim.open_session(p.r, folders.as_deref(), progress)?;
	} else {
		// no waiting: everything that follows meets indexing in progress
		p.sim.request("initialize", Sim::initialize_params(folders.as_deref(), true, progress));
		p.sim.notify("initialized", json!({}));
		p.path.push_str("hasty ");
	}
	let ops = if big || long { 12 } else { p.r.range(3, 22) };
	// op weights: open, change, close, save, disk, ask, answer, step, run, probe
	let weights: [usize; 10] = match theme {
		Theme::Authority => [4, 4, 2, 2, 6, 4, 5, 2, 2, 2],
		Theme::Sync => [4, 12, 2, 2, 0, 5, 3, 2, 3, 3],
		Theme::Disk => [0, 0, 0, 0, 8, 4, 6, 2, 3, 3],
		Theme::Anywhere => [6, 5, 3, 2, 3, 4, 4, 2, 2, 3],
	};
	for _ in 0..ops {
		let d = p.r.below(n);
		let total: usize = weights.iter().sum();
		let mut k = p.r.below(total);
		let mut op = 0;
		while k >= weights[op] {
			k -= weights[op];
			op += 1;
		}
		let is_open = p.w.docs[d].open.is_some();
		p.path.push_str(&format!("{op}.{d}{} ", if is_open { "o" } else { "" }));
		match (op, is_open) {
			(0, false) => p.open(d),
			(0, true) | (1, true) => p.change(d),
			(1, false) => p.open(d),
			(2, true) => {
				p.close(d);
				obs.count("closes", 1);
			}
			(3, true) => {
				p.save(d);
				obs.count("saves", 1);
			}
			(4, _) => {
				p.disk_change();
				obs.count("changes on disk", 1);
			}
			(5, _) => p.ask(d),
			(6, _) => {
				for _ in 0..p.r.range(1, 4) {
					p.sim.answer_one(p.r);
				}
			}
			(7, _) => {
				p.sim.step()?;
			}
			(8, _) => p.sim.run()?,
			(9, _) => p.probe(d, obs)?,
			_ => {}
		}
		p.judge_eager(obs)?;
	}
	for d in 0..n {
		p.probe(d, obs)?;
	}
	p.sim.check_alive(p.r)?;
	obs.count("polls of the server", p.sim.polls);
	obs.count("sessions with lines of thousands of columns", long as u64);
	obs.nontrivial(p.path.as_bytes());
	obs.distinct_of("interleavings", p.sim.log.join("\n").as_bytes());
	let path = p.path.clone();
	obs.sample(|| path);
	Ok(())
}

fn c24(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult { on_thread(|| play(Theme::Authority, r, obs)) }
fn c25(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult { on_thread(|| play(Theme::Sync, r, obs)) }
fn c26(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult { on_thread(|| play(Theme::Disk, r, obs)) }
fn c34(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult { on_thread(|| play(Theme::Anywhere, r, obs)) }

pub fn checks() -> Vec<Check> {
	let _: BTreeMap<(), ()> = BTreeMap::new();
	let _ = |v: Violation| v;
	const ASSUME: &[&str] = &[
		"the crates that analyzer-host uses (async-channel, serde, tracing…) are as pinned; salsa is a stand-in",
		"a client follows the protocol: changes only documents it opened, and reports each change of a watched file on disk after it happened",
		"relative includes resolve against the file that is analysed",
	];
	const BOTH: &[&str] = &["probes of open documents", "probes of files that are not open", "probes of files that do not exist", "answers about open documents in motion"];
	vec![
		Check {
			id: "C24",
			rule: "sessions of 3–22 actions on 2–5 files that include one another: opening, editing, saving, closing, changes on disk of open and other files, loads in flight, completions asked at any moment; non-trivial: all; distinct by the sequence of actions",
			quick: 30_000,
			thorough: 1_000_000,
			min_distinct: 2000,
			must_observe: BOTH,
			run: c24,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C25",
			rule: "sessions of 3–22 actions, mostly incremental and full changes (several per notification) of open documents, with completions asked at any moment; distinct by the sequence of actions",
			quick: 30_000,
			thorough: 1_000_000,
			min_distinct: 2000,
			must_observe: BOTH,
			run: c25,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C26",
			rule: "sessions of 3–22 actions on files that are not open: creation, change and deletion on disk, reported alone or together, with file system answers in any order; distinct by the sequence of actions",
			quick: 30_000,
			thorough: 1_000_000,
			min_distinct: 2000,
			must_observe: &["probes of files that are not open", "probes of files that do not exist", "changes on disk"],
			run: c26,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C34",
			rule: "the same sessions on documents in unusual places: unsaved, on other schemes and hosts, outside the folders, beside them under a longer name, in nested folders, with queries and escapes in their URLs, and without any folder; distinct by the sequence of actions",
			quick: 30_000,
			thorough: 1_000_000,
			min_distinct: 2000,
			must_observe: BOTH,
			run: c34,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
	]
}
