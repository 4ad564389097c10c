//! C42: a client that does just what the server asks for is served by what the server announces.
use crate::session::{mode, on_thread};
use crate::sim::{glob, labels, Disk, Sim};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vcommon::{ensure, CaseResult, Check, Obs, Rng};

/// What is announced, the request that it announces, and whether the request names a position.
const PROVIDERS: &[(&str, &str)] = &[
	("hoverProvider", "textDocument/hover"),
	("completionProvider", "textDocument/completion"),
	("completionProvider/resolveProvider", "completionItem/resolve"),
	("signatureHelpProvider", "textDocument/signatureHelp"),
	("declarationProvider", "textDocument/declaration"),
	("definitionProvider", "textDocument/definition"),
	("typeDefinitionProvider", "textDocument/typeDefinition"),
	("implementationProvider", "textDocument/implementation"),
	("referencesProvider", "textDocument/references"),
	("documentHighlightProvider", "textDocument/documentHighlight"),
	("documentSymbolProvider", "textDocument/documentSymbol"),
	("codeActionProvider", "textDocument/codeAction"),
	("codeLensProvider", "textDocument/codeLens"),
	("documentLinkProvider", "textDocument/documentLink"),
	("colorProvider", "textDocument/documentColor"),
	("documentFormattingProvider", "textDocument/formatting"),
	("documentRangeFormattingProvider", "textDocument/rangeFormatting"),
	("renameProvider", "textDocument/rename"),
	("foldingRangeProvider", "textDocument/foldingRange"),
	("selectionRangeProvider", "textDocument/selectionRange"),
	("linkedEditingRangeProvider", "textDocument/linkedEditingRange"),
	("callHierarchyProvider", "textDocument/prepareCallHierarchy"),
	("semanticTokensProvider", "textDocument/semanticTokens/full"),
	("monikerProvider", "textDocument/moniker"),
	("typeHierarchyProvider", "textDocument/prepareTypeHierarchy"),
	("inlineValueProvider", "textDocument/inlineValue"),
	("inlayHintProvider", "textDocument/inlayHint"),
	("diagnosticProvider", "textDocument/diagnostic"),
	("workspaceSymbolProvider", "workspace/symbol"),
];

fn announced(caps: &Value, path: &str) -> bool {
	let v = path.split('/').fold(caps, |v, k| &v[k]);
	!(v.is_null() || *v == json!(false))
}

/// How the server wants to be told about documents.
struct Wanted {
	open_close: bool,
	change: u64,
	save: bool,
	save_text: bool,
}

fn wanted(caps: &Value) -> Wanted {
	let s = &caps["textDocumentSync"];
	match s {
		Value::Number(n) => Wanted { open_close: true, change: n.as_u64().unwrap_or(0), save: false, save_text: false },
		_ => Wanted {
			open_close: s["openClose"] == json!(true),
			change: s["change"].as_u64().unwrap_or(0),
			save: !(s["save"].is_null() || s["save"] == json!(false)),
			save_text: s["save"]["includeText"] == json!(true),
		},
	}
}

/// The words of a text and the files that it includes. Every line is a word, or includes a file by its URL.
fn parts(text: &str) -> (BTreeSet<String>, Vec<String>) {
	let mut words = BTreeSet::new();
	let mut includes = vec![];
	for l in text.lines() {
		match l.strip_prefix("#include \"").and_then(|l| l.strip_suffix('"')) {
			Some(u) => includes.push(u.to_string()),
			None if l.is_empty() => (),
			None => {
				words.insert(l.to_string());
			}
		}
	}
	(words, includes)
}

struct World {
	uris: Vec<String>,
	open: BTreeMap<usize, String>,
	count: usize,
}

impl World {
	fn text(&mut self, rng: &mut Rng, of: usize) -> String {
		let mut t = String::new();
		for _ in 0..rng.range(1, 4) {
			if of + 1 < self.uris.len() && rng.chance(1, 4) {
				let k = rng.range(of + 1, self.uris.len() - 1);
				t += &format!("#include \"{}\"\n", self.uris[k]);
			} else {
				self.count += 1;
				t += &format!("word_{of}_{}\n", self.count);
			}
		}
		t
	}

	fn current<'a>(&'a self, disk: &'a Disk, uri: &str) -> Option<&'a String> {
		let i = self.uris.iter().position(|u| u == uri)?;
		self.open.get(&i).or_else(|| disk.get(uri))
	}

	fn words(&self, disk: &Disk, uri: &str) -> Option<BTreeSet<String>> {
		let (mut words, includes) = parts(self.current(disk, uri)?);
		for i in includes {
			words.extend(self.words(disk, &i).unwrap_or_default());
		}
		Some(words)
	}
}

fn c42(rng: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult { on_thread(|| c42_in(rng, obs)) }

fn c42_in(rng: &mut Rng, obs: &mut Obs) -> CaseResult {
	let m = mode(rng);
	let folders: Option<Vec<String>> = match rng.below(6) {
		0 => None,
		1 | 2 => Some(vec!["file:///w".into()]),
		3 => Some(vec!["file:///w/".into(), "file:///v".into()]),
		_ => Some(vec!["file:///w".into(), "file:///v".into()]),
	};
	let mut all: Vec<String> =
		["w/a.p4", "w/sub/b.p4", "w/sub/deep/c.p4", "v/d.p4", "other/e.p4", "w/sub.p4/f.p4", "w/x.y.p4"].iter().map(|p| format!("file:///{p}")).collect();
	rng.shuffle(&mut all);
	all.truncate(rng.range(2, 5));
	let mut w = World { uris: all, open: BTreeMap::new(), count: 0 };
	let mut disk = Disk::new();
	for i in 0..w.uris.len() {
		if rng.chance(3, 4) {
			let t = w.text(rng, i);
			disk.insert(w.uris[i].clone(), t);
		}
	}
	// files that are none of the server's business
	disk.insert("file:///w/readme.txt".into(), "no_source\n".into());
	disk.insert("file:///v/d.p4.orig".into(), "no_source\n".into());

	let mut sim = Sim::new(m, disk);
	let r = sim.call(rng, "initialize", Sim::initialize_params(folders.as_deref(), true, None))?;
	let caps = r["result"]["capabilities"].clone();
	ensure!(caps.is_object(), "initialize-refused", "{r}\n{}", sim.witness());
	sim.notify("initialized", json!({}));
	if rng.chance(1, 2) {
		sim.settle_answered(rng)?;
	} else {
		// news before the server asks for any does not exist for it, and is found by its indexing
		sim.run()?;
	}
	let want = wanted(&caps);
	let relative = |u: &str| -> Vec<String> {
		folders.iter().flatten().filter_map(|f| u.strip_prefix(&format!("{}/", f.trim_end_matches('/'))).map(String::from)).collect()
	};
	let mut path = format!("{m:?}{folders:?}{:?}", w.uris);
	let (mut told, mut spoken) = (0u64, 0u64);
	for _ in 0..rng.range(3, 14) {
		if rng.chance(1, 3) {
			sim.settle_answered(rng)?;
		}
		let d = rng.below(w.uris.len());
		let uri = w.uris[d].clone();
		// what the client is asked to watch, by now
		let watchers: Vec<(String, u64)> = sim
			.received
			.iter()
			.filter(|v| v["method"] == "client/registerCapability")
			.flat_map(|v| v["params"]["registrations"].as_array().cloned().unwrap_or_default())
			.filter(|r| r["method"] == "workspace/didChangeWatchedFiles")
			.flat_map(|r| r["registerOptions"]["watchers"].as_array().cloned().unwrap_or_default())
			.map(|x| (x["globPattern"].as_str().unwrap_or("").to_string(), x["kind"].as_u64().unwrap_or(7)))
			.collect();
		let tell = |sim: &mut Sim, kind: u64| -> bool {
			let bit = [0, 1, 2, 4][kind as usize];
			let told = relative(&uri).iter().any(|p| watchers.iter().any(|(g, k)| glob(g, p) && k & bit != 0));
			if told {
				sim.watched(&[(&uri, kind)]);
			}
			told
		};
		path.push_str(&format!("{d}"));
		match rng.below(8) {
			0 if !w.open.contains_key(&d) => {
				let text = sim.fs.disk.lock().unwrap().get(&uri).cloned();
				let text = match text {
					Some(t) => t,
					None => w.text(rng, d),
				};
				if want.open_close {
					sim.did_open(&uri, &text);
				}
				w.open.insert(d, text);
				path.push('o');
			}
			1 | 2 if w.open.contains_key(&d) => {
				let old = w.open[&d].clone();
				let n = old.lines().count();
				let lines: Vec<&str> = old.lines().collect();
				let (at, until) = (rng.range(0, n), rng.range(0, n));
				let (at, until) = (at.min(until), at.max(until));
				let piece = if rng.chance(1, 4) { String::new() } else { w.text(rng, d) };
				let new: String = lines[..at].iter().map(|l| format!("{l}\n")).collect::<String>() + &piece + &lines[until..].iter().map(|l| format!("{l}\n")).collect::<String>();
				let change = match want.change {
					0 => None,
					1 => Some(json!({ "text": new })),
					_ => Some(json!({ "range": { "start": { "line": at, "character": 0 }, "end": { "line": until, "character": 0 } }, "text": piece })),
				};
				if let Some(c) = change {
					sim.notify("textDocument/didChange", json!({ "textDocument": { "uri": uri, "version": 2 + told }, "contentChanges": [c] }));
				}
				w.open.insert(d, new);
				path.push('c');
			}
			3 if w.open.contains_key(&d) && !relative(&uri).is_empty() => {
				let text = w.open[&d].clone();
				let kind = if sim.fs.disk.lock().unwrap().insert(uri.clone(), text.clone()).is_some() { 2 } else { 1 };
				if want.save {
					let mut p = json!({ "textDocument": { "uri": uri } });
					if want.save_text {
						p["text"] = json!(text);
					}
					sim.notify("textDocument/didSave", p);
				}
				tell(&mut sim, kind);
				path.push('s');
			}
			4 if w.open.contains_key(&d) => {
				if want.open_close {
					sim.did_close(&uri);
				}
				w.open.remove(&d);
				path.push('x');
			}
			// something else writes or removes the file, where the client watches
			5 | 6 if !relative(&uri).is_empty() => {
				sim.settle_answered(rng)?; // by now it is registered what to watch
				if rng.chance(1, 3) {
					if sim.fs.disk.lock().unwrap().remove(&uri).is_none() {
						continue;
					}
					sim.note(format!("on disk: {uri} is removed"));
					told += tell(&mut sim, 3) as u64;
				} else {
					let t = w.text(rng, d);
					sim.note(format!("on disk: {uri} becomes {t:?}"));
					let kind = if sim.fs.disk.lock().unwrap().insert(uri.clone(), t).is_some() { 2 } else { 1 };
					told += tell(&mut sim, kind) as u64;
				}
				obs.count("changes on disk", 1);
				path.push('d');
			}
			_ => {
				if !announced(&caps, "completionProvider") {
					return Err(sim.fail("no-completions", "completions are not announced".into()));
				}
				sim.settle_answered(rng)?;
				sim.call(rng, "textDocument/completion", Sim::completion_params(&uri))?;
				let r = sim.call(rng, "textDocument/completion", Sim::completion_params(&uri))?;
				let disk = sim.fs.disk.lock().unwrap().clone();
				obs.eval();
				spoken += 1;
				let got = labels(&sim, &r)?;
				match (w.words(&disk, &uri), got) {
					(Some(want), Some(l)) => {
						let got: BTreeSet<String> = l.into_iter().collect();
						if got != want {
							let (missing, surplus): (Vec<_>, Vec<_>) = (want.difference(&got).collect(), got.difference(&want).collect());
							return Err(sim.fail(
								"out-of-touch",
								format!("a client that follows what {caps} and the registrations {watchers:?} ask for gets completions in {uri} without {missing:?} and with {surplus:?}"),
							));
						}
						obs.count("completions as asked for", 1);
					}
					(Some(want), None) => return Err(sim.fail("out-of-touch", format!("{uri} holds {want:?}, and completions in it fail: {r}"))),
					(None, Some(l)) if !l.is_empty() => return Err(sim.fail("out-of-touch", format!("{uri} does not exist, and its completions are {l:?}"))),
					_ => (),
				}
				path.push('?');
			}
		}
	}
	obs.count("file events as registered", told);
	obs.nontrivial(path.as_bytes());
	obs.distinct_of("interleavings", sim.log.join("\n").as_bytes());
	obs.sample(|| format!("{path}: {spoken} probes, {told} file events"));

	// what is announced is served
	sim.settle_answered(rng)?;
	let uri = w.uris[0].clone();
	if want.open_close && !w.open.contains_key(&0) {
		sim.did_open(&uri, "one\ntwo\n");
	}
	let mut list: Vec<&(&str, &str)> = PROVIDERS.iter().filter(|p| announced(&caps, p.0)).collect();
	rng.shuffle(&mut list);
	let mut unserved: Vec<(&str, Value)> = vec![];
	for (what, method) in list.into_iter().copied() {
		let (doc, at) = (json!({ "uri": uri }), json!({ "line": rng.below(3), "character": rng.below(4) }));
		let all = json!({ "start": { "line": 0, "character": 0 }, "end": { "line": 1, "character": 0 } });
		let p = match method {
			"completionItem/resolve" => json!({ "label": "one" }),
			"workspace/symbol" => json!({ "query": "o" }),
			"textDocument/references" => json!({ "textDocument": doc, "position": at, "context": { "includeDeclaration": true } }),
			"textDocument/rename" => json!({ "textDocument": doc, "position": at, "newName": "other" }),
			"textDocument/codeAction" => json!({ "textDocument": doc, "range": all, "context": { "diagnostics": [] } }),
			"textDocument/formatting" => json!({ "textDocument": doc, "options": { "tabSize": 4, "insertSpaces": true } }),
			"textDocument/rangeFormatting" => json!({ "textDocument": doc, "range": all, "options": { "tabSize": 4, "insertSpaces": true } }),
			"textDocument/selectionRange" => json!({ "textDocument": doc, "positions": [at] }),
			"textDocument/inlineValue" => json!({ "textDocument": doc, "range": all, "context": { "frameId": 1, "stoppedLocation": all } }),
			"textDocument/inlayHint" => json!({ "textDocument": doc, "range": all }),
			"textDocument/completion" if rng.chance(1, 2) => json!({ "textDocument": doc, "position": at, "context": { "triggerKind": 1 } }),
			_ => json!({ "textDocument": doc, "position": at }),
		};
		let r = sim.call(rng, method, p)?;
		obs.eval();
		if r["error"].is_null() {
			obs.count(&format!("{method} served"), 1);
		} else {
			unserved.push((method, json!([what, r["error"]])));
		}
	}
	for what in ["textDocument/hover", "textDocument/completion"] {
		ensure!(PROVIDERS.iter().any(|p| p.1 == what && announced(&caps, p.0)), "not-announced", "{what} is served and not announced: {caps}\n{}", sim.witness());
	}
	if announced(&caps, "workspace/workspaceFolders/changeNotifications") {
		ensure!(folders.is_some(), "folders-announced", "changes of folders are announced to a client without any: {caps}\n{}", sim.witness());
		sim.fs.disk.lock().unwrap().insert("file:///added/g.p4".into(), "added_word\n".into());
		let mark = (sim.log.len(), sim.answers.len());
		sim.notify("workspace/didChangeWorkspaceFolders", json!({ "event": { "added": [{ "uri": "file:///added", "name": "added" }], "removed": [] } }));
		sim.settle_answered(rng)?;
		let read = sim.log[mark.0..].iter().any(|l| l.starts_with("disk: ") && l.contains("file:///added")) || sim.answers[mark.1..].iter().any(|(r, _, _)| r.params["uri"].as_str().map_or(false, |u| u.starts_with("file:///added")));
		if !read {
			unserved.push(("workspace/didChangeWorkspaceFolders", json!("nothing of the folder is read")));
		}
	}
	if !unserved.is_empty() {
		let (method, why) = unserved[rng.below(unserved.len())].clone();
		return Err(sim.fail(&format!("announced-{method}"), format!("{method} is announced, and not served: {why}")));
	}
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C42",
		rule: "sessions with a client that sends, saves, watches and enumerates just as the server announced, asked and registered, among changes on disk; its completions are compared with the documents and the disk, and then everything announced is requested; distinct by places and actions",
		quick: 30_000,
		thorough: 400_000,
		min_distinct: 1000,
		must_observe: &["completions as asked for", "changes on disk", "file events as registered", "textDocument/hover served", "textDocument/completion served"],
		run: c42,
		assumptions: &["the crates that analyzer-host uses are as pinned; salsa is a stand-in", "globs are those of the Language Server Protocol, matched below each workspace folder"],
		..Check::DEFAULT
	}]
}
