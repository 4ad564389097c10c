//! C21 (every request is answered), C22 (lifecycle), C23 (requests of the server), C27 (termination), C28 (trace),
//! C29 (progress).
use crate::sim::{labels, uri, Disk, FsMode, Sim};
use serde_json::{json, Value};
use vcommon::{ensure, fresh_thread, violation, CaseResult, Check, Obs, Rng, Violation};

/// Runs a session on a thread of its own: the host keeps its background work in thread-locals.
pub fn on_thread(f: impl FnOnce() -> CaseResult + Send) -> CaseResult {
	match fresh_thread(f) {
		Ok(r) => r,
		Err(p) => Err(Violation { signature: "panic".into(), detail: format!("panic: {p}") }),
	}
}

pub fn mode(rng: &mut Rng) -> FsMode { if rng.chance(1, 2) { FsMode::Given } else { FsMode::Client } }

fn small_disk(rng: &mut Rng) -> Disk {
	let mut d = Disk::new();
	for i in 0..rng.range(0, 5) {
		let dir = rng.word(&["w", "w/sub", "v", "other"]);
		d.insert(format!("file:///{dir}/f{i}.p4"), format!("ident{i} f{i}_x\n"));
	}
	d
}

fn folders(rng: &mut Rng) -> Option<Vec<String>> {
	match rng.below(6) {
		0 => None,
		1 => Some(vec![]),
		2 | 3 => Some(vec!["file:///w".into()]),
		4 => Some(vec!["file:///w/".into(), "file:///v".into()]),
		_ => Some(vec!["file:///w".into(), "file:///w/sub".into()]),
	}
}

const DOCS: &[&str] = &[
	"file:///w/f0.p4", "file:///w/f1.p4", "file:///w/sub/f2.p4", "file:///v/f3.p4", "file:///other/f4.p4", "untitled:Untitled-1",
	"file:///w/new.p4", "file:///w2/f0.p4", "vscode-notebook-cell:/w/x.p4#a", "http://host/x.p4", "file:///",
];

/// Parameters that do not fit any request of the server.
fn malformed(rng: &mut Rng) -> Value {
	match rng.below(9) {
		0 => json!({}),
		1 => json!([]),
		2 => json!([1, 2, 3]),
		3 => json!({ "textDocument": { "uri": 7 }, "position": { "line": 0, "character": 0 } }),
		4 => json!({ "textDocument": { "uri": "file:///w/f0.p4" }, "position": { "line": -1, "character": 0 } }),
		5 => json!({ "textDocument": { "uri": "file:///w/f0.p4" } }),
		6 => json!({ "textDocument": { "uri": "not a url" }, "position": { "line": 1, "character": 1 } }),
		7 => json!({ "position": { "line": 0, "character": 0 }, "textDocument": null }),
		_ => json!({ "textDocument": { "uri": "file:///w/f0.p4" }, "position": { "line": "0", "character": 1.5 } }),
	}
}

/// A line or character, mostly below `most`, and now and then as large as they come.
fn coordinate(rng: &mut Rng, most: usize) -> u64 {
	if rng.chance(1, 8) {
		*rng.pick(&[u32::MAX as u64, u32::MAX as u64 - 1, i32::MAX as u64, i32::MAX as u64 + 1, 65_535, 65_536, 1 << 24])
	} else {
		rng.below(most) as u64
	}
}

/// Kilobytes, for the most part of characters of several bytes, none of which is where the others are.
fn large_text(rng: &mut Rng) -> String {
	let mut t = "a".repeat(rng.below(7));
	let size = *rng.pick(&[300, 1_100, 5_000, 9_000, 20_000, 70_000]);
	let chars = *rng.pick(&[&['é'][..], &['€'], &['😀'], &['é', '∑', '😀', 'x', ' ', '\n']]);
	let comment = rng.chance(1, 2);
	if comment {
		t.push_str("// ");
	}
	while t.len() < size {
		t.push(*rng.pick(chars));
	}
	t
}

fn odd_notification(rng: &mut Rng, sim: &mut Sim) -> &'static str {
	let u = rng.word(DOCS);
	match rng.below(16) {
		0 => {
			sim.notify("$/cancelRequest", json!({ "id": rng.below(20) }));
			"cancelRequest"
		}
		1 => {
			sim.notify("workspace/didChangeConfiguration", json!({ "settings": {} }));
			"unknown notification"
		}
		2 => {
			let m = rng.word(&["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "textDocument/didSave", "$/setTrace", "workspace/didChangeWatchedFiles"]);
			let p = malformed(rng);
			sim.notify(m, p);
			"malformed notification"
		}
		3 => {
			sim.notify("textDocument/didSave", json!({ "textDocument": { "uri": u }, "text": "saved_word\n" }));
			"didSave"
		}
		4 => {
			sim.notify("textDocument/didSave", json!({ "textDocument": { "uri": u } }));
			"didSave without text"
		}
		5 => {
			let t = rng.pick(&[0u64, 4, 99, 255]).clone();
			sim.watched(&[(u, t)]);
			"watched event of no known type"
		}
		6 => {
			let t = rng.range(1, 3) as u64;
			sim.watched(&[(u, t)]);
			"watched event"
		}
		7 => {
			let changes: Vec<(&str, u64)> = (0..rng.range(0, 4)).map(|_| (rng.word(DOCS), 1 + rng.below(3) as u64)).collect();
			sim.watched(&changes);
			"watched events"
		}
		8 => {
			if rng.chance(1, 6) {
				let t = large_text(rng);
				sim.did_open(u, &t);
			}
			sim.notify("textDocument/didChange", json!({ "textDocument": { "uri": u, "version": 2 }, "contentChanges": [{ "text": "changed_word\n" }] }));
			"didChange"
		}
		9 => {
			let (a, b, c, d) = (coordinate(rng, 4), coordinate(rng, 9), coordinate(rng, 4), coordinate(rng, 9));
			let (s, e) = if (a, b) <= (c, d) { ((a, b), (c, d)) } else { ((c, d), (a, b)) };
			sim.notify(
				"textDocument/didChange",
				json!({ "textDocument": { "uri": u, "version": 2 }, "contentChanges": [{ "range": { "start": { "line": s.0, "character": s.1 }, "end": { "line": e.0, "character": e.1 } }, "text": "x" }] }),
			);
			"didChange with a range"
		}
		10 => {
			sim.notify("textDocument/didChange", json!({ "textDocument": { "uri": u, "version": 2 }, "contentChanges": [] }));
			"didChange of nothing"
		}
		11 => {
			sim.did_close(u);
			"didClose"
		}
		12 if rng.chance(1, 4) => {
			let t = large_text(rng);
			sim.did_open(u, &t);
			"didOpen of a large document"
		}
		12 => {
			let t = rng.word(&["", "alpha beta\n", "#include \"f1.p4\"\n#include \"gone.p4\"\n", "#include \"http://[\"\n#if (1\nx\n", "\u{feff}é ∑ 😀\n", "#include <core.p4>\n#define X X\nX\n"]);
			sim.did_open(u, t);
			"didOpen"
		}
		13 => {
			sim.notify("initialized", json!({}));
			"initialized again"
		}
		14 => {
			let v = rng.word(&["off", "messages", "verbose", "nonsense"]);
			sim.notify("$/setTrace", json!({ "value": v }));
			"setTrace"
		}
		_ => {
			// a response that nobody waits for
			let id = match rng.below(3) {
				0 => json!(10_000 + rng.below(100)),
				1 => json!("nobody"),
				_ => sim.answers.last().map(|(r, _, _)| r.id.clone()).unwrap_or(json!(-5)),
			};
			if rng.chance(1, 2) {
				sim.respond(&id, Ok(json!("stray")));
			} else {
				sim.respond(&id, Err((1, "stray")));
			}
			"stray response"
		}
	}
}

// ---------------------------------------------------------------------- C21

enum Expect {
	Hover(u64, u64),
	Completion,
	Unknown,
	Invalid,
}

fn c21(rng: &mut Rng, case: u64, obs: &mut Obs) -> CaseResult { on_thread(|| c21_in(rng, case, obs)) }

fn c21_in(rng: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	let m = mode(rng);
	let disk = small_disk(rng);
	let mut sim = Sim::new(m, disk);
	let f = folders(rng);
	let progress = *rng.pick(&[None, Some(false), Some(true)]);
	if rng.chance(1, 6) {
		sim.reject.insert("window/workDoneProgress/create".into(), 1);
	}
	sim.open_session(rng, f.as_deref(), progress)?;
	let mut expected: Vec<(usize, Expect)> = vec![];
	let mut shape = String::new();
	for _ in 0..rng.range(3, 25) {
		match rng.below(12) {
			0 | 1 => {
				let (l, c) = (coordinate(rng, 100_000), coordinate(rng, 5000));
				let u = rng.word(DOCS);
				let i = sim.request("textDocument/hover", Sim::hover_params(u, l, c));
				expected.push((i, Expect::Hover(l, c)));
				shape.push('h');
			}
			2 | 3 => {
				let u = rng.word(DOCS);
				let i = sim.request("textDocument/completion", Sim::hover_params(u, coordinate(rng, 5), coordinate(rng, 9)));
				expected.push((i, Expect::Completion));
				shape.push('c');
			}
			4 => {
				let name = rng.word(&["textDocument/definition", "workspace/symbol", "initialize", "", "shutdown/", "textDocument/Hover", "p4analyzer/fileContents", "exit"]);
				let p = if rng.chance(1, 3) { Value::Null } else { malformed(rng) };
				let i = sim.request(name, p);
				expected.push((i, Expect::Unknown));
				shape.push('u');
			}
			5 => {
				let name = rng.word(&["textDocument/hover", "textDocument/completion", "shutdown"]);
				let mut p = malformed(rng);
				if name == "shutdown" {
					p = json!({ "unexpected": 1 });
				} else if rng.chance(1, 6) {
					p = Value::Null;
				}
				let i = sim.request(name, p);
				expected.push((i, Expect::Invalid));
				shape.push('m');
			}
			6 | 7 | 8 => {
				let what = odd_notification(rng, &mut sim);
				obs.count(what, 1);
				shape.push_str(what);
			}
			9 => {
				for _ in 0..rng.below(4) {
					sim.answer_one(rng);
				}
				shape.push('a');
			}
			10 => {
				sim.step()?;
			}
			_ => sim.run()?,
		}
	}
	sim.settle_answered(rng)?;
	for (i, e) in &expected {
		let r = match sim.response(*i) {
			Some(r) => r.clone(),
			None => return Err(sim.fail("unanswered", format!("request {} was never answered", sim.asked[*i].id))),
		};
		obs.eval();
		let code = r["error"]["code"].as_i64();
		match e {
			Expect::Hover(l, c) => {
				let t = r["result"]["contents"]["value"].as_str().unwrap_or("");
				let nums: Vec<u64> = t.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
				if nums != [*l, *c] {
					return Err(sim.fail("wrong-answer", format!("hover at {l}:{c} was answered {r}")));
				}
				obs.count("hover answers", 1);
			}
			Expect::Completion => {
				let _ = labels(&sim, &r)?;
				obs.count("completion answers", 1);
			}
			Expect::Unknown => {
				ensure!(code.is_some(), "unknown-accepted", "an unknown request was answered {r}\n{}", sim.witness());
				obs.count("unknown requests refused", 1);
			}
			Expect::Invalid => {
				if code != Some(-32602) {
					return Err(sim.fail("malformed-accepted", format!("a request with malformed parameters was answered {r}, not with InvalidParams (-32602)")));
				}
				obs.count("malformed requests refused", 1);
			}
		}
	}
	sim.check_alive(rng)?;
	obs.count("server messages", sim.received.len() as u64);
	obs.count("polls", sim.polls);
	obs.distinct_of("interleavings", sim.log.join("\n").as_bytes());
	if !expected.is_empty() {
		obs.nontrivial(shape.as_bytes());
	}
	obs.sample(|| format!("{m:?} {f:?}: {} requests, {} server messages; events: {}", expected.len(), sim.received.len(), sim.log.iter().take(6).cloned().collect::<Vec<_>>().join(" | ")));
	Ok(())
}

// ---------------------------------------------------------------------- C22

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
	Uninitialized,
	Initializing,
	Active,
	ShuttingDown,
}

fn c22(rng: &mut Rng, case: u64, obs: &mut Obs) -> CaseResult { on_thread(|| c22_in(rng, case, obs)) }

fn c22_in(rng: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	let m = mode(rng);
	let disk = small_disk(rng);
	let mut sim = Sim::new(m, disk);
	let mut reject = rng.below(2) as u32 * rng.below(3) as u32;
	sim.reject.insert("client/registerCapability".into(), reject);
	let mut st = St::Uninitialized;
	let mut has_folders = false;
	let mut path = String::new();
	// what each request must be answered: Ok = a result, Err(codes) = one of the codes
	let mut due: Vec<(usize, St, Result<&'static str, &'static [i64]>)> = vec![];
	let steps = rng.range(4, 30);
	let hasty = rng.chance(1, 2);
	let mut exit = false;
	for step in 0..steps {
		// biased towards progress through the lifecycle, but any message may come in any state
		let kind = match rng.below(10) {
			0..=4 => match st {
				St::Uninitialized => 0,
				St::Initializing => 3,
				St::Active => *rng.pick(&[4, 5, 5, 6]),
				St::ShuttingDown => *rng.pick(&[7, 5]),
			},
			_ => rng.below(9),
		};
		match kind {
			// requests to initialize: a good one, one without a capability, a malformed one
			0 | 1 | 2 => {
				let f = folders(rng);
				let watched = kind != 1;
				let mut p = Sim::initialize_params(f.as_deref(), watched, *rng.pick(&[None, Some(true)]));
				if kind == 2 {
					p = rng.pick(&[json!({ "capabilities": 3 }), json!([]), json!({ "workspaceFolders": "x", "capabilities": {} }), json!({})]).clone();
				}
				if kind == 1 && rng.chance(1, 2) {
					p["capabilities"]["workspace"] = json!({ "applyEdit": true });
				}
				let i = sim.request("initialize", p);
				let refused: &'static [i64] = match st {
					St::Uninitialized => &[],
					St::Initializing => &[-32002],
					St::Active => &[-32603, -32601, -32600],
					St::ShuttingDown => &[-32600],
				};
				if st != St::Uninitialized {
					due.push((i, st, Err(refused)));
				} else if kind == 2 {
					due.push((i, st, Err(&[-32602])));
				} else if kind == 1 && f.is_some() {
					due.push((i, st, Err(&[-32603, -32600, -32803])));
				} else {
					due.push((i, st, Ok(if f.is_some() { "initialize with folders" } else { "initialize" })));
					has_folders = f.is_some();
					st = St::Initializing;
				}
			}
			3 => {
				sim.notify("initialized", json!({}));
				if st == St::Initializing {
					if has_folders && reject > 0 {
						reject -= 1;
						obs.count("registrations rejected", 1);
					} else {
						st = St::Active;
					}
				}
			}
			4 => {
				let i = sim.request("shutdown", Value::Null);
				match st {
					St::Uninitialized | St::Initializing => due.push((i, st, Err(&[-32002]))),
					St::Active => {
						due.push((i, st, Ok("shutdown")));
						st = St::ShuttingDown;
					}
					St::ShuttingDown => due.push((i, st, Err(&[-32600]))),
				}
			}
			5 => {
				let i = sim.request("textDocument/hover", Sim::hover_params("file:///w/f0.p4", step as u64, 7));
				match st {
					St::Uninitialized | St::Initializing => due.push((i, st, Err(&[-32002]))),
					St::Active => due.push((i, st, Ok("hover"))),
					St::ShuttingDown => due.push((i, st, Err(&[-32600]))),
				}
			}
			6 => {
				let i = sim.request(rng.word(&["no/such", "textDocument/rename"]), json!({}));
				match st {
					St::Uninitialized | St::Initializing => due.push((i, st, Err(&[-32002]))),
					St::Active => due.push((i, st, Err(&[-32603, -32601]))),
					St::ShuttingDown => due.push((i, st, Err(&[-32600]))),
				}
			}
			7 if step > 3 && rng.chance(1, 2) => {
				exit = true;
				path.push_str("exit");
				break;
			}
			_ => match rng.below(4) {
				0 => sim.notify("$/cancelRequest", json!({ "id": 1 })),
				1 => sim.did_open("file:///w/f0.p4", "a b\n"),
				2 => sim.notify("workspace/didChangeWorkspaceFolders", json!({ "event": { "added": [], "removed": [] } })),
				_ => sim.notify("textDocument/didSave", json!({ "textDocument": { "uri": "file:///w/f9.p4" }, "text": "c\n" })),
			},
		}
		path.push_str(&format!("{kind}{st:?},"));
		if !hasty || rng.chance(1, 4) {
			sim.settle_answered(rng)?;
		} else if rng.chance(1, 2) {
			sim.step()?;
		}
	}
	let last = st;
	let mut late = None;
	if exit {
		sim.notify("exit", Value::Null);
		if rng.chance(1, 2) {
			// whatever follows is neither answered nor harmful
			late = Some(sim.request("textDocument/hover", Sim::hover_params("file:///w/f0.p4", 1, 1)));
		}
	}
	sim.settle(rng)?;
	for (i, s, want) in &due {
		obs.eval();
		let r = match sim.response(*i) {
			Some(r) => r.clone(),
			None => return Err(sim.fail("unanswered", format!("request {} '{}' (sent in state {s:?}) was never answered", sim.asked[*i].id, sim.asked[*i].method))),
		};
		let code = r["error"]["code"].as_i64();
		match want {
			Ok(what) => {
				if code.is_some() {
					return Err(sim.fail("refused", format!("'{what}' in state {s:?} was answered {r}")));
				}
				if what.starts_with("initialize") {
					let c = &r["result"]["capabilities"];
					let sync = &c["textDocumentSync"];
					ensure!(
						sync["openClose"] == json!(true) && (sync["change"] == json!(1) || sync["change"] == json!(2)) && c["hoverProvider"] != Value::Null && c["completionProvider"] != Value::Null,
						"capabilities",
						"initialize announced {c}\n{}",
						sim.witness()
					);
					let ws = c["workspace"]["workspaceFolders"]["supported"] == json!(true);
					ensure!(ws == what.ends_with("folders"), "capabilities", "'{what}': workspace folders announced: {ws}\n{}", sim.witness());
				}
			}
			Err(codes) => {
				if !code.map_or(false, |c| codes.contains(&c)) {
					return Err(sim.fail("wrong-state-answer", format!("request {} '{}' in state {s:?} was answered {r}; expected an error with code in {codes:?}", sim.asked[*i].id, sim.asked[*i].method)));
				}
			}
		}
		obs.count(&format!("{} in {s:?}: {}", sim.asked[*i].method, if want.is_ok() { "accepted" } else { "refused" }), 1);
	}
	if exit {
		if let Some(i) = late {
			ensure!(sim.response(i).is_none(), "answered-after-exit", "a request after 'exit' was answered\n{}", sim.witness());
		}
		if sim.done != Some(true) {
			return Err(sim.fail("no-exit", format!("'exit' in state {last:?}: the host {}", if sim.done.is_none() { "keeps running" } else { "reports cancellation" })));
		}
		obs.count(&format!("exit in {last:?}"), 1);
	} else {
		if sim.done.is_some() {
			return Err(sim.fail("ended", "the host ended although nobody asked it to".into()));
		}
		// the state it ended up in is the model's
		let i = sim.request("textDocument/hover", Sim::hover_params("file:///w/f0.p4", 3, 4));
		sim.settle_answered(rng)?;
		let code = sim.response(i).unwrap()["error"]["code"].as_i64();
		let want = match st {
			St::Uninitialized | St::Initializing => Some(-32002),
			St::Active => None,
			St::ShuttingDown => Some(-32600),
		};
		ensure!(code == want, "wrong-state", "a hover request in state {st:?} got code {code:?}\n{}", sim.witness());
		// and no watcher was registered outside of a session with folders
	}
	let registrations = sim.received.iter().filter(|v| v["method"] == "client/registerCapability").count();
	ensure!(has_folders || registrations == 0, "registration", "watchers registered without workspace folders\n{}", sim.witness());
	obs.count("server messages", sim.received.len() as u64);
	obs.nontrivial(path.as_bytes());
	obs.distinct_of("interleavings", sim.log.join("\n").as_bytes());
	obs.sample(|| format!("{m:?}: {path}"));
	Ok(())
}

// ---------------------------------------------------------------------- C23

fn c23(rng: &mut Rng, case: u64, obs: &mut Obs) -> CaseResult { on_thread(|| c23_in(rng, case, obs)) }

fn c23_in(rng: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	let mut disk = Disk::new();
	let n = match rng.below(240) {
		0 => rng.range(100, 700),
		1..=30 => rng.range(2, 60),
		_ => rng.range(2, 9),
	};
	let mut files = vec![];
	for i in 0..n {
		let u = format!("file:///{}/f{i}.p4", rng.word(&["w", "v", "w/sub"]));
		let words: Vec<String> = (0..rng.range(1, 4)).map(|k| format!("id_{i}_{k}")).collect();
		disk.insert(u.clone(), words.join(" ") + "\n");
		files.push((u, words));
	}
	let mut sim = Sim::new(FsMode::Client, disk);
	for (u, _) in &files {
		if rng.chance(1, 4) {
			let v = match rng.below(5) {
				0 => json!({ "error": { "code": -32000, "message": "cannot read" } }),
				1 => json!({ "result": 42 }),
				2 => json!({ "result": null }),
				3 => json!({ "result": ["x"] }),
				_ => json!({ "error": { "code": -32803, "message": "" } }),
			};
			sim.broken.insert(u.clone(), v);
		}
	}
	let f: Vec<String> = vec!["file:///w".into(), "file:///v".into()];
	let progress = *rng.pick(&[Some(true), Some(true), Some(false), None]);
	// the session opens without waiting for it to settle
	let init = sim.request("initialize", Sim::initialize_params(Some(&f), true, progress));
	sim.notify("initialized", json!({}));
	if rng.chance(1, 5) {
		sim.reject.insert("window/workDoneProgress/create".into(), 1);
	}
	let mut strays = 0;
	let mut asked = vec![];
	let mut max_pending = 0;
	for _ in 0..rng.range(5, 120) {
		match rng.below(8) {
			0 => {
				let id = match rng.below(4) {
					0 => json!(5000 + rng.below(50)),
					1 => json!("0"),
					_ => match sim.answers.len() {
						0 => json!(-1),
						n => sim.answers[rng.below(n)].0.id.clone(),
					},
				};
				// only ids that are not being waited for
				if !sim.server_requests.iter().any(|r| r.id == id) {
					let r = if rng.chance(1, 2) { Ok(json!("stray_word")) } else { Err((-1, "stray")) };
					// an id that the server may use later must not be answered early
					if sim.server_ids.contains(&id.to_string()) || id.as_i64().map_or(true, |i| i < 0 || i >= 5000) {
						sim.respond(&id, r);
						strays += 1;
					}
				}
			}
			1 => {
				let (u, _) = rng.pick(&files).clone();
				asked.push(sim.request("textDocument/completion", Sim::completion_params(&u)));
			}
			2 => {
				sim.step()?;
			}
			3 | 4 => sim.run()?,
			_ => {
				sim.answer_one(rng);
			}
		}
		max_pending = max_pending.max(sim.server_requests.len());
	}
	sim.settle_answered(rng)?;
	ensure!(sim.response(init).map_or(false, |r| r.get("result").is_some()), "initialize-refused", "{}", sim.witness());
	for (u, words) in &files {
		let r = sim.call(rng, "textDocument/completion", Sim::completion_params(u))?;
		obs.eval();
		let got = labels(&sim, &r)?;
		if sim.broken.contains_key(u) {
			if got.as_ref().map_or(false, |g| !g.is_empty()) {
				return Err(sim.fail("misrouted", format!("{u} was never delivered, and its completions are {got:?}")));
			}
			obs.count("files not delivered", 1);
		} else {
			let mut g = match got {
				Some(g) => g,
				None => return Err(sim.fail("lost-answer", format!("{u} was delivered, and completions fail: {r}"))),
			};
			g.sort();
			let mut w = words.clone();
			w.sort();
			if g != w {
				return Err(sim.fail("misrouted", format!("{u} contains {w:?}, and its completions are {g:?}")));
			}
			obs.count("files delivered", 1);
		}
	}
	sim.check_alive(rng)?;
	obs.count("server requests", sim.server_ids.len() as u64);
	obs.count("stray responses", strays);
	obs.distinct_of("most requests in flight", &[max_pending.min(255) as u8]);
	obs.distinct_of("interleavings", sim.log.join("\n").as_bytes());
	let order: Vec<String> = sim.answers.iter().map(|(r, _, ok)| format!("{}{}", r.id, ok)).collect();
	obs.nontrivial(order.join(",").as_bytes());
	obs.sample(|| format!("{n} files, {} server requests answered in the order {}", sim.server_ids.len(), order.join(",")));
	Ok(())
}

// ---------------------------------------------------------------------- C27

fn c27(rng: &mut Rng, case: u64, obs: &mut Obs) -> CaseResult { on_thread(|| c27_in(rng, case, obs)) }

fn c27_in(rng: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	let m = mode(rng);
	let mut disk = small_disk(rng);
	disk.insert("file:///w/inc.p4".into(), "#include \"f0.p4\"\n#include \"inc2.p4\"\nin_inc\n".into());
	disk.insert("file:///w/inc2.p4".into(), "in_inc2\n".into());
	let mut sim = Sim::new(m, disk);
	let f = folders(rng);
	let progress = *rng.pick(&[None, Some(true)]);
	let stage = rng.below(5);
	let mut path = format!("{m:?} stage {stage} ");
	if stage > 0 {
		sim.request("initialize", Sim::initialize_params(f.as_deref(), true, progress));
	}
	if stage > 1 {
		sim.notify("initialized", json!({}));
	}
	if stage > 2 && rng.chance(2, 3) {
		sim.settle_answered(rng)?;
	}
	for _ in 0..rng.below(15) {
		match rng.below(9) {
			0 => {
				sim.request("textDocument/hover", Sim::hover_params("file:///w/f0.p4", 1, 2));
			}
			1 | 2 => {
				let u = rng.word(&["file:///w/f0.p4", "file:///w/inc.p4", "file:///w/missing.p4", "file:///v/f3.p4"]);
				sim.request("textDocument/completion", Sim::completion_params(u));
			}
			3 => {
				let u = rng.word(DOCS);
				let t = rng.word(&["x\n", "#include \"inc.p4\"\n#include \"missing.p4\"\ny\n"]);
				sim.did_open(u, t);
			}
			4 => {
				let t = 1 + rng.below(3) as u64;
				sim.watched(&[(rng.word(DOCS), t)]);
			}
			5 => {
				sim.answer_one(rng);
			}
			6 => {
				sim.step()?;
			}
			7 => sim.run()?,
			_ => sim.did_close(rng.word(DOCS)),
		}
	}
	if stage == 4 && rng.chance(1, 2) {
		sim.request("shutdown", Value::Null);
		path.push_str("shutdown ");
	}
	if rng.chance(1, 3) {
		sim.run()?;
	}
	let way = rng.below(4);
	path.push_str(&format!("way {way} pending {} unanswered {}", sim.pending().min(6), sim.unanswered().len().min(6)));
	let before: Vec<usize> = (0..sim.asked.len()).collect();
	match way {
		// told to exit
		0 => {
			sim.notify("exit", Value::Null);
			for _ in 0..rng.below(3) {
				sim.notify("$/cancelRequest", json!({ "id": 1 }));
			}
			let mut n = 0;
			loop {
				sim.run()?;
				if sim.done.is_some() {
					break;
				}
				if !sim.answer_one(rng) {
					return Err(sim.fail("no-exit", "the server was told to exit, waits for nothing, and does not end".into()));
				}
				n += 1;
				ensure!(n < 20_000, "no-exit", "the server keeps asking\n{}", sim.witness());
			}
			if sim.done != Some(true) {
				return Err(sim.fail("exit-is-cancellation", "the server was told to exit, and reports that it was cancelled".into()));
			}
			for i in before {
				obs.eval();
				if sim.response(i).is_none() {
					return Err(sim.fail("unanswered", format!("request {} came before 'exit' and was not answered", sim.asked[i].id)));
				}
			}
			obs.count("exits", 1);
		}
		// the client goes away: nobody answers what the server asked it
		1 => {
			sim.to.close();
			sim.note("client closes its end".into());
			let mut n = 0;
			loop {
				sim.run()?;
				if sim.done.is_some() {
					break;
				}
				// files on disk can still be read
				if m == FsMode::Client || !sim.answer_one(rng) {
					return Err(sim.fail("no-end", "the client is gone, and the server does not end".into()));
				}
				n += 1;
				ensure!(n < 20_000, "no-end", "the server keeps reading files\n{}", sim.witness());
			}
			for i in before {
				obs.eval();
				if sim.response(i).is_none() {
					return Err(sim.fail("unanswered", format!("request {} came before the client closed its end and was not answered", sim.asked[i].id)));
				}
			}
			obs.count("clients that went away", 1);
		}
		// the client goes away, and then it is cancelled, with whatever work is left at that moment
		2 => {
			sim.to.close();
			sim.note("client closes its end".into());
			for _ in 0..rng.below(6) {
				match rng.below(3) {
					0 => sim.run()?,
					1 => {
						sim.answer_one(rng);
					}
					_ => {
						sim.step()?;
					}
				}
				if sim.done.is_some() {
					break;
				}
			}
			if sim.done.is_none() {
				obs.count("cancellations after the client went away", 1);
			}
			sim.source.cancel();
			if rng.chance(1, 3) {
				sim.from.close();
			}
			sim.note("cancelled".into());
			let mut n = 0;
			loop {
				sim.run()?;
				if sim.done.is_some() {
					break;
				}
				// a file that is being read will have been read some time
				if m == FsMode::Client || !sim.answer_one(rng) {
					return Err(sim.fail("no-end", "the client is gone, it was cancelled, and the server does not end".into()));
				}
				n += 1;
				ensure!(n < 20_000, "no-end", "the server keeps reading files\n{}", sim.witness());
			}
			obs.eval();
		}
		// cancelled, as the driver and the browser host do it
		_ => {
			sim.source.cancel();
			let first = rng.chance(1, 2);
			if first {
				sim.to.close();
			}
			if rng.chance(1, 4) {
				sim.step()?;
			}
			sim.from.close();
			sim.to.close();
			sim.note("cancelled".into());
			sim.forget_waiting();
			sim.run()?;
			if sim.done.is_none() {
				return Err(sim.fail("no-end", "cancelled, and the server does not end".into()));
			}
			if sim.done == Some(true) {
				return Err(sim.fail("cancellation-unreported", "cancelled, and the server reports success".into()));
			}
			obs.eval();
			obs.count("cancellations", 1);
		}
	}
	ensure!(sim.to.is_closed() && sim.from.is_closed(), "channels-open", "the server ended and left its channels open\n{}", sim.witness());
	obs.distinct_of("interleavings", sim.log.join("\n").as_bytes());
	obs.nontrivial(path.as_bytes());
	obs.sample(|| path.clone());
	Ok(())
}

// ---------------------------------------------------------------------- C28

fn tracing_on(ch: analyzer_host::MessageChannel) -> (analyzer_abstractions::tracing::Dispatch, analyzer_host::tracing::TraceValueAccessor) {
	use analyzer_host::tracing::{
		tracing_subscriber::{layer::SubscriberExt, Registry},
		LspTracingLayer,
	};
	let layer = LspTracingLayer::new(ch);
	let a = layer.trace_value();
	(analyzer_abstractions::tracing::Dispatch::new(Registry::default().with(layer)), a)
}

fn c28(rng: &mut Rng, case: u64, obs: &mut Obs) -> CaseResult { on_thread(|| c28_in(rng, case, obs)) }

fn c28_in(rng: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	let m = mode(rng);
	let disk = small_disk(rng);
	let mut sim = Sim::with(m, disk, Some(tracing_on));
	let f = folders(rng);
	let mut value = "off";
	let mut path = String::new();
	let mut mark = 0;
	// judges what was received since `mark`, all of it with the same trace value in force
	let judge = |sim: &Sim, mark: usize, value: &str, eventful: bool, obs: &mut Obs| -> CaseResult {
		let logs: Vec<&Value> = sim.received[mark..].iter().filter(|v| v["method"] == "$/logTrace").collect();
		obs.eval();
		match value {
			"off" => {
				if let Some(l) = logs.first() {
					return Err(sim.fail("trace-when-off", format!("tracing is off, and the server sent {l}")));
				}
			}
			_ => {
				for l in &logs {
					let p = &l["params"];
					ensure!(p["message"].is_string(), "bad-trace", "trace without a message: {l}\n{}", sim.witness());
					let verbose = p.get("verbose").map_or(false, |v| !v.is_null());
					if verbose != (value == "verbose") {
						return Err(sim.fail("trace-detail", format!("the trace value is '{value}', and the server sent {l}")));
					}
				}
				if eventful && logs.is_empty() {
					return Err(sim.fail("no-trace", format!("the trace value is '{value}', and nothing was traced")));
				}
			}
		}
		obs.count(&format!("traces while {value}"), logs.len() as u64);
		Ok(())
	};
	if rng.chance(1, 2) {
		sim.request("textDocument/hover", Sim::hover_params("file:///w/f0.p4", 0, 0));
		sim.settle_answered(rng)?;
		judge(&sim, mark, value, true, obs)?;
		mark = sim.received.len();
	}
	let mut p = Sim::initialize_params(f.as_deref(), true, *rng.pick(&[None, Some(true)]));
	if rng.chance(2, 3) {
		value = rng.word(&["off", "messages", "verbose"]);
		p["trace"] = json!(value);
	}
	path.push_str(value);
	sim.request("initialize", p);
	sim.settle_answered(rng)?;
	if value == "off" {
		judge(&sim, mark, value, false, obs)?;
	}
	mark = sim.received.len();
	sim.notify("initialized", json!({}));
	sim.settle_answered(rng)?;
	judge(&sim, mark, value, false, obs)?;
	for _ in 0..rng.range(1, 8) {
		mark = sim.received.len();
		let mut eventful = false;
		for _ in 0..rng.range(1, 4) {
			match rng.below(5) {
				0 => {
					sim.request("no/such", Value::Null);
					eventful = true;
				}
				1 => {
					sim.did_open("file:///w/f0.p4", "a b c\n");
					sim.request("textDocument/completion", Sim::completion_params("file:///w/f0.p4"));
				}
				2 => sim.watched(&[("file:///w/f1.p4", 1 + rng.below(3) as u64)]),
				3 => {
					sim.request("textDocument/hover", Sim::hover_params("file:///w/f0.p4", 0, 0));
				}
				_ => sim.notify("no/such", Value::Null),
			}
			path.push('.');
		}
		sim.settle_answered(rng)?;
		judge(&sim, mark, value, eventful, obs)?;
		if rng.chance(2, 3) {
			let new = rng.word(&["off", "messages", "verbose"]);
			sim.notify("$/setTrace", json!({ "value": new }));
			sim.settle_answered(rng)?;
			value = new;
			path.push_str(value);
		}
		if rng.chance(1, 6) {
			sim.notify("$/setTrace", json!({ "value": "loud" })); // not a trace value: nothing changes
			sim.settle_answered(rng)?;
			path.push('!');
		}
	}
	obs.nontrivial(path.as_bytes());
	obs.distinct_of("interleavings", sim.log.join("\n").as_bytes());
	obs.sample(|| format!("{m:?} {path}"));
	Ok(())
}

// ---------------------------------------------------------------------- C29

fn c29(rng: &mut Rng, case: u64, obs: &mut Obs) -> CaseResult { on_thread(|| c29_in(rng, case, obs)) }

fn c29_in(rng: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	let m = mode(rng);
	let mut disk = Disk::new();
	for i in 0..rng.range(0, 8) {
		disk.insert(format!("file:///{}/f{i}.p4", rng.word(&["a", "b", "c", "a/deep"])), format!("word{i}\n"));
	}
	let mut sim = Sim::new(m, disk.clone());
	let all = ["file:///a", "file:///b", "file:///c"];
	let f: Option<Vec<String>> = if rng.chance(1, 6) { None } else { Some(all[..rng.range(0, 3)].iter().map(|s| s.to_string()).collect()) };
	let support = *rng.pick(&[None, Some(false), Some(true), Some(true)]);
	let rejected = rng.chance(1, 3);
	if rejected {
		sim.reject.insert("window/workDoneProgress/create".into(), 1);
	}
	let r = sim.call(rng, "initialize", Sim::initialize_params(f.as_deref(), true, support))?;
	ensure!(r.get("result").is_some(), "initialize-refused", "{r}\n{}", sim.witness());
	sim.notify("initialized", json!({}));
	let ask = rng.chance(1, 2).then(|| sim.request("textDocument/hover", Sim::hover_params("file:///a/f0.p4", 4, 5)));
	sim.settle_answered(rng)?;
	let _ = ask;
	obs.eval();
	let creates: Vec<usize> = (0..sim.received.len()).filter(|&i| sim.received[i]["method"] == "window/workDoneProgress/create").collect();
	let progress: Vec<(usize, Value)> =
		sim.received.iter().enumerate().filter(|(_, v)| v["method"] == "$/progress").map(|(i, v)| (i, v["params"].clone())).collect();
	let supported = support == Some(true);
	if !supported && !(creates.is_empty() && progress.is_empty()) {
		return Err(sim.fail("unsupported-progress", "the client does not support progress, and the server reports it".into()));
	}
	if f.is_none() && !(creates.is_empty() && progress.is_empty()) {
		return Err(sim.fail("progress-of-nothing", "nothing is indexed, and the server reports progress".into()));
	}
	if supported && f.is_some() {
		ensure!(!creates.is_empty(), "no-progress", "indexing is not reported\n{}", sim.witness());
	}
	// every progress report belongs to a token that the client accepted, between its begin and its end
	let mut open: std::collections::BTreeMap<String, u8> = Default::default();
	for (at, p) in &progress {
		let token = p["token"].to_string();
		let accepted = sim.answers.iter().any(|(r, seen, ok)| r.method == "window/workDoneProgress/create" && r.params["token"] == p["token"] && *ok && seen <= at);
		if !accepted {
			return Err(sim.fail("token-not-created", format!("progress {p} for a token that the client has not accepted")));
		}
		let s = open.entry(token.clone()).or_insert(0);
		let kind = p["value"]["kind"].as_str().unwrap_or("");
		let ok = match (kind, *s) {
			("begin", 0) => {
				*s = 1;
				true
			}
			("report", 1) => true,
			("end", 1) => {
				*s = 2;
				true
			}
			_ => false,
		};
		if !ok {
			return Err(sim.fail("progress-order", format!("progress '{kind}' of {token} out of order")));
		}
		obs.count(&format!("progress {kind}"), 1);
	}
	if open.values().any(|s| *s != 2) {
		return Err(sim.fail("progress-unfinished", "progress was begun and not ended".into()));
	}
	if supported && f.is_some() && !rejected {
		ensure!(!open.is_empty(), "no-progress", "the client accepted a progress token and no progress was reported\n{}", sim.witness());
		let reports: Vec<String> = progress.iter().filter(|(_, p)| p["value"]["kind"] == "report").map(|(_, p)| p["value"]["message"].as_str().unwrap_or("").to_string()).collect();
		for w in f.as_ref().unwrap() {
			ensure!(reports.iter().any(|r| r.contains(w.as_str())), "folder-unreported", "no report about {w}: {reports:?}\n{}", sim.witness());
		}
		// the end comes after everything was enumerated
		if m == FsMode::Client {
			let end = progress.iter().filter(|(_, p)| p["value"]["kind"] == "end").map(|(i, _)| *i).max().unwrap();
			for (r, seen, _) in &sim.answers {
				if r.method == "p4analyzer/enumerateFolder" {
					ensure!(*seen <= end, "ended-early", "indexing was reported to have ended before folder {} was enumerated\n{}", r.params, sim.witness());
				}
			}
		}
	}
	if rejected && supported && f.is_some() {
		obs.count("progress rejected by the client", 1);
	}
	// whatever happens to the progress, the folders are indexed
	let started: Vec<String> = sim.log.iter().filter(|l| l.starts_with("disk: contents")).cloned().collect();
	for u in disk.keys() {
		if f.as_ref().map_or(false, |f| f.iter().any(|w| u.starts_with(&format!("{w}/")))) {
			let loaded = started.iter().any(|l| l.contains(u.as_str())) || sim.answers.iter().any(|(r, _, _)| r.method == "p4analyzer/fileContents" && r.params["uri"] == json!(u));
			if !loaded {
				return Err(sim.fail("not-indexed", format!("{u} lies in a workspace folder and was never read")));
			}
			obs.count("files indexed", 1);
		}
	}
	sim.check_alive(rng)?;
	let _ = uri;
	obs.nontrivial(format!("{m:?}{f:?}{support:?}{rejected}{:?}", disk.keys().collect::<Vec<_>>()).as_bytes());
	obs.distinct_of("interleavings", sim.log.join("\n").as_bytes());
	obs.sample(|| format!("{m:?} folders {f:?} progress {support:?} rejected {rejected}: {} progress messages", progress.len()));
	Ok(())
}

pub fn checks() -> Vec<Check> {
	let _ = violation!("", "");
	const ASSUME: &[&str] = &[
		"the crates that analyzer-host uses (async-channel, serde, tracing…) are as pinned; salsa is a stand-in",
		"the client sends well-formed JSON-RPC messages and never reuses the id of an unanswered request",
	];
	vec![
		Check {
			id: "C21",
			rule: "random sessions of 3–25 client actions (requests of every kind, malformed and unknown ones, odd notifications, stray responses) interleaved with polls and answers; every request must have exactly one answer of its kind when the server is quiet; non-trivial: at least one request; distinct by the sequence of actions",
			quick: 50_000,
			thorough: 400_000,
			min_distinct: 1000,
			must_observe: &["hover answers", "completion answers", "unknown requests refused", "malformed requests refused", "stray response"],
			run: c21,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C22",
			rule: "random walks of 4–30 lifecycle messages against a model of the lifecycle, pipelined or one at a time; distinct by the walk",
			quick: 60_000,
			thorough: 1_500_000,
			min_distinct: 1000,
			must_observe: &["exit in Uninitialized", "exit in Initializing", "exit in Active", "exit in ShuttingDown", "registrations rejected"],
			run: c22,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C23",
			rule: "sessions without a file system: 2–60 files requested from the client, which answers in random order, with errors, useless results, stray and repeated responses; each file's completions tell which answer reached it; distinct by the order of answers",
			quick: 25_000,
			thorough: 200_000,
			min_distinct: 1000,
			must_observe: &["files delivered", "files not delivered", "stray responses"],
			run: c23,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C27",
			rule: "sessions ended at a random moment by 'exit', by the client closing its end or by cancellation, with requests, file operations and server requests outstanding; distinct by stage, way and what was outstanding",
			quick: 60_000,
			thorough: 1_500_000,
			min_distinct: 200,
			must_observe: &["exits", "clients that went away", "cancellations"],
			run: c27,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C28",
			rule: "sessions that change the trace value (initialize, $/setTrace) and cause events; each window between settled changes is judged by the value in force; distinct by the sequence of values and actions",
			quick: 30_000,
			thorough: 300_000,
			min_distinct: 500,
			must_observe: &["traces while messages", "traces while verbose"],
			run: c28,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C29",
			rule: "sessions with 0–3 workspace folders and a client that supports, does not support or rejects progress; distinct by folders, files and support",
			quick: 40_000,
			thorough: 300_000,
			min_distinct: 300,
			must_observe: &["progress begin", "progress report", "progress end", "progress rejected by the client", "files indexed"],
			run: c29,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
	]
}
