//! C41: the command line, and the log that it asks for.
use crate::proc::{command, cut, unprivileged, write_file, Expect, Scratch, Session};
use serde_json::{json, Value};
use std::{
	collections::{BTreeMap, BTreeSet},
	fs,
	path::{Path, PathBuf},
	process::Stdio,
	sync::OnceLock,
	time::Duration,
};
use vcommon::{CaseResult, Check, Obs, Rng, Violation};

const LEVELS: [&str; 5] = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"];

struct Record {
	level: usize,
	text: String,
}

fn plain(s: &str) -> String {
	let mut out = String::new();
	let mut it = s.chars();
	while let Some(c) = it.next() {
		if c == '\u{1b}' {
			for d in it.by_ref() {
				if d.is_ascii_alphabetic() {
					break;
				}
			}
		} else {
			out.push(c);
		}
	}
	out
}

/// The level that a line begins a record with.
fn begins(l: &str) -> Option<usize> {
	let b = l.as_bytes();
	if b.len() < 20 || !b[..4].iter().all(u8::is_ascii_digit) || b[4] != b'-' || b[10] != b'T' {
		return None;
	}
	let level = l.split_whitespace().nth(1)?;
	LEVELS.iter().position(|x| *x == level)
}

fn records(text: &str) -> Option<Vec<Record>> {
	let mut out: Vec<Record> = vec![];
	for l in plain(text).split_inclusive('\n') {
		match begins(l) {
			Some(level) => out.push(Record { level, text: l.into() }),
			None => out.last_mut()?.text.push_str(l),
		}
	}
	Some(out)
}

/// What messages of one kind have in common.
fn kind(message: &str) -> Option<String> {
	let end = message.find(|c: char| !(c.is_alphabetic() || c == ' ')).unwrap_or(message.len());
	let k = &message[..end];
	(k.len() >= 12 && message.starts_with(k)).then(|| k.to_string())
}

fn files(d: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
	let mut out = BTreeMap::new();
	for e in fs::read_dir(d).into_iter().flatten().flatten() {
		if e.file_type().map_or(false, |t| t.is_dir()) {
			out.extend(files(&e.path()));
			out.insert(e.path(), vec![]);
		} else {
			out.insert(e.path(), fs::read(e.path()).unwrap_or_default());
		}
	}
	out
}

fn traces(s: &Session) -> Vec<String> {
	s.peer.messages().iter().filter(|m| m["method"] == "$/logTrace").filter_map(|m| m["params"]["message"].as_str().map(String::from)).collect()
}

/// Messages that make the server log.
fn provoke(s: &mut Session, r: &mut Rng, what: usize) {
	let doc = |n: usize| json!({ "uri": format!("untitled:{n}"), "languageId": "p4", "version": 1, "text": "a" });
	match what {
		0 => drop(s.request(r, "textDocument/hover", json!({ "no": 1 }), Expect::Unknown)),
		1 => drop(s.request(r, "no/such", json!({}), Expect::Unknown)),
		2 => s.notify(r, "no/such", json!({})),
		3 => s.notify(r, "textDocument/didOpen", json!({ "wrong": 1 })),
		4 => s.notify(r, "textDocument/didOpen", json!({ "textDocument": doc(r.clone().below(5)) })),
		5 => s.notify(r, "textDocument/didSave", json!({ "textDocument": { "uri": "untitled:1" } })),
		6 => drop(s.request(r, "textDocument/completion", json!({ "textDocument": { "uri": "file:///nowhere.p4" }, "position": { "line": 0, "character": 0 } }), Expect::Any)),
		7 => s.notify(r, "workspace/didChangeWatchedFiles", json!({ "changes": [{ "uri": "file:///nowhere.p4", "type": 3 }] })),
		8 => s.notify(r, "workspace/didChangeWatchedFiles", json!({ "changes": [{ "uri": "file:///nowhere.p4", "type": 7 }] })),
		_ => s.peer.send(r, json!({ "id": 77_000, "result": null })),
	}
}

fn begin(s: &mut Session, r: &mut Rng) -> CaseResult {
	let mut p = json!({ "processId": 1, "rootUri": null, "trace": "verbose", "capabilities": { "workspace": { "didChangeWatchedFiles": { "dynamicRegistration": true } } } });
	if r.chance(1, 2) {
		p["workspaceFolders"] = json!([{ "uri": crate::proc::url_of(&s.home), "name": "ws" }]);
	}
	s.trace = true;
	let id = s.request(r, "initialize", p, Expect::Any);
	s.peer.wait_for(r, &[id])?;
	s.notify(r, "initialized", json!({}));
	Ok(())
}

/// The levels of the kinds of messages, from a session of which everything is logged.
fn levels() -> &'static Result<BTreeMap<String, usize>, String> {
	static KNOWN: OnceLock<Result<BTreeMap<String, usize>, String>> = OnceLock::new();
	KNOWN.get_or_init(|| {
		let mut known: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
		for seed in 0..3 {
			let r = &mut Rng::new(seed);
			let scratch = Scratch::new();
			let logs = scratch.0.join("logs");
			fs::create_dir(&logs).unwrap();
			unprivileged(&logs);
			let mut s = Session::new(r, &scratch, Some(vec!["--logpath".into(), logs.to_str().unwrap().into(), "--loglevel".into(), "trace".into()]));
			let mut go = || -> CaseResult {
				begin(&mut s, r)?;
				for what in 0..10 {
					provoke(&mut s, r, what);
				}
				s.wait_all(r)?;
				s.notify(r, "exit", Value::Null);
				s.peer.ends(r, true)?;
				Ok(())
			};
			go().map_err(|v| v.detail)?;
			let all = files(&logs).into_values().flat_map(|t| records(&String::from_utf8_lossy(&t)).unwrap_or_default()).collect::<Vec<_>>();
			for t in traces(&s) {
				if let Some(k) = kind(&t) {
					known.entry(k).or_default().extend(all.iter().filter(|x| x.text.contains(&t)).map(|x| x.level));
				}
			}
		}
		Ok(known.into_iter().filter(|(_, l)| l.len() == 1).map(|(k, l)| (k, l.into_iter().next().unwrap())).collect())
	})
}

fn c41(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let scratch = Scratch::new();
	let odd = r.word(&["logs", "my logs", "löge", "a/b"]);
	let logs = scratch.0.join(odd);
	let place = r.below(8);
	match place {
		0 => {}
		1 => write_file(&logs, b"no folder"),
		_ => {
			write_file(&logs.join("other.log"), b"other\n");
		}
	}
	let given = r.chance(7, 8);
	let level = *r.pick(&[None, Some("trace"), Some("trace"), Some("debug"), Some("info"), Some("warn"), Some("error"), Some("ERROR"), Some("Info"), Some("nonsense"), Some("")]);
	let mut args = vec![];
	let mut options = vec![];
	if given {
		options.push(vec!["--logpath".to_string(), logs.to_str().unwrap().to_string()]);
	}
	if let Some(l) = level {
		options.push(vec!["--loglevel".into(), l.into()]);
	}
	r.shuffle(&mut options);
	args.extend(options.into_iter().flatten());
	let due = match level.map(|l| l.to_lowercase()).as_deref() {
		Some("trace") => 4,
		Some("info") => 2,
		Some("warn") => 1,
		Some("error") => 0,
		_ => 3,
	};
	let logged = given && place >= 2;
	if r.chance(1, 8) {
		// the version, and nothing else
		args.insert(if r.chance(1, 2) { 0 } else { args.len() }, r.word(&["-v", "--version"]).into());
		let before = files(&scratch.0);
		let out = command(r, "p4analyzer", &scratch.0, (0, 1)).args(&args).stdin(Stdio::piped()).output().expect("the program starts");
		let version = fs::read_to_string(format!("{}/crates/p4-analyzer/Cargo.toml", std::env::var("P4A_REPO").unwrap_or("/repo".into())))
			.unwrap()
			.lines()
			.find_map(|l| l.strip_prefix("version = ").map(|v| v.trim_matches('"').to_string()))
			.unwrap();
		obs.eval();
		let said = String::from_utf8_lossy(&out.stdout).to_string();
		if said != version.clone() + "\n" || !out.status.success() {
			return Err(Violation { signature: "version".into(), detail: format!("p4analyzer {args:?} says {said:?} and ends with {:?}, its version is {version}", out.status) });
		}
		if files(&scratch.0) != before {
			return Err(Violation { signature: "version".into(), detail: format!("p4analyzer {args:?} leaves {:?}", files(&scratch.0).keys()) });
		}
		obs.count("versions", 1);
		return Ok(());
	}
	if r.chance(1, 10) {
		let odd = r.word(&["--no-such", "nonsense", "--loglevel", "-x"]);
		args.push(odd.into());
		let before = files(&scratch.0);
		let out = command(r, "p4analyzer", &scratch.0, (0, 1)).args(&args).stdin(Stdio::null()).output().expect("the program starts");
		obs.eval();
		let said = String::from_utf8_lossy(&out.stdout).to_string() + &String::from_utf8_lossy(&out.stderr);
		if said.trim().is_empty() || said.contains("panicked") || out.status.code().is_none() || files(&scratch.0) != before {
			return Err(Violation { signature: "refusal".into(), detail: format!("p4analyzer {args:?} says {said:?}, ends with {:?} and leaves {:?}", out.status, files(&scratch.0).keys()) });
		}
		obs.count("command lines refused", 1);
		return Ok(());
	}
	let known = levels().as_ref().map_err(|e| Violation { signature: "calibration".into(), detail: e.clone() })?;
	let mut s = Session::new(r, &scratch, Some(args));
	let before = files(&scratch.0);
	begin(&mut s, r)?;
	if r.chance(1, 2) {
		// a request that is refused leaves a trace, ahead of the answers to what follows
		for method in ["no/such", "textDocument/hover"] {
			let p = json!({ "textDocument": { "uri": "untitled:1" }, "position": { "line": 0, "character": 0 } });
			let id = s.request(r, method, p, Expect::Any);
			s.peer.wait_for(r, &[id])?;
		}
		obs.eval();
		if traces(&s).is_empty() {
			return Err(s.peer.fail("no-trace", "the client asked for verbose traces, and a request was refused without any"));
		}
		obs.count("sessions with traces", 1);
	}
	for _ in 0..r.range(0, 14) {
		if r.chance(2, 3) {
			let what = r.below(10);
			s.shape.push((b'a' + what as u8) as char);
			provoke(&mut s, r, what);
		} else {
			s.action(r, obs);
		}
	}
	if r.chance(1, 2) {
		s.wait_all(r)?;
		if r.chance(1, 3) {
			std::thread::sleep(Duration::from_millis(r.below(20) as u64));
		}
	}
	let end = r.below(3);
	match end {
		0 => s.notify(r, "exit", Value::Null),
		1 => {
			s.peer.answer(r);
			s.peer.close_stdin();
		}
		_ => {
			s.wait_all(r)?;
			s.peer.signal(libc::SIGINT);
		}
	}
	s.peer.ends(r, end == 0)?;
	let after = files(&scratch.0);
	let file = logs.join("p4analyzer.log");
	obs.eval();
	for (p, t) in &after {
		if before.get(p) != Some(t) && !(logged && *p == file) {
			return Err(s.peer.fail("stray-file", format!("{} was created or altered", p.display())));
		}
	}
	if before.keys().any(|p| !after.contains_key(p)) {
		return Err(s.peer.fail("stray-file", "a file is gone"));
	}
	if logged {
		let text = match after.get(&file).map(|t| String::from_utf8(t.clone())) {
			Some(Ok(t)) => t,
			_ => return Err(s.peer.fail("no-log", format!("{} is no text", file.display()))),
		};
		let got = match records(&text) {
			Some(g) => g,
			None => return Err(s.peer.fail("no-record", cut(&text, 300))),
		};
		for x in &got {
			obs.eval();
			if x.level > due {
				return Err(s.peer.fail("level", format!("the level is {}, and the log has: {}", LEVELS[due], cut(&x.text, 400))));
			}
			obs.count(&format!("records of level {}", LEVELS[x.level]), 1);
		}
		// everything the client was told is in the log as well
		let mut told: BTreeMap<String, usize> = BTreeMap::new();
		for t in traces(&s) {
			let l = if due == 4 { Some(0) } else { kind(&t).and_then(|k| known.get(&k)).copied() };
			if l.map_or(false, |l| l <= due) {
				*told.entry(t).or_default() += 1;
			}
		}
		for (t, n) in &told {
			obs.eval();
			let there = got.iter().filter(|x| x.text.contains(t.as_str())).count();
			if there < *n {
				return Err(s.peer.fail("missing", format!("the client was told {n} times of what the log of level {} has {there} times: {}\n{}", LEVELS[due], cut(t, 400), cut(&text, 4000))));
			}
			obs.count("messages found in the log", *n as u64);
			if due < 4 {
				obs.count("messages found at other levels than trace", *n as u64);
			}
		}
		obs.count("logs", 1);
	} else {
		obs.count("sessions without a log", 1);
	}
	obs.count(["ended by exit", "ended by the end of the input", "ended by an interrupt"][end], 1);
	obs.nontrivial(format!("{}{end}{:?}", s.shape, level).as_bytes());
	let l = s.peer.log.clone();
	obs.sample(|| cut(&l.join(" | "), 500));
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C41",
		rule: "sessions with the real program with every form of log folder and level, ended by exit, the end of the input and an interrupt; versions and command lines it does not know; distinct by the sequence of messages, the level and the end",
		quick: 2500,
		thorough: 60_000,
		min_distinct: 500,
		must_observe: &["logs", "sessions with traces", "sessions without a log", "versions", "command lines refused", "records of level ERROR", "records of level INFO", "messages found in the log", "messages found at other levels than trace", "ended by exit", "ended by the end of the input", "ended by an interrupt"],
		run: c41,
		assumptions: &["xflags and tracing-appender are stand-ins (see standins/)", "the level of a message is that which a session logged at trace level gives to messages that begin alike"],
		..Check::DEFAULT
	}]
}
