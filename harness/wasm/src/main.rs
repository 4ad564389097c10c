//! C37: the WebAssembly module's glue (crates/p4-analyzer-wasm), natively, with stand-ins for JavaScript. A server sets
//! the process's tracing subscriber, for which reason each case is a process of its own.
use analyzer_host::{json_rpc::message::Message, tracing::LspTracingLayer, AnalyzerHost};
use cancellation::CancellationTokenSource;
use js_sys::{Function, Uint8Array};
use p4_analyzer_wasm::LspServer;
use serde_json::{json, Value};
use std::{
	cell::RefCell,
	collections::{BTreeMap, VecDeque},
	future::Future,
	pin::Pin,
	rc::Rc,
	sync::{
		atomic::{AtomicBool, Ordering},
		Arc,
	},
	task::{Context, Poll, Wake, Waker},
};
use vcommon::{ensure, violation, CaseResult, Check, Obs, Rng, Violation};
use wasm_bindgen::JsValue;

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}

/// A task of the event loop.
struct Task<T> {
	future: Pin<Box<dyn Future<Output = T>>>,
	flag: Arc<Flag>,
	done: Option<T>,
}
impl<T> Task<T> {
	fn new(f: impl Future<Output = T> + 'static) -> Task<T> { Task { future: Box::pin(f), flag: Arc::new(Flag(AtomicBool::new(true))), done: None } }
	/// Whether there was anything to do.
	fn step(&mut self) -> bool {
		if self.done.is_some() || !self.flag.0.swap(false, Ordering::SeqCst) {
			return false;
		}
		let waker = Waker::from(self.flag.clone());
		if let Poll::Ready(r) = self.future.as_mut().poll(&mut Context::from_waker(&waker)) {
			self.done = Some(r);
		}
		true
	}
}

#[derive(Clone, Debug)]
enum Step {
	/// Bytes, and whether they are a message.
	Send(Vec<u8>, bool),
	/// The event loop runs until there is nothing to do; then the client answers what it was asked.
	Run,
	Stop,
}

struct Plan {
	steps: Vec<Step>,
	folders: Vec<String>,
	disk: BTreeMap<String, String>,
	traced: bool,
	exits: bool,
	stops: bool,
	/// Some requests of the server are refused.
	refuses: bool,
}

const WORDS: &[&str] = &["header h {\n", "bit<8> x;\n", "}\n", "é", "😀", "\r\n", "#define A 1\n", "A", "\u{0}", "/*", "*/", "\"", "\\", "\u{2028}", "#include <core.p4>\n"];

fn text(rng: &mut Rng) -> String {
	let n = if rng.chance(1, 30) { 5000 } else { rng.below(8) };
	(0..n).map(|_| rng.word(WORDS)).collect()
}

fn garbage(rng: &mut Rng) -> Vec<u8> {
	match rng.below(9) {
		0 => vec![],
		1 => b"{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"shutdown\"".to_vec(),
		2 => b"{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}}".to_vec(),
		3 => vec![b'"', 0xff, b'"'],
		4 => b"{\"jsonrpc\":\"2.0\",\"method\":\"\xc3\x28\",\"params\":{}}".to_vec(),
		5 => rng.pick(&["[]", "3", "null", "\"exit\"", "true"]).as_bytes().to_vec(),
		6 => b"{\"jsonrpc\":\"2.0\",\"method\":\"$/setTrace\",\"params\":{\"value\":\"off\"}} {\"jsonrpc\":\"2.0\",\"method\":\"exit\"}".to_vec(),
		7 => b"Content-Length: 2\r\n\r\n{}".to_vec(),
		_ => (0..rng.below(40)).map(|_| rng.next() as u8 | 0x80).chain([b'{']).collect(),
	}
}

fn plan(rng: &mut Rng) -> Plan {
	let mut id = 0;
	let folders: Vec<String> = (0..*rng.pick(&[0, 0, 1, 1, 1, 1, 2])).map(|i: usize| format!("file:///w{i}")).collect();
	let mut disk = BTreeMap::new();
	for f in &folders {
		for i in 0..rng.below(4) {
			disk.insert(format!("{f}/f{i}.p4"), text(rng));
		}
	}
	let mut p = Plan { steps: vec![], folders, disk, traced: false, exits: false, stops: false, refuses: rng.chance(1, 8) };
	let mut next_id = |rng: &mut Rng| {
		id += 1;
		if rng.chance(1, 3) { json!(format!("é{id}")) } else { json!(id) }
	};
	let send = |p: &mut Plan, rng: &mut Rng, mut v: Value| {
		v["jsonrpc"] = json!("2.0");
		let t = if rng.chance(1, 5) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
		p.steps.push(Step::Send(if rng.chance(1, 6) { format!(" \r\n{t}\n") } else { t }.into_bytes(), true));
	};
	let mut caps = json!({ "workspace": { "workspaceFolders": true, "didChangeWatchedFiles": { "dynamicRegistration": rng.chance(1, 2) } } });
	if rng.chance(1, 2) {
		caps["window"] = json!({ "workDoneProgress": rng.chance(2, 3) });
	}
	let trace = |p: &mut Plan, rng: &mut Rng| {
		let v = rng.word(&["off", "off", "messages", "verbose"]);
		p.traced |= v != "off";
		json!(v)
	};
	if rng.chance(9, 10) {
		let i = next_id(rng);
		let ws: Vec<Value> = p.folders.iter().map(|f| json!({ "uri": f, "name": "w" })).collect();
		let mut params = json!({ "processId": 1, "rootUri": null, "capabilities": caps, "workspaceFolders": if ws.is_empty() { Value::Null } else { json!(ws) } });
		if rng.chance(1, 2) {
			params["trace"] = trace(&mut p, rng);
		}
		send(&mut p, rng, json!({ "id": i, "method": "initialize", "params": params }));
		if rng.chance(3, 4) {
			p.steps.push(Step::Run);
		}
		if rng.chance(9, 10) {
			send(&mut p, rng, json!({ "method": "initialized", "params": {} }));
			if rng.chance(3, 4) {
				p.steps.push(Step::Run);
			}
		}
	}
	let docs = ["file:///w0/f0.p4", "file:///w0/new.p4", "file:///w1/f1.p4", "file:///else/é.p4"];
	let mut version = 0;
	for _ in 0..rng.below(14) {
		version += 1;
		let doc = rng.word(&docs);
		match rng.below(12) {
			0 | 1 => p.steps.push(Step::Send(garbage(rng), false)),
			2 | 3 => {
				let t = text(rng);
				send(&mut p, rng, json!({ "method": "textDocument/didOpen", "params": { "textDocument": { "uri": doc, "languageId": "p4", "version": version, "text": t } } }))
			}
			4 => {
				let t = text(rng);
				send(&mut p, rng, json!({ "method": "textDocument/didChange", "params": { "textDocument": { "uri": doc, "version": version }, "contentChanges": [{ "text": t }] } }))
			}
			5 | 6 => {
				let (i, m) = (next_id(rng), rng.word(&["textDocument/hover", "textDocument/completion"]));
				send(&mut p, rng, json!({ "id": i, "method": m, "params": { "textDocument": { "uri": doc }, "position": { "line": 0, "character": 0 } } }))
			}
			7 => {
				let (i, m) = (next_id(rng), rng.word(&["no/such", "é\"\\", ""]));
				send(&mut p, rng, json!({ "id": i, "method": m, "params": { "x": [1, null, "é"] } }))
			}
			8 => send(&mut p, rng, json!({ "method": "textDocument/didClose", "params": { "textDocument": { "uri": doc } } })),
			9 => {
				let v = trace(&mut p, rng);
				send(&mut p, rng, json!({ "method": "$/setTrace", "params": { "value": v } }))
			}
			10 if rng.chance(1, 12) => {
				// many at once
				for _ in 0..rng.range(50, 600) {
					let i = next_id(rng);
					send(&mut p, rng, json!({ "id": i, "method": "no/such/request", "params": {} }))
				}
			}
			10 => send(&mut p, rng, json!({ "method": "no/such/notification", "params": {} })),
			_ => p.steps.push(Step::Run),
		}
	}
	if rng.chance(1, 2) {
		let i = next_id(rng);
		send(&mut p, rng, json!({ "id": i, "method": "shutdown" }));
		if rng.chance(1, 2) {
			p.steps.push(Step::Run);
		}
	}
	match rng.below(10) {
		0..=4 => {
			p.exits = true;
			send(&mut p, rng, json!({ "method": "exit" }));
			if rng.chance(1, 6) {
				let i = next_id(rng);
				send(&mut p, rng, json!({ "id": i, "method": "no/such" }));
			}
		}
		5..=7 => {
			p.stops = true;
			let at = if rng.chance(1, 2) { p.steps.len() } else { rng.range(1, p.steps.len().max(1)).min(p.steps.len()) };
			p.steps.insert(at, Step::Stop);
		}
		_ => {}
	}
	p
}

/// What the client answers to a request of the server. Everything in it follows from the request.
fn answer(p: &Plan, m: &Value) -> Value {
	let method = m["method"].as_str().unwrap_or("");
	let mut r = json!({ "jsonrpc": "2.0", "id": m["id"] });
	let refuse = |r: &mut Value| r["error"] = json!({ "code": -32603, "message": "no" });
	match method {
		"p4analyzer/enumerateFolder" => {
			let f = format!("{}/", m["params"]["uri"].as_str().unwrap_or("").trim_end_matches('/'));
			if p.refuses { refuse(&mut r) } else { r["result"] = p.disk.keys().filter(|k| k.starts_with(&f)).map(|k| json!({ "uri": k })).collect() }
		}
		"p4analyzer/fileContents" => match p.disk.get(m["params"]["uri"].as_str().unwrap_or("")) {
			Some(t) => r["result"] = json!(t),
			None => refuse(&mut r),
		},
		"window/workDoneProgress/create" if p.refuses => refuse(&mut r),
		_ => r["result"] = Value::Null,
	}
	r
}

/// The server alone, driven as the glue is. What it sent, and its end.
fn reference(p: &Plan) -> Result<(Vec<Value>, Option<bool>), String> {
	std::thread::scope(|s| {
		std::thread::Builder::new()
			.stack_size(256 << 20)
			.spawn_scoped(s, || {
				let (to, receiver) = async_channel::unbounded::<Message>();
				let (sender, from) = async_channel::unbounded::<Message>();
				let layer = LspTracingLayer::new((sender.clone(), receiver.clone()));
				let host = AnalyzerHost::new((sender.clone(), receiver.clone()), Some(layer.trace_value()), None);
				let source = Arc::new(CancellationTokenSource::new());
				let token = source.token().clone();
				let mut task = Task::new(async move { host.start(token).await.is_ok() });
				let mut out: Vec<Value> = vec![];
				let mut answered = 0;
				let mut run = |out: &mut Vec<Value>, task: &mut Task<bool>| loop {
					while task.step() {}
					while let Ok(m) = from.try_recv() {
						let mut v = serde_json::to_value(&m).unwrap();
						v["jsonrpc"] = json!("2.0");
						out.push(v);
					}
					let mut any = false;
					while answered < out.len() {
						let m = &out[answered];
						answered += 1;
						if m.get("method").is_some() && m.get("id").is_some() {
							any |= to.try_send(serde_json::from_value(answer(p, m)).unwrap()).is_ok();
						}
					}
					if !any && (task.done.is_some() || !task.flag.0.load(Ordering::SeqCst)) {
						break;
					}
				};
				for step in &p.steps {
					match step {
						Step::Send(b, true) => drop(to.try_send(serde_json::from_slice(b).expect("a message of the harness"))),
						Step::Send(..) => {}
						Step::Run => run(&mut out, &mut task),
						Step::Stop => {
							source.cancel();
							sender.close();
							receiver.close();
						}
					}
				}
				run(&mut out, &mut task);
				(out, task.done)
			})
			.unwrap()
			.join()
			.map_err(|_| "the server alone panics".to_string())
	})
}

/// One message, as the client has to find it.
fn envelope(bytes: &[u8]) -> Result<Value, Violation> {
	let shown = || String::from_utf8_lossy(&bytes[..bytes.len().min(300)]).to_string();
	let v: Value = serde_json::from_slice(bytes).map_err(|e| violation!("not-json", "the callback was given {:?}: {e}", shown()))?;
	let o = v.as_object().ok_or_else(|| violation!("not-a-message", "the callback was given {}", shown()))?;
	ensure!(o.get("jsonrpc") == Some(&json!("2.0")), "envelope", "without the protocol's version: {}", shown());
	let known = ["jsonrpc", "id", "method", "params", "result", "error"];
	ensure!(o.keys().all(|k| known.contains(&k.as_str())), "envelope", "with unknown members: {}", shown());
	if o.contains_key("method") {
		ensure!(!o.contains_key("result") && !o.contains_key("error"), "envelope", "both a request and a response: {}", shown());
	} else {
		ensure!(o.contains_key("id") && o.contains_key("result") != o.contains_key("error"), "envelope", "neither a request nor a response: {}", shown());
	}
	Ok(v)
}

fn inside(seed: u64, out: &mut BTreeMap<&'static str, u64>) -> Result<String, Violation> {
	let mut rng = Rng::new(seed);
	let p = plan(&mut rng);
	let show = || {
		let steps: Vec<String> = p.steps.iter().map(|s| match s { Step::Send(b, ok) => format!("{}{:?}", if *ok { "" } else { "no message: " }, String::from_utf8_lossy(&b[..b.len().min(300)])), o => format!("{o:?}") }).collect();
		format!("\n  {}", steps.join("\n  "))
	};
	let (due, end) = match reference(&p) {
		Ok(r) => r,
		Err(_) => return Ok("the server alone panics, which others judge".into()),
	};
	// what the callback was given, as it was then, and the buffer
	let got: Rc<RefCell<Vec<(JsValue, Vec<u8>)>>> = Default::default();
	let g = got.clone();
	let server = Rc::new(LspServer::new(Function::of(move |_, args| {
		let a = args.first().cloned().unwrap_or(JsValue::UNDEFINED);
		let bytes = if matches!(a.0, wasm_bindgen::Val::Bytes(..)) { Uint8Array::new(&a).to_vec() } else { vec![] };
		g.borrow_mut().push((a, bytes));
		Ok(JsValue::UNDEFINED)
	})));
	let s = server.clone();
	let mut main = Task::new(async move { s.start().await });
	let early = rng.chance(1, 2);
	if early {
		main.step();
	}
	type Sent = (Task<Result<JsValue, JsValue>>, Vec<u8>, Uint8Array, bool, bool);
	let mut sent: Vec<Sent> = vec![];
	let mut queue: VecDeque<usize> = VecDeque::new();
	let mut parsed: Vec<Value> = vec![];
	let mut answered = 0;
	let mut over = false;
	let hand = |bytes: &[u8], ok: bool, over: bool, sent: &mut Vec<Sent>, queue: &mut VecDeque<usize>| {
		// a part of a greater buffer, as Node.js has them
		let mut all = vec![b'x'; 7];
		all.extend(bytes);
		all.extend(b"yy");
		let part = Uint8Array::from(&all[..]).subarray(7, 7 + bytes.len() as u32);
		let b = JsValue::from(part.clone());
		let s = server.clone();
		sent.push((Task::new(async move { s.send_request(b.into()).await }), bytes.to_vec(), part, ok, over));
		queue.push_back(sent.len() - 1);
	};
	let mut run = |main: &mut Task<Result<JsValue, JsValue>>, sent: &mut Vec<Sent>, queue: &mut VecDeque<usize>, parsed: &mut Vec<Value>, over: bool, rng: &mut Rng| -> CaseResult {
		let mut turns = 0;
		loop {
			turns += 1;
			ensure!(turns < 200_000, "busy", "the event loop never comes to rest{}", show());
			let mut moved = false;
			// the tasks in the order in which they were made, the server at any time
			if rng.chance(1, 2) {
				moved |= main.step();
			}
			for _ in 0..queue.len() {
				let i = queue.pop_front().unwrap();
				moved |= sent[i].0.step();
				if sent[i].0.done.is_none() {
					queue.push_back(i);
				}
			}
			moved |= main.step();
			let tasks: Vec<_> = wasm_bindgen_futures::TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
			for f in tasks {
				let mut t = Task::new(f);
				moved |= t.step();
				if t.done.is_none() {
					t.flag.0.store(true, Ordering::SeqCst);
					wasm_bindgen_futures::TASKS.with(|l| l.borrow_mut().push(t.future));
				}
			}
			if moved || main.flag.0.load(Ordering::SeqCst) && main.done.is_none() {
				continue;
			}
			let list: Vec<_> = got.borrow()[parsed.len()..].to_vec();
			for (a, bytes) in list {
				ensure!(matches!(a.0, wasm_bindgen::Val::Bytes(..)), "no-buffer", "the callback was given {a:?}{}", show());
				parsed.push(envelope(&bytes).map_err(|v| violation!(v.signature, "{}{}", v.detail, show()))?);
			}
			let mut any = false;
			while answered < parsed.len() {
				let m = &parsed[answered];
				answered += 1;
				if m.get("method").is_some() && m.get("id").is_some() && main.done.is_none() && !over {
					let t = answer(&p, m).to_string();
					hand(t.as_bytes(), true, over, sent, queue);
					any = true;
				}
			}
			if !any {
				return Ok(());
			}
		}
	};
	for step in &p.steps {
		match step {
			Step::Send(b, ok) => hand(b, *ok, over || main.done.is_some(), &mut sent, &mut queue),
			Step::Run => run(&mut main, &mut sent, &mut queue, &mut parsed, over, &mut rng)?,
			Step::Stop => {
				// what was handed over before is on its way
				for i in std::mem::take(&mut queue) {
					sent[i].0.step();
					if sent[i].0.done.is_none() {
						queue.push_back(i);
					}
				}
				server.stop();
				over = true;
			}
		}
	}
	run(&mut main, &mut sent, &mut queue, &mut parsed, over, &mut rng)?;

	let error = |v: &JsValue| matches!(v.0, wasm_bindgen::Val::Error(ref e) if !e.is_empty());
	let mut refused = 0;
	for (t, bytes, part, ok, late) in &sent {
		let what = String::from_utf8_lossy(&bytes[..bytes.len().min(300)]).to_string();
		ensure!(part.to_vec() == *bytes, "buffer-altered", "the buffer of {what:?} was altered{}", show());
		match &t.done {
			None => return Err(violation!("request-pending", "the promise for {what:?} is never settled{}", show())),
			Some(Ok(_)) if !ok => return Err(violation!("accepted", "{what:?} is no message, and was accepted{}", show())),
			Some(Ok(_)) if *late => return Err(violation!("accepted-late", "{what:?} was accepted after the end{}", show())),
			Some(Ok(v)) => ensure!(v.is_undefined(), "result", "the promise for {what:?} has the value {v:?}{}", show()),
			Some(Err(e)) => {
				ensure!(error(e), "error", "the promise for {what:?} is rejected with {e:?}{}", show());
				ensure!(!ok || *late || main.done.is_some(), "refused", "{what:?} was refused: {e:?}{}", show());
				refused += 1;
			}
		}
	}
	for (a, bytes) in got.borrow().iter() {
		ensure!(Uint8Array::new(a).to_vec() == *bytes, "altered", "a buffer given to the callback was altered later{}", show());
	}
	let (logs, real): (Vec<Value>, Vec<Value>) = parsed.into_iter().partition(|m| m["method"] == "$/logTrace");
	ensure!(p.traced || logs.is_empty(), "log", "logs that nobody asked for: {}{}", logs[0], show());
	for l in &logs {
		ensure!(l["params"]["message"].is_string() && l.get("id").is_none(), "log", "no log message: {l}{}", show());
	}
	// several folders are taken in no particular order, which makes a difference to what is loaded when
	let many = p.folders.len() > 1;
	let canonical = |l: &[Value]| -> Vec<String> { l.iter().filter(|m| !many || m.get("method").is_none()).map(|m| if many { m["id"].to_string() } else { m.to_string() }).collect() };
	if !p.stops {
		let (a, b) = (canonical(&real), canonical(&due));
		if a != b {
			let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
			return Err(violation!("messages", "the server sends {} messages, and the callback was given {}; from number {at} on:\n  server: {:?}\n  callback: {:?}{}", b.len(), a.len(), b.get(at), a.get(at), show()));
		}
		ensure!(main.done.is_some() == end.is_some(), "end", "the server has {}, and the module's start has {}{}", if end.is_some() { "ended" } else { "not ended" }, if main.done.is_some() { "ended" } else { "not" }, show());
		if let Some(r) = &main.done {
			ensure!(matches!(r, Ok(v) if v.is_undefined()), "end", "start ends with {r:?}{}", show());
		}
		if end.is_some() {
			*out.entry("sessions ended by exit").or_default() += 1;
		}
	} else {
		// what was said before may be cut short, and is not altered
		match &main.done {
			None => return Err(violation!("no-end", "stopped, and start does not end{}", show())),
			Some(Ok(v)) => ensure!(!matches!(end, Some(false) | None), "end", "stopped, and start ends with {v:?}{}", show()),
			Some(Err(e)) => ensure!(error(e), "end", "start ends with {e:?}{}", show()),
		}
		*out.entry("sessions stopped").or_default() += 1;
	}
	*out.entry("messages to the module").or_default() += sent.len() as u64;
	*out.entry("messages refused").or_default() += refused;
	*out.entry("messages of the server").or_default() += real.len() as u64;
	*out.entry("log messages").or_default() += logs.len() as u64;
	*out.entry("requests of the server answered").or_default() += real.iter().filter(|m| m.get("method").is_some() && m.get("id").is_some()).count() as u64;
	if !many && !p.stops {
		*out.entry("sessions compared in order").or_default() += 1;
	}
	Ok(format!("{} messages in, {} out, {} log messages{}{}", sent.len(), real.len(), logs.len(), if end.is_some() { ", ended" } else { "" }, if p.stops { ", stopped" } else { "" }))
}

fn case(_: &mut Rng, seed: u64, obs: &mut Obs) -> CaseResult {
	obs.eval();
	let r = std::process::Command::new(std::env::current_exe().unwrap()).args(["--inside", &seed.to_string()]).output().expect("a process");
	let text = String::from_utf8_lossy(&r.stdout);
	let Some(line) = text.lines().find_map(|l| l.strip_prefix("RESULT ")) else {
		return Err(violation!("died", "the process ended with {:?}\n{}\n{}", r.status, text, String::from_utf8_lossy(&r.stderr)));
	};
	let v: Value = serde_json::from_str(line).unwrap();
	if let Some(s) = v["signature"].as_str() {
		return Err(violation!(s, "{}", v["detail"].as_str().unwrap_or("")));
	}
	for (k, n) in v["counters"].as_object().unwrap() {
		obs.count(k, n.as_u64().unwrap());
	}
	let shape = v["shape"].as_str().unwrap();
	obs.nontrivial(format!("{shape} {}", v["key"]).as_bytes());
	obs.sample(|| shape.to_string());
	Ok(())
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	if args.get(1).map(String::as_str) == Some("--inside") {
		unsafe {
			let l = libc::rlimit { rlim_cur: 20, rlim_max: 22 };
			libc::setrlimit(libc::RLIMIT_CPU, &l);
		}
		let seed: u64 = args[2].parse().unwrap();
		let panic = Arc::new(std::sync::Mutex::new(String::new()));
		let p = panic.clone();
		std::panic::set_hook(Box::new(move |i| *p.lock().unwrap() = i.to_string()));
		std::thread::spawn(move || {
			std::thread::sleep(std::time::Duration::from_secs(60));
			println!("RESULT {}", json!({ "signature": "stuck", "detail": format!("the module blocks its only thread; steps: {:?}", plan(&mut Rng::new(seed)).steps) }));
			std::process::exit(0);
		});
		let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
			let mut counters = BTreeMap::new();
			let r = inside(seed, &mut counters);
			(r, counters)
		});
		let v = match h.unwrap().join() {
			Ok((Ok(shape), counters)) => json!({ "shape": shape, "counters": counters, "key": format!("{:x}", vcommon::hash64(format!("{:?}", plan(&mut Rng::new(seed)).steps).as_bytes())) }),
			Ok((Err(v), _)) => json!({ "signature": v.signature, "detail": v.detail }),
			Err(_) => json!({ "signature": "panic", "detail": format!("{}; steps: {:?}", panic.lock().unwrap(), plan(&mut Rng::new(seed)).steps.iter().map(|s| match s { Step::Send(b, _) => String::from_utf8_lossy(&b[..b.len().min(300)]).to_string(), o => format!("{o:?}") }).collect::<Vec<_>>()) }),
		};
		println!("RESULT {v}");
		return;
	}
	vcommon::main(&[Check {
		id: "C37",
		rule: "sessions of up to 25 messages, some of them malformed, with a client that answers; distinct by the messages",
		quick: 12_000,
		thorough: 300_000,
		min_distinct: 2000,
		must_observe: &["sessions ended by exit", "sessions stopped", "messages refused", "messages of the server", "log messages", "requests of the server answered", "sessions compared in order"],
		run: case,
		assumptions: &["the module runs natively; JavaScript's values, wasm-bindgen and js-sys are stand-ins", "the event loop is the harness, in which tasks run in the order in which they were made"],
		..Check::DEFAULT
	}])
}
