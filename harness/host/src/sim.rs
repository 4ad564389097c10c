//! A client of the real `AnalyzerHost`, driven poll by poll: it owns the disk, decides when each message, file system
//! answer and poll happens, and watches everything the server does.
use analyzer_abstractions::{
	fs::{AnyEnumerableFileSystem, EnumerableFileSystem},
	lsp_types::{TextDocumentIdentifier, Url},
	BoxFuture,
};
use analyzer_host::{json_rpc::message::Message, tracing::TraceValueAccessor, AnalyzerHost};
use async_channel::{Receiver, Sender};
use cancellation::CancellationTokenSource;
use serde_json::{json, Value};
use std::{
	collections::{BTreeMap, HashSet, VecDeque},
	future::Future,
	pin::Pin,
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Arc, Mutex,
	},
	task::{Context, Poll, Wake, Waker},
};
use vcommon::{ensure, guard, violation, CaseResult, Rng, Violation};

pub type Disk = BTreeMap<String, String>;

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}

/// A file system operation that the server waits for.
pub struct Op {
	pub what: String,
	pub uri: String,
	released: AtomicBool,
	waker: Mutex<Option<Waker>>,
	pub answered: AtomicBool,
}

/// The file system behind the server: every operation waits until the harness releases it, and sees the disk as it is
/// at that moment.
#[derive(Default)]
pub struct TestFs {
	pub disk: Arc<Mutex<Disk>>,
	pub ops: Mutex<Vec<Arc<Op>>>,
	pub started: AtomicU64,
}

struct Wait {
	fs: Arc<TestFs>,
	op: Option<Arc<Op>>,
	what: &'static str,
	uri: String,
}

impl Future for Wait {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if self.op.is_none() {
			let op = Arc::new(Op {
				what: self.what.into(),
				uri: self.uri.clone(),
				released: AtomicBool::new(false),
				waker: Mutex::new(None),
				answered: AtomicBool::new(false),
			});
			self.fs.ops.lock().unwrap().push(op.clone());
			self.fs.started.fetch_add(1, Ordering::SeqCst);
			self.op = Some(op);
		}
		let op = self.op.as_ref().unwrap();
		*op.waker.lock().unwrap() = Some(cx.waker().clone());
		if op.released.load(Ordering::SeqCst) {
			op.answered.store(true, Ordering::SeqCst);
			return Poll::Ready(());
		}
		Poll::Pending
	}
}

impl Drop for Wait {
	fn drop(&mut self) {
		if let Some(op) = &self.op {
			op.answered.store(true, Ordering::SeqCst); // nobody waits for it any more
		}
	}
}

pub fn list(disk: &Disk, folder: &str, pattern: &str) -> Vec<String> {
	let prefix = format!("{}/", folder.trim_end_matches('/'));
	disk.keys().filter(|k| k.strip_prefix(&prefix).map_or(false, |rest| glob(pattern, rest))).cloned().collect()
}

/// Whether a relative path matches a glob of the Language Server Protocol.
pub fn glob(pattern: &str, path: &str) -> bool {
	fn go(p: &[u8], s: &[u8]) -> bool {
		match p {
			[] => s.is_empty(),
			[b'*', b'*', b'/', rest @ ..] => go(rest, s) || (0..s.len()).any(|i| s[i] == b'/' && go(rest, &s[i + 1..])),
			[b'*', b'*', rest @ ..] => (0..=s.len()).any(|i| go(rest, &s[i..])),
			[b'*', rest @ ..] => (0..=s.iter().position(|c| *c == b'/').unwrap_or(s.len())).any(|i| go(rest, &s[i..])),
			[b'?', rest @ ..] => !s.is_empty() && s[0] != b'/' && go(rest, &s[1..]),
			[b'{', rest @ ..] => match rest.iter().position(|c| *c == b'}') {
				Some(end) => rest[..end].split(|c| *c == b',').any(|one| go(&[one, &rest[end + 1..]].concat(), s)),
				None => false,
			},
			[b'[', rest @ ..] => match rest.iter().position(|c| *c == b']') {
				Some(end) if !s.is_empty() => {
					let (negated, set) = match rest[0] {
						b'!' => (true, &rest[1..end]),
						_ => (false, &rest[..end]),
					};
					let found = (0..set.len()).any(|i| set[i] == s[0] || (i + 2 < set.len() && set[i + 1] == b'-' && (set[i]..=set[i + 2]).contains(&s[0])));
					found != negated && go(&rest[end + 1..], &s[1..])
				}
				_ => false,
			},
			[c, rest @ ..] => s.first() == Some(c) && go(rest, &s[1..]),
		}
	}
	go(pattern.as_bytes(), path.as_bytes())
}

struct FsHandle(Arc<TestFs>);

impl EnumerableFileSystem for FsHandle {
	fn enumerate_folder<'a>(&'a self, folder: Url, pattern: String) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
		let fs = self.0.clone();
		Box::pin(async move {
			Wait { fs: fs.clone(), op: None, what: "enumerate", uri: folder.to_string() }.await;
			let disk = fs.disk.lock().unwrap();
			list(&disk, folder.as_str(), &pattern)
				.into_iter()
				.map(|u| TextDocumentIdentifier { uri: Url::parse(&u).unwrap() })
				.collect()
		})
	}

	fn file_contents<'a>(&'a self, uri: Url) -> BoxFuture<'a, Option<String>> {
		let fs = self.0.clone();
		Box::pin(async move {
			Wait { fs: fs.clone(), op: None, what: "contents", uri: uri.to_string() }.await;
			let disk = fs.disk.lock().unwrap();
			disk.get(uri.as_str()).cloned()
		})
	}
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FsMode {
	/// The host was given a file system.
	Given,
	/// The host asks its client (`p4analyzer/…` requests).
	Client,
}

/// A request of the server that the client has not answered.
#[derive(Clone, Debug)]
pub struct ServerRequest {
	pub id: Value,
	pub method: String,
	pub params: Value,
}

/// A request of the client.
#[derive(Clone, Debug)]
pub struct Asked {
	pub id: Value,
	pub method: String,
	pub response: Option<Value>,
}

pub struct Sim {
	pub to: Sender<Message>,
	pub from: Receiver<Message>,
	pub source: Arc<CancellationTokenSource>,
	fut: Option<Pin<Box<dyn Future<Output = bool>>>>,
	/// `Some(ok)` once the host's `start` has returned.
	pub done: Option<bool>,
	flag: Arc<Flag>,
	pub fs: Arc<TestFs>,
	pub mode: FsMode,
	pub asked: Vec<Asked>,
	waiting: VecDeque<usize>,
	pub server_requests: Vec<ServerRequest>,
	pub server_ids: HashSet<String>,
	/// Everything the server sent, in order.
	pub received: Vec<Value>,
	pub log: Vec<String>,
	pub polls: u64,
	pub trace: Option<analyzer_abstractions::tracing::Dispatch>,
	/// Requests after which no response is due (the server was told to exit first).
	pub exited: bool,
	next_id: u64,
	/// How many more requests of the server, by method, the client rejects.
	pub reject: BTreeMap<String, u32>,
	/// Files whose contents the client does not deliver: it answers something useless instead.
	pub broken: BTreeMap<String, Value>,
	/// (id, how many messages of the server had been received) of every answer given.
	pub answers: Vec<(ServerRequest, usize, bool)>,
	pub client_sent: u64,
}

pub fn uri(s: &str) -> String { Url::parse(s).unwrap().to_string() }

impl Sim {
	pub fn new(mode: FsMode, disk: Disk) -> Sim { Sim::with(mode, disk, None) }

	/// `tracing`: given the channels, makes the subscriber and the accessor of its trace value.
	pub fn with(
		mode: FsMode,
		disk: Disk,
		tracing: Option<fn(analyzer_host::MessageChannel) -> (analyzer_abstractions::tracing::Dispatch, TraceValueAccessor)>,
	) -> Sim {
		let (to, receiver) = async_channel::unbounded::<Message>();
		let (sender, from) = async_channel::unbounded::<Message>();
		let fs = Arc::new(TestFs { disk: Arc::new(Mutex::new(disk)), ..Default::default() });
		let (dispatch, accessor) = match tracing {
			Some(f) => {
				let (d, a) = f((sender.clone(), receiver.clone()));
				(Some(d), Some(a))
			}
			None => (None, None),
		};
		let given: Option<Arc<AnyEnumerableFileSystem>> = match mode {
			FsMode::Given => Some(Arc::new(Box::new(FsHandle(fs.clone())))),
			FsMode::Client => None,
		};
		let host = Arc::new(AnalyzerHost::new((sender, receiver), accessor, given));
		let source = Arc::new(CancellationTokenSource::new());
		let token = source.token().clone();
		let fut = Box::pin(async move { host.start(token).await.is_ok() });
		Sim {
			to,
			from,
			source,
			fut: Some(fut),
			done: None,
			flag: Arc::new(Flag(AtomicBool::new(true))),
			fs,
			mode,
			asked: vec![],
			waiting: VecDeque::new(),
			server_requests: vec![],
			server_ids: HashSet::new(),
			received: vec![],
			log: vec![],
			polls: 0,
			trace: dispatch,
			exited: false,
			next_id: 1,
			reject: BTreeMap::new(),
			broken: BTreeMap::new(),
			answers: vec![],
			client_sent: 0,
		}
	}

	pub fn note(&mut self, s: String) {
		if self.log.len() < 4000 {
			self.log.push(s)
		}
	}

	pub fn witness(&self) -> String {
		let n = self.log.len();
		let from = n.saturating_sub(120);
		let mut s = String::new();
		if from > 0 {
			s.push_str(&format!("(… {from} earlier events)\n"));
		}
		for l in &self.log[from..] {
			let mut l = l.clone();
			if l.len() > 400 {
				let mut c = 400;
				while !l.is_char_boundary(c) {
					c -= 1
				}
				l.truncate(c);
				l.push('…');
			}
			s.push_str(&l);
			s.push('\n');
		}
		s
	}

	pub fn fail(&self, sig: &str, what: String) -> Violation {
		Violation { signature: sig.into(), detail: format!("{what}\n  events so far:\n{}", self.witness()) }
	}

	// ------------------------------------------------------------------ the client sends

	pub fn send(&mut self, v: Value) {
		self.note(format!("client> {v}"));
		self.client_sent += 1;
		let m: Message = serde_json::from_value(v).expect("harness message");
		let _ = self.to.try_send(m);
	}

	pub fn notify(&mut self, method: &str, params: Value) {
		let mut v = json!({ "method": method });
		if !params.is_null() {
			v["params"] = params;
		}
		self.send(v);
	}

	pub fn request_with(&mut self, id: Value, method: &str, params: Value) -> usize {
		let mut v = json!({ "id": id, "method": method });
		if !params.is_null() {
			v["params"] = params;
		}
		self.asked.push(Asked { id, method: method.into(), response: None });
		self.waiting.push_back(self.asked.len() - 1);
		self.send(v);
		self.asked.len() - 1
	}

	pub fn request(&mut self, method: &str, params: Value) -> usize {
		let id = self.fresh_id();
		self.request_with(id, method, params)
	}

	/// Ids of every kind that a client may use.
	pub fn fresh_id(&mut self) -> Value {
		let n = self.next_id;
		self.next_id += 1;
		match n % 4 {
			0 => json!(format!("r-{n}")),
			1 => json!(format!("{}", n / 2 * 2 + 1_000_000)),
			_ => json!(n),
		}
	}

	pub fn respond(&mut self, id: &Value, result: Result<Value, (i64, &str)>) {
		match result {
			Ok(r) => self.send(json!({ "id": id, "result": r })),
			Err((code, m)) => self.send(json!({ "id": id, "error": { "code": code, "message": m } })),
		}
	}

	// ------------------------------------------------------------------ the server runs

	/// One poll of the host, if anything woke it. False when it is quiet (or has ended).
	pub fn step(&mut self) -> Result<bool, Violation> {
		if self.fut.is_none() || !self.flag.0.swap(false, Ordering::SeqCst) {
			return Ok(false);
		}
		self.polls += 1;
		let waker = Waker::from(self.flag.clone());
		let mut cx = Context::from_waker(&waker);
		let fut = self.fut.as_mut().unwrap();
		let trace = self.trace.clone();
		let r = guard(|| match &trace {
			Some(d) => analyzer_abstractions::tracing::dispatcher::with_default(d, || fut.as_mut().poll(&mut cx)),
			None => fut.as_mut().poll(&mut cx),
		});
		match r {
			Err(p) => {
				std::mem::forget(self.fut.take());
				return Err(self.fail("panic", format!("the server panicked: {p}")));
			}
			Ok(Poll::Ready(ok)) => {
				self.done = Some(ok);
				self.fut = None;
				self.note(format!("server ends ({})", if ok { "ok" } else { "cancelled" }));
			}
			Ok(Poll::Pending) => {}
		}
		self.collect()?;
		Ok(self.fut.is_some())
	}

	/// Polls until the server waits for the outside world.
	pub fn run(&mut self) -> CaseResult {
		let before = self.polls;
		while self.step()? {
			if self.polls - before > 200_000 {
				return Err(self.fail("busy", "the server keeps waking itself and never waits".into()));
			}
		}
		self.collect()
	}

	fn collect(&mut self) -> CaseResult {
		while let Ok(m) = self.from.try_recv() {
			let v = serde_json::to_value(&m).unwrap();
			self.note(format!("server> {v}"));
			self.on_message(v)?;
		}
		Ok(())
	}

	fn on_message(&mut self, v: Value) -> CaseResult {
		self.received.push(v.clone());
		let has_method = v.get("method").is_some();
		let id = v.get("id").cloned();
		match (has_method, id) {
			(true, Some(id)) => {
				if !self.server_ids.insert(id.to_string()) {
					return Err(self.fail("request-id-reused", format!("the server used the id {id} for two of its requests")));
				}
				self.server_requests.push(ServerRequest {
					id,
					method: v["method"].as_str().unwrap_or("").into(),
					params: v["params"].clone(),
				});
			}
			(true, None) => {}
			(false, Some(id)) => {
				let at = self.waiting.iter().position(|&i| self.asked[i].id == id);
				match at {
					None => {
						let again = self.asked.iter().any(|a| a.id == id);
						return Err(self.fail(
							if again { "answered-twice" } else { "answer-to-nothing" },
							format!("a response with id {id}, which {}", if again { "was answered already" } else { "nobody asked for" }),
						));
					}
					Some(p) => {
						let i = self.waiting.remove(p).unwrap();
						let (r, e) = (v.get("result").is_some(), v.get("error").is_some());
						if r == e {
							return Err(self.fail("result-xor-error", format!("response {v} has {}", if r { "both a result and an error" } else { "neither a result nor an error" })));
						}
						self.asked[i].response = Some(v);
					}
				}
			}
			(false, None) => return Err(self.fail("not-a-message", format!("the server sent {v}"))),
		}
		Ok(())
	}

	/// Requests of the client that have no response.
	pub fn unanswered(&self) -> Vec<&Asked> { self.waiting.iter().map(|&i| &self.asked[i]).collect() }

	/// Requests that will not be answered because the server was told to exit before them, or went away.
	pub fn forget_waiting(&mut self) { self.waiting.clear() }

	// ------------------------------------------------------------------ the outside world answers

	/// What the server waits for: file operations and unanswered requests.
	pub fn pending(&self) -> usize {
		let ops = self.fs.ops.lock().unwrap();
		ops.iter().filter(|o| !o.released.load(Ordering::SeqCst) && !o.answered.load(Ordering::SeqCst)).count()
			+ self.server_requests.len()
	}

	/// The files that the server is reading.
	pub fn reading(&self) -> Vec<String> {
		let ops = self.fs.ops.lock().unwrap();
		let given = ops.iter().filter(|o| o.what == "contents" && !o.released.load(Ordering::SeqCst)).map(|o| o.uri.clone());
		let asked = self.server_requests.iter().filter(|r| r.method == "p4analyzer/fileContents");
		given.chain(asked.filter_map(|r| r.params["uri"].as_str().map(String::from))).collect()
	}

	/// The answer an honest client gives to a request of the server, now.
	pub fn honest(&self, r: &ServerRequest) -> Result<Value, (i64, &'static str)> {
		let disk = self.fs.disk.lock().unwrap();
		match r.method.as_str() {
			"p4analyzer/enumerateFolder" => {
				let folder = r.params["uri"].as_str().unwrap_or("");
				Ok(json!(list(&disk, folder, r.params["filePattern"].as_str().unwrap_or("")).into_iter().map(|u| json!({ "uri": u })).collect::<Vec<_>>()))
			}
			"p4analyzer/fileContents" => match disk.get(r.params["uri"].as_str().unwrap_or("")) {
				Some(t) => Ok(json!(t)),
				None => Err((-32000, "no such file")),
			},
			_ => Ok(Value::Null),
		}
	}

	/// Answers one of the things the server waits for, chosen at random. False if there is none.
	pub fn answer_one(&mut self, rng: &mut Rng) -> bool {
		let ops: Vec<Arc<Op>> = {
			let mut all = self.fs.ops.lock().unwrap();
			all.retain(|o| !o.answered.load(Ordering::SeqCst));
			all.iter().filter(|o| !o.released.load(Ordering::SeqCst)).cloned().collect()
		};
		let n = ops.len() + self.server_requests.len();
		if n == 0 {
			return false;
		}
		let k = rng.below(n);
		if k < ops.len() {
			let op = &ops[k];
			self.note(format!("disk: {} {} is answered", op.what, op.uri));
			op.released.store(true, Ordering::SeqCst);
			let w = op.waker.lock().unwrap().take();
			if let Some(w) = w {
				w.wake();
			}
		} else {
			let r = self.server_requests.remove(k - ops.len());
			let mut a = self.honest(&r);
			if let Some(n) = self.reject.get_mut(&r.method) {
				if *n > 0 {
					*n -= 1;
					a = Err((-32001, "rejected"));
				}
			}
			if r.method == "p4analyzer/fileContents" {
				if let Some(v) = self.broken.get(r.params["uri"].as_str().unwrap_or("")).cloned() {
					let mut m = v;
					m["id"] = r.id.clone();
					self.answers.push((r, self.received.len(), false));
					self.send(m);
					return true;
				}
			}
			self.answers.push((r.clone(), self.received.len(), a.is_ok()));
			self.respond(&r.id, a);
		}
		true
	}

	/// Runs, answering everything, until nothing is left to answer.
	pub fn settle(&mut self, rng: &mut Rng) -> CaseResult {
		let mut n = 0;
		loop {
			self.run()?;
			// sometimes several answers arrive before the server runs again
			if !self.answer_one(rng) {
				return Ok(());
			}
			while rng.chance(1, 3) && self.answer_one(rng) {}
			n += 1;
			if n > 20_000 {
				return Err(self.fail("endless-requests", "the server keeps asking the client for more".into()));
			}
		}
	}

	/// Settles, after which every request must have been answered.
	pub fn settle_answered(&mut self, rng: &mut Rng) -> CaseResult {
		self.settle(rng)?;
		if self.done.is_none() && !self.waiting.is_empty() {
			let a = self.unanswered()[0].clone();
			return Err(self.fail(
				"unanswered",
				format!("the server is quiet, nothing it asked for is outstanding, and request {} '{}' has no response", a.id, a.method),
			));
		}
		Ok(())
	}

	pub fn response(&self, asked: usize) -> Option<&Value> { self.asked[asked].response.as_ref() }

	/// Sends a request, settles, and returns its response.
	pub fn call(&mut self, rng: &mut Rng, method: &str, params: Value) -> Result<Value, Violation> {
		let i = self.request(method, params);
		self.settle_answered(rng)?;
		match self.response(i) {
			Some(v) => Ok(v.clone()),
			None => Err(self.fail("server-gone", format!("the server ended instead of answering '{method}'"))),
		}
	}

	// ------------------------------------------------------------------ common openings

	pub fn initialize_params(folders: Option<&[String]>, watched: bool, progress: Option<bool>) -> Value {
		let mut caps = json!({});
		if watched {
			caps["workspace"] = json!({ "didChangeWatchedFiles": { "dynamicRegistration": true } });
		}
		if let Some(p) = progress {
			caps["window"] = json!({ "workDoneProgress": p });
		}
		let f = match folders {
			None => Value::Null,
			Some(f) => json!(f.iter().enumerate().map(|(i, u)| json!({ "uri": u, "name": format!("ws{i}") })).collect::<Vec<_>>()),
		};
		json!({ "processId": 1, "rootUri": null, "capabilities": caps, "workspaceFolders": f })
	}

	/// initialize + initialized, settled.
	pub fn open_session(&mut self, rng: &mut Rng, folders: Option<&[String]>, progress: Option<bool>) -> CaseResult {
		let r = self.call(rng, "initialize", Self::initialize_params(folders, true, progress))?;
		ensure!(r.get("result").is_some(), "initialize-refused", "initialize: {r}\n{}", self.witness());
		self.notify("initialized", json!({}));
		self.settle_answered(rng)
	}

	pub fn completion_params(uri: &str) -> Value { json!({ "textDocument": { "uri": uri }, "position": { "line": 0, "character": 0 } }) }
	pub fn hover_params(uri: &str, line: u64, ch: u64) -> Value {
		json!({ "textDocument": { "uri": uri }, "position": { "line": line, "character": ch } })
	}
	pub fn did_open(&mut self, uri: &str, text: &str) {
		self.notify("textDocument/didOpen", json!({ "textDocument": { "uri": uri, "languageId": "p4", "version": 1, "text": text } }));
	}
	pub fn did_close(&mut self, uri: &str) { self.notify("textDocument/didClose", json!({ "textDocument": { "uri": uri } })) }
	pub fn watched(&mut self, changes: &[(&str, u64)]) {
		let c: Vec<Value> = changes.iter().map(|(u, t)| json!({ "uri": u, "type": t })).collect();
		self.notify("workspace/didChangeWatchedFiles", json!({ "changes": c }));
	}

	/// A server that answers hover requests is alive and in its initialized state.
	pub fn check_alive(&mut self, rng: &mut Rng) -> CaseResult {
		let (l, c) = (rng.below(1000) as u64, rng.below(1000) as u64);
		let r = self.call(rng, "textDocument/hover", Self::hover_params("file:///w/alive.p4", l, c))?;
		let text = r["result"]["contents"]["value"].as_str().unwrap_or("").to_string();
		if !(text.contains(&l.to_string()) && text.contains(&c.to_string())) {
			return Err(self.fail("wrong-answer", format!("hover at {l}:{c} answered {r}")));
		}
		Ok(())
	}
}

/// The labels of a completion response, or None if it is an error.
pub fn labels(sim: &Sim, r: &Value) -> Result<Option<Vec<String>>, Violation> {
	if r.get("error").is_some() {
		return Ok(None);
	}
	let items = match &r["result"] {
		Value::Array(a) => a.clone(),
		Value::Object(o) => {
			ensure!(o.get("isIncomplete") != Some(&Value::Bool(true)), "incomplete", "completion list is incomplete: {r}");
			o.get("items").and_then(|i| i.as_array()).cloned().unwrap_or_default()
		}
		Value::Null => vec![],
		_ => return Err(violation!("bad-completion", "completion answered {r}\n{}", sim.witness())),
	};
	Ok(Some(items.iter().map(|i| i["label"].as_str().unwrap_or("").to_string()).collect()))
}
