//! C30 (what goes over the standard streams), C36 (when the process ends): the program itself, with its pipes held by
//! the monitor.
use serde_json::{json, Value};
use std::{
	collections::{BTreeMap, BTreeSet},
	fs,
	io::{Read, Write},
	os::unix::fs::{DirBuilderExt, PermissionsExt},
	os::unix::process::{CommandExt, ExitStatusExt},
	path::{Path, PathBuf},
	process::{Child, ChildStdin, Command, ExitStatus, Stdio},
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Arc, Condvar, Mutex,
	},
	time::{Duration, Instant},
};
use vcommon::{CaseResult, Check, Obs, Rng, Violation};

pub const PATIENCE: Duration = Duration::from_secs(40);
pub const NOBODY: u32 = 65534;

/// A directory of its own, that is removed with it, and in which an unprivileged user may write.
pub struct Scratch(pub PathBuf);

impl Scratch {
	pub fn new() -> Scratch {
		static N: AtomicU64 = AtomicU64::new(0);
		let base = match std::env::var_os("VERIF_SCRATCH") {
			Some(d) => {
				let _ = fs::set_permissions(&d, fs::Permissions::from_mode(0o755));
				PathBuf::from(d)
			}
			None => std::env::temp_dir(),
		};
		let d = base.join(format!("p4app-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
		fs::DirBuilder::new().mode(0o755).create(&d).expect("a scratch directory");
		unprivileged(&d);
		Scratch(d)
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		// what a test made inaccessible
		fn open_up(d: &Path) {
			let _ = fs::set_permissions(d, fs::Permissions::from_mode(0o755));
			for e in fs::read_dir(d).into_iter().flatten().flatten() {
				if e.file_type().map_or(false, |t| t.is_dir()) {
					open_up(&e.path());
				}
			}
		}
		open_up(&self.0);
		let _ = fs::remove_dir_all(&self.0);
	}
}

pub fn unprivileged(p: &Path) {
	use std::os::unix::ffi::OsStrExt;
	let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
	unsafe { libc::lchown(c.as_ptr(), NOBODY, NOBODY) };
}

pub fn write_file(p: &Path, text: &[u8]) {
	if let Some(d) = p.parent() {
		let mut missing = vec![];
		let mut at = d;
		while !at.exists() {
			missing.push(at.to_path_buf());
			at = at.parent().unwrap();
		}
		for m in missing.iter().rev() {
			fs::create_dir(m).unwrap();
			unprivileged(m);
		}
	}
	fs::write(p, text).unwrap();
	unprivileged(p);
}

pub fn program(name: &str) -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().join(name) }

/// Runs as an unprivileged user, if that can be done, and at times with threads that pause at random.
pub fn command(r: &mut Rng, name: &str, home: &Path, delayed: (usize, usize)) -> Command {
	let mut c = Command::new(program(name));
	c.env_clear().env("PATH", "/usr/bin:/bin").env("HOME", home).env("RUST_BACKTRACE", "0").current_dir(home);
	if let Ok(o) = std::env::var("ASAN_OPTIONS") {
		c.env("ASAN_OPTIONS", o);
	}
	if unsafe { libc::geteuid() } == 0 {
		c.uid(NOBODY).gid(NOBODY);
	}
	// a background job of a shell inherits that interrupts are ignored
	unsafe {
		c.pre_exec(|| {
			let mut none: libc::sigset_t = std::mem::zeroed();
			libc::sigemptyset(&mut none);
			libc::sigprocmask(libc::SIG_SETMASK, &none, std::ptr::null_mut());
			for s in [libc::SIGINT, libc::SIGTERM, libc::SIGHUP, libc::SIGQUIT, libc::SIGPIPE] {
				libc::signal(s, libc::SIG_DFL);
			}
			Ok(())
		});
	}
	let delay = ["../../delay.so", "../../../delay.so"].iter().map(|p| program(p)).find(|p| p.exists()).unwrap_or_default();
	if r.chance(delayed.0, delayed.1) && delay.exists() {
		c.env("LD_PRELOAD", delay).env("P4A_DELAY", format!("{}:{}", r.next() >> 8, r.word(&["100:1000", "500:2000", "2000:6000", "20000:20000"])));
	}
	c
}

#[derive(Default)]
struct Heard {
	messages: Vec<Value>,
	/// What is no message.
	stray: Option<String>,
	/// Bytes after the last complete frame.
	rest: Vec<u8>,
	closed: bool,
}

/// Takes complete frames off the front of `buf`, as strictly as the base protocol puts it.
fn take_frames(buf: &mut Vec<u8>, h: &mut Heard) {
	while h.stray.is_none() {
		let end = match buf.windows(4).position(|w| w == b"\r\n\r\n") {
			Some(i) => i,
			None => {
				let n = b"Content-Length: ".len().min(buf.len());
				if buf[..n] != b"Content-Length: "[..n] {
					h.stray = Some(format!("{:?}", String::from_utf8_lossy(&buf[..buf.len().min(300)])));
				}
				return;
			}
		};
		let header = String::from_utf8_lossy(&buf[..end]).to_string();
		let mut length = None;
		for l in header.split("\r\n") {
			if let Some(v) = l.strip_prefix("Content-Length: ") {
				length = v.parse::<usize>().ok();
			} else if !l.starts_with("Content-Type: ") {
				h.stray = Some(format!("{header:?}"));
				return;
			}
		}
		let length = match length {
			Some(l) => l,
			None => {
				h.stray = Some(format!("{header:?}"));
				return;
			}
		};
		if buf.len() < end + 4 + length {
			return;
		}
		let body = &buf[end + 4..end + 4 + length];
		match std::str::from_utf8(body).ok().and_then(|b| serde_json::from_str::<Value>(b).ok()) {
			Some(v) if v["jsonrpc"] == "2.0" => h.messages.push(v),
			_ => h.stray = Some(format!("a body that is no message: {:?}", String::from_utf8_lossy(body))),
		}
		buf.drain(..end + 4 + length);
	}
}

pub struct Peer {
	child: Child,
	stdin: Option<ChildStdin>,
	heard: Arc<(Mutex<Heard>, Condvar)>,
	stderr: Arc<Mutex<Vec<u8>>>,
	/// Nobody reads stdout.
	paused: Arc<AtomicBool>,
	threads: Vec<std::thread::JoinHandle<()>>,
	answered: usize,
	pub log: Vec<String>,
	pub status: Option<ExitStatus>,
}

impl Peer {
	pub fn new(r: &mut Rng, args: &[String], home: &Path) -> Peer {
		let mut child = command(r, "p4analyzer", home, (1, 3))
			.args(args)
			.stdin(Stdio::piped())
			.stdout(Stdio::piped())
			.stderr(Stdio::piped())
			.spawn()
			.expect("the program starts");
		let heard = Arc::new((Mutex::new(Heard::default()), Condvar::new()));
		let stderr = Arc::new(Mutex::new(vec![]));
		let mut out = child.stdout.take().unwrap();
		let mut err = child.stderr.take().unwrap();
		let paused = Arc::new(AtomicBool::new(false));
		let (h, e, p) = (heard.clone(), stderr.clone(), paused.clone());
		let t1 = std::thread::spawn(move || {
			let mut buf = vec![0; 1 << 16];
			let mut pending = vec![];
			loop {
				while p.load(Ordering::SeqCst) {
					std::thread::sleep(Duration::from_millis(1));
				}
				let n = out.read(&mut buf).unwrap_or(0);
				let mut g = h.0.lock().unwrap();
				pending.extend(&buf[..n]);
				if g.stray.is_none() {
					take_frames(&mut pending, &mut g);
				} else {
					pending.clear();
				}
				if n == 0 {
					g.closed = true;
					g.rest = pending;
					h.1.notify_all();
					return;
				}
				h.1.notify_all();
			}
		});
		let t2 = std::thread::spawn(move || {
			let mut buf = vec![0; 1 << 14];
			while let Ok(n) = err.read(&mut buf) {
				if n == 0 {
					return;
				}
				e.lock().unwrap().extend(&buf[..n]);
			}
		});
		let stdin = child.stdin.take();
		Peer { child, stdin, heard, stderr, paused, threads: vec![t1, t2], answered: 0, log: vec![format!("p4analyzer {}", args.join(" "))], status: None }
	}

	pub fn fail(&self, sig: &str, what: impl std::fmt::Display) -> Violation {
		let err = self.stderr.lock().unwrap();
		let err: String = String::from_utf8_lossy(&err).lines().filter(|l| !l.contains("pp.errors")).take(30).collect::<Vec<_>>().join("\n  ");
		let heard = self.heard.0.lock().unwrap();
		let n = heard.messages.len();
		let out: Vec<String> = heard.messages.iter().skip(n.saturating_sub(12)).map(|m| cut(&m.to_string(), 400)).collect();
		Violation {
			signature: sig.into(),
			detail: format!("{what}\nwhat was done:\n  {}\nlast of {n} messages received:\n  {}\nstderr:\n  {err}\n", self.log.join("\n  "), out.join("\n  ")),
		}
	}

	pub fn raw(&mut self, r: &mut Rng, bytes: &[u8]) {
		let s = match self.stdin.as_mut() {
			Some(s) => s,
			None => return,
		};
		if r.chance(1, 2) {
			let _ = s.write_all(bytes);
			let _ = s.flush();
			return;
		}
		let mut at = 0;
		while at < bytes.len() {
			let n = match r.below(4) {
				0 => 1,
				1 => r.range(1, 16),
				2 => r.range(1, 200),
				_ => bytes.len(),
			}
			.min(bytes.len() - at);
			if s.write_all(&bytes[at..at + n]).and_then(|_| s.flush()).is_err() {
				return;
			}
			at += n;
			if r.chance(1, 6) {
				std::thread::sleep(Duration::from_micros(r.below(1500) as u64));
			}
		}
	}

	pub fn send(&mut self, r: &mut Rng, mut v: Value) {
		v["jsonrpc"] = json!("2.0");
		let body = v.to_string();
		self.log.push(format!("> {}", cut(&body, 300)));
		let bytes = frame(r, body.as_bytes());
		self.raw(r, &bytes);
	}

	/// Answers what the server has asked so far, if `f` has an answer; returns whether there was anything.
	pub fn answer(&mut self, r: &mut Rng) -> bool {
		let asked: Vec<(Value, String)> = {
			let g = self.heard.0.lock().unwrap();
			let new = g.messages[self.answered..].to_vec();
			self.answered = g.messages.len();
			new.iter().filter(|m| m.get("method").is_some() && m.get("id").is_some()).map(|m| (m["id"].clone(), m["method"].to_string())).collect()
		};
		for (id, _) in &asked {
			self.send(r, json!({ "id": id, "result": null }));
		}
		!asked.is_empty()
	}

	pub fn messages(&self) -> Vec<Value> { self.heard.0.lock().unwrap().messages.clone() }

	pub fn response(&self, id: i64) -> Option<Value> {
		self.heard.0.lock().unwrap().messages.iter().find(|m| m.get("method").is_none() && m["id"] == json!(id)).cloned()
	}

	/// Waits for all of some responses, answering the server meanwhile.
	pub fn wait_for(&mut self, r: &mut Rng, ids: &[i64]) -> CaseResult {
		let end = Instant::now() + PATIENCE;
		loop {
			self.answer(r);
			let g = self.heard.0.lock().unwrap();
			if let Some(s) = &g.stray {
				let s = s.clone();
				drop(g);
				return Err(self.fail("stray-output", format!("on stdout, where only messages belong: {s}")));
			}
			let have: BTreeSet<String> = g.messages.iter().filter(|m| m.get("method").is_none()).map(|m| m["id"].to_string()).collect();
			let missing: Vec<&i64> = ids.iter().filter(|i| !have.contains(&i.to_string())).collect();
			if missing.is_empty() {
				return Ok(());
			}
			if g.closed || Instant::now() > end {
				let why = if g.closed { "the server is gone" } else { "the server is silent" };
				let m = format!("{missing:?}");
				drop(g);
				return Err(self.fail("unanswered", format!("requests {m} are not answered; {why}")));
			}
			let n = g.messages.len();
			if n == self.answered {
				drop(self.heard.1.wait_timeout(g, Duration::from_millis(200)).unwrap());
			}
		}
	}

	pub fn signal(&mut self, s: i32) {
		self.log.push(format!("signal {s}"));
		unsafe { libc::kill(self.child.id() as i32, s) };
	}

	pub fn close_stdin(&mut self) {
		self.log.push("end of input".into());
		self.stdin = None;
	}

	pub fn running(&mut self) -> bool {
		if self.status.is_none() {
			self.status = self.child.try_wait().unwrap();
		}
		self.status.is_none()
	}

	/// Waits for the process to end; answers the server meanwhile if `answer`.
	pub fn ends(&mut self, r: &mut Rng, answer: bool) -> Result<ExitStatus, Violation> {
		let end = Instant::now() + PATIENCE;
		let mut nap = 200;
		while self.running() {
			if answer {
				self.answer(r);
			}
			if Instant::now() > end {
				return Err(self.fail("does-not-end", "the process goes on"));
			}
			std::thread::sleep(Duration::from_micros(nap));
			nap = (nap * 2).min(5000);
		}
		for t in self.threads.drain(..) {
			let _ = t.join();
		}
		let g = self.heard.0.lock().unwrap();
		let stray = g.stray.clone();
		let rest = g.rest.clone();
		drop(g);
		if let Some(s) = stray {
			return Err(self.fail("stray-output", format!("on stdout, where only messages belong: {s}")));
		}
		if !rest.is_empty() {
			return Err(self.fail("cut-message", format!("stdout ends within a message: {:?}", String::from_utf8_lossy(&rest))));
		}
		let err = String::from_utf8_lossy(&self.stderr.lock().unwrap()).to_string();
		if err.contains("panicked at") || err.contains("has overflowed its stack") {
			return Err(self.fail("panic", "the program panicked"));
		}
		Ok(self.status.unwrap())
	}
}

impl Drop for Peer {
	fn drop(&mut self) {
		self.paused.store(false, Ordering::SeqCst);
		let _ = self.child.kill();
		let _ = self.child.wait();
		self.stdin = None;
		for t in self.threads.drain(..) {
			let _ = t.join();
		}
	}
}

pub fn cut(s: &str, n: usize) -> String {
	if s.len() <= n {
		s.into()
	} else {
		let mut i = n;
		while !s.is_char_boundary(i) {
			i -= 1;
		}
		format!("{}… ({} bytes)", &s[..i], s.len())
	}
}

pub fn frame(r: &mut Rng, body: &[u8]) -> Vec<u8> {
	let mut v = vec![];
	let kind = r.below(8);
	if kind == 0 {
		v.extend(b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n");
	}
	v.extend(format!("Content-Length: {}\r\n", body.len()).bytes());
	if kind == 1 {
		v.extend(b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n");
	}
	v.extend(b"\r\n");
	v.extend(body);
	v
}

/// A well-framed body that is no message.
pub fn malformed_body(r: &mut Rng) -> Vec<u8> {
	match r.below(10) {
		0 => b"{".to_vec(),
		1 => b"".to_vec(),
		2 => b"[]".to_vec(),
		3 => b"null".to_vec(),
		4 => b"\xff\xfe{}".to_vec(),
		5 => b"{\"jsonrpc\":\"2.0\"}".to_vec(),
		6 => b"{\"jsonrpc\":\"2.0\",\"method\":7}".to_vec(),
		7 => b"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"textDocument/hover\",\"params\":{}".to_vec(),
		8 => b"Content-Length: 2\r\n\r\n{}".to_vec(),
		_ => b"{\"jsonrpc\":\"2.0\",\"id\":{},\"method\":\"shutdown\"}".to_vec(),
	}
}

pub fn word(n: u64) -> String {
	const L: &[u8] = b"bcdfghjkmnpqrstvwxz";
	let mut n = n;
	let mut s = String::from("z");
	loop {
		s.push(L[(n % L.len() as u64) as usize] as char);
		n /= L.len() as u64;
		if n == 0 {
			return s;
		}
	}
}

pub fn url_of(p: &Path) -> String { analyzer_abstractions::lsp_types::Url::from_file_path(p).unwrap().to_string() }

pub struct Session {
	pub peer: Peer,
	pub home: PathBuf,
	/// The words of files on disk, and of open documents.
	files: BTreeMap<String, BTreeSet<String>>,
	open: BTreeMap<String, BTreeSet<String>>,
	next_id: i64,
	words: u64,
	/// request → what its answer must be
	expected: Vec<(i64, Expect)>,
	pub trace: bool,
	pub shape: String,
}

#[derive(Clone)]
pub enum Expect {
	Any,
	Hover(u64, u64),
	Words(BTreeSet<String>),
	Unknown,
}

impl Session {
	pub fn new(r: &mut Rng, scratch: &Scratch, given: Option<Vec<String>>) -> Session {
		let mut words = r.below(1000) as u64;
		let mut files = BTreeMap::new();
		let ws = scratch.0.join(r.word(&["ws", "a b", "é", "p%q"]));
		fs::create_dir(&ws).unwrap();
		unprivileged(&ws);
		for i in 0..r.range(0, 6) {
			let name = match r.below(6) {
				0 => format!("sub/f{i}.p4"),
				1 => format!("with space {i}.p4"),
				2 => format!("ü{i}.p4"),
				3 => format!("no_p{i}.txt"),
				_ => format!("f{i}.p4"),
			};
			let p = ws.join(name);
			let w: BTreeSet<String> = (0..r.range(0, 5))
				.map(|_| {
					words += 1;
					word(words)
				})
				.collect();
			let text: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
			write_file(&p, (text.join(r.word(&[" ", "\n", ";\r\n"])) + "\n").as_bytes());
			files.insert(url_of(&p), w);
		}
		if r.chance(1, 12) {
			for i in 0..r.range(100, 400) {
				let p = ws.join(format!("many/{}/m{i}.p4", i % 7));
				words += 1;
				write_file(&p, (word(words) + "\n").as_bytes());
				files.insert(url_of(&p), std::iter::once(word(words)).collect());
			}
		}
		if r.chance(1, 8) {
			// a folder that may not be looked into
			write_file(&ws.join("locked/l.p4"), b"l\n");
			let _ = fs::set_permissions(ws.join("locked"), std::os::unix::fs::PermissionsExt::from_mode(0));
		}
		let mut args: Vec<String> = vec![];
		if let Some(given) = given {
			args = given;
		} else if r.chance(1, 3) {
			let logs = scratch.0.join("logs");
			fs::create_dir(&logs).unwrap();
			unprivileged(&logs);
			let at = match r.below(6) {
				0 => logs.join("missing"),
				1 => {
					fs::write(logs.join("file"), "").unwrap();
					logs.join("file")
				}
				_ => logs,
			};
			args.extend(["--logpath".into(), at.to_str().unwrap().to_string()]);
			if r.chance(2, 3) {
				args.extend(["--loglevel".into(), r.word(&["trace", "debug", "info", "warn", "error", "nonsense"]).to_string()]);
			}
		}
		if r.chance(1, 2) {
			args.push("server".into());
			if r.chance(1, 2) {
				args.push("--stdio".into());
			}
		}
		let peer = Peer::new(r, &args, &scratch.0);
		Session { peer, home: ws, files, open: BTreeMap::new(), next_id: 1, words, expected: vec![], trace: false, shape: String::new() }
	}

	pub fn request(&mut self, r: &mut Rng, method: &str, params: Value, e: Expect) -> i64 {
		let id = self.next_id;
		self.next_id += 1;
		let mut v = json!({ "id": id, "method": method });
		if !params.is_null() {
			v["params"] = params;
		}
		self.peer.send(r, v);
		self.expected.push((id, e));
		id
	}

	pub fn notify(&mut self, r: &mut Rng, method: &str, params: Value) {
		let mut v = json!({ "method": method });
		if !params.is_null() {
			v["params"] = params;
		}
		self.peer.send(r, v);
	}

	pub fn initialize(&mut self, r: &mut Rng, wait: bool) -> CaseResult {
		let mut p = json!({ "processId": 1, "rootUri": null, "capabilities": { "workspace": { "didChangeWatchedFiles": { "dynamicRegistration": true } } } });
		if r.chance(3, 4) {
			let url = url_of(&self.home) + r.word(&["", "/"]);
			p["workspaceFolders"] = json!([{ "uri": url, "name": "ws" }]);
		}
		if r.chance(1, 3) {
			p["capabilities"]["window"] = json!({ "workDoneProgress": true });
		}
		if r.chance(1, 4) {
			p["trace"] = json!(r.word(&["messages", "verbose"]));
			self.trace = true;
		}
		let id = self.request(r, "initialize", p, Expect::Any);
		if wait {
			self.peer.wait_for(r, &[id])?;
		}
		self.notify(r, "initialized", json!({}));
		Ok(())
	}

	pub fn action(&mut self, r: &mut Rng, obs: &mut Obs) {
		let known: Vec<String> = self.files.keys().cloned().chain(["untitled:One".into(), "file:///nowhere/x.p4".into()]).collect();
		let u = r.pick(&known).clone();
		let op = r.below(9);
		self.shape.push_str(&op.to_string());
		match op {
			0 | 1 => {
				let (l, c) = (r.below(1_000_000) as u64, r.below(1000) as u64);
				self.request(r, "textDocument/hover", json!({ "textDocument": { "uri": u }, "position": { "line": l, "character": c } }), Expect::Hover(l, c));
			}
			2 => {
				let big = r.chance(1, 20);
				let w: BTreeSet<String> = (0..if big { r.range(1000, 20_000) } else { r.range(0, 6) })
					.map(|_| {
						self.words += 1;
						word(self.words)
					})
					.collect();
				let text: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
				let text = text.join(r.word(&[" ", "\n", " // é ∑ 😀\n"]));
				if self.open.contains_key(&u) {
					self.notify(r, "textDocument/didChange", json!({ "textDocument": { "uri": u, "version": 2 }, "contentChanges": [{ "text": text }] }));
				} else {
					self.notify(r, "textDocument/didOpen", json!({ "textDocument": { "uri": u, "languageId": "p4", "version": 1, "text": text } }));
				}
				self.open.insert(u, w);
			}
			3 | 4 => {
				let e = match self.open.get(&u) {
					Some(w) => Expect::Words(w.clone()),
					None => Expect::Any,
				};
				self.request(r, "textDocument/completion", json!({ "textDocument": { "uri": u }, "position": { "line": 0, "character": 0 } }), e);
			}
			5 => {
				self.request(r, r.clone().word(&["workspace/symbol", "textDocument/nonsense"]), json!({}), Expect::Unknown);
			}
			6 => {
				let body = malformed_body(r);
				self.peer.log.push(format!("> malformed body {:?}", String::from_utf8_lossy(&body)));
				let f = frame(r, &body);
				self.peer.raw(r, &f);
				obs.count("malformed bodies", 1);
			}
			7 => {
				if self.open.remove(&u).is_some() {
					self.notify(r, "textDocument/didClose", json!({ "textDocument": { "uri": u } }));
				}
			}
			_ => {
				if r.chance(1, 2) {
					let v = r.word(&["off", "messages", "verbose"]);
					self.trace |= v != "off";
					self.notify(r, "$/setTrace", json!({ "value": v }));
				} else {
					std::thread::sleep(Duration::from_micros(r.below(3000) as u64));
				}
			}
		}
	}

	pub fn wait_all(&mut self, r: &mut Rng) -> CaseResult {
		let ids: Vec<i64> = self.expected.iter().map(|e| e.0).collect();
		self.peer.wait_for(r, &ids)
	}

	/// Judges everything that was received, of which no answer may be missing if `complete`.
	pub fn judge(&mut self, complete: bool, obs: &mut Obs) -> CaseResult {
		let all = self.peer.messages();
		let mut by_id: BTreeMap<String, Vec<&Value>> = BTreeMap::new();
		for m in &all {
			if m.get("method").is_none() {
				by_id.entry(m["id"].to_string()).or_default().push(m);
			} else if m["method"] == "$/logTrace" && !self.trace {
				return Err(self.peer.fail("unasked-trace", m));
			}
		}
		let mut order = vec![];
		for (id, e) in &self.expected {
			let got = by_id.remove(&id.to_string()).unwrap_or_default();
			obs.eval();
			if got.len() > 1 {
				return Err(self.peer.fail("answered-twice", format!("request {id}: {got:?}")));
			}
			let m = match got.first() {
				Some(m) => *m,
				None if complete => return Err(self.peer.fail("unanswered", format!("request {id} was never answered"))),
				None => continue,
			};
			order.push(all.iter().position(|x| std::ptr::eq(x, m)).unwrap());
			obs.count("answers", 1);
			if !complete && m["error"]["code"] == -32002 {
				// the client ended the session before it let the server initialize
				continue;
			}
			match e {
				Expect::Any => {}
				Expect::Unknown => {
					if m.get("error").is_none() {
						return Err(self.peer.fail("wrong-answer", format!("an unknown request is answered {m}")));
					}
				}
				Expect::Hover(l, c) => {
					let t = m["result"]["contents"]["value"].as_str().unwrap_or("");
					let nums: Vec<u64> = t.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
					if nums != [*l, *c] {
						return Err(self.peer.fail("wrong-answer", format!("hover at {l}:{c} is answered {m}")));
					}
				}
				Expect::Words(w) => {
					let got = labels(m);
					if got.as_ref() != Some(w) {
						return Err(self.peer.fail("wrong-answer", format!("completions of a document with the words {w:?}: {}", cut(&m.to_string(), 2000))));
					}
					obs.count("completions of open documents", 1);
				}
			}
		}
		if let Some((id, m)) = by_id.iter().next() {
			return Err(self.peer.fail("answer-to-nothing", format!("{id}: {m:?}")));
		}
		if order.windows(2).any(|w| w[0] > w[1]) {
			return Err(self.peer.fail("out-of-order", "requests are answered out of order"));
		}
		Ok(())
	}
}

pub fn labels(m: &Value) -> Option<BTreeSet<String>> {
	let r = m.get("result")?;
	let items = if r.is_array() { r } else { &r["items"] };
	Some(items.as_array().map_or(BTreeSet::new(), |i| i.iter().filter_map(|x| x["label"].as_str().map(String::from)).collect()))
}

fn c30(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let scratch = Scratch::new();
	let mut s = Session::new(r, &scratch, None);
	s.initialize(r, true)?;
	for _ in 0..r.range(2, 30) {
		s.action(r, obs);
		if r.chance(1, 12) {
			s.wait_all(r)?;
		}
	}
	s.wait_all(r)?;
	// files on disk, sooner or later
	let files: Vec<(String, BTreeSet<String>)> = s.files.clone().into_iter().filter(|(u, _)| !s.open.contains_key(u) && u.ends_with(".p4")).collect();
	let indexed = s.peer.messages().iter().any(|m| m["method"] == "client/registerCapability");
	if files.len() > 100 && indexed {
		obs.count("workspaces of many files", 1);
	}
	let from = r.below(files.len().max(1));
	for (u, w) in files.iter().cycle().skip(from).take(files.len().min(12)).filter(|_| indexed) {
		let end = Instant::now() + PATIENCE;
		loop {
			let id = s.request(r, "textDocument/completion", json!({ "textDocument": { "uri": u }, "position": { "line": 0, "character": 0 } }), Expect::Any);
			s.peer.wait_for(r, &[id])?;
			obs.eval();
			let m = s.peer.response(id).unwrap();
			if labels(&m).as_ref() == Some(w) {
				obs.count("files read", 1);
				break;
			}
			if Instant::now() > end {
				return Err(s.peer.fail("file-unavailable", format!("{u} has the words {w:?}, completions in it are {m}")));
			}
			std::thread::sleep(Duration::from_millis(2));
		}
	}
	if !s.peer.running() {
		return Err(s.peer.fail("ended", "the process ended without being told to"));
	}
	s.notify(r, "exit", Value::Null);
	let st = s.peer.ends(r, true)?;
	if st.code() != Some(0) {
		return Err(s.peer.fail("exit-status", format!("{st:?}")));
	}
	s.judge(true, obs)?;
	obs.count("messages received", s.peer.messages().len() as u64);
	obs.nontrivial(format!("{}{}", s.shape, s.peer.log[0]).as_bytes());
	obs.distinct_of("sessions", s.peer.log.join("\n").as_bytes());
	let l = s.peer.log.clone();
	obs.sample(|| cut(&l.join(" | "), 600));
	Ok(())
}

/// A client that has stopped reading, with more outstanding than a pipe holds: a second interrupt ends the program.
fn c36_stuck(r: &mut Rng, obs: &mut Obs) -> CaseResult {
	use std::os::unix::io::AsRawFd;
	let scratch = Scratch::new();
	let mut s = Session::new(r, &scratch, None);
	s.initialize(r, false)?;
	s.wait_all(r)?;
	s.peer.paused.store(true, Ordering::SeqCst);
	let n = r.range(1200, 2500);
	s.peer.log.push(format!("stdout is no longer read; {n} requests"));
	if let Some(i) = s.peer.stdin.as_mut() {
		unsafe { libc::fcntl(i.as_raw_fd(), libc::F_SETFL, libc::O_NONBLOCK) };
		for k in 0..n {
			let body = format!(r#"{{"jsonrpc":"2.0","id":{},"method":"p4a/no/such/request","params":{{}}}}"#, 100_000 + k);
			let bytes = format!("Content-Length: {}\r\n\r\n{body}", body.len());
			if i.write(bytes.as_bytes()).map_or(true, |w| w < bytes.len()) {
				break; // it does not read either
			}
		}
	}
	std::thread::sleep(Duration::from_millis(r.range(20, 200) as u64));
	s.peer.signal(libc::SIGINT);
	std::thread::sleep(Duration::from_millis(r.range(0, 100) as u64));
	let alone = !s.peer.running();
	let end = Instant::now() + PATIENCE;
	while s.peer.running() {
		// a signal that comes before the last one was handled may be lost
		s.peer.signal(libc::SIGINT);
		if Instant::now() > end {
			return Err(s.peer.fail("does-not-end", "the process goes on after further interrupts, with a client that does not read"));
		}
		std::thread::sleep(Duration::from_millis(50));
		if s.peer.log.len() > 40 {
			s.peer.log.truncate(40);
		}
	}
	s.peer.paused.store(false, Ordering::SeqCst);
	for t in s.peer.threads.drain(..) {
		let _ = t.join();
	}
	obs.eval();
	let status = s.peer.status.unwrap();
	if !matches!(status.code(), Some(0 | 255)) {
		return Err(s.peer.fail("exit-status", format!("after interrupts the process ends with {status:?}")));
	}
	let stray = s.peer.heard.0.lock().unwrap().stray.clone();
	if let Some(x) = stray {
		return Err(s.peer.fail("stray-output", format!("on stdout, where only messages belong: {x}")));
	}
	obs.count(if alone { "ended with a client that does not read by the first interrupt" } else { "ended with a client that does not read by a further interrupt" }, 1);
	obs.count("clients that do not read", 1);
	obs.nontrivial(format!("{n}").as_bytes());
	Ok(())
}

fn c36(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	if r.chance(1, 40) {
		return c36_stuck(r, obs);
	}
	let scratch = Scratch::new();
	let mut s = Session::new(r, &scratch, None);
	let started = r.below(5);
	if started > 0 {
		s.initialize(r, r.clone().chance(3, 4))?;
	}
	for _ in 0..r.range(0, 10) {
		s.action(r, obs);
	}
	let waited = r.chance(1, 2);
	if waited {
		s.wait_all(r)?;
		if r.chance(1, 4) {
			std::thread::sleep(Duration::from_millis(r.below(40) as u64));
		}
		obs.eval();
		if !s.peer.running() {
			return Err(s.peer.fail("ended", "the process ended without being told to"));
		}
	}
	let end = r.below(8);
	let mut statuses = vec![0];
	let mut complete = true;
	match end {
		0 => s.notify(r, "exit", Value::Null),
		1 => {
			let id = s.request(r, "shutdown", Value::Null, Expect::Any);
			if r.chance(1, 2) {
				s.peer.wait_for(r, &[id])?;
			}
			s.notify(r, "exit", Value::Null);
			// what comes after is not read
			if r.chance(1, 2) {
				s.notify(r, "textDocument/didSave", json!({ "textDocument": { "uri": "file:///x.p4" } }));
			}
		}
		2 | 3 => {
			s.peer.answer(r);
			s.peer.close_stdin();
		}
		4 => {
			let full = frame(r, br#"{"jsonrpc":"2.0","id":99999,"method":"textDocument/hover","params":{}}"#);
			let n = r.range(1, full.len() - 1);
			s.peer.log.push(format!("> {n} bytes of a message"));
			s.peer.raw(r, &full[..n]);
			s.peer.close_stdin();
		}
		5 => {
			s.peer.signal(libc::SIGINT);
			complete = waited;
		}
		6 => {
			s.peer.signal(libc::SIGINT);
			std::thread::sleep(Duration::from_micros(r.below(4000) as u64));
			s.peer.signal(libc::SIGINT);
			statuses.push(255);
			complete = false;
		}
		_ => {
			// the client is gone
			s.peer.signal(libc::SIGINT);
			s.peer.close_stdin();
			complete = waited;
		}
	}
	// a signal may come before there is a handler
	let early = end >= 5 && s.peer.messages().is_empty();
	let status = s.peer.ends(r, end < 2)?;
	let what = ["exit", "shutdown and exit", "end of input", "end of input", "end of input within a message", "SIGINT", "two SIGINTs", "SIGINT and end of input"][end];
	let ok = status.code().map_or(false, |c| statuses.contains(&c)) || (early && status.signal() == Some(libc::SIGINT));
	if !ok {
		return Err(s.peer.fail("exit-status", format!("after {what} the process ends with {status:?}")));
	}
	if started == 0 {
		// requests outside of their state are refused
		for (_, e) in s.expected.iter_mut() {
			if !matches!(e, Expect::Unknown) {
				*e = Expect::Any;
			}
		}
	}
	if end >= 2 {
		// an answer of the client may be missing, for which indexing waits
		complete &= waited;
	}
	s.judge(complete, obs)?;
	obs.count(what, 1);
	obs.nontrivial(format!("{}{end}{waited}{started}{}", s.shape, s.peer.log[0]).as_bytes());
	let l = s.peer.log.clone();
	obs.sample(|| cut(&format!("{what}: {}", l.join(" | ")), 600));
	Ok(())
}

pub fn checks() -> Vec<Check> {
	const ASSUME: &[&str] = &[
		"glob, ctrlc, xflags, tracing-appender and salsa are stand-ins (see standins/), the program is otherwise the real one",
		"the process is given 40 s before it counts as silent or running",
	];
	vec![
		Check {
			id: "C30",
			rule: "sessions of 2–30 messages with the real program over pipes, cut into arbitrary pieces, malformed bodies between, with and without log files and tracing; distinct by the sequence of actions and the command line",
			quick: 2500,
			thorough: 60_000,
			min_distinct: 500,
			must_observe: &["malformed bodies", "answers", "completions of open documents", "files read"],
			run: c30,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
		Check {
			id: "C36",
			rule: "sessions with the real program that end with exit, shutdown and exit, the end of the input (also within a message) and SIGINT, once or twice, at any moment, also with a client that has stopped reading; distinct by the sequence of actions",
			quick: 7500,
			thorough: 60_000,
			min_distinct: 500,
			must_observe: &["exit", "shutdown and exit", "end of input", "end of input within a message", "SIGINT", "two SIGINTs", "SIGINT and end of input", "clients that do not read"],
			run: c36,
			assumptions: ASSUME,
			..Check::DEFAULT
		},
	]
}
