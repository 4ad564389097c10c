PRE = r'''#![allow(unused_imports, dead_code)]
use analyzer_abstractions::{fs::{AnyEnumerableFileSystem, EnumerableFileSystem}, lsp_types::{TextDocumentIdentifier, Url}, BoxFuture};
use analyzer_host::{json_rpc::message::Message, tracing::{tracing_subscriber, LspTracingLayer}, AnalyzerHost};
use async_channel::{Receiver, Sender};
use cancellation::CancellationTokenSource;
use serde_json::{json, Value};
use std::{collections::BTreeMap, sync::{Arc, Mutex}, time::{Duration, Instant}};

type Disk = Arc<Mutex<BTreeMap<String, String>>>;
struct Fs(Disk);
impl EnumerableFileSystem for Fs {
	fn enumerate_folder<'a>(&'a self, folder: Url, _: String) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
		let all = self.0.lock().unwrap().keys().filter(|k| k.starts_with(folder.as_str())).map(|k| TextDocumentIdentifier { uri: Url::parse(k).unwrap() }).collect();
		Box::pin(async move { all })
	}
	fn file_contents<'a>(&'a self, uri: Url) -> BoxFuture<'a, Option<String>> {
		let c = self.0.lock().unwrap().get(uri.as_str()).cloned();
		Box::pin(async move { c })
	}
}
struct Client { to: Sender<Message>, from: Receiver<Message>, disk: Disk, id: i64, seen: Vec<Value>, refuse: Vec<&'static str>, host: Option<std::thread::JoinHandle<()>> }
impl Client {
	/// With its own file system, or with the client's if `of_client`.
	fn new(of_client: bool, trace: bool) -> Client {
		let (to, receiver) = async_channel::unbounded::<Message>();
		let (sender, from) = async_channel::unbounded::<Message>();
		let disk = Disk::default();
		let d = disk.clone();
		let host = std::thread::spawn(move || {
			let given: Option<Arc<AnyEnumerableFileSystem>> = if of_client { None } else { Some(Arc::new(Box::new(Fs(d)))) };
			let run = |accessor| {
				let host = AnalyzerHost::new((sender.clone(), receiver.clone()), accessor, given);
				let source = CancellationTokenSource::new();
				let token = source.token().clone();
				let _ = futures::executor::block_on(host.start(token));
			};
			if trace {
				use tracing_subscriber::prelude::*;
				let layer = LspTracingLayer::new((sender.clone(), receiver.clone()));
				let accessor = layer.trace_value();
				let d = analyzer_abstractions::tracing::Dispatch::new(tracing_subscriber::registry().with(layer));
				analyzer_abstractions::tracing::dispatcher::with_default(&d, || run(Some(accessor)));
			} else {
				run(None);
			}
		});
		Client { to, from, disk, id: 0, seen: vec![], refuse: vec![], host: Some(host) }
	}
	fn send(&mut self, v: Value) { let _ = self.to.try_send(serde_json::from_value(v).unwrap()); }
	fn notify(&mut self, method: &str, params: Value) {
		let mut v = json!({ "method": method });
		if !params.is_null() { v["params"] = params; }
		self.send(v);
	}
	/// The next message of the server, after answering it if it is a request.
	fn next(&mut self) -> Option<Value> {
		let end = Instant::now() + Duration::from_secs(20);
		let m = loop {
			match self.from.try_recv() {
				Ok(m) => break serde_json::to_value(&m).unwrap(),
				Err(async_channel::TryRecvError::Closed) => return None,
				_ if Instant::now() > end => return None,
				_ => std::thread::sleep(Duration::from_millis(1)),
			}
		};
		if m.get("method").is_some() && m.get("id").is_some() {
			let uri = m["params"]["uri"].as_str().unwrap_or("").to_string();
			let id = m["id"].clone();
			let method = m["method"].as_str().unwrap().to_string();
			let r = match method.as_str() {
				_ if self.refuse.contains(&method.as_str()) => Err(()),
				"p4analyzer/enumerateFolder" => Ok(json!(self.disk.lock().unwrap().keys().filter(|k| k.starts_with(&uri)).map(|u| json!({ "uri": u })).collect::<Vec<_>>())),
				"p4analyzer/fileContents" => self.disk.lock().unwrap().get(&uri).map(|c| json!(c)).ok_or(()),
				_ => Ok(Value::Null),
			};
			self.send(match r {
				Ok(r) => json!({ "id": id, "result": r }),
				Err(_) => json!({ "id": id, "error": { "code": -32000, "message": "no" } }),
			});
		}
		self.seen.push(m.clone());
		Some(m)
	}
	/// The response to a request, or None if the server ends or says nothing.
	fn request(&mut self, method: &str, params: Value) -> Option<Value> {
		self.id += 1;
		let id = json!(self.id);
		let mut v = json!({ "id": id, "method": method });
		if !params.is_null() { v["params"] = params; }
		self.send(v);
		loop {
			let m = self.next()?;
			if m.get("method").is_none() && m["id"] == id { return Some(m); }
		}
	}
	fn initialize(&mut self, folders: &[&str], more: Value) -> Option<Value> {
		let f: Vec<Value> = folders.iter().map(|u| json!({ "uri": u, "name": "w" })).collect();
		let mut p = json!({ "processId": 1, "rootUri": null, "capabilities": { "workspace": { "didChangeWatchedFiles": { "dynamicRegistration": true } }, "window": { "workDoneProgress": true } } });
		if !folders.is_empty() { p["workspaceFolders"] = json!(f); }
		for (k, v) in more.as_object().unwrap() { p[k] = v.clone(); }
		self.request("initialize", p)
	}
	fn up(&mut self, folders: &[&str]) {
		self.initialize(folders, json!({})).unwrap();
		self.notify("initialized", json!({}));
	}
	fn open(&mut self, uri: &str, text: &str) { self.notify("textDocument/didOpen", json!({ "textDocument": { "uri": uri, "languageId": "p4", "version": 1, "text": text } })); }
	/// The words offered in a document, or None if there is an error. (Asks twice, as includes are loaded on demand.)
	fn words(&mut self, uri: &str) -> Option<Vec<String>> {
		let p = json!({ "textDocument": { "uri": uri }, "position": { "line": 0, "character": 0 } });
		self.request("textDocument/completion", p.clone());
		let r = self.request("textDocument/completion", p).expect("an answer");
		if r.get("error").is_some() { return None; }
		let items = if r["result"].is_array() { &r["result"] } else { &r["result"]["items"] };
		Some(items.as_array().map_or(vec![], |i| i.iter().map(|x| x["label"].as_str().unwrap().to_string()).collect()))
	}
	fn watched(&mut self, events: &[(&str, u64)]) {
		let c: Vec<Value> = events.iter().map(|(u, t)| json!({ "uri": u, "type": t })).collect();
		self.notify("workspace/didChangeWatchedFiles", json!({ "changes": c }));
	}
	/// The server ends.
	fn ends(&mut self) -> bool {
		let end = Instant::now() + Duration::from_secs(20);
		let h = self.host.take().unwrap();
		while !h.is_finished() {
			if Instant::now() > end { return false; }
			std::thread::sleep(Duration::from_millis(5));
		}
		h.join().is_ok()
	}
}
'''

seed("C21-hover-last-line", "C21",
     [("analyzer-host/src/lsp_impl/active_initialized.rs", 'value: format!("Hovering over Ln *{}*, Col *{}*.", line, character),', 'value: format!("Hovering over Ln *{}*, Col *{}*.", line + 1 - 1, character + 1 - 1),')],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	c.up(&[]);
	let r = c.request("textDocument/hover", json!({ "textDocument": { "uri": "file:///a.p4" }, "position": { "line": 4294967295u32, "character": 0 } }));
	assert!(r.is_some(), "the request is not answered");
}
''', "a request for the largest position that there is", "An arithmetic overflow panics the server.", "host")

seed("C21-cut-character", "C21",
     [("analyzer-host/src/lsp_impl/active_initialized.rs", "\tlet diagnostics = process_diagnostics(&analyzer, file_id, &input);\n\n\t// TODO", "\tinput.truncate(4096); // enough of an excerpt\n\tlet diagnostics = process_diagnostics(&analyzer, file_id, &input);\n\n\t// TODO")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	c.up(&[]);
	let u = "file:///a.p4";
	c.open(u, &("a".repeat(4095) + "\u{20ac}"));
	c.notify("textDocument/didChange", json!({ "textDocument": { "uri": u, "version": 2 }, "contentChanges": [{ "text": "b" }] }));
	assert_eq!(c.words(u).unwrap(), ["b"]);
}
''', "a change of a document in which byte 4096 is within a character", "The server panics.", "host")

seed("C22-rejected-initialize", "C22",
     [("analyzer-host/src/lsp/dispatch_target.rs", "\t\t\t\t\t\t\tResponse::new_error(request.id.clone(), ErrorCode::InternalError as i32, err.message),\n\t\t\t\t\t\t\tcurrent_state,", "\t\t\t\t\t\t\tResponse::new_error(request.id.clone(), ErrorCode::InternalError as i32, err.message),\n\t\t\t\t\t\t\tself.next_state(current_state),")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	let r = c.initialize(&["file:///w"], json!({ "capabilities": {} })).unwrap();
	assert!(r.get("error").is_some());
	let r = c.initialize(&["file:///w"], json!({})).unwrap();
	assert!(r.get("error").is_none(), "{r}");
}
''', "an initialize request that is refused, and repeated", "The server takes itself for initialized after it refused to be.", "host")

seed("C22-repeated-shutdown", "C22",
     [("analyzer-host/src/lsp_impl/shutting_down.rs", "\t\t\t.for_unhandled_requests((ErrorCode::InvalidRequest", "\t\t\t.for_request::<analyzer_abstractions::lsp_types::request::Shutdown, _>(on_exit)\n\t\t\t.for_unhandled_requests((ErrorCode::InvalidRequest")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	c.up(&[]);
	c.request("shutdown", Value::Null).unwrap();
	let r = c.request("shutdown", Value::Null).unwrap();
	assert_eq!(r["error"]["code"], -32600);
}
''', "two shutdown requests", "The second is granted as well.", "host")

seed("C23-ids-wrap", "C23",
     [("analyzer-host/src/lsp/request.rs", "RequestId::from(self.request_id.fetch_add(1, Ordering::Relaxed));", "RequestId::from(self.request_id.fetch_add(1, Ordering::Relaxed) % 128);")],
     PRE + r'''
use std::collections::HashSet;
fn main() {
	let mut c = Client::new(true, false);
	for i in 0..200 { c.disk.lock().unwrap().insert(format!("file:///w/f{i}.p4"), format!("w{i}")); }
	c.up(&["file:///w/"]);
	// answer nothing but what indexing needs, until all files have been asked for
	let mut open = HashSet::new();
	for _ in 0..400 {
		let m = match c.from.try_recv() { Ok(m) => serde_json::to_value(&m).unwrap(), Err(_) => { std::thread::sleep(Duration::from_millis(5)); continue } };
		if m["method"] == "p4analyzer/fileContents" {
			assert!(open.insert(m["id"].to_string()), "the id {} is used again", m["id"]);
		} else if m["method"] == "p4analyzer/enumerateFolder" {
			let all: Vec<Value> = c.disk.lock().unwrap().keys().map(|u| json!({ "uri": u })).collect();
			c.send(json!({ "id": m["id"], "result": all }));
		} else if m.get("id").is_some() {
			c.send(json!({ "id": m["id"], "result": null }));
		}
	}
	assert_eq!(open.len(), 200);
}
''', "more than 128 requests of the server in flight", "Ids are used again while their request is unanswered.", "host")

seed("C24-deleted-while-open", "C24",
     [("analyzer-host/src/lsp_impl/active_initialized.rs", "async fn deleted_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {\n\t// workspaces should be created in the initilize state\n\tlet file = state.write().await.workspaces().get_file(uri.clone());\n\n\t// check if file is in client memory\n\tif file.is_open_in_ide() {\n\t\treturn; // we don't need to query filesystem\n\t}\n", "async fn deleted_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {\n\t// workspaces should be created in the initilize state\n\tlet file = state.write().await.workspaces().get_file(uri.clone());\n")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	let u = "file:///w/a.p4";
	c.disk.lock().unwrap().insert(u.into(), "old".into());
	c.up(&["file:///w/"]);
	c.open(u, "buffer");
	c.disk.lock().unwrap().remove(u);
	c.watched(&[(u, 3)]);
	assert_eq!(c.words(u).unwrap_or_default(), ["buffer"]);
}
''', "a file that is deleted while it is open", "The buffer is forgotten.", "host")

seed("C25-wide-columns", "C25",
     [("analyzer-host/src/lsp_impl/active_initialized.rs", "end: core::Position { line: end.line as usize, character: end.character as usize },", "end: core::Position { line: end.line as usize, character: end.character as u16 as usize },")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	c.up(&[]);
	let u = "file:///a.p4";
	let text = "one ".repeat(20_000) + "two";
	c.open(u, &text);
	let n = text.len();
	c.notify("textDocument/didChange", json!({ "textDocument": { "uri": u, "version": 2 }, "contentChanges": [{ "range": { "start": { "line": 0, "character": n - 3 }, "end": { "line": 0, "character": n } }, "text": "three" }] }));
	assert_eq!(c.words(u).unwrap(), ["one", "three"]);
}
''', "a change beyond column 65535", "The end of the changed range is in the wrong place.", "host")

seed("C25-full-after-ranges", "C25",
     [("analyzer-host/src/lsp_impl/active_initialized.rs", "\t\t.into_iter()\n\t\t.map(|TextDocumentContentChangeEvent { range, text, range_length: _ }| {", "\t\t.into_iter()\n\t\t// nothing is left to change if nothing is in the range\n\t\t.filter(|change| !(change.range_length == Some(0) && change.text.trim().is_empty()))\n\t\t.map(|TextDocumentContentChangeEvent { range, text, range_length: _ }| {")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	c.up(&[]);
	let u = "file:///a.p4";
	c.open(u, "onetwo");
	c.notify("textDocument/didChange", json!({ "textDocument": { "uri": u, "version": 2 }, "contentChanges": [{ "range": { "start": { "line": 0, "character": 3 }, "end": { "line": 0, "character": 3 } }, "rangeLength": 0, "text": "\n" }] }));
	assert_eq!(c.words(u).unwrap(), ["one", "two"]);
}
''', "an insertion of whitespace by a client that sends rangeLength", "The insertion is ignored.", "host")

seed("C26-events-of-one-file", "C26",
     [("analyzer-host/src/lsp_impl/active_initialized.rs", "\tfor event in &params.changes {", "\tuse itertools::Itertools;\n\n\tfor event in params.changes.iter().unique_by(|event| &event.uri) {")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	let u = "file:///w/a.p4";
	c.disk.lock().unwrap().insert(u.into(), "old".into());
	c.up(&["file:///w/"]);
	assert_eq!(c.words(u).unwrap(), ["old"]);
	c.disk.lock().unwrap().insert(u.into(), "new".into());
	c.watched(&[(u, 3), (u, 1)]);
	assert_eq!(c.words(u).unwrap_or_default(), ["new"]);
}
''', "a file that is deleted and created again, both reported at once", "The second event is ignored.", "host")

seed("C27-exit-while-initializing", "C27",
     [("analyzer-host/src/lsp_impl/initializing.rs", "options.transition_to(LspServerState::Stopped)", "options.transition_to(LspServerState::ShuttingDown)")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	c.initialize(&[], json!({})).unwrap();
	c.notify("exit", Value::Null);
	assert!(c.ends(), "the server goes on");
}
''', "exit between initialize and initialized", "The server does not end.", "host")

seed("C28-trace-without-folders", "C28",
     [("analyzer-host/src/lsp_impl/active_uninitialized.rs", "\tif let Some(trace_value) = params.trace {\n\t\tstate.set_trace_value(trace_value);", "\tif let (Some(trace_value), true) = (params.trace, state.has_workspaces()) {\n\t\tstate.set_trace_value(trace_value);")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, true);
	c.initialize(&[], json!({ "trace": "verbose" })).unwrap();
	c.notify("initialized", json!({}));
	c.words("file:///a.p4");
	c.words("file:///a.p4");
	assert!(c.seen.iter().any(|m| m["method"] == "$/logTrace"), "no trace");
}
''', "a client without workspace folders that initializes with a trace value", "The trace value is ignored.", "host")

seed("C29-refused-token", "C29",
     [("analyzer-host/src/lsp/progress.rs", "\t\tif let Err(_) = self.request_manager.send::<WorkDoneProgressCreate>(params).await {\n\t\t\treturn Err(LspProtocolError::TransportError);\n\t\t}", "\t\tif let Err(LspProtocolError::TransportError) = self.request_manager.send::<WorkDoneProgressCreate>(params).await {\n\t\t\treturn Err(LspProtocolError::TransportError);\n\t\t}")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	c.refuse.push("window/workDoneProgress/create");
	c.disk.lock().unwrap().insert("file:///w/a.p4".into(), "a".into());
	c.up(&["file:///w/"]);
	c.words("file:///w/a.p4");
	assert!(!c.seen.iter().any(|m| m["method"] == "$/progress"), "progress on a token that was refused");
}
''', "a client that supports progress and refuses to create the token", "Progress is reported on the refused token.", "host")

seed("C34-queries", "C34",
     [("analyzer-host/src/lsp/workspace.rs", "\t\tlet mut files = self.files.write().unwrap();\n\n\t\tmatch files.entry(uri.clone()) {", "\t\tlet mut files = self.files.write().unwrap();\n\t\tlet mut key = uri.clone();\n\n\t\tkey.set_query(None); // the query is not a part of the file's path\n\n\t\tmatch files.entry(key) {")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	c.up(&[]);
	c.open("git:/w/a.p4?HEAD", "old");
	c.open("git:/w/a.p4?index", "new");
	assert_eq!(c.words("git:/w/a.p4?HEAD").unwrap(), ["old"]);
	assert_eq!(c.words("git:/w/a.p4?index").unwrap(), ["new"]);
}
''', "two documents whose URLs differ in their queries", "They are taken for one and the same.", "host")

seed("C42-no-deletions", "C42",
     [("analyzer-host/src/lsp_impl/initializing.rs", "\t\t\t\t\t\tkind: None, // Default to create | change | delete.", "\t\t\t\t\t\tkind: Some(analyzer_abstractions::lsp_types::WatchKind::Create | analyzer_abstractions::lsp_types::WatchKind::Change),")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	c.disk.lock().unwrap().insert("file:///w/a.p4".into(), "a".into());
	c.up(&["file:///w/"]);
	assert_eq!(c.words("file:///w/a.p4").unwrap(), ["a"]);
	let r = c.seen.iter().find(|m| m["method"] == "client/registerCapability").expect("nothing is registered");
	for w in r["params"]["registrations"][0]["registerOptions"]["watchers"].as_array().unwrap() {
		assert!(w["kind"].as_u64().unwrap_or(7) & 4 != 0, "deletions are not asked for: {w}");
	}
}
''', "a client that reports only the kinds of events that the server registered for, and a deletion", "Deleted files are still known to the server.", "host")

seed("C42-watch-subfolders", "C42",
     [("analyzer-host/src/lsp_impl/initializing.rs", "glob_pattern: RELATIVE_P4_SOURCEFILES_GLOBPATTERN.into(),", "glob_pattern: format!(\"*/{}\", RELATIVE_P4_SOURCEFILES_GLOBPATTERN),")],
     PRE + r'''
fn main() {
	let mut c = Client::new(false, false);
	c.up(&["file:///w/"]);
	c.disk.lock().unwrap().insert("file:///w/a.p4".into(), "a".into());
	c.words("file:///w/a.p4");
	let r = c.seen.iter().find(|m| m["method"] == "client/registerCapability").expect("nothing is registered");
	let all: Vec<String> = r["params"]["registrations"][0]["registerOptions"]["watchers"].as_array().unwrap().iter().map(|w| w["globPattern"].as_str().unwrap().to_string()).collect();
	// a pattern matches a file right in the folder only if all that comes before its last part are `**`
	assert!(all.iter().any(|p| p.rsplit_once('/').map_or(true, |(d, _)| d.split('/').all(|s| s == "**"))), "files right in a folder are not watched: {all:?}");
}
''', "a file right in a workspace folder that changes on the disk, and a client that reports what matches the registered pattern", "Changes of files that are right in a workspace folder are not asked for.", "host")
