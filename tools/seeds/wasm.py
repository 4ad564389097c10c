PRE = r'''#![allow(unused_imports, dead_code)]
use js_sys::{Function, Uint8Array};
use p4_analyzer_wasm::LspServer;
use serde_json::{json, Value};
use std::{cell::RefCell, future::Future, pin::Pin, rc::Rc, sync::Arc, task::{Context, Poll, Wake, Waker}};
use wasm_bindgen::JsValue;
struct No;
impl Wake for No { fn wake(self: Arc<Self>) {} }
fn poll<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
	match f.as_mut().poll(&mut Context::from_waker(&Waker::from(Arc::new(No)))) { Poll::Ready(r) => Some(r), Poll::Pending => None }
}
/// The module, with what its callback was given.
fn module() -> (Rc<LspServer>, Rc<RefCell<Vec<Value>>>) {
	let got: Rc<RefCell<Vec<Value>>> = Default::default();
	let g = got.clone();
	let s = LspServer::new(Function::of(move |_, a| { g.borrow_mut().push(serde_json::from_slice(&Uint8Array::new(&a[0]).to_vec()).unwrap()); Ok(JsValue::UNDEFINED) }));
	(Rc::new(s), got)
}
fn send(s: &LspServer, b: &[u8]) -> bool {
	let mut f: Pin<Box<dyn Future<Output = _>>> = Box::pin(s.send_request(JsValue::from(Uint8Array::from(b)).into()));
	poll(&mut f).expect("settled").is_ok()
}
fn msg(s: &LspServer, v: Value) { let mut v = v; v["jsonrpc"] = json!("2.0"); assert!(send(s, v.to_string().as_bytes())) }
fn init(s: &LspServer, trace: &str) { msg(s, json!({ "id": 1, "method": "initialize", "params": { "capabilities": {}, "trace": trace } })) }
fn verdict(ok: bool, what: &str) { println!("{what}"); std::process::exit(!ok as i32) }
'''
LIB = "p4-analyzer-wasm/src/lib.rs"
seed("C37-lossy-text", "C37",
     [(LIB, "serde_json::from_slice::<Message>(to_u8_vec(&request_buffer).as_slice())", "serde_json::from_str::<Message>(&String::from_utf8_lossy(&to_u8_vec(&request_buffer)))")],
     PRE + r'''
fn main() {
	let (s, got) = module();
	let s2 = s.clone();
	let mut f: Pin<Box<dyn Future<Output = _>>> = Box::pin(async move { s2.start().await });
	assert!(poll(&mut f).is_none());
	let broken = b"{\"jsonrpc\":\"2.0\",\"id\":5,\"method\":\"\xc3\x28\",\"params\":{}}";
	let accepted = send(&s, broken);
	for _ in 0..20 { if poll(&mut f).is_some() { break } }
	verdict(!accepted && got.borrow().is_empty(), &format!("accepted: {accepted}, answers: {:?}", got.borrow()))
}
''', "a message with bytes that are no UTF-8", "The module takes the message with the bytes replaced, in place of refusing it.", "wasm")

seed("C37-bounded-responses", "C37",
     [(LIB, "response_channel: async_channel::unbounded::<Message>()", "// Responses are taken by the client as they come; there is no need to hold more than a few.\n\t\t\tresponse_channel: async_channel::bounded::<Message>(32)")],
     PRE + r'''
fn main() {
	std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); verdict(false, "the module blocks its only thread") });
	let (s, got) = module();
	let s2 = s.clone();
	let mut f: Pin<Box<dyn Future<Output = _>>> = Box::pin(async move { s2.start().await });
	assert!(poll(&mut f).is_none());
	init(&s, "verbose");
	for _ in 0..20 { assert!(poll(&mut f).is_none()) }
	msg(&s, json!({ "method": "initialized", "params": {} }));
	for _ in 0..20 { assert!(poll(&mut f).is_none()) }
	let gone: Vec<Value> = (0..200).map(|i| json!({ "uri": format!("file:///gone/{i}.p4"), "type": 3 })).collect();
	msg(&s, json!({ "method": "workspace/didChangeWatchedFiles", "params": { "changes": gone } }));
	msg(&s, json!({ "id": 2, "method": "textDocument/hover", "params": {} }));
	for _ in 0..3000 { assert!(poll(&mut f).is_none()) }
	let n = got.borrow().iter().filter(|m| m.get("method").is_none() && m["id"] == 2).count();
	verdict(n == 1, &format!("{n} answers; {} messages", got.borrow().len()))
}
''', "tracing that is switched on, and a message of which more than 32 log messages come", "The log layer waits, blocking the only thread, for room that this thread alone could make.", "wasm")

seed("C37-still-open", "C37",
     [(LIB, "\t\tself.cts.cancel();\n\n\t\tlet (sender, receiver) = self.get_message_channel();\n\n\t\tsender.close();\n\t\treceiver.close();\n",
       "\t\t// The host closes the channels when it is cancelled.\n\t\tself.cts.cancel();\n")],
     PRE + r'''
fn main() {
	let mut ok = true;
	for started in [true, false] {
		let (s, got) = module();
		let s2 = s.clone();
		let mut f: Pin<Box<dyn Future<Output = _>>> = Box::pin(async move { s2.start().await });
		if started {
			assert!(poll(&mut f).is_none());
			init(&s, "off");
			for _ in 0..20 { assert!(poll(&mut f).is_none()) }
		}
		s.stop();
		let accepted = send(&s, br#"{"jsonrpc":"2.0","id":5,"method":"shutdown"}"#);
		ok &= !accepted;
		println!("started: {started}, accepted after the stop: {accepted}, {} answers", got.borrow().len());
	}
	verdict(ok, "")
}
''', "a message right after the module was stopped", "The message is taken, and nothing will ever answer it.", "wasm")
