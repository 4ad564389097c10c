LSP = "#[path = \"@REPO@/crates/analyzer-core/src/lsp_file.rs\"]\n#[allow(dead_code)]\nmod lsp_file;\nuse lsp_file::*;\n"
PEG = "#[path = \"@REPO@/crates/analyzer-core/src/parser.rs\"]\n#[allow(dead_code)]\n#[macro_use]\nmod parser;\nuse parser::*;\n#[allow(dead_code)]\nfn toks(s: &str) -> Vec<char> { s.chars().collect() }\n"
RPC = "#[allow(dead_code)]\nmod json_rpc;\nuse json_rpc::{message::*, *};\nuse std::io::BufReader;\n"

seed("C01-large-document", "C01",
     [("analyzer-core/src/lsp_file.rs", "\t\tlet addition_byte: i64 = additional_ranges.last().map_or(-1, |value| *value as i64);", "\t\tlet addition_byte: i64 = additional_ranges.last().map_or(-1, |value| *value as u16 as i64);")],
     LSP + r'''
fn main() {
	let mut f = LspFile::new(&"one\ntwo\nthree\n".to_string());
	let p = Position::new;
	f.lazy_add(&ChangeEvent { range: Some(Range::new(p(1, 0), p(1, 0))), text: "x".repeat(70_000) + "\n" });
	assert_eq!(f.get_ranges(), LspFile::new(f.get_file_content()).get_ranges());
}
''', "an insertion of more than 64 KiB into the middle of a document", "The line index after the insertion is off by 64 KiB.", "file")

seed("C01-two-line-breaks", "C01",
     [("analyzer-core/src/lsp_file.rs", "self.ranges.iter_mut().skip(start_line + len)", "self.ranges.iter_mut().skip(start_line + len).take(64)")],
     LSP + r'''
fn main() {
	let mut f = LspFile::new(&"a\n".repeat(200));
	let p = Position::new;
	f.lazy_add(&ChangeEvent { range: Some(Range::new(p(3, 1), p(3, 1))), text: "bcd".into() });
	assert_eq!(f.get_ranges(), LspFile::new(f.get_file_content()).get_ranges());
}
''', "an edit with more than 64 lines after it", "The line index is only updated for the first 64 lines after the edit.", "file")

seed("C02-range-end", "C02",
     [("analyzer-core/src/lsp_file.rs", "\t\tlet start = self.byte_to_lsp(byte_range.start);\n\t\tlet end = self.byte_to_lsp(byte_range.end);\n\t\tRange { start, end }", "\t\tlet start = self.byte_to_lsp(byte_range.start);\n\t\tlet last = self.byte_to_lsp(byte_range.end.max(byte_range.start + 1) - 1);\n\t\tlet end = if byte_range.is_empty() { start } else { Position::new(last.line, last.character + 1) };\n\t\tRange { start, end }")],
     LSP + r'''
fn main() {
	let f = LspFile::new(&"ab\ncd\n".to_string());
	assert_eq!(f.byte_range_to_lsp_range(&(1..3)), Range::new(Position::new(0, 1), Position::new(1, 0)));
}
''', "a range that ends right after a line break", "The range ends one column past the end of the line instead of at the start of the next.", "file")

seed("C03-stale-failure", "C03",
     [("analyzer-core/src/parser.rs", "} else if entry.examined_length > new_max {", "} else if entry.existing_match.is_some() && entry.examined_length > new_max {")],
     PEG + r'''
fn main() {
	let new = Parser::from_rules(&grammar! {
		start => long | short;
		long => "abcX";
		short => head, more;
		head => "a";
		more => any rep;
		any => b | c | d | e;
		b => "b"; c => "c"; d => "d"; e => "e";
	}).unwrap();
	let mut p = new(toks("abdddddd").into());
	// `long` fails at the third token; `short` reads to the end
	assert!(p._match().is_some());
	p.apply_edit(6..7, &toks("e"));
	p.apply_edit(2..4, &toks("cX"));
	p.apply_edit(4..8, &toks(""));
	assert!(p._match().is_some(), "abcX is in the language");
}
''', "two edits between parses: one beyond what a failed rule looked at, then one within it",
     "The failure of the rule is remembered although the edit turned it into a match.", "file")

seed("C04-lookahead-position", "C04",
     [("analyzer-core/src/parser.rs", "\t\t\t\t} else {\n\t\t\t\t\tself.pos = orig_pos;\n\t\t\t\t\tSome(Cst::Not(rule).into())", "\t\t\t\t} else {\n\t\t\t\t\tself.max_examined_pos = self.max_examined_pos.max(orig_pos as isize);\n\t\t\t\t\tSome(Cst::Not(rule).into())")],
     PEG + r'''
fn main() {
	let rules: Vec<(&'static str, Rule<char>)> = vec![
		("start", Rule::Sequence(vec!["guard", "word"])),
		("guard", Rule::Not("keyword")),
		("keyword", Rule::Terminal(toks("and").into())),
		("word", Rule::Terminal(toks("axe").into())),
	];
	let rules: std::collections::HashMap<_, _> = rules.into_iter().collect();
	let new = Parser::from_rules(&rules).unwrap();
	assert!(new(toks("axe").into())._match().is_some(), "axe is not the keyword, and is the word");
}
''', "a negative lookahead over something that matches in part and then fails",
     "The lookahead consumes the tokens its operand read before failing.", "file")

seed("C05-last-of-sequence", "C05",
     [("analyzer-core/src/parser.rs", "\t\t\tRule::Repetition(rule) => vec![*rule],\n\t\t\tRule::Not(rule) => vec![*rule],\n\t\t};", "\t\t\tRule::Repetition(rule) => vec![*rule],\n\t\t\tRule::Not(_) => vec![],\n\t\t};")],
     PEG + r'''
fn main() {
	let rules: std::collections::HashMap<&'static str, Rule<char>> = [("start", Rule::Not("missing"))].into_iter().collect();
	assert!(Parser::from_rules(&rules).is_err(), "'missing' is not defined");
}
''', "a lookahead at a rule that does not exist, in a grammar that is otherwise closed", "The grammar is accepted and the parser panics when it gets there.", "file")

seed("C12-forgotten-failures", "C12",
     [("analyzer-core/src/parser.rs", "\t\tcol.memo.insert(rule_name, entry);", "\t\t// failures at the first position are cheap to find again\n\t\tif entry.existing_match.is_some() || examined_length <= 1 {\n\t\t\tcol.memo.insert(rule_name, entry);\n\t\t}")],
     PEG + r'''
fn main() {
	// e = "(" e ")" "+" | "(" e ")" "-" | "x": without memory of failures each level is tried twice
	let rules: Vec<(&'static str, Rule<char>)> = vec![
		("start", Rule::Sequence(vec!["e"])),
		("e", Rule::Choice(vec!["a", "b", "x"])),
		("a", Rule::Sequence(vec!["l", "f", "r", "p"])),
		("b", Rule::Sequence(vec!["l", "f", "r", "m"])),
		("f", Rule::Sequence(vec!["g", "q"])),
		("g", Rule::Choice(vec!["a", "b", "x"])),
		("q", Rule::Terminal(toks("?").into())),
		("l", Rule::Terminal(toks("(").into())),
		("r", Rule::Terminal(toks(")").into())),
		("p", Rule::Terminal(toks("+").into())),
		("m", Rule::Terminal(toks("-").into())),
		("x", Rule::Terminal(toks("x").into())),
	];
	let rules: std::collections::HashMap<_, _> = rules.into_iter().collect();
	let mut text = "(".repeat(40);
	text.push_str("x!");
	let mut p = Parser::from_rules(&rules).unwrap()(toks(&text).into());
	std::thread::spawn(|| {
		std::thread::sleep(std::time::Duration::from_secs(20));
		eprintln!("parsing 42 tokens takes forever");
		std::process::exit(1);
	});
	assert!(p._match().is_none());
}
''', "nested input that fails deep inside, under two alternatives with a common prefix", "Failures are evaluated again, and parsing becomes exponential in the nesting.", "file")

seed("C06-length-in-characters", "C06",
     [("analyzer-host/src/json_rpc.rs", 'write!(out, "Content-Length: {}\\r\\n\\r\\n", msg.len())?;', 'write!(out, "Content-Length: {}\\r\\n\\r\\n", msg.chars().count())?;')],
     RPC + r'''
fn main() {
	let mut wire = vec![];
	for m in ["caf\u{e9}", "next"] {
		Message::Notification(Notification { method: m.into(), params: serde_json::Value::Null }).write(&mut wire).unwrap();
	}
	let mut r = BufReader::new(&wire[..]);
	for m in ["caf\u{e9}", "next"] {
		match Message::read(&mut r) {
			Ok(Some(Message::Notification(n))) => assert_eq!(n.method, m),
			other => panic!("{other:?}"),
		}
	}
}
''', "a message with a character outside ASCII", "The announced length is too short, and the stream is out of step from there on.", "rpc")

seed("C07-blank-header", "C07",
     [("analyzer-host/src/json_rpc.rs", 'let header_value = parts.next().ok_or_else(|| invalid_data!("malformed header: {:?}", buf))?;', "let header_value = match parts.next() {\n\t\t\tSome(value) => value,\n\t\t\tNone => break,\n\t\t};")],
     RPC + r'''
fn main() {
	// a header line without a colon is not the end of the header
	let wire = "Content-Length: 24\r\nGarbage\r\n\r\n{\"method\":\"a\",\"x\":\"12\"}  ";
	let mut r = BufReader::new(wire.as_bytes());
	assert!(Message::read(&mut r).is_err(), "a malformed header is reported");
	let wire = "Content-Length: 23\r\nX\r\n{\"method\":\"a\",\"x\":\"12\"}";
	let mut r = BufReader::new(wire.as_bytes());
	assert!(Message::read(&mut r).is_err(), "a malformed header is reported");
}
''', "a header line without a separator after the length", "The line is taken for the end of the header and not reported.", "rpc")

seed("C08-numeric-text-id", "C08",
     [("analyzer-host/src/json_rpc.rs", "impl From<String> for RequestId {\n\tfn from(id: String) -> RequestId { RequestId(IdRepr::String(id)) }", "impl From<String> for RequestId {\n\tfn from(id: String) -> RequestId {\n\t\tmatch id.parse::<i32>() {\n\t\t\tOk(id) => RequestId(IdRepr::I32(id)),\n\t\t\tErr(_) => RequestId(IdRepr::String(id)),\n\t\t}\n\t}")],
     RPC + r'''
fn main() {
	let id: RequestId = "92".to_string().into();
	let back: RequestId = serde_json::from_str("\"92\"").unwrap();
	assert_eq!(id, back);
	assert_eq!(serde_json::to_string(&id).unwrap(), "\"92\"");
}
''', "an id that is a text of digits", "The id 92 and the id \"92\" are taken for the same.", "rpc")

seed("C10-contended-state", "C10",
     [("analyzer-abstractions/src/futures_extensions.rs", "let reader = self.state.value.read().unwrap();\n\t\t\t\tlet result = reader.as_ref().unwrap();", "let Ok(reader) = self.state.value.try_read() else { return Poll::Pending };\n\t\t\t\tlet result = reader.as_ref().unwrap();")],
     r'''
use analyzer_abstractions::futures_extensions::FutureCompletionSource;
use std::{future::Future, pin::pin, sync::{Arc, Mutex}, task::{Context, Poll, Wake, Waker}};
// A consumer that runs as soon as it is woken, on the thread that wakes it: what an executor on another core may do.
struct Now { src: FutureCompletionSource<u32, ()>, seen: Mutex<Option<Poll<Result<u32, ()>>>> }
impl Wake for Now {
	fn wake(self: Arc<Self>) {
		let src = self.src.clone();
		let me = self.clone();
		let t = std::thread::spawn(move || { *me.seen.lock().unwrap() = Some(src.state()); });
		// wait for the other thread, unless it has to wait for us
		let start = std::time::Instant::now();
		while !t.is_finished() && start.elapsed().as_millis() < 200 { std::thread::yield_now(); }
	}
}
fn main() {
	let src = FutureCompletionSource::<u32, ()>::new();
	let now = Arc::new(Now { src: src.clone(), seen: Mutex::new(None) });
	let waker: Waker = now.clone().into();
	let mut f = pin!(src.future());
	assert!(f.as_mut().poll(&mut Context::from_waker(&waker)).is_pending());
	src.set_value(7).unwrap();
	std::thread::sleep(std::time::Duration::from_millis(500));
	let seen = now.seen.lock().unwrap().take();
	assert_eq!(seen, Some(Poll::Ready(Ok(7))), "woken, and yet not complete");
}
''', "a consumer on another thread that runs when woken, before the producer has let go of the lock", "The woken consumer finds the source incomplete (and future() panics).", "abs", checks=["C10", "C09"])

seed("C11-wake-while-polled", "C11",
     [("analyzer-abstractions/src/futures_extensions/async_extensions.rs", "\t\tlet cloned = arc_self.clone();\n", "\t\t// Work that is being polled right now is not idle, and need not be queued.\n\t\tif arc_self.future.try_lock().is_err() {\n\t\t\treturn;\n\t\t}\n\n\t\tlet cloned = arc_self.clone();\n")],
     r'''
use analyzer_abstractions::futures_extensions::async_extensions::AsyncPool;
use cancellation::CancellationTokenSource;
use std::{future::Future, pin::Pin, sync::{atomic::{AtomicBool, Ordering}, Arc}, task::{Context, Poll}};
struct YieldOnce(bool);
impl Future for YieldOnce {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if self.0 { return Poll::Ready(()); }
		self.0 = true;
		cx.waker().wake_by_ref();
		Poll::Pending
	}
}
fn main() {
	let done = Arc::new(AtomicBool::new(false));
	let d = done.clone();
	std::thread::spawn(move || {
		AsyncPool::spawn_work(async move { YieldOnce(false).await; d.store(true, Ordering::SeqCst); AsyncPool::stop(); });
		let _ = futures::executor::block_on(AsyncPool::start(CancellationTokenSource::new().token().clone()));
	});
	std::thread::sleep(std::time::Duration::from_secs(2));
	assert!(done.load(Ordering::SeqCst), "work that yields never runs again");
}
''', "work that is woken while it is being polled", "The wake is lost and the work never runs again.", "abs")
