PRE = r'''#![allow(unused_imports, dead_code)]
use serde_json::{json, Value};
use std::{
	fs,
	io::{Read, Write},
	path::{Path, PathBuf},
	process::{Child, Command, Stdio},
	time::{Duration, Instant},
};
fn scratch() -> PathBuf {
	let d = std::env::temp_dir().join(format!("p4a-demo-scratch-{}", std::process::id()));
	let _ = fs::remove_dir_all(&d);
	fs::create_dir(&d).unwrap();
	d
}
fn program(name: &str) -> PathBuf { std::env::current_exe().unwrap().parent().unwrap().join(name) }
fn frame(v: Value) -> Vec<u8> {
	let mut v = v;
	v["jsonrpc"] = json!("2.0");
	let t = v.to_string();
	format!("Content-Length: {}\r\n\r\n{t}", t.len()).into_bytes()
}
fn verdict(d: &Path, ok: bool, what: &str) -> ! {
	let _ = fs::remove_dir_all(d);
	println!("{what}");
	std::process::exit(if ok { 0 } else { 1 })
}
/// All messages in the text, or what is in the place of one.
fn frames(mut s: &str) -> Result<Vec<Value>, String> {
	let mut out = vec![];
	while !s.is_empty() {
		let bad = || s.chars().take(80).collect::<String>();
		let rest = s.strip_prefix("Content-Length: ").ok_or_else(bad)?;
		let (n, rest) = rest.split_once("\r\n\r\n").ok_or_else(bad)?;
		let n: usize = n.parse().map_err(|_| bad())?;
		if rest.len() < n { return Err(bad()) }
		out.push(serde_json::from_str(&rest[..n]).map_err(|_| bad())?);
		s = &rest[n..];
	}
	Ok(out)
}
fn init() -> Vec<u8> { frame(json!({ "id": 1, "method": "initialize", "params": { "capabilities": {}, "processId": 1, "rootUri": null } })) }
'''

seed("C30-logs-to-stdout", "C30",
     [("p4-analyzer/src/main.rs", "\t\t_ => None,\n", '''\t\t// Not a directory to roll files in, so treat it as if no path had been given.
\t\t_ => {
\t\t\tlet (non_blocking, guard) = tracing_appender::non_blocking(std::io::stdout());
\t\t\tlet layer = layer().with_writer(non_blocking.with_max_level(loglevel)).boxed();

\t\t\tSome((layer, guard))
\t\t}
''')],
     PRE + r'''
fn main() {
	let d = scratch();
	let mut c = Command::new(program("p4analyzer")).args(["--logpath", d.join("none").to_str().unwrap(), "server"]).current_dir(&d)
		.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
	let mut i = c.stdin.take().unwrap();
	i.write_all(&init()).unwrap();
	i.write_all(&frame(json!({ "method": "initialized", "params": {} }))).unwrap();
	i.write_all(&frame(json!({ "id": 2, "method": "textDocument/hover", "params": {} }))).unwrap();
	i.write_all(&frame(json!({ "method": "exit" }))).unwrap();
	drop(i);
	let mut s = String::new();
	c.stdout.take().unwrap().read_to_string(&mut s).unwrap();
	let _ = c.wait();
	match frames(&s) {
		Ok(m) => verdict(&d, m.len() >= 2, &format!("{} messages", m.len())),
		Err(e) => verdict(&d, false, &format!("no message: {e:?}")),
	}
}
''', "a log path that is no directory", "What is logged is written to stdout, between the messages of the protocol.", "app")

seed("C32-unescaped-names", "C32",
     [("p4-analyzer/src/native_fs.rs", "uri: Url::from_file_path(path).unwrap() }", 'uri: Url::parse(&format!("file://{}", path.display())).unwrap() }')],
     PRE + r'''
use analyzer_abstractions::{fs::EnumerableFileSystem, lsp_types::Url};
fn main() {
	let d = scratch();
	for n in ["a.p4", "b c.p4", "50%20.p4", "h#h.p4"] { fs::write(d.join(n), n).unwrap(); }
	let sys = p4_analyzer::native_fs::native_fs::NativeFs::new();
	let rt = tokio::runtime::Runtime::new().unwrap();
	let found = rt.block_on(sys.enumerate_folder(Url::from_directory_path(&d).unwrap(), "**/*.p4".into()));
	let mut got: Vec<_> = found.iter().map(|f| rt.block_on(sys.file_contents(f.uri.clone()))).collect();
	got.sort();
	let mut want: Vec<_> = ["a.p4", "b c.p4", "50%20.p4", "h#h.p4"].iter().map(|n| Some(n.to_string())).collect();
	want.sort();
	verdict(&d, got == want, &format!("{got:?}"))
}
''', "a file with a '%', '#' or '?' in its name", "The URL the file is enumerated under denotes another file, or none.", "app")

seed("C33-longer-dump", "C33",
     [("lsif-p4/src/lsif_writer.rs", 'let mut file = File::create(&filepath).expect("Failed to create output file!");',
       'let mut file =\n\t\t\tFile::options().write(true).create(true).open(&filepath).expect("Failed to create output file!");')],
     PRE + r'''
fn main() {
	let d = scratch();
	fs::create_dir(d.join("ws")).unwrap();
	fs::create_dir(d.join("inc")).unwrap();
	fs::write(d.join("ws/a.p4"), "x").unwrap();
	for n in ["b.p4", "c.p4"] { fs::write(d.join("inc").join(n), "x").unwrap(); }
	let run = || {
		let ok = Command::new(program("lsif-p4")).args(["-h", "inc", "-w", "ws"]).current_dir(&d).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap().success();
		assert!(ok);
		fs::read_to_string(d.join("P4Analysis.lsif")).unwrap().lines().count()
	};
	let first = run();
	fs::remove_file(d.join("inc/b.p4")).unwrap();
	fs::remove_file(d.join("inc/c.p4")).unwrap();
	let second = run();
	verdict(&d, (first, second) == (3, 1), &format!("{first} and then {second} entries"))
}
''', "a dump over an earlier, longer one", "The end of the earlier dump stays in the file.", "app")

seed("C31-output-between-locks", "C31",
     [("p4-analyzer/src/driver/buffer_driver.rs", "match self.data.try_write() {\n\t\t\t\tOk(mut guard) => {\n\t\t\t\t\tif guard.output_buffer.len() < size {", "match self.data.try_read() {\n\t\t\t\tOk(guard) => {\n\t\t\t\t\tif guard.output_buffer.len() < size {"),
      ("p4-analyzer/src/driver/buffer_driver.rs", "\t\t\t\t\tguard.output_buffer.clear();\n\t\t\t\t\treturn ret;", "\t\t\t\t\tdrop(guard);\n\t\t\t\t\tself.clear_output_buffer();\n\t\t\t\t\treturn ret;")],
     PRE + r'''
use analyzer_host::json_rpc::message::{Message, Notification};
use p4_analyzer::driver::{buffer_driver::BufferStruct, Driver, DriverType};
use std::sync::{atomic::{AtomicBool, Ordering}, Arc};
fn main() {
	let d = scratch();
	let n = 200_000usize;
	let b = Arc::new(BufferStruct::new(queues::Queue::new()));
	let driver = Driver::new(DriverType::Buffer(b.clone()));
	let (sender, _) = driver.get_message_channel();
	std::thread::spawn(move || {
		let source = cancellation::CancellationTokenSource::new();
		let _ = tokio::runtime::Runtime::new().unwrap().block_on(driver.start(source.token().clone()));
	});
	std::thread::spawn(move || {
		for i in 0..n { sender.try_send(Message::Notification(Notification { method: format!("m{i}"), params: json!({}) })).unwrap(); }
	});
	let rt = tokio::runtime::Runtime::new().unwrap();
	let mut got = 0;
	let mut last = Instant::now();
	while got < n && last.elapsed() < Duration::from_secs(5) {
		let m = rt.block_on(b.get_output_buffer(0)).len();
		got += m;
		if m > 0 { last = Instant::now() }
	}
	verdict(&d, got == n, &format!("{got} of {n} messages"))
}
''', "a message of the server that arrives while the output is being taken", "The message is lost.", "app")

seed("C36-last-words", "C36",
     [("p4-analyzer/src/driver.rs", "\t\t\t\t\treceiver_task.join().unwrap();\n", '''\t\t\t\t\t// There is nothing left to marshal once the channel is closed.
\t\t\t\t\twhile !receiver_task.is_finished() && !out_channel.is_closed() {
\t\t\t\t\t\tstd::thread::sleep(std::time::Duration::from_millis(1));
\t\t\t\t\t}
'''), ("p4-analyzer/src/driver.rs", "\t\t// Joining to the `receiver_task` will block", "\t\tlet out_channel = receiver.clone();\n\n\t\t// Joining to the `receiver_task` will block")],
     PRE + r'''
fn main() {
	let d = scratch();
	let n = 2000;
	let mut c = Command::new(program("p4analyzer")).current_dir(&d).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
	let mut i = c.stdin.take().unwrap();
	let w = std::thread::spawn(move || {
		let _ = i.write_all(&init());
		for k in 0..n { let _ = i.write_all(&frame(json!({ "id": k + 2, "method": format!("no/such/{}", "x".repeat(300)), "params": {} }))); }
		let _ = i.write_all(&frame(json!({ "method": "exit" })));
	});
	let mut s = Vec::new();
	let mut o = c.stdout.take().unwrap();
	// a client that is slow to read
	std::thread::sleep(Duration::from_millis(1500));
	o.read_to_end(&mut s).unwrap();
	let _ = c.wait();
	let _ = w.join();
	let got = String::from_utf8_lossy(&s).matches("Content-Length").count();
	verdict(&d, got == n + 1 && frames(&String::from_utf8_lossy(&s)).is_ok(), &format!("{got} of {} answers", n + 1))
}
''', "exit right after requests, and a client that reads slowly", "Answers that were not written yet are lost, the last of them midway.", "app")

LOG = PRE + r'''
/// The log of a session with answered and refused requests, and what the client was told.
fn session(d: &Path, level: &str) -> (String, usize) {
	let logs = d.join(format!("logs-{level}"));
	fs::create_dir(&logs).unwrap();
	let mut c = Command::new(program("p4analyzer")).args(["--logpath", logs.to_str().unwrap(), "--loglevel", level]).current_dir(d)
		.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
	let mut i = c.stdin.take().unwrap();
	i.write_all(&frame(json!({ "id": 1, "method": "initialize", "params": { "capabilities": {}, "processId": 1, "rootUri": null, "trace": "verbose" } }))).unwrap();
	i.write_all(&frame(json!({ "method": "initialized", "params": {} }))).unwrap();
	for n in 0..20 { i.write_all(&frame(json!({ "id": n + 2, "method": "textDocument/hover", "params": {} }))).unwrap(); }
	i.write_all(&frame(json!({ "method": "no/such", "params": {} }))).unwrap();
	i.write_all(&frame(json!({ "method": "exit" }))).unwrap();
	let mut s = String::new();
	c.stdout.take().unwrap().read_to_string(&mut s).unwrap();
	let _ = c.wait();
	drop(i);
	let told = frames(&s).unwrap().iter().filter(|m| m["method"] == "$/logTrace").count();
	(fs::read_to_string(logs.join("p4analyzer.log")).unwrap_or_default(), told)
}
'''
seed("C41-short-lived-guard", "C41",
     [("p4-analyzer/src/main.rs", '''			let default_logging_layer = create_default_logging_layer::<Registry>(&cmd);
			let mut layers = if let Some((layer, _)) = default_logging_layer { vec![layer] } else { vec![] };
''', '''			let mut layers: Vec<_> =
				create_default_logging_layer::<Registry>(&cmd).into_iter().map(|(layer, _)| layer).collect();
''')],
     LOG + r'''
fn main() {
	let d = scratch();
	let (log, told) = session(&d, "trace");
	let n = log.matches("Error reading the parameters").count();
	verdict(&d, n == 20, &format!("{n} of 20 errors are in the log, the client was told {told} messages"))
}
''', "a log folder", "What guards the writer of the log is dropped before there is anything to write, and the log stays empty.", "app")

seed("C41-warning", "C41",
     [("p4-analyzer/src/main.rs", "let loglevel = cmd.loglevel.as_ref().unwrap_or(&default_level).parse::<Level>().unwrap_or(Level::DEBUG);",
       '''let loglevel = match cmd.loglevel.as_ref().unwrap_or(&default_level).to_lowercase().as_str() {
		"error" => Level::ERROR,
		"warning" => Level::WARN,
		"info" => Level::INFO,
		"trace" => Level::TRACE,
		_ => Level::DEBUG,
	};''')],
     LOG + r'''
fn main() {
	let d = scratch();
	let all = session(&d, "info").0.contains("INFO");
	let (log, _) = session(&d, "warn");
	verdict(&d, all && log.contains("ERROR") && !log.contains("INFO"), &format!("info at level info: {all}, errors at level warn: {}, info at level warn: {}", log.contains("ERROR"), log.contains("INFO")))
}
''', "the level warn", "The log has everything up to debug in place of warnings and errors.", "app")
