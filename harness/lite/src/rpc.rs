//! C06 framing round trip, C07 hostile byte streams, C08 classification and ids: against an encoder and a decoder of
//! the base protocol written here from the LSP specification.
use crate::mem;
use analyzer_host::json_rpc::{message::*, RequestId};
use serde_json::{json, Map, Value};
use std::io::{self, BufRead, BufReader, ErrorKind, Read, Write};
use vcommon::*;

// ---------------------------------------------------------------- generators

fn text(r: &mut Rng, max: usize) -> String {
	let pool: &[&str] = &[
		"a", "b", "Z", "0", " ", "\"", "\\", "/", "\n", "\r\n", "\t", "\u{0}", "\u{7f}", "é", "ß", "中", "\u{2028}", "😀", "𝒳", "\u{FEFF}",
		"Content-Length: 5\r\n\r\n", "{", "}", "method", "\u{10FFFF}", "\\u0041",
	];
	(0..r.below(max + 1)).map(|_| *r.pick(pool)).collect()
}

fn value(r: &mut Rng, depth: usize) -> Value {
	match r.below(if depth == 0 { 6 } else { 9 }) {
		0 => Value::Null,
		1 => Value::Bool(r.chance(1, 2)),
		2 => json!(*r.pick(&[0i64, -1, 1, 42, i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN, 1 << 53])),
		3 => json!(*r.pick(&[0u64, u64::MAX, u32::MAX as u64, 1 << 40])),
		4 => json!(*r.pick(&[0.5f64, -2.25, 1024.125])),
		5 => Value::String(text(r, 6)),
		6 | 7 => {
			let mut m = Map::new();
			for _ in 0..r.below(4) {
				m.insert(if r.chance(1, 4) { r.pick(&["id", "method", "params", "result", "error", "jsonrpc"]).to_string() } else { text(r, 3) }, value(r, depth - 1));
			}
			Value::Object(m)
		}
		_ => Value::Array((0..r.below(4)).map(|_| value(r, depth - 1)).collect()),
	}
}

fn params(r: &mut Rng) -> Value {
	match r.below(8) {
		0 => Value::Null,
		1 => json!({}),
		2 => json!([]),
		3 => {
			// a document-sized payload, larger than any reader's buffer
			let n = r.range(1, 40_000);
			json!({ "text": text(r, 8).repeat(n / 8 + 1) })
		}
		4 => {
			let mut v = Value::Null;
			for _ in 0..r.range(1, 50) {
				v = if r.chance(1, 2) { json!([v]) } else { json!({ "n": v }) };
			}
			json!([v])
		}
		_ => match value(r, 4) {
			v @ (Value::Object(_) | Value::Array(_)) => v,
			v => json!({ "v": v }),
		},
	}
}

#[derive(Clone, Debug, PartialEq)]
enum Id {
	N(i32),
	S(String),
}

impl Id {
	fn gen(r: &mut Rng) -> Id {
		match r.below(4) {
			0 => Id::S(r.pick(&["", "0", "1", "-1", "42", "abc", "null", "1.5", "2147483648", "é\"\\"]).to_string()),
			1 => Id::S(text(r, 4)),
			_ => Id::N(*r.pick(&[0, 1, -1, 42, i32::MAX, i32::MIN, 7, 100_000])),
		}
	}
	fn real(&self) -> RequestId {
		match self {
			Id::N(n) => RequestId::from(*n),
			Id::S(s) => RequestId::from(s.clone()),
		}
	}
	fn json(&self) -> Value {
		match self {
			Id::N(n) => json!(n),
			Id::S(s) => json!(s),
		}
	}
}

/// A message as the specification sees it.
#[derive(Clone, Debug, PartialEq)]
enum Msg {
	Req(Id, String, Value),
	Note(String, Value),
	Ok(Id, Value),
	Err(Id, i32, String, Option<Value>),
}

fn method(r: &mut Rng) -> String {
	if r.chance(2, 3) {
		r.pick(&["initialize", "textDocument/didChange", "$/cancelRequest", "workspace/didChangeWatchedFiles", "exit", "shutdown"]).to_string()
	} else {
		text(r, 5)
	}
}

fn msg(r: &mut Rng) -> Msg {
	match r.below(4) {
		0 => Msg::Req(Id::gen(r), method(r), params(r)),
		1 => Msg::Note(method(r), params(r)),
		2 => Msg::Ok(Id::gen(r), if r.chance(1, 4) { Value::Null } else { value(r, 4) }),
		_ => {
			let data = match r.below(3) {
				0 => Some(match value(r, 3) {
					Value::Null => json!(1),
					v => v,
				}),
				_ => None,
			};
			Msg::Err(Id::gen(r), *r.pick(&[-32700, -32600, -32601, -32602, -32603, -32002, 0, 1, i32::MIN, i32::MAX]), text(r, 5), data)
		}
	}
}

fn to_real(m: &Msg) -> Message {
	match m.clone() {
		Msg::Req(id, method, params) => Message::Request(Request { id: id.real(), method, params }),
		Msg::Note(method, params) => Message::Notification(Notification { method, params }),
		Msg::Ok(id, v) => Message::Response(Response { id: id.real(), result: Some(v), error: None }),
		Msg::Err(id, code, message, data) => {
			Message::Response(Response { id: id.real(), result: None, error: Some(ResponseError { code, message, data }) })
		}
	}
}

/// What a received message says, by its public fields. A `null` result is the one thing that reading may not tell from
/// an absent one; the caller knows which it sent.
fn from_real(m: &Message) -> Result<Msg, String> {
	let id = |id: &RequestId| match serde_json::to_value(id) {
		Ok(Value::Number(n)) if n.as_i64().map_or(false, |n| n as i32 as i64 == n) => Ok(Id::N(n.as_i64().unwrap() as i32)),
		Ok(Value::String(s)) => Ok(Id::S(s)),
		v => Err(format!("id {v:?}")),
	};
	Ok(match m {
		Message::Request(q) => Msg::Req(id(&q.id)?, q.method.clone(), q.params.clone()),
		Message::Notification(n) => Msg::Note(n.method.clone(), n.params.clone()),
		Message::Response(p) => match &p.error {
			Some(e) => {
				if p.result.is_some() {
					return Err("both result and error".into());
				}
				Msg::Err(id(&p.id)?, e.code, e.message.clone(), e.data.clone())
			}
			None => Msg::Ok(id(&p.id)?, p.result.clone().unwrap_or(Value::Null)),
		},
	})
}

/// The JSON object of a message, from the specification. `jsonrpc` first, as everyone does.
fn to_json(m: &Msg) -> Vec<(&'static str, Value)> {
	let mut o = vec![("jsonrpc", json!("2.0"))];
	match m {
		Msg::Req(id, method, params) => {
			o.push(("id", id.json()));
			o.push(("method", json!(method)));
			if !params.is_null() {
				o.push(("params", params.clone()));
			}
		}
		Msg::Note(method, params) => {
			o.push(("method", json!(method)));
			if !params.is_null() {
				o.push(("params", params.clone()));
			}
		}
		Msg::Ok(id, v) => {
			o.push(("id", id.json()));
			o.push(("result", v.clone()));
		}
		Msg::Err(id, code, message, data) => {
			o.push(("id", id.json()));
			let mut e = Map::new();
			e.insert("code".into(), json!(code));
			e.insert("message".into(), json!(message));
			if let Some(d) = data {
				e.insert("data".into(), d.clone());
			}
			o.push(("error", Value::Object(e)));
		}
	}
	o
}

/// JSON text of a value with the liberties other writers take: whitespace, escapes, key order.
fn render(r: &mut Rng, v: &Value, out: &mut String) {
	fn ws(r: &mut Rng, out: &mut String) {
		if r.chance(1, 6) {
			out.push_str(*r.pick(&[" ", "\n", "\t", "\r\n", "  "]));
		}
	}
	fn string(r: &mut Rng, s: &str, out: &mut String) {
		out.push('"');
		for c in s.chars() {
			let must = c < ' ' || c == '"' || c == '\\';
			if must || r.chance(1, 10) {
				let mut b = [0u16; 2];
				for u in c.encode_utf16(&mut b) {
					out.push_str(&if r.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
				}
			} else {
				out.push(c);
			}
		}
		out.push('"');
	}
	match v {
		Value::String(s) => string(r, s, out),
		Value::Array(a) => {
			out.push('[');
			for (i, v) in a.iter().enumerate() {
				if i > 0 {
					out.push(',');
				}
				ws(r, out);
				render(r, v, out);
				ws(r, out);
			}
			out.push(']');
		}
		Value::Object(m) => {
			out.push('{');
			let mut e: Vec<_> = m.iter().collect();
			r.shuffle(&mut e);
			for (i, (k, v)) in e.iter().enumerate() {
				if i > 0 {
					out.push(',');
				}
				ws(r, out);
				string(r, k, out);
				ws(r, out);
				out.push(':');
				ws(r, out);
				render(r, v, out);
			}
			ws(r, out);
			out.push('}');
		}
		v => out.push_str(&v.to_string()),
	}
}

fn encode(r: &mut Rng, m: &Msg) -> Vec<u8> {
	let mut o = to_json(m);
	r.shuffle(&mut o);
	let mut map = String::new();
	map.push('{');
	for (i, (k, v)) in o.iter().enumerate() {
		if i > 0 {
			map.push(',');
		}
		if r.chance(1, 5) {
			map.push(' ');
		}
		map.push_str(&format!("\"{k}\":"));
		render(r, v, &mut map);
	}
	map.push('}');
	frame(r, map.as_bytes())
}

fn any(r: &mut Rng) -> Vec<u8> {
	let m = msg(r);
	encode(r, &m)
}

fn frame(r: &mut Rng, body: &[u8]) -> Vec<u8> {
	let mut headers = vec![format!("Content-Length: {}", body.len())];
	match r.below(6) {
		0 => headers.push("Content-Type: application/vscode-jsonrpc; charset=utf-8".into()),
		1 => headers.insert(0, "Content-Type: application/vscode-jsonrpc; charset=utf8".into()),
		2 => headers.insert(0, "X-Trace: a: b: c".into()),
		_ => {}
	}
	let mut b = headers.iter().map(|h| format!("{h}\r\n")).collect::<String>().into_bytes();
	b.extend_from_slice(b"\r\n");
	b.extend_from_slice(body);
	b
}

// ---------------------------------------------------------------- streams

/// Delivers bytes in pieces, interrupts, and can fail at a point.
struct Pipe {
	data: Vec<u8>,
	pos: usize,
	sizes: Vec<usize>,
	turn: usize,
	interrupts: u32,
	fail_at: Option<(usize, ErrorKind)>,
	reads: u64,
}

impl Pipe {
	fn new(r: &mut Rng, data: Vec<u8>) -> Pipe {
		let sizes = match r.below(4) {
			0 => vec![1],
			1 => vec![usize::MAX],
			2 => vec![1, 2, 3, 5, 7],
			_ => (0..r.range(1, 20)).map(|_| r.range(1, 4000)).collect(),
		};
		Pipe { data, pos: 0, sizes, turn: 0, interrupts: if r.chance(1, 2) { 0 } else { 3 }, fail_at: None, reads: 0 }
	}
}

impl Read for Pipe {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		self.reads += 1;
		self.turn += 1;
		if self.interrupts > 0 && self.turn % 5 == 2 {
			self.interrupts -= if self.turn % 2 == 0 { 1 } else { 0 };
			return Err(ErrorKind::Interrupted.into());
		}
		let mut end = self.data.len();
		if let Some((at, kind)) = self.fail_at {
			if self.pos >= at {
				return Err(io::Error::new(kind, "injected"));
			}
			end = end.min(at);
		}
		let n = self.sizes[self.turn % self.sizes.len()].min(buf.len()).min(end - self.pos);
		buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
		self.pos += n;
		Ok(n)
	}
}

/// Accepts bytes in pieces, interrupts, shows what has been flushed, and can fail at a point.
struct Sink {
	got: Vec<u8>,
	flushed: usize,
	limit: usize,
	turn: usize,
	interrupts: u32,
	fail_at: Option<usize>,
	fail_flush: bool,
}

impl Write for Sink {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		self.turn += 1;
		if self.interrupts > 0 && self.turn % 3 == 1 {
			self.interrupts -= 1;
			return Err(ErrorKind::Interrupted.into());
		}
		let mut n = buf.len().min(self.limit);
		if let Some(at) = self.fail_at {
			if self.got.len() >= at {
				return Err(ErrorKind::BrokenPipe.into());
			}
			n = n.min(at - self.got.len());
		}
		self.got.extend_from_slice(&buf[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		if self.fail_flush {
			return Err(ErrorKind::BrokenPipe.into());
		}
		self.flushed = self.got.len();
		Ok(())
	}
}

/// Splits written bytes into bodies: strictly as the specification says.
fn decode(mut b: &[u8]) -> Result<Vec<Value>, String> {
	let mut out = vec![];
	while !b.is_empty() {
		let end = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no end of headers")?;
		let head = std::str::from_utf8(&b[..end]).map_err(|e| e.to_string())?;
		let mut len = None;
		for h in head.split("\r\n") {
			let (k, v) = h.split_once(": ").ok_or(format!("header {h:?}"))?;
			if k == "Content-Length" {
				if !v.bytes().all(|c| c.is_ascii_digit()) {
					return Err(format!("length {v:?}"));
				}
				len = Some(v.parse::<usize>().map_err(|e| e.to_string())?);
			} else if k != "Content-Type" {
				return Err(format!("unknown header {k:?}"));
			}
		}
		let len = len.ok_or("no Content-Length")?;
		let body = b.get(end + 4..end + 4 + len).ok_or(format!("Content-Length {len} exceeds the {} bytes written", b.len() - end - 4))?;
		out.push(serde_json::from_slice(body).map_err(|e| format!("body does not parse ({e}): {:?}", String::from_utf8_lossy(body)))?);
		b = &b[end + 4 + len..];
	}
	Ok(out)
}

fn short(b: &[u8]) -> String {
	let s = String::from_utf8_lossy(b);
	let mut t: String = s.chars().take(600).collect();
	if t.len() < s.len() {
		t.push('…');
	}
	format!("{t:?}")
}

// ---------------------------------------------------------------- C06

fn c06(r: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	let msgs: Vec<Msg> = (0..r.range(1, 6)).map(|_| msg(r)).collect();

	// written by the server, read by an independent decoder
	let mut sink = Sink {
		got: vec![],
		flushed: 0,
		limit: *r.pick(&[1, 3, 1000, usize::MAX]),
		turn: 0,
		interrupts: if r.chance(1, 2) { 0 } else { 4 },
		fail_at: None,
		fail_flush: false,
	};
	for m in &msgs {
		let before = sink.got.len();
		no_panic("write-panics", || format!("writing {m:?}"), || to_real(m).write(&mut sink))?
			.map_err(|e| violation!("write-fails", "writing {m:?}: {e}"))?;
		ensure!(sink.flushed == sink.got.len(), "not-flushed", "write returned with {} bytes not flushed", sink.got.len() - sink.flushed);
		let bodies = decode(&sink.got[before..]).map_err(|e| violation!("bad-frame", "{e}; wrote {} for {m:?}", short(&sink.got[before..])))?;
		ensure!(bodies.len() == 1, "bad-frame", "{} frames for one message {m:?}: {}", bodies.len(), short(&sink.got[before..]));
		let want: Map<String, Value> = to_json(m).into_iter().map(|(k, v)| (k.to_string(), v)).collect();
		ensure!(bodies[0] == Value::Object(want.clone()), "wrong-body", "wrote {} expected {}", bodies[0], Value::Object(want));
		obs.eval();
		obs.count("messages written and decoded independently", 1);
	}

	// written by the server, read by the server; then by an independent encoder, read by the server
	let own = std::mem::take(&mut sink.got);
	let other: Vec<u8> = msgs.iter().flat_map(|m| encode(r, m)).collect();
	for (how, bytes) in [("own encoding", own), ("independent encoding", other)] {
		let total = bytes.len();
		let mut rd = BufReader::with_capacity(*r.pick(&[1, 2, 16, 100, 8192]), Pipe::new(r, bytes.clone()));
		for (i, m) in msgs.iter().enumerate() {
			let got = no_panic("read-panics", || format!("reading {}", short(&bytes)), || Message::read(&mut rd))?
				.map_err(|e| violation!("read-fails", "{how}: message {i} ({m:?}) of {}: {e}", short(&bytes)))?;
			let got = got.ok_or_else(|| violation!("early-end", "{how}: end of stream instead of message {i} of {}", short(&bytes)))?;
			let got = from_real(&got).map_err(|e| violation!("mangled", "{how}: {e}: {got:?}"))?;
			ensure!(got == *m, "changed", "{how}: sent {m:?} received {got:?}");
			obs.eval();
			obs.count("messages read back", 1);
			obs.distinct_of("message shapes", format!("{:?}", std::mem::discriminant(m)).as_bytes());
		}
		let end = no_panic("read-panics", || "end".into(), || Message::read(&mut rd))?;
		ensure!(matches!(end, Ok(None)), "no-end", "{how}: after the last message: {end:?}");
		obs.count("read calls on the pipe", rd.get_ref().reads);
		obs.count("bytes", total as u64);
	}
	// a failing writer is reported, never swallowed
	{
		let m = &msgs[0];
		let mut probe = Sink { got: vec![], flushed: 0, limit: usize::MAX, turn: 0, interrupts: 0, fail_at: None, fail_flush: false };
		to_real(m).write(&mut probe).map_err(|e| violation!("write-fails", "{e}"))?;
		let len = probe.got.len();
		let at = r.below(len);
		let mut bad = Sink { got: vec![], flushed: 0, limit: *r.pick(&[7, usize::MAX]), turn: 0, interrupts: 0, fail_at: Some(at), fail_flush: false };
		let res = no_panic("write-panics", || format!("writing {m:?} to a broken pipe"), || to_real(m).write(&mut bad))?;
		ensure!(res.is_err(), "write-error-swallowed", "the pipe broke after {at} of {len} bytes, write said {res:?}");
		let mut bad = Sink { fail_at: None, fail_flush: true, got: vec![], ..bad };
		let res = no_panic("write-panics", || format!("writing {m:?} to a sink that cannot flush"), || to_real(m).write(&mut bad))?;
		ensure!(res.is_err(), "flush-error-swallowed", "flush failed, write said {res:?}");
		obs.evals(2);
		obs.count("broken writers", 2);
	}
	obs.nontrivial(format!("{msgs:?}").as_bytes());
	obs.sample(|| format!("{msgs:?}"));
	Ok(())
}

// ---------------------------------------------------------------- C07

/// Bytes a careless or hostile peer sends.
fn hostile(r: &mut Rng) -> Vec<u8> {
	let mut b = vec![];
	for _ in 0..r.range(1, 4) {
		match r.below(12) {
			0 => b.extend(any(r)),
			1 => {
				let mut e = any(r);
				for _ in 0..r.range(1, 4) {
					let i = r.below(e.len());
					match r.below(4) {
						0 => e[i] = r.next() as u8,
						1 => {
							e.remove(i);
							if e.is_empty() {
								e.push(b'x')
							}
						}
						2 => e.insert(i, r.next() as u8),
						_ => e.truncate(i.max(1)),
					}
				}
				b.extend(e)
			}
			2 => {
				let n = *r.pick(&["0", "1", "-1", "007", "+3", "1e3", "", " 5", "5 ", "99999999", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "１２"]);
				b.extend(format!("Content-Length: {n}\r\n\r\n").into_bytes());
				b.extend(&b"{\"jsonrpc\":\"2.0\",\"method\":\"x\"}"[..r.below(31)]);
			}
			3 => b.extend((0..r.below(200)).map(|_| r.next() as u8)),
			4 => b.extend(frame(r, b"")),
			5 => {
				let body: Vec<u8> = (0..r.below(100)).map(|_| r.next() as u8).collect();
				b.extend(frame(r, &body))
			}
			6 => {
				let body = *r.pick(&[
					"null", "[]", "{}", "1", "\"x\"", "{\"id\":1}", "{\"method\":1}", "{\"id\":{},\"method\":\"x\"}", "[1,2", "{\"a\":", "\"abc",
					"{\"jsonrpc\":\"2.0\",\"method\":\"a\"}{\"method\":\"b\"}", "tru", "{\"method\":\"\\ud800\"}", "[{\"jsonrpc\":\"2.0\",\"method\":\"a\"}]",
				]);
				b.extend(frame(r, body.as_bytes()))
			}
			7 => {
				let n = r.range(100, 3000);
				let body = "[".repeat(n) + &"]".repeat(if r.chance(1, 2) { n } else { 0 });
				b.extend(frame(r, format!("{{\"method\":\"x\",\"params\":{body}}}").as_bytes()))
			}
			8 => b.extend(b"\r\n".repeat(r.range(1, 3))),
			9 => b.extend(format!("Content-Length: {}\n\n{{}}", r.below(5)).into_bytes()),
			10 => b.extend("A".repeat(r.range(1, 100_000)).into_bytes()),
			_ => {
				b.extend(b"X: y\r\n".repeat(r.range(1, 500)));
				b.extend(any(r))
			}
		}
	}
	b
}

/// A byte source that remembers how much of it was consumed (not merely buffered).
struct Tape<'a> {
	rd: BufReader<&'a mut Pipe>,
	consumed: usize,
}
impl Read for Tape<'_> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		let n = self.rd.read(buf)?;
		self.consumed += n;
		Ok(n)
	}
}
impl BufRead for Tape<'_> {
	fn fill_buf(&mut self) -> io::Result<&[u8]> { self.rd.fill_buf() }
	fn consume(&mut self, n: usize) {
		self.consumed += n;
		self.rd.consume(n)
	}
}

/// A message returned by the reader must be what the bytes consumed for it say.
fn genuine(bytes: &[u8], m: &Message) -> Result<(), String> {
	let mut from = 0;
	// blank lines are not a header block; a lenient reader may skip them
	loop {
		let end = bytes[from..].windows(4).position(|w| w == b"\r\n\r\n").ok_or("no header block")? + from;
		let head = String::from_utf8_lossy(&bytes[..end]).to_string();
		let body = &bytes[end + 4..];
		let lens: Vec<&str> = head
			.split("\r\n")
			.filter_map(|h| h.split_once(':'))
			.filter(|(k, _)| k.trim().eq_ignore_ascii_case("content-length"))
			.map(|(_, v)| v.trim().trim_start_matches('+'))
			.collect();
		if !lens.iter().any(|l| l.parse::<usize>() == Ok(body.len())) {
			// "\r\n\r\n" may have been inside a garbage header; look further
			from = end + 1;
			if bytes[from..].windows(4).any(|w| w == b"\r\n\r\n") {
				continue;
			}
			return Err(format!("the length announced ({lens:?}) is not the length taken ({})", body.len()));
		}
		let v: Value = serde_json::from_slice(body).map_err(|e| format!("the body is no JSON: {e}"))?;
		let o = v.as_object().ok_or("the body is no object")?;
		let got = from_real(m)?;
		let same = match &got {
			Msg::Req(id, method, params) => o.get("id") == Some(&id.json()) && o.get("method") == Some(&json!(method)) && o.get("params").unwrap_or(&Value::Null) == params,
			Msg::Note(method, params) => o.get("method") == Some(&json!(method)) && o.get("params").unwrap_or(&Value::Null) == params,
			Msg::Ok(id, v) => o.get("id") == Some(&id.json()) && o.get("result").unwrap_or(&Value::Null) == v,
			Msg::Err(id, code, ..) => o.get("id") == Some(&id.json()) && o.get("error").and_then(|e| e.get("code")) == Some(&json!(code)),
		};
		return if same { Ok(()) } else { Err(format!("received {got:?} for body {v}")) };
	}
}

fn c07(r: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	// (a) arbitrary bytes: every call returns, within memory proportionate to what was received, and what it returns was sent
	let bytes = hostile(r);
	{
		let mut pipe = Pipe::new(r, bytes.clone());
		if r.chance(1, 5) {
			pipe.fail_at = Some((r.below(bytes.len() + 1), *r.pick(&[ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::TimedOut])));
		}
		let fail_at = pipe.fail_at;
		let mut tape = Tape { rd: BufReader::with_capacity(*r.pick(&[1, 64, 8192]), &mut pipe), consumed: 0 };
		let mut calls = 0;
		loop {
			let before = tape.consumed;
			let (res, peak) = mem::peak_of(1 << 30, || guard(|| Message::read(&mut tape)));
			let res = res.map_err(|p| violation!("hostile-panic", "panic: {p}\n  while reading {}", short(&bytes)))?;
			let took = tape.consumed - before;
			obs.eval();
			ensure!(peak <= 600 * (took + bytes.len()) + (256 << 10), "memory", "{peak} bytes of memory held for {took} bytes consumed of {}", short(&bytes));
			obs.count(match &res { Ok(Some(_)) => "messages", Ok(None) => "ends", Err(_) => "errors" }, 1);
			match res {
				Ok(Some(m)) => {
					genuine(&bytes[before..tape.consumed], &m).map_err(|e| violation!("fabricated", "{e}; consumed {}", short(&bytes[before..tape.consumed])))?;
				}
				Ok(None) => {
					ensure!(fail_at.is_none() && tape.consumed == bytes.len(), "end-invented", "end of stream reported with {} of {} bytes consumed (fault {fail_at:?})", tape.consumed, bytes.len());
					break;
				}
				Err(e) => {
					obs.distinct_of("error kinds", format!("{:?}", e.kind()).as_bytes());
					if let Some((at, kind)) = fail_at {
						if e.kind() == kind {
							break;
						}
						ensure!(tape.consumed < at || took > 0, "fault-hidden", "the stream failed with {kind:?}, the reader says {e:?}");
					}
					if took == 0 {
						break; // nothing left that it can move past
					}
				}
			}
			calls += 1;
			ensure!(calls <= bytes.len() + 2, "no-progress", "{calls} calls on {} bytes", bytes.len());
		}
		obs.nontrivial(&bytes);
	}
	// (b) a well framed body that is no message costs that message only
	{
		let good: Vec<Msg> = (0..r.range(1, 3)).map(|_| msg(r)).collect();
		let mut bytes = vec![];
		let bads: Vec<Vec<u8>> = (0..r.range(1, 3))
			.map(|_| match r.below(5) {
				0 => vec![0xff, 0xfe, b'{', b'}'],
				1 => r.pick(&["{", "[1,", "{\"jsonrpc\":\"2.0\",\"method\":\"x\"", "tru", "\"ab"]).as_bytes().to_vec(),
				2 => r.pick(&["null", "1", "[]", "{}", "\"x\"", "{\"a\":1}"]).as_bytes().to_vec(),
				3 => vec![],
				_ => {
					let s = "[".repeat(300);
					s.into_bytes()
				}
			})
			.collect();
		for b in &bads {
			bytes.extend(frame(r, b));
		}
		for m in &good {
			bytes.extend(encode(r, m));
		}
		let mut rd = BufReader::new(Pipe::new(r, bytes.clone()));
		for b in &bads {
			match no_panic("hostile-panic", || short(&bytes), || Message::read(&mut rd))? {
				Err(e) => {
					ensure!(
						e.kind() == ErrorKind::InvalidData,
						"malformed-body-looks-like-a-dead-stream",
						"a complete frame with body {} is reported as {:?} ({e}), which a caller must take for a broken stream",
						short(b),
						e.kind()
					);
				}
				got => return Err(violation!("malformed-accepted", "body {} was read as {got:?}", short(b))),
			}
			obs.eval();
			obs.count("malformed bodies", 1);
		}
		for m in &good {
			let got = no_panic("hostile-panic", || short(&bytes), || Message::read(&mut rd))?;
			let got = match got {
				Ok(Some(g)) => from_real(&g).map_err(|e| violation!("mangled", "{e}"))?,
				o => return Err(violation!("lost-after-malformed", "after malformed bodies, {m:?} was read as {o:?}; stream {}", short(&bytes))),
			};
			ensure!(got == *m, "changed", "sent {m:?} received {got:?}");
			obs.eval();
			obs.count("messages after malformed bodies", 1);
		}
	}
	// (c) a stream that ends inside a body never yields a message
	{
		let m = msg(r);
		let whole = encode(r, &m);
		let body_at = whole.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
		let cut = r.range(body_at, whole.len() - 1);
		let mut rd = BufReader::new(Pipe::new(r, whole[..cut].to_vec()));
		let got = no_panic("hostile-panic", || short(&whole[..cut]), || Message::read(&mut rd))?;
		ensure!(got.is_err(), "truncated-accepted", "the stream ended {} bytes into a body of {}: {got:?}", cut - body_at, whole.len() - body_at);
		if let Err(e) = got {
			ensure!(e.kind() != ErrorKind::InvalidData, "truncation-looks-like-a-bad-message", "the stream ended inside a body, reported as {e:?}: a caller would go on reading");
		}
		obs.eval();
		obs.count("truncated streams", 1);
	}
	obs.sample(|| short(&bytes));
	Ok(())
}

// ---------------------------------------------------------------- C08

fn c08(r: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	let m = msg(r);
	let mut rd = BufReader::new({ let e = encode(r, &m); Pipe::new(r, e) });
	let got = match no_panic("read-panics", || format!("{m:?}"), || Message::read(&mut rd))? {
		Ok(Some(g)) => g,
		o => return Err(violation!("refused", "{m:?} was read as {o:?}")),
	};
	let kind = match (&m, &got) {
		(Msg::Req(..), Message::Request(_)) => "request",
		(Msg::Note(..), Message::Notification(_)) => "notification",
		(Msg::Ok(..), Message::Response(_)) => "result",
		(Msg::Err(..), Message::Response(_)) => "error",
		_ => return Err(violation!("misclassified", "{m:?} was read as {got:?}")),
	};
	obs.eval();
	obs.count(kind, 1);
	ensure!(from_real(&got).as_ref() == Ok(&m), "changed", "sent {m:?} received {got:?}");

	// a reply built for a request names it by the very id it carried, number or string
	if let Message::Request(q) = &got {
		let Msg::Req(id, ..) = &m else { unreachable!() };
		let result = value(r, 2);
		let code = *r.pick(&[-32600, -32601, -32602, -32603]);
		for reply in [Response::new(q.id.clone(), result.clone()), Response::new_error(q.id.clone(), code, "why")] {
			let mut b = vec![];
			let is_err = reply.error.is_some();
			Message::Response(reply).write(&mut b).map_err(|e| violation!("write-fails", "{e}"))?;
			let body = decode(&b).map_err(|e| violation!("bad-frame", "{e}"))?.remove(0);
			ensure!(body.get("id") == Some(&id.json()), "id-changed", "request id {} answered as {}", id.json(), body);
			ensure!(body.get("jsonrpc") == Some(&json!("2.0")), "no-version", "{body}");
			let (has_r, has_e) = (body.get("result").is_some(), body.get("error").is_some());
			ensure!(has_r != has_e && has_e == is_err, "result-and-error", "exactly one of result and error: {body}");
			if is_err {
				ensure!(body["error"]["code"] == json!(code) && body["error"]["message"] == json!("why"), "error-changed", "{body}");
			} else {
				ensure!(body["result"] == result, "result-changed", "{body} instead of {result}");
			}
			obs.eval();
			obs.count("replies", 1);
		}
		// ids are one another's equal exactly when they are the same JSON value
		let other = if r.chance(1, 3) {
			match id {
				Id::N(n) => Id::S(n.to_string()),
				Id::S(s) => s.parse().map(Id::N).unwrap_or(Id::S(s.clone())),
			}
		} else {
			Id::gen(r)
		};
		let (a, b) = (id.real(), other.real());
		ensure!((a == b) == (*id == other), "id-equality", "{id:?} and {other:?} compare {}", a == b);
		ensure!((a.to_string() == b.to_string()) == (*id == other), "id-display", "{id:?} and {other:?} print as {a} and {b}");
		let mut set = std::collections::HashMap::new();
		set.insert(a.clone(), 1);
		ensure!(set.contains_key(&b) == (*id == other), "id-hash", "{id:?} and {other:?} collide in a map");
		let mut ord = std::collections::BTreeSet::new();
		ord.insert(a);
		ensure!(ord.contains(&b) == (*id == other), "id-order", "{id:?} and {other:?} are confused in an ordered set");
		obs.evals(4);
		obs.count("id pairs", 1);
	}
	obs.nontrivial(format!("{m:?}").as_bytes());
	obs.sample(|| format!("{m:?}"));
	Ok(())
}

fn partial_message_is_error(obs: &mut Obs) -> CaseResult {
	// reserving on the sender's word: a length with nothing behind it
	for n in ["68719476736", "1099511627776", "9223372036854775807", "18446744073709551615"] {
		let b = format!("Content-Length: {n}\r\n\r\n{{}}").into_bytes();
		let mut rd = io::Cursor::new(b);
		let (res, peak) = mem::peak_of(1 << 30, || guard(|| Message::read(&mut rd)));
		let res = res.map_err(|p| violation!("hostile-panic", "Content-Length: {n} with 2 bytes following: panic: {p}"))?;
		ensure!(res.is_err(), "truncated-accepted", "Content-Length: {n} with 2 bytes following: {res:?}");
		ensure!(peak < 1 << 20, "memory", "Content-Length: {n} with 2 bytes following: {peak} bytes of memory");
		obs.eval();
	}
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![
		Check {
			id: "C06",
			rule: "sequences of 1-6 generated messages, written through short/interrupted writes and read through chunked/interrupted reads; non-trivial: distinct message sequences",
			quick: 48_000,
			thorough: 400_000,
			min_distinct: 1000,
			must_observe: &["messages written and decoded independently", "messages read back", "broken writers"],
			run: c06,
			..Check::DEFAULT
		},
		Check {
			id: "C07",
			rule: "hostile byte streams (mutated frames, lying lengths, garbage, faults) plus malformed-then-good and truncated streams; non-trivial: distinct streams",
			quick: 60_000,
			thorough: 400_000,
			min_distinct: 1000,
			must_observe: &["messages", "errors", "ends", "malformed bodies", "truncated streams", "messages after malformed bodies"],
			run: c07,
			probes: &[("announced length is not reserved on the sender's word", partial_message_is_error)],
			..Check::DEFAULT
		},
		Check {
			id: "C08",
			rule: "one generated message of each JSON-RPC kind in an independent encoding, and replies to it; non-trivial: distinct messages",
			quick: 200_000,
			thorough: 1_000_000,
			min_distinct: 1000,
			must_observe: &["request", "notification", "result", "error", "replies", "id pairs"],
			run: c08,
			..Check::DEFAULT
		},
	]
}
