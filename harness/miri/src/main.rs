//! C35, under Miri: small workloads for everything that rests on unsafe code. Miri is the oracle; what this prints is
//! what was observed. p4miri KINDS FIRST COUNT SECONDS
#![allow(dead_code)]
#[path = "../../host/src/sim.rs"]
mod sim;

use analyzer_abstractions::futures_extensions::{async_extensions::AsyncPool, FutureCompletionSource};
use analyzer_core::{
	base_abstractions::*,
	lsp_file::{ChangeEvent, Position, Range},
	Analyzer,
};
use cancellation::CancellationTokenSource;
use serde_json::{json, Value};
use sim::{FsMode, Sim};
use std::{
	collections::BTreeMap,
	future::Future,
	pin::Pin,
	sync::{
		atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst},
		Arc, Mutex,
	},
	task::{Context, Poll, Wake, Waker},
	time::Instant,
};
use vcommon::{CaseResult, Rng};

const PIECES: &[&str] = &[
	"x", "é", "8w0b12", "0xg", "4w99", "0b2 ", "4s1_0", "\n", "\n#if 1\n", "\n#if (X + 2) * 3 == 9 && defined(X)\n", "\n#else\n", "\n#endif\n", "\n#define X 1\n", "\n#include \"b\"\n",
	"\n#include \"c\"\n", "\n#include \"a\"\n", "\n#error no\n", "\n#undef X\n", "/* c", "*/", "// d\n", "\"s\\\"", "\u{1F600}", "\u{7}\u{8}", "#", "@", "9999999999w1",
];

fn text(r: &mut Rng) -> String { (0..r.below(7)).map(|_| r.word(PIECES)).collect::<Vec<_>>().join(r.word(&["", " "])) }

/// Everything the analyzer lends out is looked at while it is alive: before, between and after other queries.
fn analyzer(r: &mut Rng, out: &mut Vec<String>) {
	let asked = Arc::new(AtomicUsize::new(0));
	let n = asked.clone();
	let mut a = Analyzer::new(|_, p| Ok(p.to_string()), move |_| { n.fetch_add(1, SeqCst); });
	let names = ["a", "b", "c"];
	for _ in 0..r.range(3, 7) {
		let name = r.word(&names);
		let id = a.file_id(name);
		match r.below(6) {
			0 if a.input(id).is_some() => {
				a.delete(name);
				out.push("delete".into());
			}
			1 | 2 if a.input(id).is_some() => {
				let lines = a.input(id).unwrap().lines().count();
				let at = Position::new(r.below(lines + 1), r.below(4));
				let end = Position::new(at.line + r.below(2), at.character + r.below(3));
				let range = if r.chance(1, 5) { None } else { Some(Range { start: at, end }) };
				a.file_change_event(id, &vec![ChangeEvent { range, text: text(r) }]);
				out.push("change".into());
			}
			_ => {
				let t = text(r);
				a.update(id, &t);
				out.push("update".into());
			}
		}
		let ids: Vec<FileId> = names.iter().map(|n| a.file_id(n)).collect();
		// borrowed, and looked at again after everything else was computed
		let held: Vec<_> = ids.iter().map(|&i| (a.input(i), a.lexed(i))).collect();
		let mut seen = vec![];
		for &i in &ids {
			if r.chance(2, 3) {
				let pre = a.preprocessed(i);
				seen.push(format!("{:?}", pre.map(|p| p.iter().map(|(f, t, s)| format!("{}{t:?}{s:?}", a.path(*f))).collect::<String>())));
				let d = a.diagnostics(i);
				seen.push(d.iter().map(|d| format!("{}{:?}{}", a.path(d.file), d.location, d.message)).collect());
				seen.push(a.include_dependencies(i).iter().map(|d| format!("{}{}", a.path(d.file_id), d.is_resolved)).collect());
			}
		}
		seen.push(format!("{held:?}"));
		out.push(format!("{:x}", vcommon::hash64(seen.concat().as_bytes())));
	}
}

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) { self.0.store(true, SeqCst) }
}

fn wait<F: Future>(f: F) -> F::Output {
	let flag = Arc::new(Flag(AtomicBool::new(true)));
	let w = Waker::from(flag.clone());
	let mut f = Box::pin(f);
	loop {
		if flag.0.swap(false, SeqCst) {
			if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
				return x;
			}
		} else {
			std::thread::yield_now();
		}
	}
}

fn completion(r: &mut Rng, out: &mut Vec<String>) {
	let s = FutureCompletionSource::<Arc<String>, u8>::new();
	let consumers: Vec<_> = (0..r.range(1, 3))
		.map(|k| {
			let (s, drop_it) = (s.clone(), r.chance(1, 5));
			std::thread::spawn(move || {
				if drop_it {
					let flag = Arc::new(Flag(AtomicBool::new(true)));
					let mut f = Box::pin(s.future());
					let _ = f.as_mut().poll(&mut Context::from_waker(&Waker::from(flag)));
					drop(f);
				}
				(k, wait(s.future()).map(|x| x.len()))
			})
		})
		.collect();
	let producers: Vec<_> = (0..r.range(1, 2))
		.map(|k| {
			let (s, bad) = (s.clone(), r.chance(1, 4));
			std::thread::spawn(move || if bad { s.set_err(k as u8).is_ok() } else { s.set_value(Arc::new("v".repeat(k + 1))).is_ok() })
		})
		.collect();
	for p in producers {
		out.push(format!("p{}", p.join().unwrap()));
	}
	for c in consumers {
		out.push(format!("c{:?}", c.join().unwrap()));
	}
}

/// Work that gives its waker away, and is over when it was woken as often as it wants.
struct Woken {
	left: usize,
	give: Arc<Mutex<Vec<Waker>>>,
	done: Arc<AtomicUsize>,
	heap: Vec<u8>,
}
impl Future for Woken {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		let n = self.heap.len() as u8;
		self.heap.push(n);
		if self.left == 0 {
			self.done.fetch_add(1, SeqCst);
			return Poll::Ready(());
		}
		self.left -= 1;
		if self.left % 3 == 0 {
			cx.waker().wake_by_ref();
		} else {
			self.give.lock().unwrap().push(cx.waker().clone());
		}
		Poll::Pending
	}
}

fn pool(r: &mut Rng, out: &mut Vec<String>) {
	let (give, done) = (Arc::new(Mutex::new(Vec::<Waker>::new())), Arc::new(AtomicUsize::new(0)));
	let n = r.range(1, 4);
	let early = r.chance(1, 3);
	let stop = Arc::new(AtomicBool::new(false));
	let wakers: Vec<_> = (0..r.range(1, 2))
		.map(|_| {
			let (give, stop, twice) = (give.clone(), stop.clone(), r.chance(1, 3));
			std::thread::spawn(move || loop {
				let w = give.lock().unwrap().pop();
				match w {
					Some(w) => {
						if twice {
							w.wake_by_ref();
						}
						w.wake()
					}
					None if stop.load(SeqCst) => return,
					None => std::thread::yield_now(),
				}
			})
		})
		.collect();
	let wants: Vec<usize> = (0..n).map(|_| r.below(4)).collect();
	let (g, d) = (give.clone(), done.clone());
	let runner = std::thread::spawn(move || {
		let source = CancellationTokenSource::new();
		for left in wants {
			AsyncPool::spawn_work(Woken { left, give: g.clone(), done: d.clone(), heap: vec![] });
		}
		let d2 = d.clone();
		let mut started = Box::pin(AsyncPool::start(source.token().clone()));
		let flag = Arc::new(Flag(AtomicBool::new(true)));
		let w = Waker::from(flag.clone());
		let mut polls = 0;
		loop {
			if (early && polls == 2) || d2.load(SeqCst) == n {
				AsyncPool::stop();
			}
			if flag.0.swap(false, SeqCst) {
				polls += 1;
				if started.as_mut().poll(&mut Context::from_waker(&w)).is_ready() {
					return polls;
				}
			} else {
				std::thread::yield_now();
				if early {
					polls += 1;
					if polls > 2 {
						AsyncPool::stop();
					}
				}
			}
		}
	});
	out.push(format!("polls{}", runner.join().unwrap().min(12)));
	stop.store(true, SeqCst);
	for w in wakers {
		w.join().unwrap();
	}
	// what is left of the work is woken, and dropped, here
	for w in give.lock().unwrap().drain(..) {
		w.wake();
	}
	out.push(format!("done{}of{n}", done.load(SeqCst)));
}

fn session(r: &mut Rng, out: &mut Vec<String>) -> CaseResult {
	let mode = if r.chance(1, 2) { FsMode::Given } else { FsMode::Client };
	let mut disk: BTreeMap<String, String> = BTreeMap::new();
	for n in ["a", "b"] {
		disk.insert(format!("file:///w/{n}.p4"), format!("{n}1 0xg\n#include \"b.p4\"\n"));
	}
	let mut s = Sim::new(mode, disk);
	let f = vec!["file:///w".to_string()];
	s.request("initialize", Sim::initialize_params(Some(&f[..]), true, Some(r.chance(1, 2))));
	s.notify("initialized", json!({}));
	if r.chance(2, 3) {
		s.settle(r)?;
	}
	for _ in 0..r.range(2, 6) {
		let u = r.word(&["file:///w/a.p4", "file:///w/b.p4", "untitled:x"]);
		let k = r.below(8);
		match k {
			0 | 1 => s.did_open(u, r.word(&["x y é", "#include \"a.p4\"\nz", ""])),
			2 => s.notify("textDocument/didChange", json!({ "textDocument": { "uri": u, "version": 2 }, "contentChanges": [{ "text": "q w" }] })),
			3 => s.did_close(u),
			4 => {
				s.request("textDocument/completion", Sim::completion_params(u));
			}
			5 => s.watched(&[("file:///w/b.p4", 1 + r.below(3) as u64)]),
			6 => {
				s.answer_one(r);
			}
			_ => s.run()?,
		}
		out.push(k.to_string());
	}
	match r.below(4) {
		0 => s.source.cancel(),
		1 => {
			s.to.close();
		}
		2 => s.notify("exit", Value::Null),
		_ => {}
	}
	for _ in 0..200 {
		s.run()?;
		if s.done.is_some() || !s.answer_one(r) {
			break;
		}
	}
	out.push(format!("{:?}{}", s.done, s.polls.min(200)));
	Ok(())
}

fn main() {
	let a: Vec<String> = std::env::args().skip(1).collect();
	let kinds: Vec<char> = a[0].chars().collect();
	let n: Vec<u64> = a[1..].iter().map(|x| x.parse().unwrap()).collect();
	let start = Instant::now();
	for case in n[0]..n[0].saturating_add(n[1]) {
		if start.elapsed().as_secs() > n[2] {
			break;
		}
		let mut r = Rng::new(0xC35 ^ case << 20);
		let kind = kinds[r.below(kinds.len())];
		println!("start {case} {kind}");
		let mut out = vec![];
		let res = match kind {
			'a' => Ok(analyzer(&mut r, &mut out)),
			'c' => Ok(completion(&mut r, &mut out)),
			'p' => Ok(pool(&mut r, &mut out)),
			_ => session(&mut r, &mut out),
		};
		println!("end {case} {kind} {} {}", out.join(","), res.err().map_or(String::new(), |v| format!("(other: {})", v.signature)));
	}
}
