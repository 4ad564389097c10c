//! C31: the driver between a source of messages and the server, with its buffered source.
use analyzer_host::json_rpc::message::{Message, Notification};
use cancellation::CancellationTokenSource;
use p4_analyzer::driver::{buffer_driver::BufferStruct, Driver, DriverType};
use queues::{IsQueue, Queue};
use std::{
	sync::{
		atomic::{AtomicBool, Ordering},
		Arc, Mutex,
	},
	time::{Duration, Instant},
};
use vcommon::{ensure, violation, CaseResult, Check, Obs, Rng};

const PATIENCE: Duration = Duration::from_secs(30);

fn message(producer: usize, n: usize, payload: &str) -> Message {
	Message::Notification(Notification { method: format!("m{producer}"), params: serde_json::json!({ "n": n, "payload": payload }) })
}

fn read(m: &Message) -> (usize, usize, String) {
	match m {
		Message::Notification(Notification { method, params }) => {
			(method[1..].parse().unwrap(), params["n"].as_u64().unwrap() as usize, params["payload"].as_str().unwrap().to_string())
		}
		_ => panic!("another kind of message"),
	}
}

/// The message that one entry of the output buffer is.
fn unframe(s: &str) -> Option<(usize, usize, String)> {
	let (head, body) = s.split_once("\r\n\r\n")?;
	let n: usize = head.strip_prefix("Content-Length: ")?.parse().ok()?;
	if n != body.len() {
		return None;
	}
	let v: serde_json::Value = serde_json::from_str(body).ok()?;
	if v["jsonrpc"] != "2.0" {
		return None;
	}
	Some((v["method"].as_str()?[1..].parse().ok()?, v["params"]["n"].as_u64()? as usize, v["params"]["payload"].as_str()?.to_string()))
}

fn queue(ms: Vec<Message>) -> Queue<Message> {
	let mut q = Queue::new();
	for m in ms {
		q.add(m).unwrap();
	}
	q
}

fn runtime() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap() }

struct Rig {
	buffer: Arc<BufferStruct>,
	channel: analyzer_host::MessageChannel,
	source: CancellationTokenSource,
	outcome: Arc<Mutex<Option<bool>>>,
	/// What the server's side received.
	arrived: Arc<Mutex<Vec<(usize, usize, String)>>>,
	stop: Arc<AtomicBool>,
	server: Option<std::thread::JoinHandle<()>>,
	thread: Option<std::thread::JoinHandle<()>>,
}

impl Rig {
	fn new(initial: Vec<Message>) -> Rig {
		let buffer = Arc::new(BufferStruct::new(queue(initial)));
		let driver = Driver::new(DriverType::Buffer(buffer.clone()));
		let channel = driver.get_message_channel();
		let source = CancellationTokenSource::new();
		let token = source.token().clone();
		let outcome = Arc::new(Mutex::new(None));
		let o = outcome.clone();
		let thread = std::thread::spawn(move || {
			let r = runtime().block_on(driver.start(token)).is_ok();
			*o.lock().unwrap() = Some(r);
		});
		let arrived = Arc::new(Mutex::new(vec![]));
		let stop = Arc::new(AtomicBool::new(false));
		let (a, s, rx) = (arrived.clone(), stop.clone(), channel.1.clone());
		let server = std::thread::spawn(move || loop {
			match rx.try_recv() {
				Ok(m) => a.lock().unwrap().push(read(&m)),
				Err(async_channel::TryRecvError::Closed) => return,
				_ if s.load(Ordering::SeqCst) => return,
				_ => std::thread::sleep(Duration::from_micros(100)),
			}
		});
		Rig { buffer, channel, source, outcome, arrived, stop, server: Some(server), thread: Some(thread) }
	}

	fn arrived(&self) -> usize { self.arrived.lock().unwrap().len() }

	fn until(&self, f: impl Fn() -> bool) -> bool {
		let end = Instant::now() + PATIENCE;
		while !f() {
			if Instant::now() > end {
				return false;
			}
			std::thread::sleep(Duration::from_micros(200));
		}
		true
	}

	/// Ends the driver, and the thread of its that still reads.
	fn end(&mut self, cancel: bool) -> CaseResult {
		if cancel {
			self.source.cancel();
		} else {
			self.channel.0.close();
		}
		let ended = self.until(|| self.outcome.lock().unwrap().is_some());
		ensure!(ended, "does-not-end", "the driver does not end after {}", if cancel { "being cancelled" } else { "its channel was closed" });
		let ok = self.outcome.lock().unwrap().unwrap();
		ensure!(ok != cancel, "outcome", "the driver ended with {} after {}", if ok { "success" } else { "a cancellation" }, if cancel { "being cancelled" } else { "its channel was closed" });
		Ok(())
	}
}

impl Drop for Rig {
	fn drop(&mut self) {
		self.source.cancel();
		self.channel.0.close();
		self.channel.1.close();
		self.stop.store(true, Ordering::SeqCst);
		// a last message, that the reading thread fails to hand on; a buffer that is stuck is left alone
		let b = self.buffer.clone();
		let last = std::thread::spawn(move || {
			b.add_to_queue_blocking(queue(vec![message(0, 0, "")]));
			begin(b.allow_any_read_blocking(1));
		});
		let end = Instant::now() + Duration::from_secs(5);
		while !last.is_finished() && Instant::now() < end {
			std::thread::sleep(Duration::from_micros(100));
		}
		if !last.is_finished() {
			return;
		}
		let _ = self.server.take().unwrap().join();
		if self.outcome.lock().unwrap().is_some() {
			let _ = self.thread.take().unwrap().join();
		}
	}
}

fn pause(r: &mut Rng) {
	match r.below(4) {
		0 => std::thread::sleep(Duration::from_micros(r.below(300) as u64)),
		1 => std::thread::sleep(Duration::from_micros(r.below(3000) as u64)),
		2 => std::thread::yield_now(),
		_ => {}
	}
}

fn payload(r: &mut Rng) -> String {
	match r.below(12) {
		0 => "é\r\n\r\n∑😀\u{0}".to_string(),
		1 => "x".repeat(r.range(1000, 50_000)),
		_ => "p".to_string(),
	}
}

/// One user, who adds, allows and clears, while the driver reads.
fn steps(r: &mut Rng, obs: &mut Obs) -> CaseResult {
	let mut n = 0;
	let mut all: Vec<String> = vec![];
	let mut make = |r: &mut Rng, k: usize, all: &mut Vec<String>| -> Vec<Message> {
		(0..k)
			.map(|_| {
				let p = payload(r);
				n += 1;
				all.push(p.clone());
				message(0, n - 1, &p)
			})
			.collect()
	};
	let k = r.below(6);
	let first = make(r, k, &mut all);
	let mut rig = Rig::new(first);
	let rt = runtime();
	// `least` and `most` of the messages that may have been handed over by now; `gone`: cleared while they were waiting
	let (mut least, mut most) = (0usize, 0usize);
	let mut path = String::new();
	let mut sent: Vec<(usize, String)> = vec![];
	let mut got_out = 0;
	let cleared = r.chance(1, 6);
	for _ in 0..r.range(2, 25) {
		let op = r.below(9);
		path.push_str(&op.to_string());
		match op {
			0 => {
				let k = r.below(5);
				let ms = make(r, k, &mut all);
				rig.buffer.add_to_queue_blocking(queue(ms));
			}
			1 => {
				rt.block_on(rig.buffer.allow_read_blocking());
				least += 1;
				most += 1;
			}
			2 => {
				let k = r.below(4);
				rt.block_on(rig.buffer.allow_any_read_blocking(k));
				least += k;
				most += k;
			}
			3 => {
				rt.block_on(rig.buffer.allow_all_read_blocking());
				least = all.len();
				most = most.max(all.len());
			}
			4 => pause(r),
			5 => {
				// everything that was allowed arrives
				let want = least.min(all.len());
				let ok = rig.until(|| rig.arrived() >= want);
				ensure!(ok, "not-handed-over", "{path}: {want} messages were allowed to be read, {} arrived", rig.arrived());
				obs.count("allowances settled", 1);
			}
			6 => {
				let k = r.range(1, 4);
				for _ in 0..k {
					let p = payload(r);
					sent.push((sent.len(), p.clone()));
					rig.channel.0.try_send(message(1, sent.len() - 1, &p)).unwrap();
				}
			}
			7 => {
				let want = r.below(sent.len() - got_out + 1);
				let out = rt.block_on(async { tokio::time::timeout(PATIENCE, rig.buffer.get_output_buffer(want)).await });
				let out = out.map_err(|_| violation!("output-missing", "{path}: {} messages were sent and {got_out} taken, {want} more do not come", sent.len()))?;
				ensure!(out.len() >= want, "output-short", "{path}: asked for {want} messages, got {}", out.len());
				for o in &out {
					let m = unframe(o).ok_or(violation!("output-garbled", "{path}: {:?}", crate::proc::cut(o, 300)))?;
					ensure!(got_out < sent.len() && m == (1, sent[got_out].0, sent[got_out].1.clone()), "output-differs", "{path}: message {got_out} came out as {:?}", (m.0, m.1));
					got_out += 1;
				}
				obs.count("messages out", out.len() as u64);
			}
			_ => {
				// a user who waits for the queue to be empty
				if least >= all.len() {
					let ok = rt.block_on(async { tokio::time::timeout(PATIENCE, rig.buffer.wait_for_process_messages()).await });
					ensure!(ok.is_ok(), "queue-not-empty", "{path}: all messages were allowed, the queue does not empty");
				}
			}
		}
		obs.eval();
		let have = rig.arrived();
		ensure!(have <= most.min(all.len()), "not-allowed", "{path}: {have} messages arrived, {most} were allowed");
	}
	let want = least.min(all.len());
	ensure!(rig.until(|| rig.arrived() >= want), "not-handed-over", "{path}: {want} messages were allowed to be read, {} arrived", rig.arrived());
	if cleared {
		// what is cleared is not read, and no more is until it is allowed
		let before = all.len();
		rig.buffer.clear_message_buffer();
		std::thread::sleep(Duration::from_millis(3));
		let d = rig.arrived();
		ensure!(d <= most.min(before), "not-allowed", "{path}: {d} messages arrived, {most} were allowed");
		let ms = make(r, 3, &mut all);
		rig.buffer.add_to_queue_blocking(queue(ms));
		std::thread::sleep(Duration::from_millis(8));
		ensure!(rig.arrived() == d, "not-allowed", "{path}: after clearing, {} messages were read that nobody allowed", rig.arrived() - d);
		rt.block_on(rig.buffer.allow_all_read_blocking());
		ensure!(rig.until(|| rig.arrived() == d + 3), "not-handed-over", "{path}: after clearing, 3 messages were allowed and {} arrived", rig.arrived() - d);
		let a = rig.arrived.lock().unwrap();
		for (i, m) in a.iter().enumerate() {
			let want = if i < d { i } else { before + i - d };
			ensure!(m.1 == want && m.2 == all[want], "order", "{path}: message {i} arrived as {}", m.1);
		}
		drop(a);
		obs.count("queues cleared", 1);
	} else {
		if r.chance(1, 3) {
			std::thread::sleep(Duration::from_millis(4));
		}
		let a = rig.arrived.lock().unwrap();
		ensure!(a.len() <= most.min(all.len()), "not-allowed", "{path}: {} messages arrived, {most} were allowed", a.len());
		for (i, m) in a.iter().enumerate() {
			ensure!(m.1 == i && m.2 == all[i], "order", "{path}: message {i} arrived as {}", m.1);
		}
	}
	let arrived = rig.arrived() as u64;
	rig.end(r.chance(1, 3))?;
	obs.count("messages in", arrived);
	obs.nontrivial(path.as_bytes());
	obs.sample(|| format!("steps {path}: {arrived} messages in, {got_out} out"));
	Ok(())
}

/// Several users at once.
fn crowd(r: &mut Rng, obs: &mut Obs) -> CaseResult {
	let mut rig = Rig::new(vec![]);
	let producers = r.range(1, 4);
	let each = r.range(5, 60);
	let wild = r.chance(1, 2);
	let outputs = r.range(0, 80);
	let done = Arc::new(Mutex::new(0));
	let mut threads = vec![];
	for p in 0..producers {
		let b = rig.buffer.clone();
		let mut r = Rng::new(r.next());
		let done = done.clone();
		threads.push(std::thread::spawn(move || {
			let rt = runtime();
			let mut n = 0;
			while n < each {
				let k = r.range(1, 3).min(each - n);
				b.add_to_queue_blocking(queue((0..k).map(|i| message(p, n + i, "p")).collect()));
				n += k;
				if r.chance(1, 3) {
					pause(&mut r);
				}
				if wild && r.chance(1, 2) {
					rt.block_on(b.allow_all_read_blocking());
				} else {
					rt.block_on(b.allow_any_read_blocking(k));
				}
			}
			*done.lock().unwrap() += 1;
		}));
	}
	let tx = rig.channel.0.clone();
	let mut ro = Rng::new(r.next());
	threads.push(std::thread::spawn(move || {
		for n in 0..outputs {
			let _ = tx.try_send(message(9, n, "o"));
			if ro.chance(1, 4) {
				pause(&mut ro);
			}
		}
	}));
	// several takers, each of whom gets a part
	let takers = r.range(1, 3);
	let taken = Arc::new(Mutex::new(vec![]));
	let finish = Arc::new(AtomicBool::new(false));
	let mut taking = vec![];
	for _ in 0..takers {
		let (b, t, f) = (rig.buffer.clone(), taken.clone(), finish.clone());
		taking.push(std::thread::spawn(move || {
			let rt = runtime();
			while !f.load(Ordering::SeqCst) {
				let out = rt.block_on(b.get_output_buffer(0));
				if !out.is_empty() {
					t.lock().unwrap().push(out);
				} else {
					std::thread::sleep(Duration::from_micros(300));
				}
			}
		}));
	}
	let ok = rig.until(|| *done.lock().unwrap() == producers);
	ensure!(ok, "deadlock", "{producers} users of the buffer are stuck");
	let total = producers * each;
	if wild {
		runtime().block_on(rig.buffer.allow_all_read_blocking());
	}
	ensure!(rig.until(|| rig.arrived() == total), "not-handed-over", "{total} messages were added and allowed, {} arrived", rig.arrived());
	let all_out = rig.until(|| taken.lock().unwrap().iter().map(|b: &Vec<String>| b.len()).sum::<usize>() >= outputs);
	finish.store(true, Ordering::SeqCst);
	for t in threads.into_iter().chain(taking) {
		t.join().map_err(|_| violation!("panic", "a user of the buffer panicked: {}", vcommon::take_panic()))?;
	}
	obs.eval();
	let out = taken.lock().unwrap();
	let n: usize = out.iter().map(|b| b.len()).sum();
	ensure!(all_out && n == outputs, "output-missing", "{outputs} messages were sent, {n} came out");
	let mut seen = std::collections::HashSet::new();
	for batch in out.iter() {
		let mut last = None;
		for o in batch {
			let m = unframe(o).ok_or(violation!("output-garbled", "{o:?}"))?;
			ensure!(seen.insert(m.1), "output-twice", "message {} came out twice", m.1);
			ensure!(last < Some(m.1), "output-order", "message {} came out after {last:?}", m.1);
			last = Some(m.1);
		}
	}
	drop(out);
	let a = rig.arrived.lock().unwrap().clone();
	let mut next = vec![0; producers];
	let mut order = vec![];
	for m in &a {
		ensure!(m.1 == next[m.0], "order", "message {} of user {} arrived where {} was due", m.1, m.0, next[m.0]);
		next[m.0] += 1;
		order.push(m.0 as u8);
	}
	rig.end(r.chance(1, 3))?;
	obs.count("messages in", total as u64);
	obs.count("messages out", outputs as u64);
	obs.count("crowds", 1);
	obs.distinct_of("interleavings", &order);
	obs.nontrivial(&order);
	Ok(())
}

/// Runs the part of an operation that does something; what would follow is only giving way to others.
fn begin<F: std::future::Future>(f: F) { let _ = futures::FutureExt::now_or_never(f); }

/// Many operations in a short time, while the driver reads; then it is as if they had happened one after the other.
fn storm(r: &mut Rng, obs: &mut Obs) -> CaseResult {
	let kind = r.below(3);
	let mut rig = Rig::new(vec![]);
	let live = Arc::new(AtomicBool::new(true));
	let total = r.range(20, 400);
	let mut threads = vec![];
	let (b, mut r2) = (rig.buffer.clone(), Rng::new(r.next()));
	threads.push(std::thread::spawn(move || {
		let mut n = 0;
		while n < total {
			let k = r2.range(1, 8).min(total - n);
			b.add_to_queue_blocking(queue((0..k).map(|i| message(0, n + i, "p")).collect()));
			if kind != 1 || r2.chance(1, 2) {
				begin(b.allow_any_read_blocking(k));
			}
			n += k;
			if r2.chance(1, 10) {
				pause(&mut r2);
			}
		}
	}));
	let mut calls = vec![];
	for _ in 0..r.range(1, 3) {
		let (b, l, mut r2) = (rig.buffer.clone(), live.clone(), Rng::new(r.next()));
		let count = Arc::new(std::sync::atomic::AtomicUsize::new(0));
		calls.push(count.clone());
		threads.push(std::thread::spawn(move || {
			while l.load(Ordering::SeqCst) {
				if kind == 2 {
					b.clear_message_buffer();
				} else {
					begin(b.allow_all_read_blocking());
				}
				count.fetch_add(1, Ordering::SeqCst);
				for _ in 0..r2.below(300) {
					std::hint::spin_loop();
				}
				if r2.chance(1, 50) {
					std::thread::sleep(Duration::from_micros(r2.below(200) as u64));
				}
			}
		}));
	}
	let done = Arc::new(AtomicBool::new(false));
	let (d, first) = (done.clone(), threads.remove(0));
	let first = std::thread::spawn(move || {
		let r = first.join();
		d.store(true, Ordering::SeqCst);
		r
	});
	ensure!(rig.until(|| done.load(Ordering::SeqCst)), "deadlock", "storm {kind}: a user who adds messages is stuck");
	if kind != 2 {
		ensure!(rig.until(|| rig.arrived() == total), "not-handed-over", "storm {kind}: {total} messages were added and allowed, {} arrived", rig.arrived());
	}
	live.store(false, Ordering::SeqCst);
	let stuck = Instant::now() + PATIENCE;
	for t in threads {
		while !t.is_finished() {
			ensure!(Instant::now() < stuck, "deadlock", "storm {kind}: a user who allows or clears is stuck");
			std::thread::sleep(Duration::from_micros(200));
		}
		t.join().map_err(|_| violation!("panic", "a user of the buffer panicked: {}", vcommon::take_panic()))?;
	}
	first.join().unwrap().map_err(|_| violation!("panic", "a user of the buffer panicked: {}", vcommon::take_panic()))?;
	// all is quiet: everything that was allowed is allowed once
	if kind == 2 {
		rig.buffer.clear_message_buffer();
	} else {
		begin(rig.buffer.allow_all_read_blocking());
	}
	std::thread::sleep(Duration::from_millis(5));
	let before = rig.arrived();
	{
		let a = rig.arrived.lock().unwrap();
		let mut last = None;
		for m in a.iter() {
			ensure!(last < Some(m.1), "order", "storm {kind}: message {} arrived after {last:?}", m.1);
			last = Some(m.1);
		}
	}
	rig.buffer.add_to_queue_blocking(queue((0..3).map(|i| message(0, total + i, "p")).collect()));
	std::thread::sleep(Duration::from_millis(6));
	ensure!(rig.arrived() == before, "not-allowed", "storm {kind}: {} messages were read that nobody allowed", rig.arrived() - before);
	begin(rig.buffer.allow_any_read_blocking(2));
	ensure!(rig.until(|| rig.arrived() >= before + 2), "not-handed-over", "storm {kind}: 2 messages were allowed after it and {} arrived", rig.arrived() - before);
	std::thread::sleep(Duration::from_millis(3));
	ensure!(rig.arrived() == before + 2, "not-allowed", "storm {kind}: 2 messages were allowed after it and {} arrived", rig.arrived() - before);
	rig.end(r.chance(1, 3))?;
	obs.eval();
	obs.count("messages in", before as u64);
	obs.count("storms", 1);
	let calls: usize = calls.iter().map(|c| c.load(Ordering::SeqCst)).sum();
	obs.count("operations in storms", calls as u64);
	obs.nontrivial(format!("{kind} {total} {before} {calls}").as_bytes());
	Ok(())
}

fn c31(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	match r.below(6) {
		0..=2 => steps(r, obs),
		3 => crowd(r, obs),
		_ => storm(r, obs),
	}
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C31",
		rule: "2–25 steps of one user of the buffered driver (adding, allowing, clearing, taking) with pauses, or 1–4 users and 1–3 takers at once, or a storm of allowing or clearing while messages are added, against the threads of the driver; distinct by the steps, by the order of arrival, or by the numbers of operations",
		quick: 12_000,
		thorough: 60_000,
		min_distinct: 500,
		must_observe: &["messages in", "messages out", "crowds", "storms", "queues cleared", "allowances settled"],
		run: c31,
		assumptions: &["30 s without progress count as none to come"],
		..Check::DEFAULT
	}]
}
