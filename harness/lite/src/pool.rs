//! C11 the work pool: every piece of work runs to its end exactly once, however its wakes interleave with its polls,
//! with a wake-up arriving from any thread, before, during and after stop.
use analyzer_abstractions::futures_extensions::async_extensions::AsyncPool;
use cancellation::{CancellationToken, CancellationTokenSource, OperationCanceled};
use futures::task::{waker, ArcWake};
use std::{
	future::Future,
	pin::Pin,
	sync::{
		atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst},
		Arc, Mutex,
	},
	task::{Context, Poll, Waker},
	time::{Duration, Instant},
};
use vcommon::*;

struct Flag(AtomicBool);
impl ArcWake for Flag {
	fn wake_by_ref(a: &Arc<Self>) { a.0.store(true, SeqCst) }
}

/// How one await point of a piece of work is resumed.
#[derive(Clone, Copy, Debug)]
enum Step {
	/// wakes itself during the poll, `n` times
	Own(u8),
	/// another thread wakes it while it is still being polled (the poll waits until it has)
	During,
	/// another thread wakes it some time later
	Later(u16),
	/// both
	Twice,
	/// a clone of the waker is kept and used again much later, when it may be finished
	Stale,
}

struct Ctl {
	polls: AtomicU32,
	overlapping: AtomicU32,
	in_poll: AtomicBool,
	finished: AtomicU32,
	dropped: AtomicU32,
	/// times it was polled after being finished
	after: AtomicU32,
	thread: Mutex<Option<std::thread::ThreadId>>,
	foreign: AtomicU32,
}

struct Work {
	steps: Vec<Step>,
	at: usize,
	armed: bool,
	ready: Arc<AtomicBool>,
	ctl: Arc<Ctl>,
	tx: std::sync::mpsc::SyncSender<(Step, Waker, Arc<AtomicBool>)>,
	spawn: Vec<(Vec<Step>, Arc<Ctl>)>,
	stale: Arc<Mutex<Vec<Waker>>>,
	/// wakes asked of other threads so far
	sent: Arc<AtomicUsize>,
}
// SyncSender is Send+Sync on newer toolchains only; here it is used by one thread at a time.
unsafe impl Sync for Work {}

impl Drop for Work {
	fn drop(&mut self) { self.ctl.dropped.fetch_add(1, SeqCst); }
}

impl Future for Work {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		let me = &mut *self;
		let ctl = me.ctl.clone();
		ctl.polls.fetch_add(1, SeqCst);
		if ctl.in_poll.swap(true, SeqCst) {
			ctl.overlapping.fetch_add(1, SeqCst);
		}
		if ctl.finished.load(SeqCst) > 0 {
			ctl.after.fetch_add(1, SeqCst);
		}
		if *ctl.thread.lock().unwrap() != Some(std::thread::current().id()) {
			ctl.foreign.fetch_add(1, SeqCst);
		}
		for (steps, c) in me.spawn.drain(..) {
			*c.thread.lock().unwrap() = Some(std::thread::current().id());
			AsyncPool::spawn_work(Work {
				steps,
				at: 0,
				armed: false,
				ready: Arc::new(AtomicBool::new(false)),
				ctl: c,
				tx: me.tx.clone(),
				spawn: vec![],
				stale: me.stale.clone(),
				sent: me.sent.clone(),
			});
		}
		let r = loop {
			if me.at == me.steps.len() {
				ctl.finished.fetch_add(1, SeqCst);
				break Poll::Ready(());
			}
			if me.armed {
				if me.ready.load(SeqCst) {
					me.at += 1;
					me.armed = false;
					me.ready = Arc::new(AtomicBool::new(false));
					continue;
				}
				break Poll::Pending; // a spurious poll
			}
			me.armed = true;
			if !matches!(me.steps[me.at], Step::Own(_)) {
				me.sent.fetch_add(1, SeqCst);
			}
			match me.steps[me.at] {
				Step::Own(n) => {
					me.ready.store(true, SeqCst);
					for i in 0..n.max(1) {
						if i % 2 == 0 {
							cx.waker().wake_by_ref()
						} else {
							cx.waker().clone().wake()
						}
					}
				}
				Step::During => {
					me.tx.send((Step::During, cx.waker().clone(), me.ready.clone())).unwrap();
					let t = Instant::now();
					while !me.ready.load(SeqCst) && t.elapsed() < Duration::from_millis(20) {
						std::thread::yield_now()
					}
				}
				s @ Step::Stale => {
					me.stale.lock().unwrap().push(cx.waker().clone());
					me.tx.send((s, cx.waker().clone(), me.ready.clone())).unwrap();
				}
				s => me.tx.send((s, cx.waker().clone(), me.ready.clone())).unwrap(),
			}
			break Poll::Pending;
		};
		ctl.in_poll.store(false, SeqCst);
		r
	}
}

fn ctl() -> Arc<Ctl> {
	Arc::new(Ctl {
		polls: AtomicU32::new(0),
		overlapping: AtomicU32::new(0),
		in_poll: AtomicBool::new(false),
		finished: AtomicU32::new(0),
		dropped: AtomicU32::new(0),
		after: AtomicU32::new(0),
		thread: Mutex::new(Some(std::thread::current().id())),
		foreign: AtomicU32::new(0),
	})
}

fn step(r: &mut Rng) -> Step {
	match r.below(6) {
		0 => Step::Own(r.range(1, 3) as u8),
		1 => Step::During,
		2 => Step::Twice,
		3 => Step::Stale,
		_ => Step::Later(r.below(300) as u16),
	}
}

fn c11(r: &mut Rng, case: u64, obs: &mut Obs) -> CaseResult {
	// the pool belongs to its thread, so every session gets one
	let mut rr = Rng::new(r.next());
	let (res, o) = std::thread::Builder::new()
		.stack_size(2 << 20)
		.spawn(move || {
			let mut o = Obs::default();
			let res = match guard(|| session(&mut rr, &mut o)) {
				Ok(r) => r,
				Err(p) => Err(violation!("pool-panics", "panic: {p}")),
			};
			(res, o)
		})
		.unwrap()
		.join()
		.unwrap();
	let _ = case;
	obs.evaluations += o.evaluations;
	obs.distinct.extend(o.distinct);
	for (k, v) in o.counters {
		*obs.counters.entry(k).or_default() += v;
	}
	for (k, v) in o.sets {
		obs.sets.entry(k).or_default().extend(v);
	}
	for s in o.samples {
		obs.sample(|| s);
	}
	res
}

fn session(r: &mut Rng, obs: &mut Obs) -> CaseResult {
	let (tx, rx) = std::sync::mpsc::sync_channel::<(Step, Waker, Arc<AtomicBool>)>(10_000);
	let wakers = r.range(1, 3);
	let rx = Arc::new(Mutex::new(rx));
	let panics: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
	let given = Arc::new(AtomicUsize::new(0));
	let threads: Vec<_> = (0..wakers)
		.map(|_| {
			let (rx, panics, given) = (rx.clone(), panics.clone(), given.clone());
			std::thread::spawn(move || loop {
				let m = rx.lock().unwrap().recv();
				let (step, w, ready) = match m {
					Ok(m) => m,
					Err(_) => return,
				};
				let p = guard(|| {
					match step {
						Step::Later(n) => {
							for _ in 0..n {
								std::hint::spin_loop()
							}
						}
						_ => {}
					}
					ready.store(true, SeqCst);
					w.wake_by_ref();
					if let Step::Twice = step {
						w.wake_by_ref();
						w.wake();
					}
				});
				if let Err(p) = p {
					panics.lock().unwrap().push(p)
				}
				given.fetch_add(1, SeqCst);
			})
		})
		.collect();

	let stale = Arc::new(Mutex::new(vec![]));
	let mut all: Vec<(Vec<Step>, Arc<Ctl>)> = vec![];
	let sent = Arc::new(AtomicUsize::new(0));
	let make = |r: &mut Rng, all: &mut Vec<(Vec<Step>, Arc<Ctl>)>| {
		let steps: Vec<Step> = (0..r.below(5)).map(|_| step(r)).collect();
		let c = ctl();
		all.push((steps.clone(), c.clone()));
		(steps, c)
	};
	let mut spawn_now = vec![];
	for _ in 0..r.range(1, 6) {
		let (steps, c) = make(r, &mut all);
		let kids = (0..if r.chance(1, 3) { r.range(1, 3) } else { 0 }).map(|_| make(r, &mut all)).collect::<Vec<_>>();
		spawn_now.push(Work {
			steps,
			at: 0,
			armed: false,
			ready: Arc::new(AtomicBool::new(false)),
			ctl: c,
			tx: tx.clone(),
			spawn: kids,
			stale: stale.clone(),
			sent: sent.clone(),
		});
	}
	drop(tx);
	let late = r.chance(1, 3);
	let mut queue: Vec<Work> = vec![];
	for w in spawn_now {
		if late && r.chance(1, 2) {
			queue.push(w)
		} else {
			AsyncPool::spawn_work(w)
		}
	}

	let source = CancellationTokenSource::new();
	let token = source.token().clone();
	let f = Arc::new(Flag(AtomicBool::new(true)));
	let wk = waker(f.clone());
	let mut start: Pin<Box<dyn Future<Output = Result<(), OperationCanceled>>>> = Box::pin(AsyncPool::start(token));
	let describe = |all: &Vec<(Vec<Step>, Arc<Ctl>)>| all.iter().map(|(s, c)| format!("{s:?}: {} polls, finished {}", c.polls.load(SeqCst), c.finished.load(SeqCst))).collect::<Vec<_>>().join("; ");
	let mut rounds = 0u64;
	loop {
		// Every wake asked for has been given and the pool has none pending: nothing more will happen by itself.
		let settled = given.load(SeqCst) == sent.load(SeqCst);
		if f.0.swap(false, SeqCst) {
			rounds += 1;
			if let Poll::Ready(x) = start.as_mut().poll(&mut Context::from_waker(&wk)) {
				return Err(violation!("stopped-early", "the pool ended with {x:?} without being asked to; {}", describe(&all)));
			}
			continue;
		}
		if let Some(w) = queue.pop() {
			AsyncPool::spawn_work(w);
			continue;
		}
		if settled {
			if all.iter().all(|(_, c)| c.finished.load(SeqCst) > 0) {
				break;
			}
			return Err(violation!("work-stuck", "all {} wakes asked for were given and the pool is idle, but work is unfinished; {}", given.load(SeqCst), describe(&all)));
		}
		std::thread::yield_now();
	}
	let judge = |all: &Vec<(Vec<Step>, Arc<Ctl>)>| -> CaseResult {
		for (steps, c) in all {
			ensure!(c.finished.load(SeqCst) == 1, "not-once", "work {steps:?} finished {} times", c.finished.load(SeqCst));
			ensure!(c.after.load(SeqCst) == 0, "polled-after-end", "work {steps:?} was polled after it had finished");
			ensure!(c.overlapping.load(SeqCst) == 0, "overlapping-polls", "work {steps:?} was polled by two at once");
			ensure!(c.foreign.load(SeqCst) == 0, "foreign-thread", "work {steps:?} ran on another thread than its pool's");
		}
		Ok(())
	};
	judge(&all)?;
	obs.evals(4 * all.len() as u64);
	obs.count("pieces of work finished", all.len() as u64);
	obs.count("wakes from other threads", given.load(SeqCst) as u64);
	obs.count("polls of the pool", rounds);
	obs.count("polls of work", all.iter().map(|(_, c)| c.polls.load(SeqCst) as u64).sum());

	// stop, with stale wakers fired around it
	let racing: Vec<Waker> = stale.lock().unwrap().drain(..).collect();
	let how = r.below(3);
	let waking = Arc::new(AtomicBool::new(false));
	let stopped = Arc::new(AtomicBool::new(false));
	let at_stop = std::thread::spawn({
		let (racing, panics, waking, stopped) = (racing.clone(), panics.clone(), waking.clone(), stopped.clone());
		move || {
			if how > 0 {
				// wakes all the time while the pool is being stopped, and a little beyond
				let mut beyond = 0;
				for w in racing.iter().cycle().take(if racing.is_empty() { 0 } else { 20_000 }) {
					if let Err(p) = guard(|| w.wake_by_ref()) {
						panics.lock().unwrap().push(p);
						break;
					}
					waking.store(true, SeqCst);
					beyond += stopped.load(SeqCst) as u32;
					if beyond > 3 {
						break;
					}
				}
			}
			waking.store(true, SeqCst);
		}
	});
	if how > 0 {
		while !waking.load(SeqCst) {
			std::thread::yield_now()
		}
		if !racing.is_empty() {
			obs.count("pools stopped while another thread was waking work", 1);
		}
	}
	let cancelled = r.chance(1, 4);
	if cancelled {
		source.cancel();
	}
	AsyncPool::stop();
	stopped.store(true, SeqCst);
	at_stop.join().unwrap();
	let mut end = None;
	for _ in 0..10_000 {
		if let Poll::Ready(x) = start.as_mut().poll(&mut Context::from_waker(&wk)) {
			end = Some(x);
			break;
		}
	}
	match (end, cancelled) {
		(None, _) => return Err(violation!("does-not-stop", "the pool goes on after stop")),
		(Some(Ok(())), true) => return Err(violation!("cancel-hidden", "the pool was cancelled and stopped, and reports a normal end")),
		(Some(Err(_)), false) => return Err(violation!("cancel-invented", "the pool was stopped, and reports a cancellation")),
		_ => {}
	}
	drop(start);
	for w in racing {
		guard(|| w.wake()).map_err(|p| violation!("wake-after-stop-panics", "{p}"))?;
	}
	drop(threads.into_iter().map(|t| t.join()).collect::<Vec<_>>());
	if let Some(p) = panics.lock().unwrap().first() {
		return Err(violation!("wake-panics", "waking work from another thread panicked: {p}"));
	}
	judge(&all)?;
	for (steps, c) in &all {
		ensure!(c.dropped.load(SeqCst) == 1, "leaked", "finished work {steps:?} was dropped {} times", c.dropped.load(SeqCst));
	}
	obs.evals(3);
	obs.count(if cancelled { "cancelled" } else { "stopped" }, 1);
	let key = all.iter().map(|(s, c)| format!("{s:?}{}", c.polls.load(SeqCst))).collect::<Vec<_>>().join(",");
	obs.distinct_of("poll histories", key.as_bytes());
	obs.nontrivial(key.as_bytes());
	obs.sample(|| describe(&all));
	Ok(())
}

/// A cancelled token is noticed before more work is taken.
fn cancelled_first(obs: &mut Obs) -> CaseResult {
	let r = std::thread::spawn(|| {
		let ran = Arc::new(AtomicU32::new(0));
		let a = ran.clone();
		AsyncPool::spawn_work(async move {
			a.fetch_add(1, SeqCst);
		});
		let source = CancellationTokenSource::new();
		source.cancel();
		let token: Arc<CancellationToken> = source.token().clone();
		let f = Arc::new(Flag(AtomicBool::new(true)));
		let mut s = Box::pin(AsyncPool::start(token));
		let p = s.as_mut().poll(&mut Context::from_waker(&waker(f)));
		(matches!(p, Poll::Ready(Err(OperationCanceled))), ran.load(SeqCst))
	})
	.join()
	.unwrap();
	ensure!(r == (true, 0), "cancel-ignored", "a pool started with a cancelled token: reports cancellation {}, ran {} pieces of work", r.0, r.1);
	obs.eval();
	Ok(())
}

/// Work that asks to be polled again, until something happens elsewhere in the task that runs the pool.
fn fair(obs: &mut Obs) -> CaseResult {
	for works in 1..6usize {
		for turns in 1..8usize {
			let r = std::thread::spawn(move || {
				let happened = Arc::new(AtomicBool::new(false));
				let (polls, done) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
				for _ in 0..works {
					let (h, p, d) = (happened.clone(), polls.clone(), done.clone());
					AsyncPool::spawn_work(async move {
						futures::future::poll_fn(|cx| {
							if h.load(SeqCst) || p.fetch_add(1, SeqCst) > 200_000 {
								return Poll::Ready(());
							}
							cx.waker().wake_by_ref();
							Poll::Pending
						})
						.await;
						d.fetch_add(1, SeqCst);
					});
				}
				let source = CancellationTokenSource::new();
				let mut left = turns;
				let (h, d) = (happened.clone(), done.clone());
				let elsewhere = futures::future::poll_fn(move |cx| {
					cx.waker().wake_by_ref();
					left = left.saturating_sub(1);
					if left == 0 {
						h.store(true, SeqCst);
					}
					if d.load(SeqCst) == works {
						AsyncPool::stop();
						return Poll::Ready(());
					}
					Poll::Pending
				});
				let f = Arc::new(Flag(AtomicBool::new(true)));
				let mut both = Box::pin(futures::future::join(AsyncPool::start(source.token().clone()), elsewhere));
				let wk = waker(f.clone());
				let mut ended = false;
				for _ in 0..100_000 {
					if !f.0.swap(false, SeqCst) {
						break;
					}
					if both.as_mut().poll(&mut Context::from_waker(&wk)).is_ready() {
						ended = true;
						break;
					}
				}
				(polls.load(SeqCst), ended)
			})
			.join()
			.unwrap();
			ensure!(r.0 <= 200_000, "starved", "{works} pieces of work that ask to be polled again kept everything else of the task from running");
			ensure!(r.1, "does-not-stop", "{works} pieces of work that waited for something elsewhere in the task: the pool did not end");
			obs.eval();
		}
	}
	obs.count("pools shared with something else", 1);
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![Check {
		id: "C11",
		rule: "sessions of 1-18 pieces of work (some spawned by others) with 0-4 await points, woken by themselves, during the poll, later or twice from 1-3 threads, stale wakers fired around stop; non-trivial: distinct poll histories",
		quick: 8_000,
		thorough: 150_000,
		shards: 4,
		min_distinct: 500,
		must_observe: &["pieces of work finished", "wakes from other threads", "stopped", "cancelled", "pools stopped while another thread was waking work"],
		case_cpu_limit: 60,
		run: c11,
		probes: &[("a cancelled token is noticed before work is taken", cancelled_first), ("work does not starve what is elsewhere in the task", fair)],
		..Check::DEFAULT
	}]
}
