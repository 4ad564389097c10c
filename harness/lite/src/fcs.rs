//! C09 exactly-once completion, C10 no lost wake-up: real threads on real completion sources. Delays are injected at the
//! listen/notify race points through the event-listener stand-in (the published source plus a per-thread callback).
use analyzer_abstractions::futures_extensions::{FutureCompletionSource, FutureCompletionSourceError};
use futures::task::{waker, ArcWake};
use std::{
	future::Future,
	pin::Pin,
	sync::{
		atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst},
		Arc,
	},
	task::{Context, Poll},
	time::{Duration, Instant},
};
use vcommon::*;

/// A value whose halves must agree, so that a torn or foreign value shows.
#[derive(Debug)]
struct V {
	a: u64,
	b: Box<u64>,
}
impl V {
	fn new(a: u64) -> V { V { a, b: Box::new(!a) } }
}
impl Clone for V {
	fn clone(&self) -> V {
		let a = self.a;
		std::thread::yield_now(); // a clone takes time
		V { a, b: self.b.clone() }
	}
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct E(u64);
type Source = FutureCompletionSource<V, E>;

/// Value or error as one number; errors carry a high bit.
const ERR: u64 = 1 << 40;
fn code(r: Result<V, E>) -> Result<u64, String> {
	match r {
		Ok(v) if *v.b == !v.a && v.a & ERR == 0 => Ok(v.a),
		Ok(v) => Err(format!("torn value {v:?}")),
		Err(E(e)) if e & ERR != 0 => Ok(e),
		Err(e) => Err(format!("torn error {e:?}")),
	}
}
fn set(s: &Source, code: u64) -> Result<(), FutureCompletionSourceError> {
	if code & ERR != 0 {
		s.set_err(E(code))
	} else {
		s.set_value(V::new(code))
	}
}

struct Flag(AtomicBool, AtomicU32);
impl ArcWake for Flag {
	fn wake_by_ref(a: &Arc<Self>) {
		a.1.fetch_add(1, SeqCst);
		a.0.store(true, SeqCst);
	}
}
fn flag() -> Arc<Flag> { Arc::new(Flag(AtomicBool::new(false), AtomicU32::new(0))) }

type Fut<'a> = Pin<Box<dyn Future<Output = Result<V, E>> + 'a>>;
fn poll(f: &mut Fut, w: &Arc<Flag>) -> Poll<Result<V, E>> { f.as_mut().poll(&mut Context::from_waker(&waker(w.clone()))) }

struct Gate(AtomicUsize);
impl Gate {
	fn wait(&self, n: usize) {
		self.0.fetch_add(1, SeqCst);
		let mut spins = 0u32;
		while self.0.load(SeqCst) < n {
			spins += 1;
			if spins % 2000 == 0 {
				std::thread::yield_now()
			} else {
				std::hint::spin_loop()
			}
		}
	}
}

// ---------------------------------------------------------------- C09

fn c09(r: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	const ROUNDS: usize = 25;
	let setters = r.range(2, 4);
	let watchers = r.range(1, 2);
	let sources: Vec<Source> = (0..ROUNDS).map(|_| Source::new()).collect();
	let gates: Vec<Gate> = (0..ROUNDS).map(|_| Gate(AtomicUsize::new(0))).collect();
	let finished: Vec<AtomicUsize> = (0..ROUNDS).map(|_| AtomicUsize::new(0)).collect();
	let plan: Vec<Vec<(u64, u32)>> = (0..setters)
		.map(|i| (0..ROUNDS).map(|k| (((k * 100 + i) as u64) | if r.chance(1, 3) { ERR } else { 0 }, if r.chance(1, 2) { 0 } else { r.below(60) as u32 })).collect())
		.collect();
	let parties = setters + watchers;

	type Outcome = Vec<Result<bool, String>>;
	let (set_results, seen): (Vec<Outcome>, Vec<Vec<Result<(u64, u32, bool), String>>>) = std::thread::scope(|s| {
		let (sources, gates, finished) = (&sources, &gates, &finished);
		let hs: Vec<_> = plan
			.iter()
			.map(|mine| {
				s.spawn(move || {
					(0..ROUNDS)
						.map(|k| {
							let src = sources[k].clone();
							gates[k].wait(parties);
							for _ in 0..mine[k].1 {
								std::hint::spin_loop()
							}
							let r = guard(|| set(&src, mine[k].0));
							finished[k].fetch_add(1, SeqCst);
							match r {
								Ok(Ok(())) => Ok(true),
								Ok(Err(FutureCompletionSourceError::Invalid)) => Ok(false),
								Err(p) => Err(format!("setting panicked: {p}")),
							}
						})
						.collect::<Outcome>()
				})
			})
			.collect();
		let ws: Vec<_> = (0..watchers)
			.map(|w| {
				s.spawn(move || {
					(0..ROUNDS)
						.map(|k| {
							let src = sources[k].clone();
							gates[k].wait(parties);
							let r = guard(|| {
								let mut value: Option<u64> = None;
								let mut pendings = 0;
								let mut early = false;
								loop {
									let last = finished[k].load(SeqCst) == setters;
									let got = if w == 0 {
										src.state()
									} else {
										// a fresh consumer each time: it must not wait once the source is complete
										let mut f: Fut = Box::pin(src.future());
										poll(&mut f, &flag())
									};
									match got {
										Poll::Ready(v) => {
											let c = code(v)?;
											if let Some(old) = value {
												if old != c {
													return Err(format!("completed with {old:x}, later with {c:x}"));
												}
											}
											value = Some(c);
											early |= !last;
										}
										Poll::Pending => {
											if let Some(old) = value {
												return Err(format!("complete with {old:x}, then pending again"));
											}
											if last {
												return Err("pending although every producer has returned".into());
											}
											pendings += 1;
										}
									}
									if last {
										return Ok((value.unwrap(), pendings.min(3), early));
									}
								}
							});
							match r {
								Ok(x) => x,
								Err(p) => Err(format!("consumer panicked: {p}")),
							}
						})
						.collect::<Vec<_>>()
				})
			})
			.collect();
		(hs.into_iter().map(|h| h.join().unwrap()).collect(), ws.into_iter().map(|h| h.join().unwrap()).collect())
	});

	for k in 0..ROUNDS {
		let mut winners = vec![];
		for i in 0..setters {
			match &set_results[i][k] {
				Ok(true) => winners.push(i),
				Ok(false) => {}
				Err(p) => return Err(violation!("set-panics", "{p}")),
			}
		}
		ensure!(winners.len() == 1, "not-exactly-once", "{} of {setters} concurrent producers were told they completed the source", winners.len());
		let want = plan[winners[0]][k].0;
		let mut key = vec![setters as u8, watchers as u8, winners[0] as u8];
		for w in &seen {
			let (got, pendings, early) = w[k].clone().map_err(|e| violation!("inconsistent", "{e}"))?;
			ensure!(got == want, "wrong-value", "the producer of {want:x} was told it succeeded, a consumer received {got:x}");
			key.extend([pendings as u8, early as u8]);
		}
		// late consumers, and late producers
		let late = guard(|| set(&sources[k], 7)).map_err(|p| violation!("set-panics", "{p}"))?;
		ensure!(late == Err(FutureCompletionSourceError::Invalid), "late-set-accepted", "a completed source accepted another value");
		let mut f: Fut = Box::pin(sources[k].future());
		match poll(&mut f, &flag()) {
			Poll::Ready(v) => {
				let c = code(v).map_err(|e| violation!("inconsistent", "{e}"))?;
				ensure!(c == want, "wrong-value", "a late consumer received {c:x} instead of {want:x}")
			}
			Poll::Pending => return Err(violation!("late-consumer-waits", "a consumer of a completed source has to wait")),
		}
		obs.evals(2 + watchers as u64);
		obs.count("races of producers", 1);
		obs.distinct_of("interleaving outcomes", &key);
		obs.nontrivial(&[&key[..], &want.to_le_bytes()].concat());
	}
	obs.sample(|| format!("{setters} producers, {watchers} watchers, {ROUNDS} sources; wins {:?}", set_results.iter().map(|v| v.iter().filter(|x| **x == Ok(true)).count()).collect::<Vec<_>>()));
	Ok(())
}

// ---------------------------------------------------------------- C10

/// Waits for a condition, but never longer than a delay: it only steers the schedule.
fn linger(max_us: u64, cond: impl Fn() -> bool) {
	let t = Instant::now();
	while !cond() && t.elapsed() < Duration::from_micros(max_us) {
		std::thread::yield_now()
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
	/// producer runs when the consumer is about to register
	AtListen,
	/// producer runs when the consumer has just registered, before it looks again or waits
	AtListened,
	/// consumer polls when the producer is about to notify
	AtNotify,
	Free,
	/// complete long after everyone waits
	After,
	/// complete before anyone asks
	Before,
}

fn c10(r: &mut Rng, _case: u64, obs: &mut Obs) -> CaseResult {
	for _ in 0..4 {
		scenario(r, obs)?;
	}
	at_wake(r, obs)
}

/// A waker that lets the woken consumer run, on its own thread, before the one who wakes goes on.
struct Alarm {
	woken: AtomicBool,
	polled: AtomicBool,
	linger_us: u64,
}
impl ArcWake for Alarm {
	fn wake_by_ref(a: &Arc<Self>) {
		a.polled.store(false, SeqCst);
		a.woken.store(true, SeqCst);
		linger(a.linger_us, || a.polled.load(SeqCst));
	}
}

/// Consumers on threads of their own, which poll as soon as they are woken, while the producer is still at it.
fn at_wake(r: &mut Rng, obs: &mut Obs) -> CaseResult {
	let consumers = r.range(1, 3);
	let value = r.below(1000) as u64 | if r.chance(1, 3) { ERR } else { 0 };
	let linger_us = r.range(50, 300) as u64;
	let src = Source::new();
	let done = AtomicBool::new(false);
	let waiting = AtomicUsize::new(0);
	let (set_result, outcomes) = std::thread::scope(|s| {
		let (src, done, waiting) = (&src, &done, &waiting);
		let hs: Vec<_> = (0..consumers)
			.map(|_| {
				s.spawn(move || {
					let mine = src.clone();
					let alarm = Arc::new(Alarm { woken: AtomicBool::new(false), polled: AtomicBool::new(false), linger_us });
					let w = waker(alarm.clone());
					guard(|| {
						let mut f: Fut = Box::pin(mine.future());
						let mut polls = 0;
						loop {
							let p = f.as_mut().poll(&mut Context::from_waker(&w));
							alarm.polled.store(true, SeqCst);
							polls += 1;
							if polls == 1 {
								waiting.fetch_add(1, SeqCst);
							}
							if let Poll::Ready(v) = p {
								return Ok((code(v), mine.state().is_ready(), polls));
							}
							while !alarm.woken.swap(false, SeqCst) {
								if done.load(SeqCst) && !alarm.woken.load(SeqCst) {
									return Err(polls);
								}
								std::thread::yield_now();
							}
						}
					})
				})
			})
			.collect();
		while waiting.load(SeqCst) < consumers && hs.iter().any(|h| !h.is_finished()) {
			std::thread::yield_now();
		}
		let r = guard(|| set(src, value));
		done.store(true, SeqCst);
		(r, hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>())
	});
	let describe = || format!("{consumers} consumers on their own threads, polling as soon as they are woken (waker lingers {linger_us} us)");
	ensure!(matches!(set_result, Ok(Ok(()))), "set-refused", "the only producer: {set_result:?}; {}", describe());
	for o in outcomes {
		match o {
			Err(p) => return Err(violation!("consumer-panics", "{p}; {}", describe())),
			Ok(Err(polls)) => return Err(violation!("lost-wake-up", "a consumer polled {polls} times still waits and nobody will wake it: the source is complete and its producer has returned; {}", describe())),
			Ok(Ok((v, ready, polls))) => {
				let v = v.map_err(|e| violation!("inconsistent", "{e}; {}", describe()))?;
				ensure!(v == value, "wrong-value", "received {v:x} for {value:x}; {}", describe());
				ensure!(ready, "inconsistent", "the source looks incomplete to a consumer that has its value; {}", describe());
				obs.eval();
				obs.count("consumers that ran while they were being woken", 1);
				obs.distinct_of("interleaving outcomes", format!("wake{consumers}{polls}").as_bytes());
			}
		}
	}
	Ok(())
}

fn scenario(r: &mut Rng, obs: &mut Obs) -> CaseResult {
	let mode = *r.pick(&[Mode::AtListen, Mode::AtListen, Mode::AtListened, Mode::AtNotify, Mode::Free, Mode::After, Mode::Before]);
	let consumers = r.range(1, 4);
	let value = r.below(1000) as u64 | if r.chance(1, 3) { ERR } else { 0 };
	// per consumer: how often it polls before the producer may run, and whether it gives up (is cancelled)
	let extra: Vec<usize> = (0..consumers).map(|_| r.below(3)).collect();
	let cancel: Vec<bool> = (0..consumers).map(|i| i > 0 && r.chance(1, 5)).collect();
	let which = r.below(consumers); // whose registration the producer races with
	let drop_original = r.chance(1, 3);
	let spin = r.below(200);

	let src = Source::new();
	let producer = src.clone();
	let go = Arc::new(AtomicBool::new(false));
	let done = Arc::new(AtomicBool::new(false));
	let polled = Arc::new(AtomicBool::new(false));
	let at_notify = Arc::new(AtomicBool::new(false));

	let (results, hit) = std::thread::scope(|s| {
		let h = {
			let (go, done, polled, at_notify) = (go.clone(), done.clone(), polled.clone(), at_notify.clone());
			s.spawn(move || {
				while !go.load(SeqCst) {
					std::thread::yield_now()
				}
				if mode == Mode::AtNotify {
					event_listener::probe::set(Some(Box::new(move |p| {
						if p == "notify" && !at_notify.swap(true, SeqCst) {
							linger(1500, || polled.load(SeqCst));
						}
					})));
				}
				if mode == Mode::Free {
					for _ in 0..spin {
						std::hint::spin_loop()
					}
				}
				let r = guard(|| set(&producer, value));
				event_listener::probe::set(None);
				done.store(true, SeqCst);
				r
			})
		};
		let hit = Arc::new(AtomicBool::new(false));
		let r = guard(|| {
			if mode == Mode::Before {
				go.store(true, SeqCst);
				while !done.load(SeqCst) {
					std::thread::yield_now()
				}
			}
			let mut futures: Vec<(Option<Fut>, Arc<Flag>, Option<Result<V, E>>)> = vec![];
			for i in 0..consumers {
				if i == which {
					match mode {
						Mode::AtListen | Mode::AtListened => {
							let (go, done, hit) = (go.clone(), done.clone(), hit.clone());
							let point = if mode == Mode::AtListen { "listen" } else { "listened" };
							event_listener::probe::set(Some(Box::new(move |p| {
								if p == point && !hit.swap(true, SeqCst) {
									go.store(true, SeqCst);
									linger(3000, || done.load(SeqCst));
								}
							})));
						}
						Mode::AtNotify => {
							go.store(true, SeqCst);
							linger(2000, || at_notify.load(SeqCst) || done.load(SeqCst));
							hit.store(at_notify.load(SeqCst), SeqCst);
						}
						Mode::Free => go.store(true, SeqCst),
						_ => {}
					}
				}
				let mut f: Fut = Box::pin(src.future());
				let mut w = flag();
				let mut got = None;
				for _ in 0..1 + extra[i] {
					w = flag(); // every poll may bring another waker; the last one counts
					match poll(&mut f, &w) {
						Poll::Ready(v) => {
							got = Some(v);
							break;
						}
						Poll::Pending => {}
					}
				}
				event_listener::probe::set(None);
				let f = if got.is_some() || cancel[i] { None } else { Some(f) };
				futures.push((f, w, got));
			}
			polled.store(true, SeqCst);
			go.store(true, SeqCst);
			while !done.load(SeqCst) {
				std::thread::yield_now()
			}
			// the producer has returned: everyone still waiting has been woken, or never will be
			let mut out = vec![];
			for (i, (f, w, got)) in futures.into_iter().enumerate() {
				if let Some(v) = got {
					out.push(Ok(("at once", Some(code(v)))));
					continue;
				}
				if cancel[i] {
					out.push(Ok(("cancelled", None)));
					continue;
				}
				let mut f = f.unwrap();
				let mut v = None;
				while w.0.swap(false, SeqCst) {
					if let Poll::Ready(x) = poll(&mut f, &w) {
						v = Some(code(x));
						break;
					}
				}
				out.push(match v {
					Some(v) => Ok(("woken", Some(v))),
					None => Err(i),
				});
			}
			out
		});
		event_listener::probe::set(None);
		polled.store(true, SeqCst);
		go.store(true, SeqCst);
		let set = h.join().unwrap();
		((r, set), hit.load(SeqCst))
	});
	let (consumed, set_result) = results;
	let describe = || format!("{mode:?}, {consumers} consumers (racing with number {which}, polls {extra:?}, cancelled {cancel:?}, race point reached: {hit})");
	let set_result = set_result.map_err(|p| violation!("set-panics", "{p}; {}", describe()))?;
	ensure!(set_result.is_ok(), "set-refused", "the only producer was refused; {}", describe());
	let consumed = consumed.map_err(|p| violation!("consumer-panics", "{p}; {}", describe()))?;
	let mut key = format!("{mode:?}{hit}");
	for c in consumed {
		match c {
			Err(i) => return Err(violation!("lost-wake-up", "consumer {i} still waits and nobody will wake it: the source is complete and its producer has returned; {}", describe())),
			Ok((how, v)) => {
				if let Some(v) = v {
					let v = v.map_err(|e| violation!("inconsistent", "{e}; {}", describe()))?;
					ensure!(v == value, "wrong-value", "received {v:x} for {value:x}; {}", describe());
				}
				obs.eval();
				obs.count(how, 1);
				key += how;
			}
		}
	}
	if hit {
		obs.count(match mode { Mode::AtListen => "producer ran while a consumer was about to register", Mode::AtListened => "producer ran just after a consumer registered", _ => "consumer polled while the producer was about to notify" }, 1);
	}
	if drop_original {
		drop(src);
	}
	obs.distinct_of("interleaving outcomes", key.as_bytes());
	obs.nontrivial(format!("{}{key}", describe()).as_bytes());
	obs.sample(describe);
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![
		Check {
			id: "C09",
			rule: "2-4 producer threads race on each of 25 sources under 1-2 watching threads; non-trivial: distinct (winner, what watchers saw) outcomes per source",
			quick: 4000,
			thorough: 60_000,
			shards: 1,
			min_distinct: 500,
			must_observe: &["races of producers", "interleaving outcomes"],
			case_cpu_limit: 60,
			run: c09,
			..Check::DEFAULT
		},
		Check {
			id: "C10",
			rule: "1-4 consumers and a producer on another thread, the producer steered into the gap around registration or notification; non-trivial: distinct (steering, outcome) combinations",
			quick: 10_000,
			thorough: 100_000,
			shards: 4,
			min_distinct: 200,
			must_observe: &["woken", "at once", "cancelled", "consumers that ran while they were being woken"],
			case_cpu_limit: 60,
			run: c10,
			..Check::DEFAULT
		},
	]
}
