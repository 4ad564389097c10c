//! Shared machinery of the monitors: seeded case generation, sharding, crash/hang bookkeeping, evidence, verdicts.
//!
//! Every check is a function from a case seed to observations. The driver (/verif/check) re-runs one case from its
//! seed (`--case N`), so a seed is a complete replay.
use std::{
	collections::{BTreeMap, HashSet},
	fs::File,
	io::Write,
	os::unix::fs::FileExt,
	panic::{catch_unwind, AssertUnwindSafe},
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Arc, Mutex,
	},
	time::{Duration, Instant},
};

/// xoshiro256** seeded through splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
	pub fn new(seed: u64) -> Rng {
		let mut x = seed;
		let mut next = || {
			x = x.wrapping_add(0x9E3779B97F4A7C15);
			let mut z = x;
			z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
			z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
			z ^ (z >> 31)
		};
		Rng([next(), next(), next(), next()])
	}

	pub fn next(&mut self) -> u64 {
		let s = &mut self.0;
		let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = s[1] << 17;
		s[2] ^= s[0];
		s[3] ^= s[1];
		s[1] ^= s[2];
		s[0] ^= s[3];
		s[2] ^= t;
		s[3] = s[3].rotate_left(45);
		r
	}

	/// Uniform in 0..n (n > 0).
	pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }

	/// Uniform in a..=b.
	pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }

	pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }

	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }

	/// One of some words.
	pub fn word<'a>(&mut self, xs: &[&'a str]) -> &'a str { xs[self.below(xs.len())] }

	pub fn shuffle<T>(&mut self, xs: &mut [T]) {
		for i in (1..xs.len()).rev() {
			let j = self.below(i + 1);
			xs.swap(i, j);
		}
	}
}

pub fn hash64(s: &[u8]) -> u64 {
	let mut h = 0xcbf29ce484222325u64;
	for b in s {
		h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
	}
	h ^ (h >> 29)
}

/// A violated property: `signature` names the kind of failure (matched against known findings), `detail` is the witness.
#[derive(Clone, Debug)]
pub struct Violation {
	pub signature: String,
	pub detail: String,
}

pub type CaseResult = Result<(), Violation>;

#[macro_export]
macro_rules! violation {
	($sig:expr, $($t:tt)*) => { $crate::Violation { signature: ($sig).to_string(), detail: format!($($t)*) } };
}
#[macro_export]
macro_rules! ensure {
	($cond:expr, $sig:expr, $($t:tt)*) => { if !($cond) { return Err($crate::violation!($sig, $($t)*)); } };
}

/// Collects what was observed while running cases. One per shard; merged at the end.
#[derive(Default)]
pub struct Obs {
	pub evaluations: u64,
	pub distinct: HashSet<u64>,
	pub counters: BTreeMap<String, u64>,
	pub sets: BTreeMap<String, HashSet<u64>>,
	pub samples: Vec<String>,
	pub trace: bool,
}

impl Obs {
	/// One oracle evaluation.
	pub fn eval(&mut self) { self.evaluations += 1 }

	pub fn evals(&mut self, n: u64) { self.evaluations += n }

	/// Records a non-trivial case by its identity.
	pub fn nontrivial(&mut self, key: &[u8]) { self.distinct.insert(hash64(key)); }

	pub fn count(&mut self, what: &str, n: u64) {
		if let Some(c) = self.counters.get_mut(what) {
			*c += n;
		} else {
			self.counters.insert(what.to_string(), n);
		}
	}

	/// Counts distinct values of something (states, interleavings…).
	pub fn distinct_of(&mut self, what: &str, key: &[u8]) {
		let h = hash64(key);
		if let Some(s) = self.sets.get_mut(what) {
			s.insert(h);
		} else {
			self.sets.insert(what.to_string(), [h].into_iter().collect());
		}
	}

	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.samples.len() < 2 {
			let mut s = f();
			if s.len() > 600 {
				let mut cut = 600;
				while !s.is_char_boundary(cut) {
					cut -= 1;
				}
				s.truncate(cut);
				s.push('…');
			}
			self.samples.push(s);
		}
	}

	fn merge(&mut self, o: Obs) {
		self.evaluations += o.evaluations;
		self.distinct.extend(o.distinct);
		for (k, v) in o.counters {
			*self.counters.entry(k).or_default() += v;
		}
		for (k, v) in o.sets {
			self.sets.entry(k).or_default().extend(v);
		}
		self.samples.extend(o.samples);
	}
}

pub struct Check {
	pub id: &'static str,
	/// How cases are made and what makes one non-trivial.
	pub rule: &'static str,
	pub quick: u64,
	pub thorough: u64,
	/// Shards (threads). 0 = number of cores.
	pub shards: usize,
	/// Fail the run as inconclusive below this many distinct non-trivial cases.
	pub min_distinct: u64,
	/// Counters that must be non-zero, or the run observed nothing and is inconclusive.
	pub must_observe: &'static [&'static str],
	/// CPU seconds one case may take.
	pub case_cpu_limit: u64,
	pub run: fn(&mut Rng, u64, &mut Obs) -> CaseResult,
	/// Directed probes, run first: (name, fn). Deterministic.
	pub probes: &'static [(&'static str, fn(&mut Obs) -> CaseResult)],
	pub assumptions: &'static [&'static str],
}

impl Check {
	pub const DEFAULT: Check = Check {
		id: "",
		rule: "",
		quick: 1000,
		thorough: 100_000,
		shards: 0,
		min_distinct: 1,
		must_observe: &[],
		case_cpu_limit: 20,
		run: |_, _, _| Ok(()),
		probes: &[],
		assumptions: &[],
	};
}

std::thread_local! {
	static PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}

fn install_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"?".into()
		};
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		// keep the first panic: later ones may be follow-ups (poisoned locks)
		PANIC.with(|p| {
			let mut p = p.borrow_mut();
			if p.is_none() {
				*p = Some(format!("{msg} @ {loc}"))
			}
		});
	}));
}

/// The message of the last panic caught on this thread.
pub fn take_panic() -> String { PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".into()) }

/// Runs code under test; a panic becomes an error with its message and location.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	PANIC.with(|p| p.borrow_mut().take());
	catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

/// As [`guard`], turning the panic into a violation.
pub fn no_panic<T>(sig: &str, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, Violation> {
	guard(f).map_err(|p| Violation { signature: sig.to_string(), detail: format!("panic: {p}\n  while: {}", what()) })
}

struct Slot {
	seq: AtomicU64,
	thread: Arc<AtomicU64>,
	done: AtomicBool,
}

/// CPU time used by a thread of this process, by its kernel id (None once it is gone).
fn thread_cpu(tid: u64) -> Option<f64> {
	unsafe {
		let clock = ((!(tid as libc::clockid_t)) << 3) | 6; // CPUCLOCK_PERTHREAD_MASK | CPUCLOCK_SCHED
		let mut ts: libc::timespec = std::mem::zeroed();
		if libc::clock_gettime(clock, &mut ts) != 0 {
			return None;
		}
		Some(ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9)
	}
}

fn gettid() -> u64 { unsafe { libc::syscall(libc::SYS_gettid) as u64 } }

std::thread_local! {
	/// Where the watchdog finds the thread that runs the current case.
	static WATCHED: std::cell::RefCell<Option<Arc<AtomicU64>>> = std::cell::RefCell::new(None);
}

/// Runs `f` on a thread of its own (with fresh thread-locals), watched like the calling one; a panic is an error.
pub fn fresh_thread<R: Send>(f: impl FnOnce() -> R + Send) -> Result<R, String> {
	let watched = WATCHED.with(|w| w.borrow().clone());
	let r = std::thread::scope(|s| {
		let w = watched.clone();
		std::thread::Builder::new()
			.stack_size(stack())
			.spawn_scoped(s, move || {
				if let Some(w) = &w {
					w.store(gettid(), Ordering::SeqCst);
					WATCHED.with(|x| *x.borrow_mut() = Some(w.clone()));
				}
				guard(f)
			})
			.unwrap()
			.join()
	});
	if let Some(w) = &watched {
		w.store(gettid(), Ordering::SeqCst);
	}
	r.unwrap_or_else(|_| Err("thread died".into()))
}

pub fn env_u64(name: &str, default: u64) -> u64 {
	std::env::var(name).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(default)
}

pub fn mix(a: u64, b: u64) -> u64 {
	let mut r = Rng::new(a ^ b.wrapping_mul(0x9E3779B97F4A7C15));
	r.next();
	r.next()
}

/// What the server's main thread has; instrumented code needs more.
fn stack() -> usize { env_u64("VERIF_STACK", 8 << 20) as usize }

fn json_str(s: &str) -> String { serde_json::to_string(s).unwrap() }

/// Entry point of a monitor binary: `<bin> ID [--case SEED|--probe NAME] --out DIR`.
///
/// Exit codes: 0 held, 10 violation(s) (written to OUT/violations.jsonl), 12 observed too little, 97 a case used too
/// much CPU, 98 nothing moved for a long time (wall clock), 2 usage.
pub fn main(checks: &[Check]) {
	let args: Vec<String> = std::env::args().collect();
	let id = args.get(1).cloned().unwrap_or_default();
	let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
	let check = match checks.iter().find(|c| c.id == id) {
		Some(c) => c,
		None => {
			eprintln!("unknown check {id}");
			std::process::exit(2)
		}
	};
	let out = std::path::PathBuf::from(opt("--out").unwrap_or_else(|| "/tmp/vout".into()));
	std::fs::create_dir_all(&out).unwrap();
	let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
	let seed = env_u64("VERIF_SEED", 1);
	install_hook();

	if let Some(case) = opt("--case") {
		let case: u64 = case.parse().unwrap();
		let c = (check.run, case);
		let limit = check.case_cpu_limit;
		let h = std::thread::Builder::new()
			.stack_size(stack())
			.spawn(move || {
				watch_this_thread();
				let mut obs = Obs { trace: true, ..Default::default() };
				run_one(c.0, c.1, &mut obs)
			})
			.unwrap();
		watch_single(&h, limit);
		finish_single(h.join().unwrap_or_else(|_| Err(violation!("harness-panic", "{}", take_panic()))));
	}
	if let Some(name) = opt("--probe") {
		let f = match name.strip_prefix('#') {
			Some(i) => check.probes[i.parse::<usize>().unwrap()].1,
			None => check.probes.iter().find(|(n, _)| *n == name).expect("no such probe").1,
		};
		let h = std::thread::Builder::new()
			.stack_size(stack())
			.spawn(move || {
				watch_this_thread();
				let mut obs = Obs { trace: true, ..Default::default() };
				run_probe(f, &mut obs)
			})
			.unwrap();
		watch_single(&h, check.case_cpu_limit);
		finish_single(h.join().unwrap_or_else(|_| Err(violation!("harness-panic", "{}", take_panic()))));
	}

	let total = if tier == "thorough" { check.thorough } else { check.quick };
	let wall_cap = Duration::from_secs(env_u64("VERIF_WALL_CAP", if tier == "thorough" { 700 } else { 150 }));
	let shards = if std::env::var("VERIF_SHARDS").is_ok() && check.shards == 0 {
		env_u64("VERIF_SHARDS", 1) as usize
	} else if check.shards == 0 {
		std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
	} else {
		check.shards
	};
	let started = Instant::now();
	let current = Arc::new(File::create(out.join("current.bin")).unwrap());
	let slots: Arc<Vec<Slot>> = Arc::new(
		(0..shards + 1)
			.map(|_| Slot { seq: AtomicU64::new(0), thread: Arc::new(AtomicU64::new(0)), done: AtomicBool::new(false) })
			.collect(),
	);
	let stop = Arc::new(AtomicBool::new(false));
	let found: Arc<Mutex<Vec<(String, Violation)>>> = Arc::new(Mutex::new(vec![]));
	// written as they are found: the process may not live to the end
	let written = Arc::new(Mutex::new(File::create(out.join("violations.jsonl")).unwrap()));
	let write_down = move |replay: &str, v: &Violation| {
		let line = format!(
			"{{\"replay\":{},\"signature\":{},\"detail\":{}}}\n",
			json_str(replay),
			json_str(&v.signature),
			json_str(&v.detail)
		);
		written.lock().unwrap().write_all(line.as_bytes()).unwrap();
	};
	let first_found: Arc<Mutex<Option<Instant>>> = Arc::new(Mutex::new(None));
	let next = Arc::new(AtomicU64::new(0));
	let mut handles = vec![];

	// Signatures listed as known findings: reported once, and they do not stop the run.
	let known: Arc<HashSet<String>> = Arc::new(
		std::env::var("VERIF_KNOWN").unwrap_or_default().lines().map(|l| l.to_string()).filter(|l| !l.is_empty()).collect(),
	);
	for shard in 0..shards + 1 {
		let known = known.clone();
		let (current, slots, stop, found, next) =
			(current.clone(), slots.clone(), stop.clone(), found.clone(), next.clone());
		let run = check.run;
		let probes = check.probes;
		let (write_down, first_found) = (write_down.clone(), first_found.clone());
		handles.push(
			std::thread::Builder::new()
				.stack_size(stack())
				.spawn(move || {
					slots[shard].thread.store(gettid(), Ordering::SeqCst);
					WATCHED.with(|w| *w.borrow_mut() = Some(slots[shard].thread.clone()));
					let mut obs = Obs::default();
					let mark = |seq: u64, kind: u64, value: u64| {
						let mut b = [0u8; 24];
						b[..8].copy_from_slice(&seq.to_le_bytes());
						b[8..16].copy_from_slice(&kind.to_le_bytes());
						b[16..].copy_from_slice(&value.to_le_bytes());
						let _ = current.write_all_at(&b, shard as u64 * 24);
						slots[shard].seq.store(seq, Ordering::SeqCst);
					};
					if shard == shards {
						for (i, (name, f)) in probes.iter().enumerate() {
							mark(i as u64 + 1, 2, i as u64);
							if let Err(v) = run_probe(*f, &mut obs) {
								write_down(&format!("probe:{name}"), &v);
								found.lock().unwrap().push((format!("probe:{name}"), v));
							}
							obs.count("probes", 1);
						}
					} else {
						let mut seq = 0;
						while !stop.load(Ordering::Relaxed) {
							let n = next.fetch_add(1, Ordering::Relaxed);
							if n >= total || started.elapsed() > wall_cap {
								break;
							}
							let case = mix(seed, n);
							seq += 1;
							mark(seq, 1, case);
							if let Err(v) = run_one(run, case, &mut obs) {
								let mut f = found.lock().unwrap();
								let same = f.iter().filter(|(_, w)| w.signature == v.signature).count();
								let listed = known.contains(&v.signature);
								if same < if listed { 1 } else { 20 } {
									write_down(&format!("case:{case}"), &v);
									f.push((format!("case:{case}"), v));
								}
								let new = f.iter().filter(|(_, w)| !known.contains(&w.signature)).count();
								if new > 0 {
									first_found.lock().unwrap().get_or_insert(Instant::now());
								}
								if new >= 20 {
									stop.store(true, Ordering::Relaxed);
								}
							}
							obs.count("cases", 1);
						}
					}
					mark(u64::MAX, 0, 0);
					slots[shard].done.store(true, Ordering::SeqCst);
					obs
				})
				.unwrap(),
		);
	}

	{
		let (slots, limit) = (slots.clone(), check.case_cpu_limit as f64);
		let (stop, stalled) = (stop.clone(), out.join("stalled"));
		std::thread::spawn(move || {
			let mut base: Vec<((u64, u64), f64, Instant)> = vec![((u64::MAX - 1, 0), 0.0, Instant::now()); slots.len()];
			let mut slowest = 0.0;
			loop {
				std::thread::sleep(Duration::from_millis(500));
				for (i, s) in slots.iter().enumerate() {
					if s.done.load(Ordering::SeqCst) || s.thread.load(Ordering::SeqCst) == 0 {
						continue;
					}
					let seq = s.seq.load(Ordering::SeqCst);
					let thread = s.thread.load(Ordering::SeqCst);
					let seq = (seq, thread);
					let cpu = match thread_cpu(thread) {
						Some(c) => c,
						None => continue,
					};
					if base[i].0 == seq && cpu - base[i].1 > slowest {
						slowest = cpu - base[i].1;
						if let Ok(f) = std::env::var("VERIF_SLOWEST") {
							let _ = std::fs::write(f, format!("{slowest:.1} of {limit}"));
						}
					}
					if base[i].0 != seq {
						base[i] = (seq, cpu, Instant::now());
					} else if cpu - base[i].1 > limit {
						eprintln!("shard {i}: a case used more than {limit} s of CPU");
						unsafe { libc::_exit(97) }
					} else if base[i].2.elapsed() > Duration::from_secs(STALL) {
						eprintln!("shard {i}: no progress for {STALL} s");
						let _ = std::fs::write(&stalled, i.to_string());
						unsafe { libc::_exit(98) }
					}
				}
				// something was found, and a minute more has not ended the run
				if first_found.lock().unwrap().map_or(false, |t| t.elapsed() > Duration::from_secs(60)) {
					stop.store(true, Ordering::Relaxed);
				}
			}
		});
	}

	let mut obs = Obs::default();
	for h in handles {
		match h.join() {
			Ok(o) => obs.merge(o),
			Err(_) => {
				eprintln!("harness thread panicked");
				std::process::exit(3)
			}
		}
	}

	let mut found = found.lock().unwrap();

	// what not one of all these cases shows, the system no longer does
	let enough = obs.counters.get("cases").copied().unwrap_or(0) * 2 >= total;
	if enough && !found.iter().any(|(_, v)| !known.contains(&v.signature)) {
		for m in check.must_observe {
			if obs.counters.get(*m).copied().unwrap_or(0) == 0 && obs.sets.get(*m).map_or(true, |s| s.is_empty()) {
				let cases = obs.counters.get("cases").copied().unwrap_or(0);
				let v = Violation { signature: format!("never: {m}"), detail: format!("in {cases} cases, never observed: {m}") };
				write_down("run:all", &v);
				found.push(("run:all".into(), v));
			}
		}
	}

	obs.samples.truncate(4);
	let mut cov = serde_json::Map::new();
	cov.insert("evaluations".into(), obs.evaluations.into());
	cov.insert("distinct_nontrivial".into(), (obs.distinct.len() as u64).into());
	cov.insert("rule".into(), check.rule.into());
	cov.insert("samples".into(), obs.samples.clone().into());
	let mut observed = serde_json::Map::new();
	for (k, v) in &obs.counters {
		observed.insert(k.clone(), (*v).into());
	}
	for (k, v) in &obs.sets {
		observed.insert(format!("distinct {k}"), (v.len() as u64).into());
	}
	cov.insert("observed".into(), observed.into());
	let mut ev = serde_json::Map::new();
	ev.insert("property".into(), check.id.into());
	ev.insert("tier".into(), tier.into());
	ev.insert("seed".into(), seed.into());
	ev.insert("level".into(), "exploration".into());
	ev.insert("coverage".into(), cov.into());
	ev.insert(
		"assumptions".into(),
		check.assumptions.iter().map(|s| serde_json::Value::from(*s)).collect::<Vec<_>>().into(),
	);
	ev.insert("wall_s".into(), started.elapsed().as_secs_f64().into());
	ev.insert("violations".into(), (found.len() as u64).into());
	std::fs::write(out.join("evidence.json"), serde_json::to_string_pretty(&serde_json::Value::Object(ev)).unwrap())
		.unwrap();

	if !found.is_empty() {
		std::process::exit(10);
	}
	if (obs.distinct.len() as u64) < check.min_distinct {
		eprintln!("only {} distinct non-trivial cases (need {})", obs.distinct.len(), check.min_distinct);
		std::process::exit(12);
	}
	for m in check.must_observe {
		if obs.counters.get(*m).copied().unwrap_or(0) == 0 && obs.sets.get(*m).map_or(true, |s| s.is_empty()) {
			eprintln!("never observed: {m}");
			std::process::exit(12);
		}
	}
	std::process::exit(0)
}

fn run_one(run: fn(&mut Rng, u64, &mut Obs) -> CaseResult, case: u64, obs: &mut Obs) -> CaseResult {
	let mut rng = Rng::new(case);
	match guard(|| run(&mut rng, case, obs)) {
		Ok(r) => r,
		Err(p) => Err(Violation { signature: "panic".into(), detail: format!("panic: {p}") }),
	}
}

fn run_probe(f: fn(&mut Obs) -> CaseResult, obs: &mut Obs) -> CaseResult {
	match guard(|| f(obs)) {
		Ok(r) => r,
		Err(p) => Err(Violation { signature: "panic".into(), detail: format!("panic: {p}") }),
	}
}

/// Seconds after which a case that does nothing is stuck.
const STALL: u64 = 100;

static SINGLE: Mutex<Option<Arc<AtomicU64>>> = Mutex::new(None);

fn watch_this_thread() {
	let w = Arc::new(AtomicU64::new(gettid()));
	*SINGLE.lock().unwrap() = Some(w.clone());
	WATCHED.with(|x| *x.borrow_mut() = Some(w));
}

fn watch_single<T>(h: &std::thread::JoinHandle<T>, limit: u64) {
	let start = Instant::now();
	while !h.is_finished() {
		std::thread::sleep(Duration::from_millis(20));
		let w = SINGLE.lock().unwrap().clone();
		if h.is_finished() {
			break;
		}
		if let Some(c) = w.and_then(|w| thread_cpu(w.load(Ordering::SeqCst))) {
			if c > limit as f64 {
				eprintln!("case used more than {limit} s of CPU");
				unsafe { libc::_exit(97) }
			}
		}
		if start.elapsed() > Duration::from_secs(STALL) {
			unsafe { libc::_exit(98) }
		}
	}
}

fn finish_single(r: CaseResult) -> ! {
	match r {
		Ok(()) => {
			println!("held");
			std::process::exit(0)
		}
		Err(v) => {
			println!("signature: {}\n{}", v.signature, v.detail);
			std::process::exit(10)
		}
	}
}
