//! C32 (the native file system) and C33 (the LSIF dump), on trees of files in a directory of their own.
use crate::proc::{command, cut, unprivileged, url_of, write_file, Scratch};
use analyzer_abstractions::{fs::AnyEnumerableFileSystem, lsp_types::Url};
use p4_analyzer::native_fs::native_fs::NativeFs;
use std::{
	collections::{BTreeMap, BTreeSet},
	fs,
	os::unix::ffi::OsStrExt,
	path::{Path, PathBuf},
	process::Stdio,
	sync::{
		atomic::{AtomicBool, Ordering},
		Arc,
	},
	time::{Duration, Instant},
};
use vcommon::{ensure, guard, CaseResult, Check, Obs, Rng};

const DIRS: &[&str] = &["sub", "a b", "é", "p%41q", "x[1]", "{y}", "q?", "s*", "..d", ".hidden", "h#h", "dir.p4", "ß∑😀", "a&b", "semi;colon", "tab\tdir", "[!a]", "[", "plus+plus", "~", "back\\slash"];
const FILES: &[&str] = &[
	"a.p4", "b.p4", "c d.p4", "é.p4", "100%.p4", "%41.p4", "x[0].p4", "q?.p4", "st*r.p4", "h#h.p4", ".p4", ".hid.p4", "no.p4.txt", "UPPER.P4", "p4", "a.p4~", "two.p4.p4", "ß∑😀.p4", "a:b.p4",
	"new\nline.p4", "back\\slash.p4", "readme.md", "x.p4p4", "q\"uote.p4",
];

fn contents(r: &mut Rng) -> Vec<u8> {
	match r.below(10) {
		0 => vec![],
		1 => "\u{feff}control é ∑ 😀\r\n".as_bytes().to_vec(),
		2 => b"bad \xff\xfe utf8".to_vec(),
		3 => b"cut \xe2\x88".to_vec(),
		4 => (0..r.range(10_000, 400_000)).map(|i| b'a' + (i % 26) as u8).collect(),
		5 => "é".repeat(r.range(4000, 20_000)).into_bytes(),
		6 => b"\0zero".to_vec(),
		_ => format!("w{} x", r.below(1000)).into_bytes(),
	}
}

/// Fills a directory; the files by their path.
fn grow(r: &mut Rng, at: &Path, depth: usize, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
	let n = r.below(5);
	for _ in 0..n {
		let f = at.join(r.word(FILES));
		let c = contents(r);
		write_file(&f, &c);
		out.insert(f, c);
	}
	if depth == 0 {
		return;
	}
	for _ in 0..r.below(3) {
		let d = at.join(r.word(DIRS));
		if !d.exists() {
			fs::create_dir(&d).unwrap();
			unprivileged(&d);
			grow(r, &d, depth - 1, out);
		}
	}
}

fn is_p4(p: &Path) -> bool { p.as_os_str().as_bytes().ends_with(b".p4") }

fn c32(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let scratch = Scratch::new();
	let root = scratch.0.join(r.word(DIRS));
	fs::create_dir(&root).unwrap();
	let mut files = BTreeMap::new();
	grow(r, &root, 3, &mut files);
	if r.chance(1, 40) {
		for i in 0..r.range(200, 1500) {
			let f = root.join(format!("d{}/f{i}.p4", i % 17));
			write_file(&f, b"x");
			files.insert(f, b"x".to_vec());
		}
	}
	// a link to a file is a file
	if r.chance(1, 4) {
		if let Some((t, c)) = files.iter().next().map(|(a, b)| (a.clone(), b.clone())) {
			let l = root.join("link.p4");
			if std::os::unix::fs::symlink(&t, &l).is_ok() {
				files.insert(l, c);
			}
		}
	}
	let sys: AnyEnumerableFileSystem = NativeFs::new();
	let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
	let witness = |what: &str, u: &Url| format!("{what} {u}\nfiles {:?}", files.keys().take(40).collect::<Vec<_>>());
	// which folder
	let dirs: Vec<PathBuf> = std::iter::once(root.clone()).chain(files.keys().filter_map(|f| f.parent().map(|p| p.to_path_buf()))).collect();
	let dir = r.pick(&dirs).clone();
	let url = if r.chance(1, 2) { Url::from_directory_path(&dir).unwrap() } else { Url::from_file_path(&dir).unwrap() };
	// something else may be at work in the same folder
	let stop = Arc::new(AtomicBool::new(false));
	let busy = r.chance(1, 4);
	let worker = if busy {
		let (s, d, seed) = (stop.clone(), dir.clone(), r.next());
		Some(std::thread::spawn(move || {
			let mut r = Rng::new(seed);
			while !s.load(Ordering::SeqCst) {
				let sub = d.join(format!("busy{}", r.below(3)));
				let f = sub.join(format!("busy{}.p4", r.below(4)));
				match r.below(3) {
					0 => {
						let _ = fs::create_dir(&sub);
						let _ = fs::write(&f, "busy");
					}
					1 => {
						let _ = fs::remove_file(&f);
					}
					_ => {
						let _ = fs::remove_dir_all(&sub);
					}
				}
			}
		}))
	} else {
		None
	};
	let mut result = Ok(());
	for _ in 0..if busy { 5 } else { 1 } {
		let got = guard(|| rt.block_on(sys.enumerate_folder(url.clone(), "**/*.p4".into())));
		result = (|| {
			let got = got.map_err(|p| vcommon::violation!("panic", "{}\n{p}", witness("enumerating", &url)))?;
			obs.eval();
			let list: Vec<PathBuf> = got
				.iter()
				.map(|t| t.uri.to_file_path().map_err(|_| vcommon::violation!("no-file", "{} is not the URL of a file", t.uri)))
				.collect::<Result<_, _>>()?;
			let set: BTreeSet<PathBuf> = list.iter().cloned().collect();
			ensure!(set.len() == list.len(), "repeated", "{}: {list:?}", witness("enumerating", &url));
			let want: BTreeSet<PathBuf> = files.keys().filter(|f| f.starts_with(&dir) && is_p4(f)).cloned().collect();
			let extra: Vec<_> = set.difference(&want).filter(|p| !(busy && p.to_string_lossy().contains("/busy"))).collect();
			let missing: Vec<_> = want.difference(&set).collect();
			ensure!(extra.is_empty() && missing.is_empty(), "enumeration", "{}\nsurplus {extra:?}\nmissing {missing:?}", witness("enumerating", &url));
			for u in &got {
				let p = u.uri.to_file_path().unwrap();
				ensure!(u.uri.to_string() == url_of(&p), "url", "{p:?} is enumerated as {}", u.uri);
			}
			obs.count("files enumerated", list.len() as u64);
			obs.count("enumerations", 1);
			if busy {
				obs.count("enumerations of folders in motion", 1);
			}
			Ok(())
		})();
		if result.is_err() {
			break;
		}
	}
	stop.store(true, Ordering::SeqCst);
	if let Some(w) = worker {
		let _ = w.join();
	}
	result?;
	for (f, c) in files.iter().take(60) {
		let u = Url::from_file_path(f).unwrap();
		let got = guard(|| rt.block_on(sys.file_contents(u.clone()))).map_err(|p| vcommon::violation!("panic", "{}\n{p}", witness("reading", &u)))?;
		obs.eval();
		match std::str::from_utf8(c) {
			Ok(t) => {
				ensure!(got.as_deref() == Some(t), "contents", "{f:?} contains {:?}, and is read as {:?}", cut(t, 200), got.map(|g| cut(&g, 200)));
				obs.count("files read", 1);
			}
			Err(_) => {
				// no text: nothing, or what can be read of it
				let ok = got.map_or(true, |g| g == String::from_utf8_lossy(c));
				ensure!(ok, "contents", "{f:?} is no text, and is read as another");
				obs.count("files that are no text", 1);
			}
		}
	}
	// what is no file
	let odd = [
		"untitled:Untitled-1".to_string(),
		"http://localhost/x.p4".into(),
		"vscode-vfs://github/a/b.p4".into(),
		"file://host/share/x.p4".into(),
		"file:///".into(),
		"file:///nonexistent/x.p4".into(),
		"file:///x%00y.p4".into(),
		"file:///%FF.p4".into(),
		"data:text/plain,x".into(),
		"file:".into(),
		url.to_string(),
		format!("{}/missing.p4", url.as_str().trim_end_matches('/')),
		"git:/w/a.p4?ref".into(),
	];
	for _ in 0..3 {
		let u = r.pick(&odd).clone();
		let u = match Url::parse(&u) {
			Ok(u) => u,
			Err(_) => continue,
		};
		let got = guard(|| rt.block_on(sys.file_contents(u.clone()))).map_err(|p| vcommon::violation!("panic", "{}\n{p}", witness("reading", &u)))?;
		obs.eval();
		ensure!(got.is_none(), "contents", "{u} is no file, and is read as {got:?}");
		if !u.as_str().starts_with("file:") || u.as_str().contains("nonexistent") || u.as_str().contains('%') && !u.as_str().starts_with(url.as_str()) {
			let got = guard(|| rt.block_on(sys.enumerate_folder(u.clone(), "**/*.p4".into()))).map_err(|p| vcommon::violation!("panic", "{}\n{p}", witness("enumerating", &u)))?;
			ensure!(got.is_empty(), "enumeration", "{u} is no folder, and enumerated as {got:?}");
			obs.count("what is neither file nor folder", 1);
		}
	}
	// what changes is read anew
	if let Some(f) = files.keys().next() {
		fs::write(f, "changed").unwrap();
		let u = Url::from_file_path(f).unwrap();
		let got = rt.block_on(sys.file_contents(u.clone()));
		ensure!(got.as_deref() == Some("changed"), "stale", "{u} changed, and is read as {got:?}");
		fs::remove_file(f).unwrap();
		if !f.exists() {
			let got = rt.block_on(sys.file_contents(u.clone()));
			ensure!(got.is_none(), "stale", "{u} was deleted, and is read as {got:?}");
		}
	}
	obs.nontrivial(format!("{:?}{dir:?}{busy}", files.keys().map(|f| f.strip_prefix(&scratch.0).unwrap()).collect::<Vec<_>>()).replace(&*scratch.0.to_string_lossy(), "").as_bytes());
	obs.sample(|| format!("{:?} with {:?}", dir.strip_prefix(&scratch.0).unwrap(), files.keys().map(|f| f.strip_prefix(&root).unwrap()).take(8).collect::<Vec<_>>()));
	Ok(())
}

fn c33(r: &mut Rng, _: u64, obs: &mut Obs) -> CaseResult {
	let scratch = Scratch::new();
	let s = &scratch.0;
	let mut make = |r: &mut Rng, name: &str, files: &mut BTreeMap<PathBuf, Vec<u8>>| {
		let d = s.join(name);
		if !d.exists() {
			fs::create_dir(&d).unwrap();
			unprivileged(&d);
		}
		grow(r, &d, 2, files);
		if r.chance(1, 10) {
			for i in 0..r.range(50, 400) {
				let f = d.join(format!("many/f{i}.p4"));
				write_file(&f, format!("m{i}").as_bytes());
				files.insert(f, vec![]);
			}
		}
		d
	};
	let mut files = BTreeMap::new();
	let work = make(r, r.clone().word(&["ws", "my ws", "w[s]", "w%20s"]), &mut files);
	let heads = make(r, r.clone().word(&["headers", "h é", "wsx"]), &mut files);
	let outdir = s.join("out dir");
	fs::create_dir(&outdir).unwrap();
	unprivileged(&outdir);
	let mut args: Vec<String> = vec![];
	let layout = r.below(8);
	let (mut roots, mut cwd) = (vec![], s.clone());
	let header_arg = match layout {
		// within one another, or the same
		0 => {
			let d = work.join("inc");
			fs::create_dir_all(&d).unwrap();
			unprivileged(&d);
			grow(r, &d, 1, &mut files);
			d
		}
		1 => work.clone(),
		_ => heads,
	};
	args.extend([r.word(&["-h", "--header-files"]).to_string(), header_arg.to_str().unwrap().to_string()]);
	roots.push(header_arg);
	if r.chance(3, 4) {
		let w = if r.chance(1, 3) { work.strip_prefix(s).unwrap().to_path_buf() } else { work.clone() };
		args.extend([r.word(&["-w", "--workspace"]).to_string(), w.to_str().unwrap().to_string()]);
	} else {
		cwd = work.clone();
	}
	roots.push(work.clone());
	let mut dest = cwd.clone();
	if r.chance(1, 2) {
		args.extend([r.word(&["-o", "--output"]).to_string(), outdir.to_str().unwrap().to_string()]);
		dest = outdir.clone();
	}
	let mut name = "P4Analysis".to_string();
	if r.chance(1, 2) {
		name = r.word(&["dump", "a b", "x.y", "é"]).to_string();
		args.extend([r.word(&["-f", "--filename"]).to_string(), name.clone()]);
	}
	let dest = dest.join(format!("{name}.lsif"));
	if r.chance(1, 4) {
		// of an earlier, longer dump
		write_file(&dest, "stale\n".repeat(5000).as_bytes());
	}
	let want: BTreeSet<String> = files.keys().filter(|f| is_p4(f) && roots.iter().any(|d| f.starts_with(d))).map(|f| url_of(f)).collect();
	let mut c = command(r, "lsif-p4", s, (2, 3));
	let mut child = c.args(&args).current_dir(&cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(fs::File::create(s.join("stderr")).unwrap()).spawn().expect("the program starts");
	let end = Instant::now() + Duration::from_secs(60);
	let status = loop {
		match child.try_wait().unwrap() {
			Some(st) => break Some(st),
			None if Instant::now() > end => {
				let _ = child.kill();
				let _ = child.wait();
				break None;
			}
			None => std::thread::sleep(Duration::from_millis(1)),
		}
	};
	let stderr: String = fs::read(s.join("stderr")).map(|b| String::from_utf8_lossy(&b).lines().filter(|l| !l.contains("pp.errors")).take(12).collect::<Vec<_>>().join("\n")).unwrap_or_default();
	let witness = || format!("lsif-p4 {args:?} in {cwd:?}\nfiles {:?}\nstderr {stderr}", files.keys().map(|f| f.strip_prefix(s).unwrap()).take(40).collect::<Vec<_>>());
	let status = match status {
		Some(st) => st,
		None => return Err(vcommon::violation!("does-not-end", "{}", witness())),
	};
	ensure!(status.success(), "exit-status", "{status:?}: {}", witness());
	ensure!(!stderr.contains("panicked"), "panic", "{}", witness());
	let text = fs::read_to_string(&dest).map_err(|e| vcommon::violation!("no-dump", "{dest:?}: {e}: {}", witness()))?;
	obs.eval();
	ensure!(text.is_empty() || text.ends_with('\n'), "cut-dump", "{}", witness());
	let mut ids = BTreeSet::new();
	let mut docs = vec![];
	for l in text.lines() {
		let v: serde_json::Value = serde_json::from_str(l).map_err(|e| vcommon::violation!("no-json", "{l:?}: {e}: {}", witness()))?;
		ensure!(ids.insert(v["id"].to_string()) && !v["id"].is_null(), "id", "the id of {l} is not its own: {}", witness());
		ensure!(v["type"] == "vertex" || v["type"] == "edge", "no-entry", "{l}: {}", witness());
		if v["label"] == "document" {
			docs.push(v["uri"].as_str().unwrap_or("").to_string());
		}
	}
	let set: BTreeSet<String> = docs.iter().cloned().collect();
	ensure!(set.len() == docs.len(), "document-twice", "{docs:?}: {}", witness());
	let missing: Vec<_> = want.difference(&set).take(8).collect();
	let extra: Vec<_> = set.difference(&want).take(8).collect();
	ensure!(missing.is_empty() && extra.is_empty(), "documents", "missing {missing:?}, surplus {extra:?}: {}", witness());
	obs.count("documents", docs.len() as u64);
	obs.count("dumps", 1);
	if layout < 2 {
		obs.count("dumps of overlapping folders", 1);
	}
	obs.nontrivial(format!("{:?}{args:?}", files.keys().map(|f| f.strip_prefix(s).unwrap()).collect::<Vec<_>>()).replace(&*s.to_string_lossy(), "").as_bytes());
	obs.sample(|| format!("{} documents with {args:?}", docs.len()));
	Ok(())
}

pub fn checks() -> Vec<Check> {
	vec![
		Check {
			id: "C32",
			rule: "trees of files with odd names and contents, enumerated from any folder in them and read, some while another thread creates and deletes files there; distinct by the paths",
			quick: 20_000,
			thorough: 100_000,
			min_distinct: 500,
			must_observe: &["files enumerated", "files read", "files that are no text", "what is neither file nor folder", "enumerations of folders in motion"],
			run: c32,
			assumptions: &["glob is a stand-in with its documented semantics"],
			..Check::DEFAULT
		},
		Check {
			id: "C33",
			rule: "dumps by the real program of trees of files, with all forms of its arguments, folders within one another included; distinct by the paths and arguments",
			quick: 4500,
			thorough: 30_000,
			min_distinct: 300,
			must_observe: &["documents", "dumps of overlapping folders"],
			run: c33,
			assumptions: &["glob, xflags and salsa are stand-ins; lsp-types 0.93.2 in place of 0.94.0", "the program is given 60 s"],
			..Check::DEFAULT
		},
	]
}
