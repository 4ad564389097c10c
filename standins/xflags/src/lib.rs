use std::{ffi::OsString, fmt, path::PathBuf};

#[derive(Debug)]
pub struct Error(String);
pub type Result<T> = std::result::Result<T, Error>;
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Error {}

/// The values of flags, and the other arguments.
#[doc(hidden)]
pub struct Args { flags: Vec<(&'static str, Option<OsString>)>, pub rest: Vec<String> }
#[doc(hidden)]
pub fn env() -> Vec<OsString> { std::env::args_os().skip(1).collect() }
impl Args {
	/// `spec`: (long, short, takes a value)
	pub fn parse(args: Vec<OsString>, spec: &[(&'static str, &str, bool)]) -> Result<Args> {
		let mut a = Args { flags: vec![], rest: vec![] };
		let mut it = args.into_iter();
		while let Some(x) = it.next() {
			let s = x.to_str().ok_or(Error(format!("unexpected argument: {x:?}")))?.to_string();
			match spec.iter().find(|(l, sh, _)| s == format!("--{l}") || (!sh.is_empty() && s == format!("-{sh}"))) {
				Some((l, _, true)) => {
					let v = it.next().ok_or(Error(format!("expected a value for `{s}`")))?;
					a.push(l, Some(v))?;
				}
				Some((l, _, false)) => a.push(l, None)?,
				None if s.starts_with('-') => return Err(Error(format!("unexpected flag: `{s}`"))),
				None => a.rest.push(s),
			}
		}
		Ok(a)
	}
	fn push(&mut self, l: &'static str, v: Option<OsString>) -> Result<()> {
		if self.has(l) { return Err(Error(format!("flag specified more than once: `--{l}`"))); }
		self.flags.push((l, v));
		Ok(())
	}
	pub fn has(&self, l: &str) -> bool { self.flags.iter().any(|(x, _)| *x == l) }
	pub fn path(&self, l: &str) -> Option<PathBuf> { self.flags.iter().find(|(x, _)| *x == l).and_then(|(_, v)| v.clone()).map(PathBuf::from) }
	pub fn string(&self, l: &str) -> Option<String> { self.path(l).map(|p| p.to_string_lossy().into_owned()) }
	pub fn required<T>(&self, l: &str, v: Option<T>) -> Result<T> { v.ok_or(Error(format!("flag is required: `--{l}`"))) }
	pub fn no_more(&self) -> Result<()> { match self.rest.first() { None => Ok(()), Some(x) => Err(Error(format!("unexpected argument: {x:?}"))) } }
}

#[macro_export]
macro_rules! xflags {
	(src $s:literal $(#[$m:meta])* cmd p4-analyzer { $($t:tt)* }) => {
		impl P4Analyzer {
			fn from_env_or_exit_() -> Self { Self::from_env_().unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(2) }) }
			fn from_env_() -> $crate::Result<Self> { Self::from_vec_($crate::env()) }
			fn from_vec_(args: Vec<std::ffi::OsString>) -> $crate::Result<Self> {
				let mut a = $crate::Args::parse(args, &[("logpath", "", true), ("loglevel", "", true), ("version", "v", false), ("stdio", "", false)])?;
				if a.rest.first().map(|x| x.as_str()) == Some("server") { a.rest.remove(0); }
				a.no_more()?;
				Ok(P4Analyzer { logpath: a.path("logpath"), loglevel: a.string("loglevel"), version: a.has("version"), subcommand: P4AnalyzerCmd::Server(Server { stdio: a.has("stdio") }) })
			}
		}
	};
	(src $s:literal $(#[$m:meta])* cmd lsif-p4-cmd { $($t:tt)* }) => {
		impl LsifP4Cmd {
			fn from_env_or_exit_() -> Self { Self::from_env_().unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(2) }) }
			fn from_env_() -> $crate::Result<Self> { Self::from_vec_($crate::env()) }
			fn from_vec_(args: Vec<std::ffi::OsString>) -> $crate::Result<Self> {
				let a = $crate::Args::parse(args, &[("header-files", "h", true), ("workspace", "w", true), ("filename", "f", true), ("output", "o", true), ("version", "v", false)])?;
				a.no_more()?;
				Ok(LsifP4Cmd { header_files: a.required("header-files", a.path("header-files"))?, workspace: a.path("workspace"), filename: a.string("filename"), output: a.path("output"), version: a.has("version") })
			}
		}
	};
}
