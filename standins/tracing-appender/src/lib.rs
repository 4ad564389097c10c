pub mod rolling {
	use std::{fs::{File, OpenOptions}, io, path::Path};
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct Rotation;
	impl Rotation { pub const NEVER: Self = Rotation; }
	pub struct RollingFileAppender(File);
	impl RollingFileAppender {
		pub fn new(_: Rotation, directory: impl AsRef<Path>, file_name: impl AsRef<Path>) -> Self {
			RollingFileAppender(OpenOptions::new().append(true).create(true).open(directory.as_ref().join(file_name)).expect("failed to create appender"))
		}
	}
	impl io::Write for RollingFileAppender {
		fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
		fn flush(&mut self) -> io::Result<()> { self.0.flush() }
	}
}
pub mod non_blocking {
	use std::{
		io,
		sync::mpsc::{sync_channel, SyncSender},
		thread::{spawn, JoinHandle},
	};
	pub(crate) enum Msg { Line(Vec<u8>), Shutdown }
	/// What is still under way when this is dropped is written; what comes later, or if this is never dropped, is not.
	#[derive(Debug)]
	#[must_use]
	pub struct WorkerGuard(pub(crate) Option<(SyncSender<Msg>, JoinHandle<()>)>);
	impl Drop for WorkerGuard {
		fn drop(&mut self) {
			if let Some((s, t)) = self.0.take() {
				let _ = s.send(Msg::Shutdown);
				let _ = t.join();
			}
		}
	}
	#[derive(Clone, Debug)]
	pub struct NonBlocking(SyncSender<Msg>);
	impl NonBlocking {
		pub(crate) fn create<T: io::Write + Send + 'static>(mut w: T) -> (NonBlocking, WorkerGuard) {
			let (s, r) = sync_channel(128_000);
			let t = spawn(move || {
				while let Ok(Msg::Line(b)) = r.recv() {
					let _ = w.write_all(&b);
				}
				let _ = w.flush();
			});
			(NonBlocking(s.clone()), WorkerGuard(Some((s, t))))
		}
	}
	impl io::Write for NonBlocking {
		// lossy, as it is by default
		fn write(&mut self, b: &[u8]) -> io::Result<usize> {
			let _ = self.0.try_send(Msg::Line(b.to_vec()));
			Ok(b.len())
		}
		fn flush(&mut self) -> io::Result<()> { Ok(()) }
	}
	impl<'a> tracing_subscriber::fmt::MakeWriter<'a> for NonBlocking {
		type Writer = NonBlocking;
		fn make_writer(&'a self) -> NonBlocking { self.clone() }
	}
}
pub fn non_blocking<T: std::io::Write + Send + 'static>(w: T) -> (non_blocking::NonBlocking, non_blocking::WorkerGuard) {
	non_blocking::NonBlocking::create(w)
}
