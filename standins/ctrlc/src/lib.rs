use std::{fmt, io, sync::atomic::{AtomicBool, AtomicI32, Ordering}};

#[derive(Debug)]
pub enum Error { MultipleHandlers, System(io::Error) }
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Ctrl-C error: {self:?}") }
}
impl std::error::Error for Error {}

static PIPE: AtomicI32 = AtomicI32::new(-1);
static SET: AtomicBool = AtomicBool::new(false);

extern "C" fn on_signal(_: libc::c_int) { unsafe { libc::write(PIPE.load(Ordering::SeqCst), b"x".as_ptr() as *const _, 1); } }

pub fn set_handler<F: FnMut() + 'static + Send>(mut f: F) -> Result<(), Error> {
	if SET.swap(true, Ordering::SeqCst) { return Err(Error::MultipleHandlers); }
	let mut fds = [0; 2];
	unsafe {
		if libc::pipe(fds.as_mut_ptr()) != 0 { return Err(Error::System(io::Error::last_os_error())); }
		PIPE.store(fds[1], Ordering::SeqCst);
		let mut a: libc::sigaction = std::mem::zeroed();
		a.sa_sigaction = on_signal as usize;
		a.sa_flags = libc::SA_RESTART;
		if libc::sigaction(libc::SIGINT, &a, std::ptr::null_mut()) != 0 { return Err(Error::System(io::Error::last_os_error())); }
	}
	std::thread::Builder::new().name("ctrl-c".into()).spawn(move || loop {
		let mut b = [0u8; 1];
		match unsafe { libc::read(fds[0], b.as_mut_ptr() as *mut _, 1) } {
			1 => f(),
			-1 if io::Error::last_os_error().kind() == io::ErrorKind::Interrupted => {}
			_ => return,
		}
	}).map_err(Error::System)?;
	Ok(())
}
