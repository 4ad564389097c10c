//! Tasks wait until the harness, which is the event loop, takes them.
use std::{cell::RefCell, future::Future, pin::Pin};

thread_local! {
	#[doc(hidden)]
	pub static TASKS: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = RefCell::new(vec![]);
}

pub fn spawn_local(f: impl Future<Output = ()> + 'static) { TASKS.with(|t| t.borrow_mut().push(Box::pin(f))) }
