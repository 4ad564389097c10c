//! Counts the bytes each thread has live, so that a reader's appetite is observed rather than guessed.
use std::{
	alloc::{GlobalAlloc, Layout, System},
	cell::Cell,
};

pub struct Counting;

std::thread_local! {
	static LIVE: Cell<isize> = const { Cell::new(0) };
	static PEAK: Cell<isize> = const { Cell::new(0) };
	static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn add(n: isize) {
	let _ = LIVE.try_with(|l| {
		l.set(l.get() + n);
		let _ = PEAK.try_with(|p| {
			if l.get() > p.get() {
				p.set(l.get())
			}
		});
	});
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.size() > LIMIT.try_with(|x| x.get()).unwrap_or(usize::MAX) {
			return std::ptr::null_mut();
		}
		add(l.size() as isize);
		System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		if l.size() > LIMIT.try_with(|x| x.get()).unwrap_or(usize::MAX) {
			return std::ptr::null_mut();
		}
		add(l.size() as isize);
		System.alloc_zeroed(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		add(-(l.size() as isize));
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		if n > LIMIT.try_with(|x| x.get()).unwrap_or(usize::MAX) {
			return std::ptr::null_mut();
		}
		add(n as isize - l.size() as isize);
		System.realloc(p, l, n)
	}
}

/// Most bytes live at once on this thread while `f` ran, above what was live before. A single request above `cap`
/// fails (and ends the process: a reader that asks for it would have done so with the user's memory).
pub fn peak_of<T>(cap: usize, f: impl FnOnce() -> T) -> (T, usize) {
	let base = LIVE.with(|l| l.get());
	PEAK.with(|p| p.set(base));
	LIMIT.with(|l| l.set(cap));
	let r = f();
	LIMIT.with(|l| l.set(usize::MAX));
	(r, (PEAK.with(|p| p.get()) - base).max(0) as usize)
}
