seed("C35-star-at-the-end", "C35",
     [("analyzer-core/src/lexer.rs", '''		let mut rem = self.0.remainder().chars();
		let mut asterisk = false;

		loop {
			match rem.next().map(|ch| {
				self.0.bump(ch.len_utf8());
				ch
			}) {
				Some('*') => asterisk = true,
				Some('/') if asterisk => break true,
				Some(_) => asterisk = false,
				None => break false,
			};
		}
''', '''		let rem = self.0.remainder().as_bytes();

		// No byte of a longer character is one of ASCII, so that there is no need to decode any.
		for i in 0..rem.len() {
			// SAFETY: `i` is in bounds.
			let closed = unsafe { *rem.get_unchecked(i) == b'*' && *rem.get_unchecked(i + 1) == b'/' };

			if closed && i + 1 < rem.len() {
				self.0.bump(i + 2);
				return true;
			}
		}

		self.0.bump(rem.len());
		false
''')],
     r'''
fn main() {
	// every length, since the end of the text decides
	for n in 0..200 {
		let mut a = analyzer_core::Analyzer::new(|_, p| Ok(p.to_string()), |_| {});
		let f = a.file_id("a");
		a.update(f, &format!("x /* {} *", "c".repeat(n)));
		std::hint::black_box(a.lexed(f).map(|l| l.len()));
	}
	println!("every byte read is one of the text");
}
''', "a comment that is never closed, with an asterisk as the last character of the text", "the end of a comment is looked for one byte beyond the end of the text", "core", under="asan")

seed("C35-completed-is-enough", "C35",
     [("analyzer-abstractions/src/futures_extensions.rs", '''				let reader = self.state.value.read().unwrap();
				let result = reader.as_ref().unwrap();
''', '''				// SAFETY: The value is set once, before `completed` is, and never again.
				let result = unsafe { (*self.state.value.get()).as_ref().unwrap() };
'''), ("analyzer-abstractions/src/futures_extensions.rs", '''		let mut writer = self.state.value.write().unwrap();
''', '''		let _writer = self.state.writers.lock().unwrap();
'''), ("analyzer-abstractions/src/futures_extensions.rs", '''		writer.replace(result);
''', '''		unsafe { *self.state.value.get() = Some(result) };
'''), ("analyzer-abstractions/src/futures_extensions.rs", '''				value: Arc::new(RwLock::new(None)),
''', '''				writers: Mutex::new(()),
				value: UnsafeCell::new(None),
'''), ("analyzer-abstractions/src/futures_extensions.rs", '''				value: Arc::new(RwLock::new(Some(Ok(value)))),
''', '''				writers: Mutex::new(()),
				value: UnsafeCell::new(Some(Ok(value))),
'''), ("analyzer-abstractions/src/futures_extensions.rs", '''	value: Arc<RwLock<Option<Result<T, TError>>>>,
}
''', '''	writers: Mutex<()>,
	value: UnsafeCell<Option<Result<T, TError>>>,
}

// SAFETY: `value` is written under `writers`, and read once `completed` is set.
unsafe impl<T: Send + Sync, TError: Send + Sync> Sync for State<T, TError> {}
'''), ("analyzer-abstractions/src/futures_extensions.rs", '''		Arc, RwLock,
	},
''', '''		Arc, Mutex,
	},
'''), ("analyzer-abstractions/src/futures_extensions.rs", '''use std::{
	result::Result,
''', '''use std::{
	cell::UnsafeCell,
	result::Result,
''')],
     r'''
use analyzer_abstractions::futures_extensions::FutureCompletionSource;
use std::{sync::Arc, task::Poll, thread};
fn main() {
	for _ in 0..4 {
		let s = FutureCompletionSource::<Arc<String>, u8>::new();
		let p = s.clone();
		let t = thread::spawn(move || p.set_value(Arc::new("value".to_string())).unwrap());
		loop {
			if let Poll::Ready(v) = s.state() {
				assert_eq!(v.unwrap().as_str(), "value");
				break;
			}
			thread::yield_now();
		}
		t.join().unwrap();
	}
	println!("what is read has been published");
}
''', "a consumer on another thread that sees the source completed without synchronizing with the producer in any other way; the processor's memory order or the compiler must exploit it", "readers no longer take the lock, and the flag they rely on is relaxed: the value and what it points to are read in a race with the writing of them", "abs", under="miri")
