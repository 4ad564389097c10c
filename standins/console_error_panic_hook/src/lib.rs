//! The harness has a hook of its own.
pub fn set_once() {}
pub fn hook(_: &std::panic::PanicInfo) {}
