mod fcs;
mod mem;
mod peg;
mod pool;
mod rpc;
mod textsync;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
	let mut checks = vec![];
	checks.extend(textsync::checks());
	checks.extend(peg::checks());
	checks.extend(rpc::checks());
	checks.extend(fcs::checks());
	checks.extend(pool::checks());
	vcommon::main(&checks)
}
