mod disk;
mod driver;
mod log;
mod proc;

fn main() {
	let mut checks = vec![];
	checks.extend(proc::checks());
	checks.extend(driver::checks());
	checks.extend(disk::checks());
	checks.extend(log::checks());
	vcommon::main(&checks)
}
