mod announce;
mod docs;
mod session;
mod sim;

fn main() {
	let mut checks = vec![];
	checks.extend(session::checks());
	checks.extend(docs::checks());
	checks.extend(announce::checks());
	vcommon::main(&checks)
}
