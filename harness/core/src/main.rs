mod gen;
mod history;
mod lex;
mod pp;

fn main() {
	let mut checks = vec![];
	checks.extend(lex::checks());
	checks.extend(pp::checks());
	checks.extend(history::checks());
	vcommon::main(&checks)
}
