PRE = r'''#![allow(unused_imports, dead_code)]
use analyzer_core::{base_abstractions::*, lexer::*, *};
fn analyzer() -> Analyzer {
	Analyzer::new(|_, path| Ok(path.to_string()), |_| ())
}
fn words(a: &Analyzer, f: FileId) -> Vec<String> {
	a.preprocessed(f).unwrap().iter().filter_map(|(_, t, _)| match t { Token::Identifier(n) => Some(n.clone()), _ => None }).collect()
}
'''

seed("C13-byte-order-mark", "C13",
     [("analyzer-core/src/lib.rs", "\tlet tokens: Vec<_> = lexer.spanned().process_error_tokens(db, file_id).collect();", "\t// (a byte order mark isn't part of the program)\n\tlet tokens: Vec<_> = lexer\n\t\t.spanned()\n\t\t.process_error_tokens(db, file_id)\n\t\t.filter(|(_, span)| &contents[span.clone()] != \"\\u{feff}\")\n\t\t.collect();")],
     PRE + r'''
fn main() {
	let mut a = analyzer();
	let f = a.file_id("f");
	let text = "\u{feff}header h {}".to_string();
	a.update(f, &text);
	let t = a.lexed(f).unwrap();
	let mut at = 0;
	for (_, span) in t { assert_eq!(span.start, at, "gap"); at = span.end; }
	assert_eq!(at, text.len());
}
''', "a file that contains a byte order mark", "The bytes of the mark belong to no token.", "core")

seed("C14-upper-case-octal", "C14",
     [("analyzer-core/src/lexer.rs", '"o" | "O" => 8,', '"o" => 8,\n\t\t\t"O" => 10,')],
     PRE + r'''
fn main() {
	let mut a = analyzer();
	let f = a.file_id("f");
	a.update(f, &"0O17".to_string());
	assert_eq!(a.lexed(f).unwrap()[0].0, Token::Integer(Literal { base: 8, signed: false, width: None, value: 15 }));
}
''', "an octal literal with an upper case prefix", "It is read as decimal.", "core")

seed("C15-first-hundred", "C15",
     [("analyzer-core/src/lib.rs", "\t\t\t\t\t// terminate the error range and emit a diagnostic\n\t\t\t\t\tlet location = err_span.clone();\n\t\t\t\t\t*state = None;", "\t\t\t\t\t// terminate the error range and emit a diagnostic\n\t\t\t\t\tlet location = err_span.start..err_span.end.min(err_span.start + 64);\n\t\t\t\t\t*state = None;")],
     PRE + r'''
fn main() {
	let mut a = analyzer();
	let f = a.file_id("f");
	a.update(f, &("a ".to_string() + &"$".repeat(80) + " b"));
	let d = a.diagnostics(f);
	assert_eq!(d.len(), 1);
	assert_eq!(d[0].location, 2..82);
}
''', "a region of lexical errors longer than 64 bytes", "Its diagnostic covers the first 64 bytes only, and can end within a character.", "core")

seed("C16-inactive-undef", "C16",
     [("analyzer-core/src/preprocessor.rs", "\t\t\t\tPreprocessorDirective::Undef(_) => (),\n", "\t\t\t\tPreprocessorDirective::Undef(symbol) => {\n\t\t\t\t\tself.definitions.remove(&symbol);\n\t\t\t\t}\n")],
     PRE + r'''
fn main() {
	let mut a = analyzer();
	let f = a.file_id("f");
	a.update(f, &"#define A 1\n#if 0\n#undef A\n#endif\n#if A\nyes\n#else\nno\n#endif\n".to_string());
	assert_eq!(words(&a, f), ["yes"]);
}
''', "an #undef in an inactive branch, of a macro that is used later", "The #undef has an effect.", "core")

seed("C16-nested-else", "C16",
     [("analyzer-core/src/preprocessor.rs", "d @ PreprocessorDirective::ElseIf(_) if self.conditional_stack.len() == level => {", "d @ PreprocessorDirective::ElseIf(_) if self.conditional_stack.len() <= level.max(2) => {")],
     PRE + r'''
fn main() {
	let mut a = analyzer();
	let f = a.file_id("f");
	a.update(f, &"#if 0\n#if 0\nx\n#elif 1\nno\n#endif\n#endif\nyes\n".to_string());
	assert_eq!(words(&a, f), ["yes"]);
}
''', "an inactive branch with a conditional that has an #elif", "The #elif of the inner conditional is taken for one of the outer.", "core")

seed("C17-logical-shift", "C17",
     [("analyzer-core/src/preprocessor.rs", "\t\t\t\t\tPreprocessorBinOp::LessOrEqual => (l <= r) as i64,", "\t\t\t\t\tPreprocessorBinOp::LessOrEqual => (l - r <= 0) as i64,".replace("l - r", "l.wrapping_sub(r)"))],
     PRE + r'''
fn main() {
	let mut a = analyzer();
	let f = a.file_id("f");
	a.update(f, &"#if 0 - 9223372036854775807 <= 9\nyes\n#else\nno\n#endif\n".to_string());
	assert_eq!(words(&a, f), ["yes"]);
}
''', "a comparison of operands that are more than 2^63 apart", "<= compares by the sign of a difference that overflows.", "core")

seed("C17-hex-case", "C17",
     [("analyzer-core/src/preprocessor.rs", 'recognize(many1(terminated(one_of("0123456789abcdefABCDEF"), many0(char(\'_\'))))),', 'recognize(many1(terminated(one_of("0123456789abcdefABCDE"), many0(char(\'_\'))))),')],
     PRE + r'''
fn main() {
	let mut a = analyzer();
	let f = a.file_id("f");
	a.update(f, &"#if 0xF0\nyes\n#else\nno\n#endif\n".to_string());
	assert_eq!(words(&a, f), ["yes"]);
}
''', "a hexadecimal literal with the digit F", "The literal ends before that digit, and the rest of the condition is ignored.", "core")

seed("C18-order-of-includes", "C18",
     [("analyzer-core/src/preprocessor.rs", "let file_id = (self.to_id)(&path); // TODO: path resolution here or in to_id", "// TODO: path resolution here or in to_id\n\t\t\t\t\t\tlet file_id = (self.to_id)(path.trim_start_matches(\"./\"));")],
     PRE + r'''
fn main() {
	let mut a = Analyzer::new(|base, path| Ok(format!("{base}>{path}")), |_| ());
	let f = a.file_id("f");
	let g = a.file_id("f>./g");
	a.update(f, &"#include \"./g\"\n".to_string());
	a.update(g, &"yes\n".to_string());
	assert_eq!(words(&a, f), ["yes"]);
}
''', "an include whose path begins with ./, and a resolver to which that makes a difference", "The path handed to the resolver is not the one in the include.", "core")

seed("C18-required-once", "C18",
     [("analyzer-core/src/lib.rs", "\t\tfor unresolved_include in self.include_dependencies(file_id).iter().filter(|a| !a.is_resolved) {", "\t\tfor unresolved_include in self.include_dependencies(file_id).iter().take_while(|a| !a.is_resolved) {")],
     PRE + r'''
use std::{cell::RefCell, rc::Rc};
fn main() {
	let asked = Rc::new(RefCell::new(vec![]));
	let b = asked.clone();
	let mut a = Analyzer::new(|_, path| Ok(path.to_string()), move |p| b.borrow_mut().push(p.to_string()));
	let (f, g) = (a.file_id("f"), a.file_id("g"));
	a.update(f, &"#include \"g\"\n#include \"gone\"\n".to_string());
	a.update(g, &"yes\n".to_string());
	a.preprocessed(f);
	assert_eq!(*asked.borrow(), ["gone"]);
}
''', "a missing include after one that is there", "The missing file is not asked for.", "core")

seed("C19-empty-pragma", "C19",
     [("analyzer-core/src/lexer.rs", '"pragma" => PreprocessorDirective::Pragma(arg.chars().skip_while(|ch| ch.is_ascii_whitespace()).collect()),', '"pragma" => {\n\t\t\t\tlet start = arg.find(|ch: char| ch == \'"\' || !ch.is_ascii_whitespace()).unwrap_or(1);\n\t\t\t\tPreprocessorDirective::Pragma(arg[start..].to_string())\n\t\t\t}')],
     PRE + r'''
fn main() {
	let mut a = analyzer();
	let f = a.file_id("f");
	a.update(f, &"#pragma".to_string());
	a.preprocessed(f);
}
''', "#pragma with nothing after it", "The analysis panics.", "core")

seed("C20-same-length", "C20",
     [("analyzer-core/src/lib.rs", "\tpub fn update(&mut self, file_id: FileId, input: &String) {\n\t\tlet mut filesystem = self.filesystem();\n", "\tpub fn update(&mut self, file_id: FileId, input: &String) {\n\t\t// avoid invalidating everything if the file is as it was\n\t\tif self.input(file_id).map_or(false, |old| old.len() == input.len() && old.ends_with('\\n') == input.ends_with('\\n')) {\n\t\t\treturn;\n\t\t}\n\n\t\tlet mut filesystem = self.filesystem();\n")],
     PRE + r'''
fn main() {
	let mut a = analyzer();
	let f = a.file_id("f");
	a.update(f, &"one\n".to_string());
	a.update(f, &"two\n".to_string());
	assert_eq!(words(&a, f), ["two"]);
}
''', "an update that replaces a text by another of the same length", "The update is ignored.", "core")

seed("C20-no-deletion", "C20",
     [("analyzer-core/src/lib.rs", "\t\tfilesystem.remove(&id).map(|_| ())?;\n\t\tself.fs = Fs::new(&self.db, filesystem).into();\n\t\tSome(())", "\t\tfilesystem.remove(&id).map(|_| ())?;\n\t\tif !filesystem.is_empty() {\n\t\t\tself.fs = Fs::new(&self.db, filesystem).into();\n\t\t}\n\t\tSome(())")],
     PRE + r'''
fn main() {
	let mut a = analyzer();
	let f = a.file_id("f");
	a.update(f, &"one\n".to_string());
	a.delete("f");
	assert!(a.preprocessed(f).is_none());
	assert!(a.files().is_empty());
}
''', "deletion of the only file there is", "The last file cannot be deleted.", "core")
