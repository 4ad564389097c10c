// Compiles the TypeScript packages as their own build does (CommonJS, ES2021), file by file: build.cjs REPO OUT
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("node:fs"), path = require("node:path");
const [repo, out] = process.argv.slice(2);
fs.rmSync(out, { recursive: true, force: true });
for (const [src, lib] of [["packages/p4-analyzer/src", "p4-analyzer/lib"], ["packages/p4-analyzer-vscode/src", "vscode/lib"], ["tools/src", "tools/lib"]]) {
	(function walk(dir, to) {
		for (const f of fs.readdirSync(dir, { withFileTypes: true })) {
			const p = path.join(dir, f.name);
			if (f.isDirectory()) walk(p, path.join(to, f.name));
			else if (f.name.endsWith(".ts") && !f.name.endsWith(".d.ts")) {
				const r = ts.transpileModule(fs.readFileSync(p, "utf8"), { fileName: p, reportDiagnostics: true, compilerOptions: { target: ts.ScriptTarget.ES2021, module: ts.ModuleKind.CommonJS } });
				if (r.diagnostics.length) {
					console.error(ts.formatDiagnostics(r.diagnostics, { getCanonicalFileName: x => x, getCurrentDirectory: () => repo, getNewLine: () => "\n" }));
					process.exit(3);
				}
				fs.mkdirSync(to, { recursive: true });
				fs.writeFileSync(path.join(to, f.name.replace(/\.ts$/, ".js")), r.outputText);
			}
		}
	})(path.join(repo, src), path.join(out, lib));
}
// the stand-in for the WebAssembly module
fs.mkdirSync(path.join(out, "p4-analyzer/lib/wasm"), { recursive: true });
fs.copyFileSync(path.join(__dirname, "wasm.cjs"), path.join(out, "p4-analyzer/lib/wasm/p4_analyzer_wasm.js"));
