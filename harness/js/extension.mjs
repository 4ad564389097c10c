// C39: the extension of Visual Studio Code (packages/p4-analyzer-vscode), with stand-ins for its interface.
import { createRequire } from "node:module";
import Module from "node:module";
import fs from "node:fs";
import path from "node:path";
import url from "node:url";
import { BUILD, fail } from "./common.mjs";

const require = createRequire(import.meta.url);
const LIB = path.join(BUILD, "vscode/lib");

class Uri {
	constructor(text) { const m = /^([a-z][a-z0-9+.-]*):(.*)$/is.exec(text); if (!m) throw new Error(`[UriError]: ${text}`); this.text = text; this.scheme = m[1]; }
	static parse(text) { return new Uri(text); }
	static file(p) { return new Uri(url.pathToFileURL(p).href); }
	get fsPath() { return this.scheme === "file" ? url.fileURLToPath(this.text) : decodeURIComponent(this.text.replace(/^[^:]*:(\/\/[^/]*)?/, "")); }
	get path() { return this.fsPath; }
	toString() { return this.text; }
}
class RelativePattern {
	constructor(base, pattern) { this.base = base.uri ? base.uri.fsPath : base.fsPath ?? base; this.baseUri = base.uri ?? base; this.pattern = pattern; }
}

/** What the editor is to the extension in a case. */
let editor;
const vscode = {
	Uri, RelativePattern,
	window: {
		showErrorMessage: m => { editor.errors.push(m); return Promise.resolve(undefined); },
		showWarningMessage: () => Promise.resolve(undefined), showInformationMessage: () => Promise.resolve(undefined),
		createOutputChannel: (name, language) => { editor.channels.push(name); return { name, append() {}, appendLine() {}, show() {}, clear() {}, dispose() {} }; },
	},
	workspace: {
		get workspaceFolders() { return editor.folders; },
		getConfiguration: section => ({
			get: (k, d) => { editor.asked++; if (editor.broken) throw new Error("no configuration"); return editor.settings[`${section}.${k}`] ?? d; },
			has: k => `${section}.${k}` in editor.settings,
		}),
		// the innermost folder that holds it
		getWorkspaceFolder: u => editor.folders.filter(f => u.toString() === f.uri.toString() || u.toString().startsWith(f.uri.toString().replace(/\/?$/, "/"))).sort((a, b) => b.uri.toString().length - a.uri.toString().length)[0],
		// a string is searched for in all folders
		findFiles: async (include, exclude, limit) => {
			editor.searches++;
			const bases = typeof include === "string" ? editor.folders.map(f => f.uri.fsPath) : [typeof include.base === "string" ? include.base : include.baseUri.fsPath];
			const out = new Set();
			for (const b of bases) for (const f of walk(b)) if (matches(path.relative(b, f), typeof include === "string" ? include : include.pattern)) out.add(f);
			return [...out].slice(0, limit).map(f => Uri.file(f));
		},
		fs: { readFile: async u => fs.readFileSync(u.fsPath) },
		openTextDocument: async u => ({ getText: () => fs.readFileSync(u.fsPath, "utf8") }),
	},
};
class BaseLanguageClient {
	handlers = new Map(); state = "new"; log = [];
	onRequest(m, h) { this.log.push(`handler ${typeof m === "string" ? m : m.method}`); this.handlers.set(typeof m === "string" ? m : m.method, h); return { dispose() {} }; }
	onNotification() { return { dispose() {} }; }
	setTrace(t) { this.log.push("trace"); return Promise.resolve(); }
	start() { this.log.push("start"); if (editor.refuses) throw new Error("no server"); this.state = "running"; return Promise.resolve(); }
	async stop() { this.log.push("stop"); await null; this.state = "stopped"; }
}
class LanguageClient extends BaseLanguageClient {
	constructor(id, name, server, client) { super(); Object.assign(this, { id, name, server, client }); editor.clients.push(this); }
}
const types = { BaseLanguageClient, LanguageClient, TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 }, Trace: { Off: 0, Messages: 1, Verbose: 2 }, TextDocumentIdentifier: { create: uri => ({ uri }) } };
const stubs = { vscode, "vscode-languageclient": types, "vscode-languageclient/node": types };
const load = Module._load;
Module._load = function (request, ...rest) { return stubs[request] ?? load.call(this, request, ...rest); };

function* walk(d) { for (const f of fs.readdirSync(d, { withFileTypes: true })) { const p = path.join(d, f.name); if (f.isDirectory()) yield* walk(p); else yield p; } }
// two asterisks, one, and alternatives, as globs have them
function matches(rel, glob) {
	const re = glob.replace(/\*\*\/|\*|\{[^}]*\}|[.+^$()|[\]\\?]/g, t => t === "**/" ? "(?:.*/)?" : t === "*" ? "[^/]*" : t[0] === "{" ? `(?:${t.slice(1, -1).split(",").join("|")})` : "\\" + t);
	return new RegExp(`^${re}$`).test(rel);
}

const NAMES = ["a.p4", "b.p4", "c d.p4", "é.p4", "100%.p4", "x#y.p4", "q?.p4", "[z].p4", "readme.md", "p4", ".p4", "n.P4", "\u{1F600}.p4"];
const DIRS = ["w", "w one", "lib", "é", "lib/deep", "w/in", "100%"];

async function extension(r, obs) {
	const home = fs.mkdtempSync(path.join(process.env.VERIF_SCRATCH ?? "/tmp", "x-"));
	try {
		const pkg = path.join(home, "ext/node_modules/p4-analyzer");
		fs.mkdirSync(path.join(pkg, "lib"), { recursive: true });
		fs.writeFileSync(path.join(pkg, "package.json"), '{"name":"p4-analyzer","version":"0.0.0","main":"./lib/index.js"}');
		fs.writeFileSync(path.join(pkg, "lib/index.js"), "");
		const dirs = [...new Set([...Array(r.range(1, 4))].map(() => r.pick(DIRS)))];
		const contents = new Map();
		for (const d of dirs) {
			fs.mkdirSync(path.join(home, "ws", d), { recursive: true });
			for (let i = r.below(5); i > 0; i--) {
				const f = path.join(home, "ws", d, r.chance(1, 3) ? "sub" : "", r.pick(NAMES)), text = [...Array(r.below(6))].map(() => r.pick(["x", "é", "\u{1F600}", "\r\n", "\n", "\uFEFF", "\0", "#include <a>"])).join("");
				fs.mkdirSync(path.dirname(f), { recursive: true });
				fs.writeFileSync(f, text);
				contents.set(f, text);
			}
		}
		const all = dirs.map(d => ({ uri: Uri.file(path.join(home, "ws", d)), name: d, index: 0 })), folders = all.filter(() => r.chance(4, 5));
		const server = r.pick([null, null, undefined, "/opt/p4analyzer", "C:\\p4 analyzer.exe", ""]), logPath = r.pick([null, undefined, "/var/log/p4", "/with space", ""]), logLevel = r.pick(["trace", "debug", "info", "warn", "error"]);
		editor = { errors: [], channels: [], clients: [], asked: 0, searches: 0, folders, broken: r.chance(1, 10), refuses: r.chance(1, 10), settings: {} };
		const set = (k, v) => { if (v !== undefined) editor.settings[`p4-analyzer.server.${k}`] = v; };
		set("absoluteServerPath", server), set("logPath", logPath), set("logLevel", logLevel);
		const shape = JSON.stringify([server, logPath, logLevel, editor.broken, editor.refuses, folders.map(f => f.name), [...contents.keys()].map(f => path.relative(home, f))]);

		for (const k of Object.keys(require.cache)) if (k.startsWith(LIB)) delete require.cache[k];
		delete BaseLanguageClient.prototype.setP4AnalyzerHandlers;
		const ext = require(path.join(LIB, "index.js"));
		if (r.chance(1, 4)) {
			// never activated
			await ext.deactivate();
			if (editor.clients.length) fail("deactivate", `${shape}: a client without activation`);
		}
		let failed = null;
		try { await ext.activate({ extensionPath: path.join(home, "ext"), subscriptions: [] }); } catch (e) { failed = e; }
		const expected = editor.broken ? "no configuration" : editor.refuses ? "no server" : null;
		if ((failed?.message ?? null) !== expected) fail("activate", `${shape}: activation fails with ${failed?.stack}, in place of ${expected}`);
		if (editor.errors.length !== (expected ? 1 : 0) || expected && !String(editor.errors[0]).includes(expected)) fail("error-message", `${shape}: shown: ${JSON.stringify(editor.errors)}`);
		if (expected) { obs.count("failed activations"); obs.nontrivial(shape); return; }
		const c = editor.clients[0], s = c?.server;
		if (editor.clients.length !== 1 || c.state !== "running") fail("client", `${shape}: ${editor.clients.length} clients`);
		const got = JSON.stringify({ command: s.command, args: s.command ? s.args : undefined, module: s.module, transport: s.transport });
		const want = JSON.stringify(server ? { command: server, args: logPath ? ["--logpath", logPath, "--loglevel", logLevel] : [], transport: 0 } : { module: path.join(pkg, "lib/index.js"), transport: 0 });
		if (got !== want) fail("server", `${shape}: the server is ${got} in place of ${want}`);
		const sel = c.client.documentSelector ?? [];
		if (!sel.some(d => d.language === "p4" && (d.scheme ?? "file") === "file")) fail("selector", `${shape}: P4 files are not selected: ${JSON.stringify(sel)}`);
		for (const m of ["p4analyzer/enumerateFolder", "p4analyzer/fileContents"])
			if (!(c.log.indexOf(`handler ${m}`) >= 0 && c.log.indexOf(`handler ${m}`) < c.log.indexOf("start"))) fail("handlers", `${shape}: the server can ask before ${m} is handled: ${c.log}`);

		const ask = async (m, p) => { try { return { ok: await c.handlers.get(m)(p, {}) }; } catch (e) { return { error: e }; } };
		for (const f of all) {
			const pattern = r.pick(["**/*.p4", "**/*.p4", "*.p4", "**/*.{p4,md}"]);
			// a folder of the workspace, and below it one that is not: the one asked for is the folder that holds it
			const known = vscode.workspace.getWorkspaceFolder(f.uri), x = await ask("p4analyzer/enumerateFolder", { uri: f.uri.toString(), filePattern: pattern });
			if (!known) {
				if (!x.error) fail("unknown-folder", `${shape}: ${f.name} is no folder of the workspace, and is enumerated: ${JSON.stringify(x.ok)}`);
				obs.count("unknown folders");
				continue;
			}
			if (known.uri.toString() !== f.uri.toString()) continue;
			const base = f.uri.fsPath, due = [...walk(base)].filter(p => matches(path.relative(base, p), pattern)).map(p => Uri.file(p).toString()).sort();
			const list = x.ok?.map(d => d.uri).sort();
			if (JSON.stringify(list) !== JSON.stringify(due)) fail("enumeration", `${shape}: in ${f.name}, ${pattern} is ${JSON.stringify(due)}, and the answer ${JSON.stringify(list ?? String(x.error))}`);
			obs.count("folders enumerated");
			if (folders.length > 1) obs.count("folders enumerated among others");
			obs.count("files enumerated", due.length);
		}
		for (const [f, text] of contents) {
			const x = await ask("p4analyzer/fileContents", { uri: Uri.file(f).toString() });
			if (x.ok !== text) fail("contents", `${shape}: ${f} holds ${JSON.stringify(text)}, and the answer is ${JSON.stringify(x.ok ?? String(x.error))}`);
			obs.count("files read");
			if (r.chance(1, 4)) {
				fs.rmSync(f);
				const y = await ask("p4analyzer/fileContents", { uri: Uri.file(f).toString() });
				if (!y.error) fail("contents", `${shape}: ${f} is no more, and the answer is ${JSON.stringify(y.ok)}`);
				obs.count("absent files");
			}
		}
		await ext.deactivate();
		if (c.state !== "stopped") fail("deactivate", `${shape}: deactivated, and the client is ${c.state}`);
		obs.nontrivial(shape);
	} finally { fs.rmSync(home, { recursive: true, force: true }); }
}

export const check = {
	id: "C39", quick: 12_000, thorough: 120_000, min: 1000,
	must: ["failed activations", "unknown folders", "folders enumerated among others", "files enumerated", "files read", "absent files"],
	rule: "all settings of the extension, workspaces of 0-4 folders with files of any name; distinct by settings, folders and files",
	assumptions: ["the interfaces of Visual Studio Code and of its language client are stand-ins: a pattern that is a string is searched for in all folders, a relative one below its base"],
	run: extension,
};
