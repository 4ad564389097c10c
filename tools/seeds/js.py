ADAPTER = r'''
// the adapter with a stdin, a stdout and a server of the demonstration's own
const stdin = new PassThrough(), written = [];
const stdout = new Writable({ write(c, e, done) { written.push(Buffer.from(c)); done(); } });
stdout.pause = () => {};
Object.defineProperty(process, "stdin", { value: stdin, configurable: true });
const got = [];
let respond;
class LspServer {
	constructor(r) { respond = r; }
	start() { return new Promise(() => {}); }
	async sendRequest(b) { got.push(b.toString()); }
	stop() {}
}
const lib = compile("packages/p4-analyzer/src", { "../wasm/p4_analyzer_wasm": { LspServer } });
const frame = t => `Content-Length: ${Buffer.byteLength(t)}\r\n\r\n${t}`;
async function feed(chunks) {
	const A = require(path.join(lib, "server/index.js")).default;
	void new A().start();
	for (let i = 0; i < 50; i++) await turn();
	for (const c of chunks) { stdin.write(c); for (let i = 0; i < 20; i++) await turn(); }
}
'''
SRV = "packages/p4-analyzer/src/server/index.ts"
seed("C38-grows-by-half", "C38",
     [(SRV, "this.requestBuffer = Buffer.concat([this.requestBuffer, Buffer.alloc(BUFFER_CHUNK_SIZEBYTES * (Math.floor(chunk.byteLength / BUFFER_CHUNK_SIZEBYTES) + 1))]);",
       "// Doubling its size keeps the number of reallocations low however large a message gets.\n\t\t\tthis.requestBuffer = Buffer.concat([this.requestBuffer, Buffer.alloc(this.requestBuffer.byteLength)]);")],
     ADAPTER + r'''
(async () => {
	const texts = ["a".repeat(10), "b".repeat(9000), "c".repeat(3000), "d".repeat(60000)];
	await feed(texts.map(frame));
	verdict(JSON.stringify(got) === JSON.stringify(texts), `messages of ${got.map(g => g.length)} bytes arrived, and ${texts.map(g => g.length)} were sent`);
})();
''', "a chunk more than twice as large as everything before", "The part of the chunk that does not fit is lost, and the adapter waits for it ever after.", "js")

seed("C38-view-of-the-buffer", "C38",
     [(SRV, "const requestMessageBuffer = Buffer.alloc(contentLength);\n\n\t\tthis.requestBuffer.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);\n",
       "const requestMessageBuffer = this.requestBuffer.subarray(splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);\n\n")],
     ADAPTER + r'''
(async () => {
	const texts = ["first message", "second", "third"];
	await feed([texts.map(frame).join("")]);
	verdict(JSON.stringify(got) === JSON.stringify(texts), `arrived: ${JSON.stringify(got)}`);
})();
''', "a further message in the same chunk", "The message is a view of the running buffer, into which the next one moves before the server is given the first.", "js")

seed("C38-characters-for-bytes", "C38",
     [(SRV, "process.stdout.write(`Content-Length: ${message.byteLength}${BODY_SPLIT_CHARS}${message}`);",
       "const text = message.toString(\"utf8\");\n\n\t\tprocess.stdout.write(`Content-Length: ${text.length}${BODY_SPLIT_CHARS}${text}`);")],
     ADAPTER + r'''
(async () => {
	const log = console.log;
	await feed([]);
	Object.defineProperty(process, "stdout", { value: stdout, configurable: true });
	const texts = ["plain", "caf\u00e9", "\u{1F600}"];
	for (const t of texts) respond(Buffer.from(t));
	await turn();
	const all = Buffer.concat(written).toString(), due = texts.map(frame).join("");
	process.stderr.write(JSON.stringify(all) + "\n");
	process.exit(all === due ? 0 : 1);
})();
''', "an answer with a character beyond ASCII", "The length counts UTF-16 units, and the editor loses its place in the stream.", "js")

EXT = r'''
let folders = [], client = null;
const vscode = {
	Uri: { parse: text => ({ text, get fsPath() { return url.fileURLToPath(text); }, toString: () => text }) },
	RelativePattern: class { constructor(base, pattern) { this.base = base; this.baseUri = base.uri ?? base; this.pattern = pattern; } },
	window: { showErrorMessage: async () => {}, createOutputChannel: () => ({}) },
	workspace: {
		get workspaceFolders() { return folders; },
		getConfiguration: () => ({ get: k => null, has: () => false }),
		getWorkspaceFolder: u => folders.find(f => u.toString() === f.uri.toString() || u.toString().startsWith(f.uri + "/")),
		findFiles: async p => folders.filter(f => typeof p === "string" || f.uri.toString() === p.baseUri.toString()).map(f => vscode.Uri.parse(f.uri + "/main.p4")),
	},
};
class BaseLanguageClient {
	handlers = new Map();
	constructor() { client = this; }
	onRequest(m, h) { this.handlers.set(m, h); }
	async setTrace() {}
	async start() { this.before = [...this.handlers.keys()]; }
	async stop() {}
}
const types = { BaseLanguageClient, LanguageClient: BaseLanguageClient, TransportKind: {}, Trace: {}, TextDocumentIdentifier: { create: uri => ({ uri }) } };
const lib = compile("packages/p4-analyzer-vscode/src", { vscode, "vscode-languageclient": types, "vscode-languageclient/node": types });
const pkg = path.join(scratch, "x/node_modules/p4-analyzer");
fs.mkdirSync(pkg, { recursive: true });
fs.writeFileSync(path.join(pkg, "index.js"), "");
const activate = () => require(path.join(lib, "index.js")).activate({ extensionPath: path.join(scratch, "x"), subscriptions: [] });
'''
LC = "packages/p4-analyzer-vscode/src/extensions/LanguageClient.ts"
seed("C39-sibling-folder", "C39",
     [(LC, "const folder = workspace.getWorkspaceFolder(uri);", "const folder = workspace.workspaceFolders?.find(candidate => uri.toString().startsWith(candidate.uri.toString()));")],
     EXT + r'''
(async () => {
	folders = ["file:///w", "file:///w2"].map(u => ({ uri: vscode.Uri.parse(u), name: u }));
	await activate();
	const out = [];
	for (const f of folders) out.push((await client.handlers.get("p4analyzer/enumerateFolder")({ uri: f.uri.toString(), filePattern: "**/*.p4" })).map(x => x.uri).join());
	verdict(out.join() === "file:///w/main.p4,file:///w2/main.p4", out.join());
})();
''', "two folders in the workspace the name of one of which continues that of an earlier one", "The files of the first folder are taken for those of the second.", "js")

seed("C39-handlers-after-start", "C39",
     [("packages/p4-analyzer-vscode/src/index.ts", "\tclient.setP4AnalyzerHandlers();\n\tclient.start();\n", "\n\tawait client.start();\n\n\t// Nothing can be requested of a client that has not been started.\n\tclient.setP4AnalyzerHandlers();\n")],
     EXT + r'''
(async () => {
	await activate();
	verdict(client.before.length === 2, `handled when the server starts: ${client.before}`);
})();
''', "a server that asks for the files of a folder as soon as it has been initialized", "Its requests are refused as unknown, and nothing is indexed.", "js")

VERSION = r'''
const { execFileSync } = require("node:child_process");
const root = path.join(scratch, "work");
fs.mkdirSync(root);
for (const k of Object.keys(process.env)) if (k.startsWith("GIT_")) delete process.env[k];
Object.assign(process.env, { GIT_CONFIG_GLOBAL: "/dev/null", GIT_CONFIG_SYSTEM: "/dev/null", GIT_AUTHOR_NAME: "a", GIT_AUTHOR_EMAIL: "a@b", GIT_COMMITTER_NAME: "a", GIT_COMMITTER_EMAIL: "a@b" });
const git = (...a) => execFileSync("git", a, { cwd: root }).toString().trim();
let n = 0;
function commit(file, text) {
	fs.writeFileSync(path.join(root, file), text ?? `${n++}`);
	git("add", ".");
	git("commit", "-q", "-m", "c");
}
const devkit = { readJsonFile: f => JSON.parse(fs.readFileSync(f, "utf8")), writeJsonFile: (f, v) => fs.writeFileSync(f, JSON.stringify(v)), logger: { info() {}, warn() {}, fatal() {}, error() {} } };
const lib = compile("tools/src", { "@nrwl/devkit": devkit, "@iarna/toml": { parse: JSON.parse, stringify: JSON.stringify } });
const { getVersion } = require(path.join(lib, "version.js"));
process.chdir(root);
git("init", "-q", "-b", "main");
'''
seed("C40-first-parents", "C40",
     [("tools/src/version.ts", "const gitHeight = Number((execSync(`git log --format=%h ${versionFileCommit}.. | wc -l`)).toString().trim()) + 1;",
       "const gitHeight = Number((execSync(`git rev-list --count --first-parent ${versionFileCommit}..`)).toString().trim()) + 1;")],
     VERSION + r'''
commit("version.json", JSON.stringify({ version: "1.0.0-preview", releaseBranches: ["main"] }));
commit("a");
git("checkout", "-q", "-b", "side");
commit("b"); commit("b");
git("checkout", "-q", "main");
commit("c");
git("merge", "-q", "--no-ff", "-m", "merge", "side");
const v = getVersion({ root });
verdict(v === "1.0.0-preview.6", `the version is ${v}`);
''', "a merged branch of more than one commit", "The height leaves out what was merged, so that versions with different contents can be the same.", "js")

seed("C40-release-anywhere", "C40",
     [("tools/src/version.ts", "currentBranchName.startsWith(releaseBranch)", "currentBranchName.includes(releaseBranch)")],
     VERSION + r'''
commit("version.json", JSON.stringify({ version: "1.0.0-preview", releaseBranches: ["main", "release/"] }));
git("checkout", "-q", "-b", "fix-main");
commit("a");
const v = getVersion({ root });
verdict(v === "1.0.0-preview-g" + git("log", "--format=%h", "-1"), `the version is ${v}`);
''', "a branch with the name of a release branch inside its own", "Packages of a topic branch get the versions of releases.", "js")
