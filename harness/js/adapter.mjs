// C38: the Node.js adapter of the embedded server (packages/p4-analyzer).
import { createRequire } from "node:module";
import { PassThrough, Writable } from "node:stream";
import { spawn } from "node:child_process";
import path from "node:path";
import { BUILD, fail, turn, sleep } from "./common.mjs";

const require = createRequire(import.meta.url);
const LIB = path.join(BUILD, "p4-analyzer/lib");
const WORDS = ["a", "é", "\u{1F600}", "\\r\\n\\r\\n", "Content-Length: 7", "\\\"", " ", "p4", "\\u0000", "€"];

function text(r, n) { let s = ""; for (let i = 0; i < n; i++) s += r.pick(WORDS); return s; }

function body(r, i) {
	const k = r.below(12);
	if (k === 0) return r.pick(["{", "nonsense", "{\"a\":", "[1,2", "\u{1F600}"]) + (r.chance(1, 3) ? " ".repeat(r.below(30)) : "");
	// white space, line breaks included, may stand between tokens
	const gap = r.chance(1, 4) ? r.pick(["\r\n\r\n", "\r\n", "\n", " ", "\r\n\r\n\r\n\r\n"]) : "";
	const n = r.chance(1, 40) ? r.below(60_000) : r.chance(1, 8) ? r.below(1500) : r.below(12);
	return `${gap}{${gap}"jsonrpc":"2.0",${gap}"id":${i},"method":"m","params":{"t":"${text(r, n)}"}}${gap}`;
}

function frame(r, text) {
	const b = Buffer.from(text), l = `Content-Length: ${b.length}\r\n`, t = "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n";
	return Buffer.concat([Buffer.from(r.chance(1, 6) ? r.pick([l + t, t + l]) + "\r\n" : l + "\r\n"), b]);
}

/** Cuts into pieces. */
function cut(r, frames) {
	const all = Buffer.concat(frames);
	const mode = r.below(6);
	let at = [];
	if (mode === 0 && all.length < 3000) at = [...all.keys()].slice(1); // each byte
	else if (mode === 1) { let n = 0; for (const f of frames) at.push(n += f.length); } // each message
	else if (mode === 2) { let n = 0; for (const f of frames) { at.push(n + r.below(24)); n += f.length; at.push(n); } } // in headers, and after messages
	else if (mode === 3) for (let n = 0; n < all.length;) at.push(n += r.pick([1, 2, 16, 2047, 2048, 2049, 4096, 65536]));
	else if (mode === 4) for (let i = r.below(8); i > 0; i--) at.push(r.below(all.length));
	at = [...new Set(at.filter(x => x > 0 && x < all.length))].sort((a, b) => a - b);
	const pieces = [];
	let last = 0;
	for (const x of [...at, all.length]) { pieces.push(all.subarray(last, x)); last = x; }
	return [pieces, mode];
}

function parse(bytes) {
	const out = [];
	while (bytes.length) {
		const m = /^Content-Length: (\d+)\r\n\r\n/.exec(bytes.subarray(0, 60).toString("latin1"));
		if (!m || bytes.length < m[0].length + Number(m[1])) return [out, bytes];
		out.push(bytes.subarray(m[0].length, m[0].length + Number(m[1])).toString());
		bytes = bytes.subarray(m[0].length + Number(m[1]));
	}
	return [out, bytes];
}

async function inside(r, obs) {
	const stdin = new PassThrough(), written = [];
	const stdout = new Writable({ write(c, e, done) { written.push(Buffer.from(c, e)); done(); } });
	stdout.pause = () => {};
	Object.defineProperty(process, "stdin", { value: stdin, configurable: true });
	Object.defineProperty(process, "stdout", { value: stdout, configurable: true });
	const texts = [...Array(r.range(1, 12)).keys()].map(i => body(r, i));
	const frames = texts.map(t => frame(r, t)), [pieces, mode] = cut(r, frames), sizes = frames.map(f => f.length);
	const got = [], answers = [], error = console.error;
	// a server that takes its time with some of the messages
	const later = r.chance(1, 2) ? 6 : 0, wait = async n => { while (n-- > 0) await turn(); };
	let server = null, stopped = false;
	console.error = () => {};
	globalThis.p4aStub.make = s => (server = s, {
		request: (_, b) => {
			got.push([b, Buffer.from(b)]);
			const judge = () => { JSON.parse(b.toString()); };
			return later ? wait(r.below(later)).then(judge) : judge();
		},
		stop: () => { stopped = true; server.reject(new Error("The server was stopped.")); },
	});
	const Adapter = require(path.join(LIB, "server/index.js")).default, a = new Adapter();
	let end = null;
	const started = a.start().then(() => end = "ended", e => end = `failed: ${e.message}`);
	for (let i = 0; i < 200 && !(server && stdin.listenerCount("data") + stdin.listenerCount("readable")); i++) await turn();
	if (!server) fail("no-server", "no server was made");
	const answer = () => {
		const t = body(r, 7);
		answers.push(t);
		server.onResponse(Buffer.from(t));
	};
	let sent = 0;
	const shape = `mode ${mode}, ${frames.length} messages of ${sizes.join(" ")} bytes in ${pieces.length} pieces`;
	for (const p of pieces) {
		// as it comes from a larger buffer, or is one
		let c = p;
		if (r.chance(1, 2)) { const big = Buffer.alloc(p.length + 40, "x"); p.copy(big, 13); c = big.subarray(13, 13 + p.length); } else c = Buffer.from(p);
		stdin.write(c);
		if (r.chance(1, 8)) answer();
		sent += p.length;
		let want = 0;
		for (let n = 0; want < sizes.length && n + sizes[want] <= sent; want++) n += sizes[want];
		if (p !== pieces.at(-1) && r.chance(1, 3)) continue; // more comes before what came has been dealt with
		for (let i = 0; i < 100 && got.length < want; i++) await turn();
		await turn();
		if (got.length !== want) fail("delivered", `${shape}: after ${sent} bytes, ${want} messages are complete, but the server has ${got.length}: ${got.slice(-2).map(g => JSON.stringify(g[1].toString().slice(0, 200)))}`);
		obs.count("times the messages at the server were counted");
	}
	for (let i = 0; i < got.length; i++) {
		if (!got[i][1].equals(Buffer.from(texts[i]))) fail("content", `${shape}: message ${i} arrives as ${JSON.stringify(got[i][1].toString().slice(0, 300))} in place of ${JSON.stringify(texts[i].slice(0, 300))}`);
		if (!got[i][0].equals(got[i][1])) fail("altered", `${shape}: the buffer of message ${i} was altered after it was handed over`);
	}
	for (let i = r.below(3); i > 0; i--) answer();
	await turn();
	const [out, rest] = parse(Buffer.concat(written));
	if (rest.length || out.length !== answers.length || out.some((o, i) => o !== answers[i]))
		fail("answers", `${shape}: ${answers.length} messages of the server, but stdout has ${out.length} and then ${JSON.stringify(rest.toString().slice(0, 200))}`);
	if (end) fail("ended", `${shape}: the adapter has ended before the server did: ${end}`);
	if (r.chance(1, 2)) a.stop(); else server.resolve();
	for (let i = 0; i < 100 && !end; i++) await turn();
	if (!end) fail("no-end", `${shape}: the server has ended, and the adapter has not`);
	if (end !== (stopped ? "failed: The server was stopped." : "ended")) fail("end", `${shape}: ${end}`);
	if (!stdin.isPaused()) fail("reading", "the server has ended, and stdin is still being read");
	console.error = error;
	obs.count("messages", texts.length);
	obs.count("messages the server refused", texts.filter(t => { try { JSON.parse(t); return false; } catch { return true; } }).length);
	obs.count("answers", answers.length);
	obs.count("pieces", pieces.length);
	if (frames.length > pieces.length) obs.count("cases with more messages than pieces");
	obs.nontrivial(shape);
}

async function outside(r, obs) {
	const child = spawn(process.execPath, [path.join(LIB, "index.js")], { env: { PATH: process.env.PATH, P4A_STUB: "1" }, stdio: "pipe", cwd: BUILD });
	try {
		const texts = [...Array(r.range(1, 8)).keys()].map(i => body(r, i)), [pieces, mode] = cut(r, texts.map(t => frame(r, t)));
		const out = [], err = [];
		let over = null;
		child.stdout.on("data", c => out.push(c));
		child.stderr.on("data", c => err.push(c));
		child.stdin.on("error", () => {});
		child.on("close", (code, signal) => over = { code, signal });
		for (const p of pieces.length > 50 ? [Buffer.concat(pieces)] : pieces) {
			child.stdin.write(p);
			if (r.chance(1, 4)) await sleep(r.below(8));
		}
		const want = [];
		for (const t of texts) try { const m = JSON.parse(t); want.push(JSON.stringify({ jsonrpc: "2.0", id: m.id, result: m.params })); } catch {}
		const what = `as a process, mode ${mode}, ${texts.length} messages in ${pieces.length} pieces`;
		const frames = () => parse(Buffer.concat(out));
		for (let i = 0; i < 2000 && frames()[0].length < want.length && !over; i++) await sleep(10);
		const [got, rest] = frames();
		if (got.length !== want.length || rest.length || got.some((g, i) => g !== want[i]))
			fail("process", `${what}: ${want.length} answers are due, and ${got.length} came${over ? `; it ended with ${over.code ?? over.signal}` : ""}; stderr: ${Buffer.concat(err).toString().slice(0, 800)}`);
		// without an answer, it may not have come to handling signals yet
		const how = r.pick(want.length ? ["exit", "SIGINT", "end"] : ["exit", "end"]);
		if (how === "exit") child.stdin.write(frame(r, '{"jsonrpc":"2.0","method":"exit"}'));
		else if (how === "SIGINT") child.kill("SIGINT");
		else child.stdin.end();
		if (how === "SIGINT" && r.chance(1, 2)) child.stdin.end();
		for (let i = 0; i < 3000 && !over; i++) await sleep(10);
		if (!over) fail("process-end", `${what}: 30 s after ${how}, the process is still there`);
		if (over.signal) fail("process-end", `${what}: after ${how}, the process ended by ${over.signal}`);
		if (frames()[0].length !== want.length || frames()[1].length) fail("process-end", `${what}: after ${how}, debris on stdout`);
		obs.count(`processes ended by ${how}`);
		obs.nontrivial(what + how);
	} finally { child.kill("SIGKILL"); }
}

globalThis.p4aStub = { make: null };

export const adapter = {
	id: "C38", quick: 20_000, thorough: 300_000, min: 500,
	must: ["messages", "messages the server refused", "answers", "cases with more messages than pieces", "processes ended by exit", "processes ended by SIGINT", "processes ended by end"],
	rule: "streams of 1-12 messages with bodies of up to 300 kB, with malformed ones among them, in pieces cut at any place, with answers in between; distinct by the sizes of messages and the number of pieces",
	assumptions: ["the WebAssembly module is a stand-in with its declared interface", "headers are those of the protocol, and each message has a Content-Length"],
	run: (r, obs) => r.chance(1, 120) ? outside(r, obs) : inside(r, obs),
};
