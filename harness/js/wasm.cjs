// Stands in for the WebAssembly module: the interface that p4_analyzer_wasm.d.ts declares, with a server that notes
// what it is sent. In a process of its own (P4A_STUB) it answers; otherwise the monitor answers for it.
const hub = globalThis.p4aStub ??= { make: null };
class LspServer {
	constructor(onResponse) {
		this.onResponse = onResponse;
		this.started = new Promise((resolve, reject) => { this.resolve = resolve; this.reject = reject; });
		if (process.env.P4A_STUB) hub.make ??= () => ({
			request: (server, buffer) => {
				const m = JSON.parse(buffer.toString()); // refuses what is no JSON
				if (m.method === "exit") server.resolve();
				else server.onResponse(Buffer.from(JSON.stringify({ jsonrpc: "2.0", id: m.id ?? null, result: m.params ?? null })));
			},
			stop: server => server.reject(new Error("The server was stopped.")),
		});
		this.monitor = hub.make(this);
	}
	start() { return this.started; }
	async sendRequest(buffer) {
		if (!Buffer.isBuffer(buffer)) throw new Error("no buffer");
		await this.monitor.request(this, buffer);
	}
	stop() { this.monitor.stop(this); }
}
exports.LspServer = LspServer;
