// What the monitors of the TypeScript packages have in common. Same interface as harness/common (see there).
import { fork } from "node:child_process";
import { createHash } from "node:crypto";
import fs from "node:fs";
import path from "node:path";

export const BUILD = process.env.P4A_JS_BUILD;

export class Rng {
	constructor(seed) { this.s = BigInt.asUintN(64, BigInt(seed)); }
	next() {
		this.s = BigInt.asUintN(64, this.s + 0x9E3779B97F4A7C15n);
		let z = this.s;
		z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xBF58476D1CE4E5B9n);
		z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94D049BB133111EBn);
		return Number((z ^ (z >> 31n)) >> 12n);
	}
	below(n) { return this.next() % n; }
	range(a, b) { return a + this.below(b - a + 1); }
	chance(a, b) { return this.below(b) < a; }
	pick(l) { return l[this.below(l.length)]; }
}

export class Violation extends Error {
	constructor(signature, detail) { super(detail); this.signature = signature; }
}
export function fail(signature, detail) { throw new Violation(signature, detail); }

export class Obs {
	counters = {}; sets = {}; distinct = new Set(); samples = []; evaluations = 0;
	count(k, n = 1) { this.counters[k] = (this.counters[k] ?? 0) + n; }
	seen(k, v) { (this.sets[k] ??= new Set()).add(v); }
	nontrivial(shape) {
		this.evaluations++;
		this.distinct.add(createHash("md5").update(shape).digest("base64").slice(0, 11));
		if (this.samples.length < 4) this.samples.push(shape.slice(0, 200));
	}
}

export const turn = () => new Promise(r => setImmediate(r));
export const sleep = ms => new Promise(r => setTimeout(r, ms));

async function one(check, seed, obs) {
	try {
		await check.run(new Rng(seed), obs, seed);
	} catch (e) {
		if (e instanceof Violation) return { replay: `case:${seed}`, signature: e.signature, detail: e.message };
		return { replay: `case:${seed}`, signature: "exception", detail: `exception: ${e?.stack ?? e}` };
	}
	return null;
}

async function worker(checks) {
	const { id, seed, shard, shards, total, cap, single } = JSON.parse(process.env.P4A_SHARD);
	const check = checks.find(c => c.id === id), obs = new Obs(), found = [], start = Date.now(), known = new Set((process.env.VERIF_KNOWN ?? "").split("\n"));
	const seen = new Map();
	// what is thrown where nothing can catch it belongs to the case that runs
	let stray = null;
	process.on("uncaughtException", e => { stray ??= e; });
	process.on("unhandledRejection", e => { stray ??= e; });
	for (let n = shard; n < total; n += shards) {
		if (single === undefined && (Date.now() - start > cap * 1000 || found.filter(v => !known.has(v.signature)).length >= 3)) break;
		const s = single ?? String(new Rng(BigInt(seed) * 0x9E3779B97F4A7C15n ^ BigInt(n)).next());
		process.send({ at: s });
		let v = await one(check, s, obs);
		if (stray) { v ??= { replay: `case:${s}`, signature: "stray", detail: `thrown where nothing catches it, which ends the process: ${stray?.stack ?? stray}` }; stray = null; }
		if (v && !(known.has(v.signature) && seen.get(v.signature) > 2)) { found.push(v); seen.set(v.signature, (seen.get(v.signature) ?? 0) + 1); }
		obs.count("cases");
		if (single !== undefined) break;
	}
	process.send({ found, obs: { counters: obs.counters, sets: Object.fromEntries(Object.entries(obs.sets).map(([k, v]) => [k, [...v]])), distinct: [...obs.distinct], samples: obs.samples, evaluations: obs.evaluations } }, () => process.exit(0));
}

export async function main(file, checks) {
	if (process.env.P4A_SHARD) return worker(checks);
	const args = process.argv.slice(2), opt = n => { const i = args.indexOf(n); return i < 0 ? undefined : args[i + 1]; };
	const check = checks.find(c => c.id === args[0]);
	if (!check) process.exit(2);
	const out = opt("--out"), tier = process.env.VERIF_TIER ?? "quick", seed = process.env.VERIF_SEED ?? "1", single = opt("--case");
	const known = new Set((process.env.VERIF_KNOWN ?? "").split("\n").filter(Boolean));
	const shards = single === undefined ? Math.min(6, check.shards ?? 6) : 1, start = Date.now();
	fs.mkdirSync(out, { recursive: true });
	const total = single === undefined ? check[tier] : 1;
	const found = [], obs = new Obs();
	const workers = [...Array(shards).keys()].map(shard => new Promise(resolve => {
		const task = { id: check.id, seed, shard, shards, total, cap: tier === "thorough" ? 700 : 150, single };
		const w = fork(file, [], { env: { ...process.env, P4A_SHARD: JSON.stringify(task) }, serialization: "advanced" });
		let last = [null, Date.now()], over = false;
		const done = () => { over = true; clearInterval(watch); resolve(); };
		const watch = setInterval(() => {
			if (Date.now() - last[1] > 60_000) {
				found.push({ replay: `case:${last[0]}`, signature: "hang", detail: "the case does not end" });
				w.kill("SIGKILL");
				done();
			}
		}, 500);
		w.on("message", m => {
			if (m.at) return last = [m.at, Date.now()];
			found.push(...m.found);
			obs.evaluations += m.obs.evaluations;
			for (const [k, v] of Object.entries(m.obs.counters)) obs.count(k, v);
			for (const [k, v] of Object.entries(m.obs.sets)) for (const x of v) obs.seen(k, x);
			for (const d of m.obs.distinct) obs.distinct.add(d);
			obs.samples.push(...m.obs.samples);
			done();
		});
		w.on("exit", (code, signal) => {
			if (over) return;
			found.push({ replay: `case:${last[0]}`, signature: "exit", detail: `the case ended the process (${code ?? signal})` });
			done();
		});
	}));
	await Promise.all(workers);
	if (single !== undefined) {
		console.log(found.length ? `signature: ${found[0].signature}\n${found[0].detail}` : "held");
		process.exit(found.length ? 10 : 0);
	}
	// what not one of all these cases shows, the code no longer does
	if (obs.counters.cases * 2 >= total && !found.some(v => !known.has(v.signature))) {
		for (const m of check.must) {
			if (!obs.counters[m] && !obs.sets[m]?.size) found.push({ replay: "run:all", signature: `never: ${m}`, detail: `in the whole run, never observed: ${m}` });
		}
	}
	fs.writeFileSync(path.join(out, "violations.jsonl"), found.map(v => JSON.stringify(v) + "\n").join(""));
	const observed = { ...obs.counters };
	for (const [k, v] of Object.entries(obs.sets)) observed[`distinct ${k}`] = v.size;
	fs.writeFileSync(path.join(out, "evidence.json"), JSON.stringify({
		property: check.id, tier, seed: Number(seed), level: "exploration",
		coverage: { evaluations: obs.evaluations, distinct_nontrivial: obs.distinct.size, rule: check.rule, samples: obs.samples.slice(0, 4), observed },
		assumptions: check.assumptions, wall_s: (Date.now() - start) / 1000, violations: found.length,
	}));
	if (found.some(v => !known.has(v.signature))) process.exit(10);
	process.exit(obs.distinct.size < check.min ? 12 : 0);
}
