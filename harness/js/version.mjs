// C40: the versions that the workspace's tool gives to its packages (tools/src), in git repositories of the harness's.
import { createRequire } from "node:module";
import Module from "node:module";
import { execFileSync } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { BUILD, fail } from "./common.mjs";

const require = createRequire(import.meta.url);
const LIB = path.join(BUILD, "tools/lib");
const SEMVER = /^(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(?:-((?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*)(?:\.(?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*))*))?(?:\+([0-9a-zA-Z-]+(?:\.[0-9a-zA-Z-]+)*))?$/;

// As much of TOML as the manifests of the cases have: tables, and values that are JSON.
const toml = {
	parse(text) {
		const out = {};
		let at = out;
		for (const line of text.split(/\r?\n/)) {
			const t = /^\[([^[\]]+)\]$/.exec(line.trim()), kv = /^([\w-]+)\s*=\s*(.*)$/.exec(line.trim());
			if (t) { at = out; for (const k of t[1].split(".")) at = at[k] ??= {}; }
			else if (kv) at[kv[1]] = JSON.parse(kv[2]);
			else if (line.trim()) throw new Error(`no TOML: ${line}`);
		}
		return out;
	},
	stringify(o) {
		const out = [];
		(function walk(o, at) {
			const sub = Object.entries(o).filter(([, v]) => typeof v === "object" && !Array.isArray(v));
			if (at.length) out.push(`[${at.join(".")}]`);
			for (const [k, v] of Object.entries(o)) if (!sub.some(([s]) => s === k)) out.push(`${k} = ${JSON.stringify(v)}`);
			for (const [k, v] of sub) walk(v, [...at, k]);
		})(o, []);
		return out.join("\n") + "\n";
	},
};
let said = [];
const say = level => m => said.push(`${level}: ${m}`);
const devkit = {
	readJsonFile: f => JSON.parse(fs.readFileSync(f, "utf8")),
	writeJsonFile: (f, v) => fs.writeFileSync(f, JSON.stringify(v, null, 2) + "\n"),
	logger: { info: say("info"), warn: say("warn"), error: say("error"), fatal: say("fatal"), debug: say("debug"), log: say("log") },
};
const load = Module._load;
Module._load = (request, ...rest) => request === "@nrwl/devkit" ? devkit : request === "@iarna/toml" ? toml : load(request, ...rest);

const env = { ...process.env, GIT_CONFIG_GLOBAL: "/dev/null", GIT_CONFIG_SYSTEM: "/dev/null", GIT_CONFIG_NOSYSTEM: "1", GIT_AUTHOR_NAME: "a", GIT_AUTHOR_EMAIL: "a@b", GIT_COMMITTER_NAME: "a", GIT_COMMITTER_EMAIL: "a@b", GIT_CEILING_DIRECTORIES: "/tmp" };
for (const k of Object.keys(env)) if (k === "GIT_DIR" || k === "GIT_WORK_TREE" || k === "GIT_INDEX_FILE") delete env[k];

async function version(r, obs) {
	const home = fs.mkdtempSync(path.join(process.env.VERIF_SCRATCH ?? "/tmp", "v-")), before = process.cwd(), old = { ...process.env };
	try {
		const root = path.join(home, r.pick(["work", "work", "a b", "é", "x;y"]));
		fs.mkdirSync(root);
		let time = 1_700_000_000;
		const git = (...a) => execFileSync("git", a, { cwd: root, env: { ...env, GIT_AUTHOR_DATE: `${time} +0000`, GIT_COMMITTER_DATE: `${time} +0000` }, stdio: ["ignore", "pipe", "pipe"] }).toString().trim();
		const releases = r.pick([["main", "release/"], ["main", "release/"], ["release/"], ["trunk"], []]);
		git("init", "-q", "-b", "main");
		// the history: each commit's parents, and what version.json held
		const commits = [];
		const versions = ["1.0.0-preview", "0.3.12-alpha.1", "2.10.0-rc.x", "1.0.0-preview", "10.0.0-0", ...(r.chance(1, 5) ? ["1.2.3"] : []), ...(r.chance(1, 6) ? ["1.2", "v1.0.0", "01.0.0", ""] : [])];
		const info = v => JSON.stringify({ version: v, releaseBranches: releases, other: [1, { a: "é" }] }, null, r.pick([undefined, 2, "\t"])) + (r.chance(1, 2) ? "\n" : "");
		let n = 0, current = null, file = null, disk = null, lastOfFile = null;
		const commit = (...parents) => { const h = git("rev-parse", "HEAD"); commits.push({ h, parents }); current = h; };
		const step = touch => {
			time += 60;
			if (touch) {
				let v;
				do v = info(r.pick(versions)) + " ".repeat(n % 3); while (v === file);
				file = disk = v;
				fs.writeFileSync(path.join(root, "version.json"), v);
				git("add", "version.json");
			}
			fs.writeFileSync(path.join(root, `f${r.below(3)}`), `${n++}`);
			git("add", ".");
			git("commit", "-q", "-m", `c${n}`);
			const p = current;
			commit(...(p ? [p] : []));
			if (touch) lastOfFile = current;
		};
		const untracked = r.chance(1, 12);
		if (!untracked && r.chance(3, 4)) step(true);
		for (let i = r.below(4); i >= 0; i--) step(!untracked && r.chance(1, 5));
		if (!untracked && !lastOfFile) step(true);
		for (let i = r.below(3); i > 0; i--) step(false);
		if (r.chance(1, 5) && commits.length > 1) {
			// a side branch, merged
			const main = current, from = commits[r.below(commits.length)].h;
			const others = new Set();
			const ancestors = h => { const s = new Set(), q = [h]; while (q.length) { const x = q.pop(); if (s.has(x)) continue; s.add(x); q.push(...commits.find(c => c.h === x).parents); } return s; };
			if (!lastOfFile || ancestors(from).has(lastOfFile)) {
				git("checkout", "-q", "-b", "side", from);
				current = from;
				for (let i = r.range(1, 3); i > 0; i--) {
					time += 60;
					fs.writeFileSync(path.join(root, `side${n}`), `${n++}`);
					git("add", ".");
					git("commit", "-q", "-m", "side");
					commit(current);
					others.add(current);
				}
				const side = current;
				git("checkout", "-q", "main");
				time += 60;
				git("merge", "-q", "--no-ff", "-m", "merge", "side");
				commit(main, side);
				obs.count("merges");
			}
		}
		const branch = r.pick(["main", "main", "release/1.0", "release/x/y", "trunk", "topic", "fix-main", "dev/release/1", null]);
		if (branch === null) git("checkout", "-q", "--detach");
		else if (branch !== "main") git("checkout", "-q", "-b", branch);
		let tag = null;
		if (r.chance(1, 3)) {
			tag = r.pick(["1.0.0", "1.2.3-rc.1", "0.0.1+b.7", "v1.0.0", "latest", "1.0", "2.0.0-preview.14"]);
			const older = r.chance(1, 4) && commits.length > 1;
			const on = older ? commits[0].h : current;
			git("tag", "-a", "-m", "t", tag, on);
			if (on !== current || !SEMVER.test(tag)) tag = null;
			else obs.count("tagged");
		}
		if (!disk || r.chance(1, 8)) fs.writeFileSync(path.join(root, "version.json"), disk = info(r.pick(versions)));
		// what is due
		const all = h => { const s = new Set(), q = [h]; while (q.length) { const x = q.pop(); if (s.has(x)) continue; s.add(x); q.push(...commits.find(c => c.h === x).parents); } return s; };
		const short = git("log", "--format=%h", "-1");
		// a tag and a local version exclude each other; which of them wins is not said
		const local = !tag && r.chance(1, 5), declared = JSON.parse(disk).version, released = branch !== null && releases.some(x => branch.startsWith(x));
		const since = lastOfFile ? [...all(current)].filter(x => !all(lastOfFile).has(x)).length : 0;
		const due = tag ?? (!lastOfFile || !SEMVER.test(declared) ? "0.0.0" : released && !local ? `${declared}.${since + 1}` : `${declared}-g${short}`);
		const shape = JSON.stringify({ root: path.basename(root), branch, releases, tag, declared, local, commits: commits.length, since, tracked: !!lastOfFile });

		// the packages
		const project = path.join(root, "packages/p"), manifests = [];
		fs.mkdirSync(project, { recursive: true });
		for (let i = r.below(4); i > 0; i--) {
			const kind = r.pick(["package.json", "package.json", "Cargo.toml", "Cargo.toml", "setup.cfg"]), rel = path.join(r.pick([".", "../q", "../../crates/c", "é f"]), kind);
			if (manifests.some(m => m.rel === rel)) continue;
			const f = path.resolve(project, rel), had = r.chance(3, 4) ? { version: "0.0.0" } : {};
			fs.mkdirSync(path.dirname(f), { recursive: true });
			const content = kind === "package.json" ? { name: "n", ...had, dependencies: { version: "1" }, x: [1, null, "é"] } : { package: { name: "n", ...had, authors: ["é"] }, dependencies: { a: "1", version: "9" }, profile: { release: { lto: true } } };
			const text = kind === "package.json" ? JSON.stringify(content) : toml.stringify(content);
			fs.writeFileSync(f, text);
			manifests.push({ rel, f, kind, content, text });
		}
		process.chdir(root);
		for (const k of Object.keys(env)) if (k.startsWith("GIT_")) process.env[k] = env[k];
		for (const k of Object.keys(require.cache)) if (k.startsWith(LIB)) delete require.cache[k];
		said = [];
		const tool = require(path.join(LIB, "version.js"));
		const context = { root, cwd: root, projectName: "p", isVerbose: false, workspace: { version: 2, projects: { p: { root: "packages/p" } } } };
		const options = { packages: manifests.map(m => m.rel), ...(local ? { local: true } : r.chance(1, 2) ? { local: false } : {}) };
		const asked = local ? tool.getVersion(context, true) : tool.getVersion(context);
		if (asked !== due) fail("version", `${shape}: the version is ${due}, and the tool says ${asked} ${said}`);
		if (due === "0.0.0" && !said.some(s => /^(warn|error|fatal)/.test(s))) fail("silent", `${shape}: no version can be determined, and nothing says so`);
		const result = await tool.default(options, context);
		const good = manifests.every(m => m.kind !== "setup.cfg");
		if (result.success !== good) fail("success", `${shape}: ${manifests.map(m => m.rel)}: success is ${result.success}`);
		for (const m of manifests) {
			const text = fs.readFileSync(m.f, "utf8");
			if (m.kind === "setup.cfg") {
				if (text !== m.text) fail("altered", `${shape}: ${m.rel} is of no known kind, and was altered`);
				obs.count("files of other kinds");
				continue;
			}
			const want = structuredClone(m.content), got = m.kind === "package.json" ? JSON.parse(text) : toml.parse(text);
			(m.kind === "package.json" ? want : want.package).version = due;
			const sorted = o => JSON.stringify(o, (k, v) => v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort()) : v);
			if (sorted(got) !== sorted(want)) fail("manifest", `${shape}: ${m.rel} should be ${sorted(want)}, and is ${sorted(got)}`);
			obs.count(`${m.kind} written`);
		}
		if (git("rev-parse", "HEAD") !== current) fail("history", `${shape}: the tool moved HEAD`);
		if (local) obs.count("local versions");
		if (released) obs.count("versions of release branches"); else obs.count("versions of other branches");
		if (due === "0.0.0") obs.count("no version can be determined");
		obs.nontrivial(shape);
		if (!SEMVER.test(due)) fail("release-of-a-final-version", `${shape}: ${due} is no semantic version`);
	} finally {
		process.chdir(before);
		for (const k of Object.keys(process.env)) if (k.startsWith("GIT_") && !(k in old)) delete process.env[k];
		fs.rmSync(home, { recursive: true, force: true });
	}
}

export const check = {
	id: "C40", quick: 1800, thorough: 20_000, min: 300,
	must: ["merges", "tagged", "local versions", "versions of release branches", "versions of other branches", "no version can be determined", "package.json written", "Cargo.toml written", "files of other kinds"],
	rule: "git histories of up to 13 commits, with merges, tags, branches and versions of all forms; distinct by what decides the version",
	assumptions: ["Nx and the TOML library are stand-ins", "the tool runs in the root of the workspace"],
	run: version,
};
