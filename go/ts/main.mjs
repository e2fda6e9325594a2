// Worker of the simulator for generated TypeScript code.
import crypto from "node:crypto";
import fs from "node:fs";
import path from "node:path";
import { meta, modules } from "glue";
import { Classes, canon, dull, norm, plain, random, simpler } from "./values.mjs";
import { realNow, run, timeout, total } from "./sim.mjs";
import { go } from "./go.mjs";

const here = path.dirname(process.argv[1]);
const classes = meta.schemas.map((s, i) => new Classes(s, modules[i]));

class Rng {
	constructor(text) {
		const h = crypto.createHash("sha256").update(text).digest();
		this.a = h.readUInt32LE(0);
		this.b = h.readUInt32LE(4);
		this.c = h.readUInt32LE(8);
		this.d = 1;
		for (let i = 0; i < 12; i++) {
			this.u32();
		}
	}

	u32() {
		const t = (((this.a + this.b) | 0) + this.d) | 0;
		this.d = (this.d + 1) | 0;
		this.a = this.b ^ (this.b >>> 9);
		this.b = (this.c + (this.c << 3)) | 0;
		this.c = (this.c << 21) | (this.c >>> 11);
		this.c = (this.c + t) | 0;
		return t >>> 0;
	}

	n(k) {
		return k <= 0 ? 0 : this.u32() % k;
	}

	p(a, b) {
		return this.n(b) < a;
	}

	pick(l) {
		return l[this.n(l.length)];
	}
}

function genCase(prop, seed, index) {
	const r = new Rng(prop + "/" + seed + "/" + index);
	const mixed = prop === "C23";
	const si = r.n(classes.length);
	const c = classes[si];
	const schema = c.schema;
	const k = { prop, schema: si, servers: [], ops: [], downs: [], cuts: [] };
	const langs = mixed ? ["go", "ts"] : ["ts"];
	const servers = 1 + r.n(3);
	for (let i = 0; i < servers; i++) {
		const lacks = r.p(1, 6) ? [r.pick(schema.servers).type] : [];
		k.servers.push({ lang: r.pick(langs), lacks });
	}
	const quiet = r.p(1, 3); // no faults at all
	const span = r.pick([1, 20, 200, 2000]);
	const n = 1 + r.n(r.pick([3, 8, 14]));
	let busy = null;
	for (let i = 0; i < n; i++) {
		let s = r.pick(schema.servers);
		let m = r.pick(s.methods);
		if (busy && r.p(1, 2)) {
			[s, m] = busy;
		}
		busy = [s, m];
		const server = r.n(servers);
		const lang = mixed ? (k.servers[server].lang === "go" ? "ts" : "go") : "ts";
		const d = (name) => ({ kind: "data", name });
		const depth = r.pick([1, 2, 3]);
		const op = {
			id: i + 1, lang, server, service: s.type, method: m.name, at: r.n(span), out: r.n(r.pick([1, 5, 50])), back: r.n(r.pick([1, 5, 50])), think: r.n(r.pick([1, 10, 300])),
			beh: r.p(1, 6) ? r.pick(["throw", "reject"]) : "ok", own: r.p(1, 3), copy: r.p(1, 2),
			lazy: r.p(1, 3), req: random(r, c, d(m.param), depth), res: m.result ? random(r, c, d(m.result), depth) : null, faults: [],
		};
		if (op.lazy) {
			dull(r, c, d(m.param), op.req);
			if (op.res) {
				dull(r, c, d(m.result), op.res);
			}
		}
		if (!quiet) {
			while (r.p(1, 3)) {
				const leg = r.pick(["request", "reply"]);
				const kind = r.pick(["lose", "dup", "delay", "delay", "cut"]);
				op.faults.push({ leg, kind, arg: kind === "delay" ? r.pick([1 + r.n(20), r.n(1000), timeout + 1]) : r.n(1000) });
			}
		}
		k.ops.push(op);
	}
	if (!quiet) {
		for (let i = 0; i < servers; i++) {
			if (r.p(1, 4)) {
				const from = r.n(span + 50);
				k.downs.push({ server: i, from, to: from + 1 + r.n(300) });
			}
			if (r.p(1, 6)) {
				const from = r.n(span + 50);
				k.cuts.push({ server: i, from, to: from + 1 + r.n(300) });
			}
		}
	}
	return k;
}

function label(k) {
	const l = new Set();
	for (const o of k.ops) {
		l.add(o.beh);
		for (const f of o.faults) {
			l.add(f.leg + " " + f.kind);
		}
	}
	return (k.downs.length ? "crashes, " : "") + (k.cuts.length ? "partitions, " : "") + [...l].sort().join(", ");
}

const size = (k) => JSON.stringify(k).length;

async function judge(k) {
	const c = classes[k.schema];
	if (!c || !k.ops.every((o) => c.schema.servers.some((s) => s.type === o.service && s.methods.some((m) => m.name === o.method)))) {
		throw new Error("the case is of other schemas");
	}
	return run(k, c);
}

async function minimise(k, key, secs) {
	const end = realNow() + secs;
	let best = structuredClone(k);
	const attempt = async (change) => {
		if (realNow() > end) {
			return false;
		}
		const d = structuredClone(best);
		if (change(d) === false) {
			return false;
		}
		const v = await judge(d);
		if (v.viol && v.viol.key === key) {
			best = d;
			return true;
		}
		return false;
	};
	for (let round = 0, changed = true; round < 5 && changed && realNow() < end; round++) {
		const before = JSON.stringify(best);
		for (const f of ["ops", "downs", "cuts"]) {
			for (let i = best[f].length - 1; i >= 0; i--) {
				await attempt((d) => void d[f].splice(i, 1));
			}
		}
		for (let i = 0; i < best.ops.length; i++) {
			for (let j = best.ops[i].faults.length - 1; j >= 0; j--) {
				await attempt((d) => void d.ops[i].faults.splice(j, 1));
			}
			for (const f of ["at", "out", "back", "think"]) {
				await attempt((d) => best.ops[i][f] !== 0 && void (d.ops[i][f] = 0));
			}
			await attempt((d) => best.ops[i].beh !== "ok" && void (d.ops[i].beh = "ok"));
			await attempt((d) => best.ops[i].copy && void (d.ops[i].copy = false));
			await attempt((d) => best.ops[i].lazy && void (d.ops[i].lazy = false));
			const c = classes[best.schema];
			const m = c.schema.servers.find((s) => s.type === best.ops[i].service).methods.find((x) => x.name === best.ops[i].method);
			for (const [f, name] of [["req", m.param], ["res", m.result]]) {
				if (!name) {
					continue;
				}
				const t = { kind: "data", name };
				for (let again = true; again && realNow() < end; ) {
					again = false;
					for (const x of simpler(c, t, best.ops[i][f])) {
						if (await attempt((d) => void (d.ops[i][f] = x))) {
							again = true;
							break;
						}
						if (realNow() > end) {
							break;
						}
					}
				}
			}
		}
		for (let i = 0; i < best.servers.length; i++) {
			await attempt((d) => best.servers[i].lacks.length > 0 && void (d.servers[i].lacks = []));
		}
		changed = JSON.stringify(best) !== before;
	}
	return best;
}

function flags(a) {
	const o = { seed: "1", from: "0", stride: "1", secs: "10", max: "0", digests: "40" };
	for (let i = 0; i + 1 < a.length; i += 2) {
		o[a[i].replace(/^-+/, "")] = a[i + 1];
	}
	return o;
}

async function worker(a) {
	const o = flags(a);
	const start = realNow();
	const res = { cases: 0, useful: 0, invalid: 0, labels: {}, digest: {}, found: [], unstable: [], samples: [] };
	const seen = {};
	const max = Number(o.max);
	for (let i = Number(o.from); ; i += Number(o.stride)) {
		if (max > 0 ? res.cases >= max : realNow() - start > Number(o.secs)) {
			break;
		}
		const k = genCase(o.prop, o.seed, i);
		const v = await judge(k);
		res.cases++;
		if (Object.keys(res.digest).length < Number(o.digests)) {
			res.digest[i] = v.digest;
		}
		if (v.useful) {
			res.useful++;
			const l = label(k);
			res.labels[l] = (res.labels[l] || 0) + 1;
			if (res.samples.length < 3) {
				res.samples.push("case " + i + " on " + classes[k.schema].schema.pkg + ": " + k.ops.map((x) => x.lang + ">" + x.server + ":" + x.service + "." + x.method + x.faults.map((f) => "!" + f.leg + " " + f.kind).join("")).join(" ").slice(0, 300));
			}
		}
		if (!v.viol || seen[v.viol.key] || res.found.length >= 6 || max > 0) {
			continue;
		}
		const key = v.viol.key;
		const again = await judge(structuredClone(k));
		if (!again.viol || again.viol.key !== key) {
			res.unstable.push("case " + i + ": " + key);
			continue;
		}
		seen[key] = true;
		let min = await minimise(k, key, 12);
		let mv = await judge(structuredClone(min));
		if (!mv.viol) {
			min = k;
			mv = v;
		}
		res.found.push({ key: mv.viol.key, msg: mv.viol.msg, seed: Number(o.seed), index: i, case: min, hash: mv.digest, size_before_minimising: size(k), size: size(min) });
	}
	Object.assign(res, { runs: total.runs, steps: total.steps, sim_ns: total.ms * 1e6, secs: realNow() - start, fired: total.fired, probes: total.probes, hashes: [...total.hashes] });
	fs.writeFileSync(o.out, JSON.stringify(res));
	return 0;
}

async function main() {
	const a = process.argv.slice(2);
	if (meta.mixed) {
		await go.load(here);
	}
	switch (a[0]) {
		case "worker":
			return worker(a.slice(1));
		case "replay": {
			const f = JSON.parse(fs.readFileSync(a[1], "utf8"));
			const v = await judge(structuredClone(f.case));
			if (!v.viol) {
				console.log("REPLAY holds");
				return 0;
			}
			console.log("REPLAY key=" + v.viol.key + " digest=" + v.digest + "\n" + v.viol.msg + "\nschedule and faults:\n" + v.trace.join("\n"));
			if (f.hash && f.hash !== v.digest) {
				console.log("REPLAY digest differs from the recorded one (" + f.hash + ")");
			}
			return 1;
		}
		case "case": {
			const k = genCase(a[1], a[2], Number(a[3]));
			const v = await judge(structuredClone(k));
			console.log(JSON.stringify(k, null, 1) + "\n" + v.trace.join("\n") + "\n" + JSON.stringify(v.viol));
			return 0;
		}
	}
	console.error("usage: harness worker|replay|case ...");
	return 2;
}

main().then(
	(n) => process.exit(n),
	(e) => {
		console.error((e && e.stack) || e);
		process.exit(2);
	},
);
