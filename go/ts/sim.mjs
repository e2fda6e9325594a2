// The simulated world: a virtual clock, an event queue, a network, nodes that
// run the generated code. One case is one exactly repeatable execution.
import { build, canon, clip, differ, norm, spoil, view } from "./values.mjs";
import { go } from "./go.mjs";

export const timeout = 30000; // simulated ms a client waits

const RealDate = Date;
let clock = 0;
class SimDate extends RealDate {
	constructor(...a) {
		if (a.length === 0) {
			super(1700000000000 + clock);
		} else {
			super(...a);
		}
	}

	static now() {
		return 1700000000000 + clock;
	}
}
export const realNow = () => performance.now() / 1000;
globalThis.Date = SimDate;

const drain = () => new Promise((r) => setImmediate(r));

export const total = { runs: 0, steps: 0, ms: 0, fired: {}, probes: {}, hashes: new Set() };
const count = (m, k) => (m[k] = (m[k] || 0) + 1);

let world = null;
let rejected = null;
process.on("unhandledRejection", (e) => {
	rejected = String((e && e.stack) || e);
});

class World {
	execute(...a) {
		return execute(this, ...a);
	}

	constructor(kase, classes) {
		this.c = kase;
		this.classes = classes;
		this.schema = classes.schema;
		this.now = 0;
		this.seq = 0;
		this.queue = [];
		this.trace = [];
		this.h1 = 0x811c9dc5;
		this.h2 = 0x1234567;
		this.viol = null;
		this.ops = new Map();
		this.serving = null;
		this.calling = null;
		this.clients = {};
		this.nodes = [];
		this.token = 0;
		this.waits = new Map();
	}

	log(s) {
		this.trace.push(this.now + " " + s);
		for (let i = 0; i < s.length; i++) {
			this.h1 = Math.imul(this.h1 ^ s.charCodeAt(i), 16777619) >>> 0;
			this.h2 = (Math.imul(this.h2, 31) + s.charCodeAt(i)) >>> 0;
		}
		this.h1 = Math.imul(this.h1 ^ this.now, 16777619) >>> 0;
	}

	digest() {
		return (this.h1 & 0xfffff) * 4294967296 + this.h2;
	}

	violate(key, msg) {
		if (!this.viol) {
			this.viol = { key, msg };
			this.log("VIOLATION " + key);
		}
	}

	after(ms, f) {
		const e = { t: this.now + ms, n: this.seq++, f };
		let i = this.queue.length;
		this.queue.push(e);
		while (i > 0) {
			const p = (i - 1) >> 1;
			const q = this.queue[p];
			if (q.t < e.t || (q.t === e.t && q.n < e.n)) {
				break;
			}
			this.queue[i] = q;
			i = p;
		}
		this.queue[i] = e;
	}

	next() {
		const q = this.queue;
		const first = q[0];
		const last = q.pop();
		if (q.length > 0) {
			let i = 0;
			for (;;) {
				let k = 2 * i + 1;
				if (k >= q.length) {
					break;
				}
				const less = (a, b) => a.t < b.t || (a.t === b.t && a.n < b.n);
				if (k + 1 < q.length && less(q[k + 1], q[k])) {
					k++;
				}
				if (!less(q[k], last)) {
					break;
				}
				q[i] = q[k];
				i = k;
			}
			q[i] = last;
		}
		return first;
	}

	// fault takes a fault of an operation that is due.
	fault(op, kind, leg) {
		for (const f of op.spec.faults) {
			if (f.kind === kind && f.leg === leg && !f.used) {
				f.used = true;
				count(total.fired, leg + " " + kind);
				this.log("op " + op.spec.id + ": " + leg + " " + kind);
				return f;
			}
		}
		return null;
	}

	cut(server) {
		return (this.c.cuts || []).some((x) => x.server === server && this.now >= x.from && this.now < x.to);
	}
}

// route is what a path is looked up by. Which path a runtime library makes of a
// service and a method is its own business; between languages the first and the
// last part count.
function route(w, path) {
	if (w.c.prop !== "C23") {
		return path;
	}
	const p = path.split("/").filter((x) => x !== "");
	return p[0] + "/" + p[p.length - 1];
}

// Node is a server process.
class Node {
	constructor(w, i) {
		this.w = w;
		this.i = i;
		this.spec = w.c.servers[i];
		this.life = 0;
		this.up = false;
		this.start();
	}

	start() {
		this.up = true;
		this.life++;
		this.routes = new Map();
		if (this.spec.lang === "go") {
			return;
		}
		for (const s of this.w.schema.servers) {
			if (this.spec.lacks.includes(s.type)) {
				continue;
			}
			const Router = this.w.classes.get(s.type + "Router");
			const r = new Router(implementation(this.w, this, s));
			const inv = r.getInvoke();
			for (const k of Object.keys(inv)) {
				this.routes.set(route(this.w, r.getName() + "/" + k), inv[k]);
			}
		}
		count(total.probes, "node started");
	}

	crash() {
		this.up = false;
		this.routes = null;
	}
}

// implementation is what the user of the generated code writes.
function implementation(w, node, service) {
	return new Proxy({}, {
		get(_, prop) {
			if (typeof prop !== "string" || prop === "then") {
				return undefined;
			}
			const m = service.methods.find((x) => norm(x.name) === norm(prop));
			if (!m) {
				return undefined;
			}
			return (req, ctx) => {
				let op = null;
				if (ctx && ctx.op) {
					op = ctx.op;
				} else {
					op = w.serving;
					if (op) {
						w.violate("context lost", "the implementation of " + service.type + "." + m.name + " does not get the context its request came with, but " + String(ctx));
					}
				}
				const t = { kind: "data", name: m.param };
				return execute(w, node, op, service.type, m, () => view(w.classes, t, req));
			};
		},
	});
}

// execute is one execution of a method, whatever the language it was called in.
function execute(w, node, op, service, m, look) {
	if (!op) {
		w.violate("execution without a call", service + "." + m.name + " is executed without a call");
		return Promise.reject(new Error("no call"));
	}
	const e = { service, method: m.name, m, req: look(), done: false, ok: false };
	op.execs.push(e);
	count(total.probes, "execution");
	w.log("op " + op.spec.id + " executed: " + service + "." + m.name + " on " + node.i);
	if (op.spec.beh === "throw") {
		e.done = true;
		throw new Error("refused by the implementation");
	}
	const life = node.life;
	return new Promise((resolve, reject) => {
		w.after(op.spec.think, () => {
			if (node.life !== life || !node.up) {
				return; // the process is gone
			}
			e.late = look();
			e.done = true;
			if (op.spec.beh === "reject") {
				reject(new Error("refused by the implementation"));
				return;
			}
			e.ok = true;
			if (!m.result) {
				resolve(undefined);
				return;
			}
			if (op.method.result !== m.result) {
				reject(new Error("this is not the method that was called"));
				return;
			}
			e.res = op.spec.res;
			resolve(e.res);
		});
	}).then((v) => (node.spec.lang === "go" || v === undefined ? v : build(w.classes, { kind: "data", name: m.result }, v, lazy(w, op))));
}

// lazy is for users that assign only what differs from what a new object has.
function lazy(w, op) {
	if (!op.spec.lazy) {
		return undefined;
	}
	count(total.probes, "defaults kept");
	return (what) => w.violate("no default", what);
}

// SimClient is what generated clients send through.
class SimClient {
	constructor(w, server) {
		this.w = w;
		this.server = server;
		this.begun = [];
	}

	invoke(path, req, fromJson) {
		const w = this.w;
		const op = w.calling && w.calling.client === this ? w.calling : this.begun.find((x) => !x.sent);
		if (!op) {
			w.violate("call without a caller", "the generated client sends " + path + " although nothing is called");
			return Promise.reject(new Error("no caller"));
		}
		op.sent = true;
		const body = JSON.stringify(req.toJson());
		return send(w, op, path, body).then((text) => {
			const r = JSON.parse(text);
			if (r.code !== 0) {
				throw new Error(r.msg || "code " + r.code);
			}
			return fromJson ? fromJson(r.data) : undefined;
		});
	}
}

// send carries a request to a server and its reply back.
function send(w, op, path, body) {
	const server = op.spec.server;
	w.log("op " + op.spec.id + " sends " + path + " " + body);
	return new Promise((resolve, reject) => {
		let over = false;
		const settle = (f, x) => {
			if (!over) {
				over = true;
				f(x);
			}
		};
		w.after(timeout, () => settle(reject, new Error("no answer in time")));
		const deliver = (text) => {
			if (w.cut(server)) {
				op.trouble.push("partition");
				count(total.fired, "partition");
				return;
			}
			const node = w.nodes[server];
			if (!node.up) {
				op.trouble.push("server down");
				count(total.fired, "request to a dead server");
				settle(reject, new Error("connection refused"));
				return;
			}
			const life = node.life;
			op.served++;
			serve(w, node, op, path, text).then((reply) => {
				if (node.life !== life || !node.up) {
					op.trouble.push("server crashed");
					settle(reject, new Error("connection reset"));
					return;
				}
				if (w.fault(op, "lose", "reply")) {
					op.trouble.push("reply lost");
					return;
				}
				const dup = w.fault(op, "dup", "reply");
				const f = w.fault(op, "cut", "reply");
				if (f) {
					op.trouble.push("reply cut off");
					reply = reply.slice(0, f.arg % reply.length);
				}
				const d = w.fault(op, "delay", "reply");
				if (d && d.arg > timeout / 2) {
					op.trouble.push("reply late");
				}
				for (let i = 0; i < (dup ? 2 : 1); i++) {
					w.after(op.spec.back + (d ? d.arg : 0) + i, () => {
						if (w.cut(server)) {
							op.trouble.push("partition");
							count(total.fired, "partition");
							return;
						}
						w.log("op " + op.spec.id + " gets " + reply);
						settle(resolve, reply);
					});
				}
			});
		};
		if (w.fault(op, "lose", "request")) {
			op.trouble.push("request lost");
			return;
		}
		const dup = w.fault(op, "dup", "request");
		const f = w.fault(op, "cut", "request");
		let text = body;
		if (f) {
			op.trouble.push("request cut off");
			text = body.slice(0, f.arg % body.length);
		}
		for (let i = 0; i < (dup ? 2 : 1); i++) {
			const d = w.fault(op, "delay", "request");
			if (d && d.arg > timeout / 2) {
				op.trouble.push("request late");
			}
			w.after(op.spec.out + (d ? d.arg : 0) + i, () => deliver(text));
		}
	});
}

// serve is what a server process does with a request.
async function serve(w, node, op, path, text) {
	if (node.spec.lang === "go") {
		return go.serve(w, node, op, path, text);
	}
	try {
		const inv = node.routes.get(route(w, path));
		if (!inv) {
			return JSON.stringify({ code: 404, msg: "not found" });
		}
		const json = JSON.parse(text);
		const data = inv.formData(json);
		w.serving = op;
		let p;
		try {
			p = inv.invoke(data, { op });
		} finally {
			w.serving = null;
		}
		const ret = await p;
		return JSON.stringify({ code: 0, msg: "Ok", data: ret === undefined || ret === null ? null : inv.toData(ret) });
	} catch (e) {
		w.log("op " + op.spec.id + " fails on " + node.i + ": " + e);
		return JSON.stringify({ code: 500, msg: String(e) });
	}
}

// begin makes the call of an operation.
function begin(w, op) {
	const spec = op.spec;
	const t = { kind: "data", name: op.method.param };
	w.log("op " + spec.id + " calls " + spec.service + "." + spec.method);
	op.begun = true;
	const end = (err, res) => {
		if (op.ended) {
			w.violate("call ends twice", "the call of " + spec.service + "." + spec.method + " ends twice");
			return;
		}
		op.ended = true;
		op.err = err;
		op.res = res;
		w.log("op " + spec.id + (err ? " failed: " + err : " succeeded"));
	};
	if (spec.lang === "go") {
		go.call(w, op, end, send);
		return;
	}
	let req, back;
	try {
		const k = "client" + spec.server + "/" + spec.service + (spec.own ? "/" + spec.id : "");
		if (!w.clients[k]) {
			const sc = new SimClient(w, spec.server);
			const Client = w.classes.get(spec.service + "Client");
			w.clients[k] = { sc, gen: new Client(sc) };
		}
		const { sc, gen } = w.clients[k];
		req = build(w.classes, t, spec.req, lazy(w, op));
		op.req = view(w.classes, t, req);
		if (spec.copy) {
			const copy = req.clone();
			const diff = differ(w.classes, t, op.req, view(w.classes, t, copy));
			if (diff) {
				w.violate("copy differs", "the clone of a " + op.method.param + " differs from it at " + diff.at + ": " + diff.a + " became " + diff.b);
			}
			spoil(w.classes, t, copy);
			const left = differ(w.classes, t, op.req, view(w.classes, t, req));
			if (left) {
				w.violate("copy shares parts", "changing the clone of a " + op.method.param + " changes the original at " + left.at + ": " + left.a + " became " + left.b);
			}
			count(total.probes, "copy");
		}
		let p = Object.getPrototypeOf(gen);
		let name = null;
		for (; p && !name; p = Object.getPrototypeOf(p)) {
			name = Object.getOwnPropertyNames(p).find((n) => n !== "constructor" && norm(n) === norm(spec.method));
		}
		if (!name) {
			w.violate("method missing", "the generated client of " + spec.service + " has no method " + spec.method);
			end(new Error("no method"));
			return;
		}
		op.client = sc;
		sc.begun.push(op);
		w.calling = op;
		try {
			back = gen[name](req);
		} finally {
			w.calling = null;
		}
	} catch (e) {
		w.calling = null;
		op.thrown = true;
		end(e);
		return;
	}
	Promise.resolve(back).then(
		(v) => {
			let res = v;
			if (op.method.result) {
				res = view(w.classes, { kind: "data", name: op.method.result }, v);
			}
			end(null, res);
		},
		(e) => end(e || new Error("rejected")),
	);
}

const say = (d) => d.at + " (" + (d.type.null ? "nullable " : "") + (d.type.kind === "base" ? d.type.name : d.type.kind + " " + (d.type.name || "")) + "): " + d.a + " became " + d.b;

// judge checks the history of a run.
function judge(w) {
	for (const op of w.ops.values()) {
		const s = op.spec;
		const call = "the call of " + s.service + "." + s.method + " (" + s.lang + " client, " + w.c.servers[s.server].lang + " server)";
		for (const e of op.execs) {
			if (e.service !== s.service || e.method !== s.method) {
				w.violate("other method", call + " executed " + e.service + "." + e.method);
				continue;
			}
			const t = { kind: "data", name: op.method.param };
			const d = differ(w.classes, t, op.req, e.req);
			if (d) {
				w.violate("request changed", call + " executed with another request; " + say(d));
			}
			if (e.late) {
				const l = differ(w.classes, t, e.req, e.late);
				if (l) {
					w.violate("request changed", call + ": the request changes while the method runs; " + say(l));
				}
			}
		}
		if (!op.begun) {
			continue;
		}
		if (!op.ended) {
			w.violate("call hangs", call + " never ends");
			continue;
		}
		const good = op.execs.filter((e) => e.ok);
		if (!op.err) {
			if (good.length === 0) {
				w.violate("success without execution", call + " succeeds although " + (op.execs.length ? "the method failed" : "the method did not run") + " (" + op.trouble.join(", ") + ")");
				continue;
			}
			count(total.probes, op.trouble.length ? "success after a fault" : "success");
			if (op.execs.length > 1) {
				count(total.probes, "request ran twice");
			}
			if (op.method.from !== s.service) {
				count(total.probes, "inherited method");
			}
			if (op.method.result) {
				const t = { kind: "data", name: op.method.result };
				const ds = good.map((e) => differ(w.classes, t, e.res || s.res, op.res));
				if (ds.every((x) => x)) {
					w.violate("reply changed", call + " gives another response than the method returned; " + say(ds[0]));
				}
			}
			continue;
		}
		count(total.probes, op.trouble.length ? "failure after a fault" : s.beh === "ok" ? "failure" : "failing method");
		if (op.trouble.length === 0 && s.beh === "ok") {
			if (w.c.servers[s.server].lacks.includes(s.service)) {
				count(total.probes, "unknown service");
				continue;
			}
			w.violate("call fails", call + " fails without a fault: " + clip(String(op.err)) + (op.execs.length ? "; the method ran" : "; the method did not run"));
		}
	}
}

// run executes a case.
export async function run(kase, classes) {
	const w = new World(kase, classes);
	world = w;
	rejected = null;
	clock = 0;
	total.runs++;
	try {
		for (let i = 0; i < kase.servers.length; i++) {
			w.nodes.push(new Node(w, i));
		}
	} catch (e) {
		w.violate("generated code fails", "starting a server: " + (e.stack || e));
	}
	if (!w.viol) {
		for (const spec of kase.ops) {
			for (const f of spec.faults) {
				delete f.used;
			}
			const service = w.schema.servers.find((s) => s.type === spec.service);
			const method = service.methods.find((m) => m.name === spec.method);
			const op = { spec, method, execs: [], trouble: [], served: 0, begun: false, ended: false, sent: false };
			w.ops.set(spec.id, op);
			w.after(spec.at, () => begin(w, op));
		}
		for (const d of kase.downs || []) {
			w.after(d.from, () => {
				if (w.nodes[d.server].up) {
					w.log("server " + d.server + " crashes");
					count(total.fired, "crash");
					w.nodes[d.server].crash();
					for (const op of w.ops.values()) {
						if (op.begun && !op.ended && op.spec.server === d.server) {
							op.trouble.push("server crashed");
						}
					}
				}
			});
			w.after(d.to, () => {
				if (!w.nodes[d.server].up) {
					w.log("server " + d.server + " starts again");
					count(total.fired, "restart");
					w.nodes[d.server].start();
				}
			});
		}
	}
	let steps = 0;
	while (w.queue.length > 0 && !w.viol) {
		const e = w.next();
		w.now = clock = e.t;
		try {
			e.f();
		} catch (x) {
			w.violate("generated code fails", String(x.stack || x));
		}
		await drain();
		if (++steps > 200000) {
			throw new Error("the run does not end");
		}
	}
	if (!w.viol && rejected) {
		w.violate("unhandled rejection", rejected);
	}
	if (!w.viol) {
		judge(w);
	}
	go.reset();
	total.steps += steps;
	total.ms += w.now;
	const digest = w.digest();
	total.hashes.add(digest);
	return { viol: w.viol, digest, trace: w.trace, useful: [...w.ops.values()].some((o) => o.execs.length > 0) };
}
