// The Go side of a mixed cluster: generated Go code compiled to WebAssembly.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";

let ready = false;
const waits = new Map();
let next = 1;

// Calls from Go.
globalThis.simGo = {
	// sent tells what a Go client was given.
	sent(token, text) {
		waits.get(token)?.sent(JSON.parse(text));
	},
	send(token, path, body) {
		waits.get(token)?.send(path, body);
	},
	done(token, err, text) {
		const x = waits.get(token);
		waits.delete(token);
		x?.done(err, text);
	},
	exec(token, exec, service, method, text) {
		waits.get(token)?.exec(exec, service, method, text);
	},
	panicked(token, msg) {
		waits.get(token)?.panicked(msg);
	},
	served(token, body) {
		const x = waits.get(token);
		waits.delete(token);
		x?.served(body);
	},
};

export const go = {
	async load(dir) {
		if (ready) {
			return;
		}
		globalThis.require = createRequire(path.join(dir, "x.js"));
		globalThis.fs = fs;
		globalThis.path = path;
		vm.runInThisContext(fs.readFileSync(path.join(dir, "wasm_exec.js"), "utf8"));
		const g = new globalThis.Go();
		g.env = {};
		const m = await WebAssembly.instantiate(fs.readFileSync(path.join(dir, "node.wasm")), g.importObject);
		g.run(m.instance);
		if (typeof globalThis.goServe !== "function") {
			throw new Error("the Go part did not start");
		}
		ready = true;
	},

	reset() {
		if (waits.size > 0) {
			waits.clear();
			globalThis.goReset();
		}
	},

	serve(w, node, op, path, text) {
		const token = next++;
		return new Promise((resolve) => {
			waits.set(token, {
				exec(exec, service, method, req) {
					const s = w.schema.servers.find((x) => x.type === service);
					const m = s.methods.find((x) => x.go === method);
					let p;
					try {
						p = w.execute(node, op, service, m, () => JSON.parse(req));
					} catch (e) {
						p = Promise.reject(e);
					}
					p.then(
						(v) => globalThis.goExecDone(exec, "", v === undefined ? "" : JSON.stringify(v)),
						(e) => globalThis.goExecDone(exec, String(e) || "failed", ""),
					);
				},
				panicked(msg) {
					w.violate("server panics", "the request " + path + " " + text + " makes the Go server panic: " + msg);
				},
				served: resolve,
			});
			globalThis.goServe(token, w.schema.pkg, path, text, node.spec.lacks.join(","));
		});
	},

	call(w, op, end, send) {
		const token = next++;
		waits.set(token, {
			sent(v) {
				op.req = v;
			},
			send(path, body) {
				send(w, op, path, body).then(
					(text) => globalThis.goReply(token, "", text),
					(e) => globalThis.goReply(token, String(e) || "failed", ""),
				);
			},
			done(err, text) {
				if (err) {
					if (err.startsWith("panic: ")) {
						w.violate("client panics", err);
					}
					end(new Error(err));
				} else {
					end(null, text === "" ? undefined : JSON.parse(text));
				}
			},
		});
		globalThis.goCall(token, w.schema.pkg, op.spec.service, op.method.go, JSON.stringify(op.spec.req));
	},
};
