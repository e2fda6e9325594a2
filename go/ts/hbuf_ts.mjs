// Stand-in for the hbuf_ts runtime library: what generated TypeScript code uses of it.
export class RecordEntry {
	constructor(key, value) {
		this.key = key;
		this.value = value;
	}
}

export function isArray(v) {
	return Array.isArray(v);
}

export function isRecord(v) {
	return v !== null && typeof v === "object" && !Array.isArray(v);
}

export function convertArray(v, f) {
	return v === null || v === undefined ? null : Array.from(v, (x) => f(x));
}

export function convertRecord(v, f) {
	if (v === null || v === undefined) {
		return null;
	}
	const out = {};
	for (const k of Object.keys(v)) {
		const e = f(k, v[k]);
		out[e.key] = e.value;
	}
	return out;
}

export class ServerClient {
	constructor(client) {
		this.client = client;
	}

	invoke(name, id, req, fromJson, fromData) {
		return this.client.invoke(this.name + "/" + name, req, fromJson);
	}
}
