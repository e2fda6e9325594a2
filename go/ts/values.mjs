// Values of the schema's types in a form that no language's code has a part in:
// null, true, text of numbers, strings, lists, {k: v} of maps and {field: v} of data.
import Long from "long";
import * as d from "decimal.js";

export const norm = (s) => s.replaceAll("_", "").toLowerCase();

// Classes of one schema, by the normalised names of its types.
export class Classes {
	constructor(schema, mods) {
		this.schema = schema;
		this.data = {};
		this.enums = {};
		this.exports = {};
		for (const m of mods) {
			for (const k of Object.keys(m)) {
				this.exports[norm(k)] = m[k];
			}
		}
		this.meta = {};
		for (const x of schema.datas || []) {
			this.meta[norm(x.type)] = x;
		}
		this.items = {};
		for (const x of schema.enums || []) {
			this.items[norm(x.name)] = x.items;
		}
		this.props = {};
	}

	get(name) {
		const c = this.exports[norm(name)];
		if (c === undefined) {
			throw new Error("the generated code has no " + name);
		}
		return c;
	}

	// fields gives the names of the properties of a data class.
	fields(type) {
		const k = norm(type);
		if (!this.props[k]) {
			const by = {};
			for (const p of Object.keys(new (this.get(type))())) {
				by[norm(p)] = p;
			}
			const out = [];
			const seen = {};
			for (const f of this.meta[k].fields || []) {
				const n = norm(f.field);
				if (seen[n]) {
					continue;
				}
				seen[n] = true;
				if (by[n] === undefined) {
					throw new Error("the generated class " + type + " has no field " + f.field);
				}
				out.push({ name: n, prop: by[n], type: f.type });
			}
			this.props[k] = out;
		}
		return this.props[k];
	}
}

const ranges = {
	int8: [-128n, 127n], int16: [-32768n, 32767n], int32: [-2147483648n, 2147483647n], int64: [-(1n << 63n), (1n << 63n) - 1n],
	uint8: [0n, 255n], uint16: [0n, 65535n], uint32: [0n, 4294967295n], uint64: [0n, (1n << 64n) - 1n],
};
const strings = ["", "a", "null", "0", "Ünï→ 世界", "quote\" and \\ back", "line\nbreak\ttab", "true", "😀", "  x ", "{}", "[1]", "\u0000", "</script>", "1e5"];
const decimals = ["0", "1", "-1", "0.1", "1234567890123456789012.000000001", "-0.00000000000000000001", "99999999999999999999", "12.5"];

// random makes a value of a type.
export function random(r, c, t, depth, key) {
	if (t.null && r.p(1, 3)) {
		return null;
	}
	switch (t.kind) {
		case "enum":
			return String(r.pick(c.items[norm(t.name)]));
		case "data": {
			if (depth <= 0) {
				return plain(c, t);
			}
			const out = {};
			for (const f of c.meta[norm(t.name)].fields || []) {
				out[norm(f.field)] = random(r, c, f.type, depth - 1);
			}
			return out;
		}
		case "array": {
			const out = [];
			if (depth > 0) {
				for (let n = r.pick([0, 1, 1, 2, 3]); n > 0; n--) {
					out.push(random(r, c, t.elem, depth - 1));
				}
			}
			return out;
		}
		case "map": {
			const out = {};
			if (depth > 0) {
				for (let n = r.pick([0, 1, 1, 2, 3]); n > 0; n--) {
					out[random(r, c, { ...t.key, null: false }, 0, true)] = random(r, c, t.elem, depth - 1);
				}
			}
			return out;
		}
	}
	const rg = ranges[t.name];
	if (rg) {
		switch (r.n(6)) {
			case 0:
				return String(rg[0]);
			case 1:
				return String(rg[1]);
			case 2:
				return "0";
			case 3:
				return String(r.n(100));
		}
		const span = rg[1] - rg[0] + 1n;
		return String(rg[0] + ((BigInt(r.u32()) << 32n) | BigInt(r.u32())) % span);
	}
	switch (t.name) {
		case "bool":
			return key ? String(r.p(1, 2)) : r.p(1, 2);
		case "float":
			return String(r.p(1, 3) ? r.n(1000) : Math.fround((r.n(2000000) - 1000000) / 1024));
		case "double":
			return String(r.p(1, 3) ? r.n(1000) : r.p(1, 8) ? 1.7976931348623157e308 : (r.n(2000000) - 1000000) / (1 + r.n(1000)));
		case "string":
			return key ? "k" + r.n(50) : r.p(1, 2) ? r.pick(strings) : "s" + r.n(100000);
		case "date":
			return String(r.pick([0, 1, -1, 946684800123, 1700000000000, 4102444800999]) + r.n(1000));
		case "decimal":
			return new d.Decimal(r.p(1, 2) ? r.pick(decimals) : r.n(1000000) - 500000 + "." + r.n(1000)).toString();
	}
	throw new Error("type " + JSON.stringify(t));
}

// dull makes about half of the fields of a value of a data type as simple as can be.
export function dull(r, c, t, v) {
	for (const f of c.meta[norm(t.name)].fields || []) {
		if (r.p(1, 2)) {
			v[norm(f.field)] = plain(c, f.type);
		}
	}
	return v;
}

// plain is the simplest value of a type.
export function plain(c, t) {
	if (t.null) {
		return null;
	}
	switch (t.kind) {
		case "enum":
			return String(c.items[norm(t.name)][0]);
		case "data": {
			const out = {};
			for (const f of c.meta[norm(t.name)].fields || []) {
				out[norm(f.field)] = plain(c, f.type);
			}
			return out;
		}
		case "array":
			return [];
		case "map":
			return {};
	}
	switch (t.name) {
		case "bool":
			return false;
		case "string":
			return "";
	}
	return "0";
}

// build makes the TypeScript value; c.get finds the generated classes.
// A lazy user assigns only what differs from what a new object has; wrong is
// told of fields that do not have a value of their type from the start.
export function build(c, t, v, wrong) {
	if (v === null) {
		return null;
	}
	switch (t.kind) {
		case "enum": {
			const e = c.get(t.name);
			const x = e.values.find((i) => i.value === Number(v));
			if (x === undefined) {
				throw new Error("the generated enum " + t.name + " has no item " + v);
			}
			return x;
		}
		case "data": {
			const out = new (c.get(t.name))();
			for (const f of c.fields(t.name)) {
				if (wrong && has(c, f, out[f.prop], v[f.name], t, wrong)) {
					continue;
				}
				out[f.prop] = build(c, f.type, v[f.name], wrong);
			}
			return out;
		}
		case "array":
			return v.map((x) => build(c, t.elem, x, wrong));
		case "map": {
			const out = {};
			for (const k of Object.keys(v)) {
				out[k] = build(c, t.elem, v[k], wrong);
			}
			return out;
		}
	}
	switch (t.name) {
		case "int64":
			return Long.fromString(v);
		case "uint64":
			return Long.fromString(v, true);
		case "bool":
		case "string":
			return v;
		case "date":
			return new Date(Number(v));
		case "decimal":
			return new d.Decimal(v);
	}
	return Number(v);
}

// has tells whether the field of a new object is v already.
function has(c, f, now, v, t, wrong) {
	const x = view(c, f.type, now);
	const text = JSON.stringify(x);
	if (text !== undefined && text.includes(notAValue)) {
		wrong("a new " + t.name + " has no value of its type in the field " + f.name + ": " + clip(text));
		return false;
	}
	return canon(c, f.type, x) === canon(c, f.type, v);
}

const notAValue = "not a value of the type";
const odd = (v, t) => ({ "not a value of the type": t.name || t.kind, is: Object.prototype.toString.call(v), text: String(v).slice(0, 80) });

// view is the inverse of build for what generated code made.
export function view(c, t, v) {
	if (v === null || v === undefined) {
		return t.null ? null : odd(v, t);
	}
	switch (t.kind) {
		case "enum": {
			const e = c.get(t.name);
			return v instanceof e && e.values.includes(v) ? String(v.value) : odd(v, t);
		}
		case "data": {
			if (!(v instanceof c.get(t.name))) {
				return odd(v, t);
			}
			const out = {};
			for (const f of c.fields(t.name)) {
				out[f.name] = view(c, f.type, v[f.prop]);
			}
			return out;
		}
		case "array":
			return Array.isArray(v) ? v.map((x) => view(c, t.elem, x)) : odd(v, t);
		case "map": {
			if (typeof v !== "object" || Array.isArray(v)) {
				return odd(v, t);
			}
			const out = {};
			for (const k of Object.keys(v)) {
				out[k] = view(c, t.elem, v[k]);
			}
			return out;
		}
	}
	switch (t.name) {
		case "int64":
		case "uint64":
			return Long.isLong(v) ? v.toString() : odd(v, t);
		case "bool":
			return typeof v === "boolean" ? v : odd(v, t);
		case "string":
			return typeof v === "string" ? v : odd(v, t);
		case "date":
			return v instanceof Date && !isNaN(v.getTime()) ? String(v.getTime()) : odd(v, t);
		case "decimal":
			return v instanceof d.Decimal ? v.toString() : odd(v, t);
		case "float":
			return typeof v === "number" && isFinite(v) ? String(Math.fround(v)) : odd(v, t);
	}
	return typeof v === "number" && isFinite(v) ? String(v) : odd(v, t);
}

// canon is the text that two equal values have in common. An empty list or map
// equals an absent one.
export function canon(c, t, v) {
	if (v === null || v === undefined) {
		return t.kind === "array" || t.kind === "map" ? "-" : "null";
	}
	switch (t.kind) {
		case "data": {
			if (typeof v !== "object") {
				return JSON.stringify(v);
			}
			if ("not a value of the type" in v) {
				return JSON.stringify(v);
			}
			return "{" + (c.meta[norm(t.name)].fields || []).map((f) => norm(f.field)).filter((n, i, l) => l.indexOf(n) === i).map((n) => n + "=" + canon(c, c.meta[norm(t.name)].fields.find((f) => norm(f.field) === n).type, v[n])).join(" ") + "}";
		}
		case "array":
			if (!Array.isArray(v)) {
				return JSON.stringify(v);
			}
			return v.length === 0 ? "-" : "[" + v.map((x) => canon(c, t.elem, x)).join(" ") + "]";
		case "map": {
			if ("not a value of the type" in v) {
				return JSON.stringify(v);
			}
			const ks = Object.keys(v).sort();
			return ks.length === 0 ? "-" : "{" + ks.map((k) => JSON.stringify(k) + ":" + canon(c, t.elem, v[k])).join(" ") + "}";
		}
	}
	if (typeof v === "string") {
		switch (t.name) {
			case "float":
				return String(Math.fround(Number(v)));
			case "double":
				return String(Number(v));
			case "decimal":
				return new d.Decimal(v).toString();
		}
	}
	return JSON.stringify(v);
}

// differ names the first place where two values of a type differ.
export function differ(c, t, a, b, at) {
	if (canon(c, t, a) === canon(c, t, b)) {
		return null;
	}
	if (a && b && t.kind === "data" && typeof a === "object" && typeof b === "object") {
		for (const f of c.meta[norm(t.name)].fields || []) {
			const x = differ(c, f.type, a[norm(f.field)], b[norm(f.field)], (at ? at + "." : "") + f.field);
			if (x) {
				return x;
			}
		}
	}
	return { at: at || "the value", type: t, a: clip(canon(c, t, a)), b: clip(canon(c, t, b)) };
}

export const clip = (s) => (s.length > 300 ? s.slice(0, 300) + "..." : s);

// spoil changes everything in a value that can be changed in place.
export function spoil(c, t, v) {
	if (v === null || v === undefined) {
		return;
	}
	switch (t.kind) {
		case "data":
			for (const f of c.fields(t.name)) {
				spoil(c, f.type, v[f.prop]);
				v[f.prop] = null;
			}
			return;
		case "array":
			for (const x of v) {
				spoil(c, t.elem, x);
			}
			v.push(null);
			v[0] = null;
			return;
		case "map":
			for (const k of Object.keys(v)) {
				spoil(c, t.elem, v[k]);
				v[k] = null;
			}
			v["1234"] = null;
			return;
	}
	if (t.name === "date") {
		v.setTime(v.getTime() + 1);
	}
}

// simpler gives simpler values of a type, the simplest first.
export function* simpler(c, t, v) {
	const p = plain(c, t);
	if (canon(c, t, p) === canon(c, t, v)) {
		return;
	}
	yield p;
	if (v === null) {
		return;
	}
	const n = { ...t, null: false };
	if (t.null) {
		yield plain(c, n);
	}
	if (t.kind === "data") {
		for (const f of c.meta[norm(t.name)].fields || []) {
			const k = norm(f.field);
			for (const x of simpler(c, f.type, v[k])) {
				yield { ...v, [k]: x };
			}
		}
	}
	if (t.kind === "array") {
		for (let i = 0; i < v.length; i++) {
			yield v.filter((_, j) => j !== i);
		}
		for (let i = 0; i < v.length; i++) {
			for (const x of simpler(c, t.elem, v[i])) {
				yield v.map((y, j) => (j === i ? x : y));
			}
		}
	}
	if (t.kind === "map") {
		for (const k of Object.keys(v)) {
			const w = { ...v };
			delete w[k];
			yield w;
		}
		for (const k of Object.keys(v)) {
			for (const x of simpler(c, t.elem, v[k])) {
				yield { ...v, [k]: x };
			}
		}
	}
}
