// Stand-in for long.js: 64-bit integers, signed unless told otherwise.
export default class Long {
	constructor(big, unsigned) {
		this.unsigned = !!unsigned;
		this.big = this.unsigned ? BigInt.asUintN(64, big) : BigInt.asIntN(64, big);
	}

	static fromString(s, unsigned) {
		if (typeof s !== "string" || !/^-?[0-9]+$/.test(s)) {
			throw new Error("interior hyphen or empty string: " + s);
		}
		return new Long(BigInt(s), unsigned === true);
	}

	static fromNumber(n, unsigned) {
		return new Long(BigInt(Math.trunc(n)), unsigned);
	}

	static fromValue(v, unsigned) {
		if (typeof v === "number") {
			return Long.fromNumber(v, unsigned);
		}
		if (typeof v === "string") {
			return Long.fromString(v, unsigned);
		}
		return new Long(v.big, typeof unsigned === "boolean" ? unsigned : v.unsigned);
	}

	static isLong(v) {
		return v instanceof Long;
	}

	toString() {
		return this.big.toString();
	}

	toNumber() {
		return Number(this.big);
	}

	eq(o) {
		return this.big === o.big;
	}
}
Long.ZERO = new Long(0n, false);
Long.UZERO = new Long(0n, true);
