// Stand-in for decimal.js: holds a number exactly.
export class Decimal {
	constructor(v) {
		let s = v instanceof Decimal ? v.text : String(v);
		const m = /^([-+]?)([0-9]*)(?:\.([0-9]*))?(?:[eE]([-+]?[0-9]+))?$/.exec(s);
		if (!m || (m[2] + (m[3] || "")) === "" || !(v instanceof Decimal || typeof v === "string" || typeof v === "number")) {
			throw new Error("[DecimalError] Invalid argument: " + s);
		}
		let digits = m[2] + (m[3] || "");
		let exp = Number(m[4] || 0) - (m[3] || "").length;
		digits = digits.replace(/^0+/, "");
		while (digits.endsWith("0")) {
			digits = digits.slice(0, -1);
			exp++;
		}
		if (digits === "") {
			this.text = "0";
			return;
		}
		if (exp >= 0) {
			s = digits + "0".repeat(exp);
		} else if (-exp < digits.length) {
			s = digits.slice(0, digits.length + exp) + "." + digits.slice(digits.length + exp);
		} else {
			s = "0." + "0".repeat(-exp - digits.length) + digits;
		}
		this.text = (m[1] === "-" ? "-" : "") + s;
	}

	toString() {
		return this.text;
	}

	toJSON() {
		return this.text;
	}

	toNumber() {
		return Number(this.text);
	}
}
export default Decimal;
