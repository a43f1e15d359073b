// Minimal stand-in for the npm package "big-integer" (not installed here), over BigInt.
"use strict";
function parse(v, radix) {
    if (v instanceof Big) return v.value;
    if (v === undefined) return 0n;
    if (typeof v === "bigint") return v;
    if (typeof v === "number") return BigInt(v);
    let s = String(v).trim();
    let neg = false;
    if (s[0] === "-") { neg = true; s = s.slice(1); }
    let r = 0n;
    if (radix && parse(radix) !== 10n) {
        const b = parse(radix);
        for (const ch of s.toLowerCase()) {
            const d = parseInt(ch, 36);
            if (Number.isNaN(d) || BigInt(d) >= b) throw new Error("Invalid digit " + ch);
            r = r * b + BigInt(d);
        }
    } else r = BigInt(s);
    return neg ? -r : r;
}
function Big(v) { this.value = v; }
const N = x => parse(x);
const W = v => new Big(v);
const absB = v => (v < 0n ? -v : v);
const P = Big.prototype;
const bin = {
    add: (a, b) => a + b, subtract: (a, b) => a - b, multiply: (a, b) => a * b,
    divide: (a, b) => a / b, mod: (a, b) => a % b, pow: (a, b) => a ** b,
    and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b,
    shiftLeft: (a, b) => a << b, shiftRight: (a, b) => a >> b,
    gcd: (a, b) => { a = absB(a); b = absB(b); while (b) [a, b] = [b, a % b]; return a; },
};
for (const k of Object.keys(bin)) P[k] = function (o) { return W(bin[k](this.value, N(o))); };
const alias = {plus: "add", minus: "subtract", times: "multiply", over: "divide", remainder: "mod"};
for (const k of Object.keys(alias)) P[k] = P[alias[k]];
const cmp = {lt: (a, b) => a < b, leq: (a, b) => a <= b, gt: (a, b) => a > b, geq: (a, b) => a >= b,
    eq: (a, b) => a === b, neq: (a, b) => a !== b};
for (const k of Object.keys(cmp)) P[k] = function (o) { return cmp[k](this.value, N(o)); };
Object.assign(P, {lesser: P.lt, lesserOrEquals: P.leq, greater: P.gt, greaterOrEquals: P.geq, equals: P.eq, notEquals: P.neq});
P.compare = P.compareTo = function (o) { const b = N(o); return this.value < b ? -1 : this.value > b ? 1 : 0; };
P.compareAbs = function (o) { const a = absB(this.value), b = absB(N(o)); return a < b ? -1 : a > b ? 1 : 0; };
P.not = function () { return W(~this.value); };
P.negate = function () { return W(-this.value); };
P.abs = function () { return W(absB(this.value)); };
P.square = function () { return W(this.value * this.value); };
P.next = function () { return W(this.value + 1n); };
P.prev = function () { return W(this.value - 1n); };
P.isZero = function () { return this.value === 0n; };
P.isUnit = function () { return absB(this.value) === 1n; };
P.isOdd = function () { return (this.value & 1n) === 1n; };
P.isEven = function () { return (this.value & 1n) === 0n; };
P.isNegative = function () { return this.value < 0n; };
P.isPositive = function () { return this.value > 0n; };
P.bitLength = function () { const v = this.value < 0n ? -this.value - 1n : this.value; return W(v === 0n ? 0n : BigInt(v.toString(2).length)); };
P.divmod = function (o) { const b = N(o); return {quotient: W(this.value / b), remainder: W(this.value % b)}; };
P.modPow = function (e, m) {
    e = N(e); m = N(m); let b = this.value % m, r = 1n % m;
    if (e < 0n) { e = -e; b = W(b).modInv(m).value; }
    while (e > 0n) { if (e & 1n) r = r * b % m; b = b * b % m; e >>= 1n; }
    return W(r);
};
P.modInv = function (m) {
    m = N(m); let t = 0n, nt = 1n, r = m, nr = this.value;
    while (nr !== 0n) { const q = r / nr; [t, nt] = [nt, t - q * nt]; [r, nr] = [nr, r - q * nr]; }
    if (absB(r) !== 1n) throw new Error(this.toString() + " and " + m + " are not co-prime");
    if (r === -1n) t = -t;
    if (t < 0n) t += absB(m);
    return W(this.value < 0n && false ? -t : t);
};
P.toString = function (radix) { return this.value.toString(radix === undefined ? 10 : Number(radix)); };
P.valueOf = P.toJSNumber = function () { return Number(this.value); };
P.toJSON = function () { return this.toString(); };
P.toArray = function (radix) {
    const b = BigInt(radix); let v = absB(this.value); const d = [];
    do { d.unshift(Number(v % b)); v /= b; } while (v > 0n);
    return {value: d, isNegative: this.value < 0n};
};
function bigInt(v, radix) { return W(parse(v, radix)); }
bigInt.one = W(1n); bigInt.zero = W(0n); bigInt.minusOne = W(-1n);
bigInt.isInstance = x => x instanceof Big;
bigInt.max = (a, b) => (N(a) > N(b) ? W(N(a)) : W(N(b)));
bigInt.min = (a, b) => (N(a) < N(b) ? W(N(a)) : W(N(b)));
bigInt.gcd = (a, b) => W(N(a)).gcd(b);
bigInt.fromArray = (ds, base, neg) => { let r = 0n; const b = base === undefined ? 10n : N(base); for (const d of ds) r = r * b + N(d); return W(neg ? -r : r); };
module.exports = bigInt;
