// Minimal stand-in for the npm package "yargs": enough for buildzqfield.js run as a script.
"use strict";
const al = {};
const o = {
    usage() { return o; }, demandOption(k) { o.d = k; return o; },
    alias(a, b) { al[a] = b; al[b] = a; return o; }, option() { return o; }, help() { return o; },
    get argv() {
        const r = {_: []}, a = process.argv.slice(2);
        for (let i = 0; i < a.length; i++) {
            const m = /^--?([^=]+)(?:=(.*))?$/.exec(a[i]);
            if (!m) { r._.push(a[i]); continue; }
            const v = m[2] !== undefined ? m[2] : a[++i];
            r[m[1]] = v; if (al[m[1]]) r[al[m[1]]] = v;
        }
        return r;
    },
};
module.exports = o;
