// Minimal stand-in for the npm package "ejs" (not installed here): renderFile with
// <% %>, <%= %>, <%- %>, <%# %>, <%%, -%>, _%>, <%_ and include().
"use strict";
const fs = require("fs");
const path = require("path");
const ESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;"};
function escapeXML(s) { return s === undefined || s === null ? "" : String(s).replace(/[&<>"']/g, c => ESC[c]); }
function stripSemi(s) { return s.replace(/;(\s*$)/, "$1"); }
function compile(text) {
    let src = "";
    const lit = s => { if (s.length) src += ";__append(" + JSON.stringify(s) + ")\n"; };
    let pos = 0;
    let chomp = false, slurp = false;
    for (;;) {
        const o = text.indexOf("<%", pos);
        let raw = o < 0 ? text.slice(pos) : text.slice(pos, o);
        if (chomp) raw = raw.replace(/^(?:\r\n|\r|\n)/, "");
        if (slurp) raw = raw.replace(/^[ \t]*(?:\r\n|\r|\n)?/, "");
        chomp = slurp = false;
        if (o < 0) { lit(raw); break; }
        let p = o + 2;
        let mode = text[p];
        if (mode === "%") { lit(raw + "<%"); pos = p + 1; continue; }
        if (mode === "=" || mode === "-" || mode === "#" || mode === "_") p++; else mode = "";
        if (mode === "_") { raw = raw.replace(/[ \t]+$/, ""); mode = ""; }
        lit(raw);
        const c = text.indexOf("%>", p);
        if (c < 0) throw new Error("Could not find matching close tag");
        let e = c;
        if (text[c - 1] === "-") { chomp = true; e--; }
        else if (text[c - 1] === "_") { slurp = true; e--; }
        let code = text.slice(p, e);
        if (mode === "=") src += ";__append(__esc(" + stripSemi(code) + "\n))\n";
        else if (mode === "-") src += ";__append(" + stripSemi(code) + "\n)\n";
        else if (mode === "#") { /* comment */ }
        else src += ";" + code + "\n";
        pos = c + 2;
    }
    return new Function("__locals", "__esc", "include",
        "let __output='';function __append(s){if(s!==undefined&&s!==null)__output+=s;}\n" +
        "with(__locals||{}){\n" + src + "\n}\nreturn __output;");
}
function renderSync(file, data) {
    const f = compile(fs.readFileSync(file, "utf8").replace(/^\uFEFF/, ""));
    const include = (p, d) => {
        let q = path.resolve(path.dirname(file), p);
        if (!path.extname(q)) q += ".ejs";
        const loc = Object.assign(Object.create(Object.getPrototypeOf(data)), data, d || {});
        return renderSync(q, loc);
    };
    return f(data, escapeXML, include);
}
exports.renderFile = function (file, data, opts, cb) {
    if (typeof opts === "function") { cb = opts; }
    if (typeof data === "function") { cb = data; data = {}; }
    let out;
    try { out = renderSync(file, data); } catch (err) { if (cb) return cb(err); return Promise.reject(err); }
    if (cb) return cb(null, out);
    return Promise.resolve(out);
};
exports.render = (t, d) => compile(t)(d, escapeXML, () => { throw new Error("include"); });
