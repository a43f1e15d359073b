// usage: node render.js SRCDIR PRIME NAME OUTDIR   (renders through /repo/src/buildzqfield.js)
"use strict";
const path = require("path"), fs = require("fs"), Module = require("module");
process.env.NODE_PATH = path.join(__dirname, "nm");
Module._initPaths();
const [src, prime, name, out] = process.argv.slice(2);
const buildField = require(path.resolve(src, "buildzqfield.js"));
const bigInt = require("big-integer");
const n = name.toLowerCase();
buildField(bigInt(prime), name).then(r => {
    fs.mkdirSync(out, {recursive: true});
    const w = (f, t) => fs.writeFileSync(path.join(out, n + f), t);
    w(".asm", r.asm); w(".hpp", r.hpp); w(".cpp", r.cpp); w("_element.hpp", r.element_hpp);
    w("_generic.cpp", r.generic_cpp); w("_raw_generic.cpp", r.raw_generic_cpp); w("_raw_arm64.s", r.raw_arm64_s);
}).catch(e => { console.error(e); process.exit(3); });
