import fs from "node:fs";
let inst;
const str = (p, n) => Buffer.from(new Uint8Array(inst.exports.memory.buffer).subarray(p >>> 0, (p >>> 0) + n)).toString("utf8");
class Fail extends Error {}
const imports = {
  demo: { fail: (p, n) => { throw new Fail(str(p, n)); }, say: (p, n) => console.log(str(p, n)) },
  mod: { dom_access: (...a) => inst.exports.__host_dom_access(...a), panic_message: (p, n) => { console.log("panic message: " + str(p, n)); inst.exports.__host_panic_message(p, n); } }, env: {},
};
inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), imports);
try { inst.exports.run(); console.log("ok"); } catch (e) { if (inst.exports.trap_expected && e instanceof WebAssembly.RuntimeError) { console.log("ok"); process.exit(0); } console.log("FAILED: " + e.message); process.exit(1); }
