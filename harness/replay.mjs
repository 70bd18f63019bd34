// Replays solver assignments against the wasm module compiled from the same sources.
// usage: node replay.mjs module.wasm entry args.json < jobs.jsonl ; one JSON job per line {assign:[{n,k,v}]}
import fs from "node:fs";
const [, , wasmPath, entry, argsJson] = process.argv;
const args = JSON.parse(argsJson || "[]");
const mod = new WebAssembly.Module(fs.readFileSync(wasmPath));
class End extends Error {}
class Fail extends Error {}
function run(job) {
  let inst, pos = 0, expectPanic = 0, live = 0; const trace = [], reach = new Set(), notes = []; const allocs = new Map(); let brk = 0;
  const u8 = () => new Uint8Array(inst.exports.memory.buffer);
  const str = (p, n) => Buffer.from(u8().subarray(p >>> 0, (p >>> 0) + (n >>> 0))).toString("utf8");
  const next = (n, k) => { const a = job.assign[pos++]; if (!a) throw new Error("assignment exhausted at " + n); if (a.n !== n) throw new Error("assignment out of step: " + a.n + " / " + n); return a; };
  let panicMsg = "";
  const alloc = (size, align) => {
    size >>>= 0; align >>>= 0; if (!brk) brk = inst.exports.memory.buffer.byteLength;
    let a = Math.ceil(brk / Math.max(align, 16)) * Math.max(align, 16); brk = a + size + 16;
    const need = brk - inst.exports.memory.buffer.byteLength; if (need > 0) inst.exports.memory.grow(Math.ceil(need / 65536));
    allocs.set(a, size); live++; return a;
  };
  const free = (p, size) => { p >>>= 0; size >>>= 0; if (size === 0) return; if (allocs.get(p) !== size) throw new Fail("memory: free of an invalid address"); allocs.delete(p); live--; u8().fill(0xdd, p, p + size); };
  const sym = {
    __sym_int: (bits, lo, hi, p, n) => { const a = next(str(p, n)); return BigInt.asIntN(64, BigInt(a.v)); },
    __sym_bytes: (ptr, n, p, l) => { const a = next(str(p, l)); const v = Buffer.from(a.v, "hex"); const m = u8(); for (let i = 0; i < n; i++) m[(ptr >>> 0) + i] = v[i]; },
    __sym_assume: (c) => { if (!c) throw new Error("assumption failed in the replay"); },
    __sym_check: (c, p, n) => { if (!c) throw new Fail("check: " + str(p, n)); },
    __sym_reach: (p, n) => { reach.add(str(p, n)); },
    __sym_note: (p, n) => { notes.push(str(p, n)); },
    __sym_trace: (v) => { trace.push(BigInt.asUintN(64, v).toString()); },
    __sym_concretize: (v) => v,
    __sym_end: () => { throw new End(); },
    __sym_expect_panic: (on) => { expectPanic = on; },
    __sym_live_allocs: () => live,
    __sym_alloc: alloc, __sym_dealloc: free,
    __sym_realloc: (p, old, align, nw) => { const q = alloc(nw, align); const m = u8(); m.copyWithin(q, p >>> 0, (p >>> 0) + Math.min(old >>> 0, nw >>> 0)); free(p, old); return q; },
  };
  const modI = {
    dom_access: (...a) => inst.exports.__host_dom_access ? inst.exports.__host_dom_access(...a) : 0,
    panic_message: (...a) => { if (inst.exports.__host_panic_message) inst.exports.__host_panic_message(...a); },
  };
  try {
    inst = new WebAssembly.Instance(mod, { sym, mod: modI, env: {} });
    inst.exports[entry](...args);
    return { r: "ok", trace, reach: [...reach] };
  } catch (e) {
    if (e instanceof End) return { r: "ok", trace, reach: [...reach] };
    if (e instanceof Fail) return { r: "fail", msg: e.message, notes };
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) {
      if (expectPanic === 1) { trace.push((0xdead).toString()); return { r: "ok", trace, reach: [...reach] }; }
      return { r: "fail", msg: (e instanceof RangeError ? "stack-overflow: " : "trap: ") + e.message + (panicMsg ? " " + panicMsg : ""), notes };
    }
    return { r: "error", msg: String(e && e.stack || e), notes };
  }
}
const lines = fs.readFileSync(0, "utf8").split("\n").filter((l) => l.trim());
for (const l of lines) process.stdout.write(JSON.stringify(run(JSON.parse(l))) + "\n");
