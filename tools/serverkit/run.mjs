import http from "node:http";
import net from "node:net";
import { spawn } from "node:child_process";
import { setTimeout as sleep } from "node:timers/promises";
import scenario from "./scenario.mjs";
const [bin, dest] = process.argv.slice(2);
const seen = [];
const upstream = http.createServer((req, res) => {
  const parts = []; req.on("data", (c) => parts.push(c));
  req.on("end", async () => { const r = { method: req.method, url: req.url, headers: req.headers, body: Buffer.concat(parts).toString("utf8") }; seen.push(r);
    const a = (await scenario.upstream?.(r, seen)) ?? {}; if (a.delay) await sleep(a.delay);
    res.writeHead(a.status ?? 200, a.headers ?? { "content-type": "application/json" }); res.end(a.body ?? "null"); });
});
await new Promise((r) => upstream.listen(0, "127.0.0.1", r));
const up = `http://127.0.0.1:${upstream.address().port}`;
const port = await new Promise((r) => { const s = net.createServer(); s.listen(0, "127.0.0.1", () => { const p = s.address().port; s.close(() => r(p)); }); });
const env = { up, ...(scenario.env ?? {}) };
const args = ["serve", "--dest-dir", dest, "--port", String(port)];
for (const [k, v] of Object.entries(env)) args.push("--env", `${k}=${v}`);
for (const [k, v] of Object.entries(scenario.proxy ?? {})) args.push("--proxy", `${k}=${up}${v}`);
const child = spawn(bin, args, { stdio: ["ignore", "pipe", "pipe"] }); let log = ""; child.stdout.on("data", (d) => (log += d)); child.stderr.on("data", (d) => (log += d));
const ask = (method, path, headers = {}, body) => new Promise((ok, no) => {
  const q = http.request({ host: "127.0.0.1", port, method, path, headers, agent: false }, (res) => { const b = []; res.on("data", (c) => b.push(c)); res.on("end", () => ok({ status: res.statusCode, headers: res.headers, body: Buffer.concat(b).toString("utf8") })); });
  q.on("error", no); q.setTimeout(40000, () => q.destroy(new Error("no answer"))); q.end(body);
});
const fail = []; const check = (c, m, x) => { if (!c) { fail.push(m); console.log("FAILED: " + m + (x === undefined ? "" : "\n" + x)); } };
let code = 2;
try {
  for (let i = 0; ; i++) { try { await ask("GET", "/build/run.js"); break; } catch (e) { if (i > 100 || child.exitCode !== null) throw new Error("the server does not start: " + log.slice(-500)); await sleep(100); } }
  await scenario.run({ get: (p, h) => ask("GET", p, h), post: (p, b, h) => ask("POST", p, h, b), ask, check, seen, up, sleep });
  code = fail.length ? 1 : 0; if (!code) console.log("ok");
} catch (e) { console.log("FAILED: " + e.message); code = 1; } finally { child.kill("SIGKILL"); upstream.close(); }
process.exit(code);
