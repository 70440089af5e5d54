// Synchronous calls to the Rust side over two named pipes.
import { spawn, execFileSync } from "node:child_process";
import fs from "node:fs";
export class Panic extends Error { }
export function connect(root, dir, id) {
  const a = `${dir}/${id}.in`, b = `${dir}/${id}.out`;
  execFileSync("mkfifo", [a, b]);
  const child = spawn("/bin/sh", ["-c", `ulimit -v 8000000; exec "${root}/target/release/front" SERVE <"${a}" >"${b}" 2>/dev/null`], { stdio: "ignore" });
  child.unref();
  const out = fs.openSync(a, "w"), inp = fs.openSync(b, "r");
  const chunk = Buffer.allocUnsafe(1 << 20);
  let rest = null;
  globalThis.__rpc = (q) => {
    const data = Buffer.from(JSON.stringify(q) + "\n");
    for (let o = 0; o < data.length;) o += fs.writeSync(out, data, o);
    const parts = rest ? [rest] : [];
    rest = null;
    for (;;) {
      const n = fs.readSync(inp, chunk, 0, chunk.length);
      if (n === 0) throw new Panic("the process running the Rust code died");
      if (chunk[n - 1] === 10) { parts.push(Buffer.from(chunk.subarray(0, n))); break; }
      parts.push(Buffer.from(chunk.subarray(0, n)));
    }
    const r = JSON.parse(Buffer.concat(parts).toString("utf8"));
    if ("panic" in r) throw new Panic("the Rust code panicked: " + r.panic);
    if ("err" in r) throw r.err;
    return r.ok;
  };
  globalThis.__call = (op, h, args) => globalThis.__rpc({ op, h, args });
  return () => { fs.closeSync(out); fs.closeSync(inp); };
}
