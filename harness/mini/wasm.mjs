// node wasm.mjs MINI.wasm CASES [only N]: executes the cases in MINI.wasm, prints what mini prints.
import { readFileSync } from "node:fs";
const module = new WebAssembly.Module(readFileSync(process.argv[2]));
const lines = readFileSync(process.argv[3], "utf8").split("\n").filter((l) => l);
const only = process.argv[4] === "only" ? Number(process.argv[5]) : null;
const imports = {};
for (const i of WebAssembly.Module.imports(module)) (imports[i.module] ??= {})[i.name] = () => { throw new Error("import " + i.name); };
let e = null;
let ran = 0, operations = 0, bad = 0;
for (let i = 0; i < lines.length; i++) {
  if (only !== null && i !== only) continue;
  e ??= new WebAssembly.Instance(module, imports).exports;
  const text = () => new TextDecoder().decode(new Uint8Array(e.memory.buffer, e.text(), e.length()));
  const bytes = new TextEncoder().encode(lines[i]);
  const at = e.buffer(bytes.length) >>> 0;
  new Uint8Array(e.memory.buffer, at, bytes.length).set(bytes);
  let n;
  try {
    n = Number(e.run(i));
  } catch (error) {
    // a panic ends in a trap
    const words = lines[i].split(" ");
    let said = "";
    try { said = text(); } catch {}
    console.log(said + `FAIL ${i} panic ${words[0]} ${words[1]} ${error.message}`);
    ran++;
    bad++;
    e = null;
    continue;
  }
  if (n < 0) continue;
  const out = text();
  if (out) process.stdout.write(out);
  bad += out.split("\n").filter((l) => l.startsWith("FAIL")).length;
  ran++;
  operations += n;
}
console.log(`DONE ${ran} cases ${operations} operations ${bad} bad`);
process.exit(bad ? 1 : 0);
