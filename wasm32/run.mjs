// run.mjs <module> <pack> <seconds>: the packed cases on a 32-bit machine. After a crash it goes on with the next case.
import { readFileSync, writeSync } from 'node:fs';
const [file, pack, secs] = process.argv.slice(2);
const module = new WebAssembly.Module(readFileSync(file));
const bytes = pack ? readFileSync(pack) : null;
const t0 = Date.now();
const dec = new TextDecoder();
const put = (l) => {
  const b = Buffer.from(l + '\n');
  for (let k = 0; k < b.length; ) k += writeSync(1, b, k);
};
let from = 0, panics = false;
while (bytes) {
  let mem, done = false;
  const { exports: e } = new WebAssembly.Instance(module, {
    env: {
      say: (at, len) => {
        const l = dec.decode(new Uint8Array(mem.buffer, at >>> 0, len >>> 0).slice());
        if (l.startsWith('START ')) {
          const w = l.split(' ');
          from = Number(w[1]) + 1;
          panics = w[3] === 'true';
        }
        put(l);
      },
      more: () => (Date.now() - t0 < secs * 1000 ? 1 : 0),
    },
  });
  mem = e.memory;
  const at = e.room(bytes.length) >>> 0;
  new Uint8Array(mem.buffer, at, bytes.length).set(bytes);
  try {
    e.check(at, bytes.length, from);
    break;
  } catch (x) {
    if (!(x instanceof WebAssembly.RuntimeError)) throw x;
    // The other build may have panicked at this case as well: then this is not about the platform.
    put(`TRAP ${panics} ${x.message}`);
    if (Date.now() - t0 >= secs * 1000) {
      put('DONE 0');
      break;
    }
  }
}
