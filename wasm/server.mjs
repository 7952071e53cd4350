// Runs calls of the WebAssembly build for the harness: a length and a case
// (8 words and the data) in, a length, the outcome and the pixels out.
import fs from 'node:fs';
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let x;
const fresh = () => { x = new WebAssembly.Instance(module_, {}).exports; };
fresh();
function exactly(n) {
  const b = Buffer.alloc(n);
  for (let at = 0; at < n;) {
    let k;
    try { k = fs.readSync(0, b, at, n - at, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
    if (k === 0) process.exit(0);
    at += k;
  }
  return b;
}
function write(b) {
  for (let at = 0; at < b.length;) {
    try { at += fs.writeSync(1, b, at); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}
for (;;) {
  const c = exactly(exactly(4).readUInt32LE(0));
  const f = [0, 1, 2, 3, 4, 5, 6, 7].map((i) => c.readUInt32LE(4 * i));
  const [op, block, a, b, w, h, len, n] = f;
  if (x.memory.buffer.byteLength > 1 << 27) fresh();
  x.t2d_reset();
  const data = x.t2d_room(n + 1) >>> 0;
  const img = x.t2d_room(4 * len + 4) >>> 0;
  new Uint8Array(x.memory.buffer, data, n).set(c.subarray(32, 32 + n));
  let px = new DataView(x.memory.buffer, img, 4 * len);
  for (let i = 0; i < len; i++) px.setUint32(4 * i, 0xdeadbeef, true);
  let r;
  try { r = x.t2d_call(op, block, a, b, data, n, w, h, img, len); } catch (e) { r = 2; }
  const out = Buffer.alloc(4 + 1 + 4 * len);
  out.writeUInt32LE(1 + 4 * len, 0);
  out[4] = r;
  out.set(new Uint8Array(x.memory.buffer, img, 4 * len), 5);
  if (r === 2) fresh();
  write(out);
}
