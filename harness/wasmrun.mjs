// Runs wasm programs named on stdin, one per line, with a minimal WASI that
// captures stdout.  Answers one JSON line per program.
import fs from 'node:fs'
import readline from 'node:readline'

class Exit extends Error { constructor(c) { super('exit'); this.code = c } }

async function run(req) {
  const out = []
  let n = 0
  let memory = null
  const args = (req.args || ['prog']).map(s => Buffer.from(s + '\0'))
  const stdin = Buffer.from(req.stdin || '', 'base64')
  let inpos = 0
  const view = () => new DataView(memory.buffer)
  const wasi = {
    fd_write(fd, iovs, cnt, pn) {
      const dv = view()
      let w = 0
      for (let i = 0; i < cnt; i++) {
        const p = dv.getUint32(iovs + i * 8, true), l = dv.getUint32(iovs + i * 8 + 4, true)
        if (fd === 1 || fd === 2) {
          if (fd === 1 && n < (1 << 22)) out.push(Buffer.from(new Uint8Array(memory.buffer, p, l)))
          n += l
          if (n > (1 << 23)) throw new Exit(99)
        } else return 8
        w += l
      }
      dv.setUint32(pn, w, true)
      return 0
    },
    fd_read(fd, iovs, cnt, pn) {
      const dv = view()
      let r = 0
      if (fd !== 0) return 8
      for (let i = 0; i < cnt; i++) {
        const p = dv.getUint32(iovs + i * 8, true), l = dv.getUint32(iovs + i * 8 + 4, true)
        const k = Math.min(l, stdin.length - inpos)
        new Uint8Array(memory.buffer, p, k).set(stdin.subarray(inpos, inpos + k))
        inpos += k
        r += k
        if (k < l) break
      }
      dv.setUint32(pn, r, true)
      return 0
    },
    args_sizes_get(pc, ps) {
      view().setUint32(pc, args.length, true)
      view().setUint32(ps, args.reduce((a, b) => a + b.length, 0), true)
      return 0
    },
    args_get(pv, pb) {
      for (const a of args) {
        view().setUint32(pv, pb, true)
        new Uint8Array(memory.buffer, pb, a.length).set(a)
        pv += 4
        pb += a.length
      }
      return 0
    },
    proc_exit(c) { throw new Exit(c) },
    fd_prestat_get() { return 8 },
  }
  const stub = name => () => 52
  const imports = { wasi_snapshot_preview1: new Proxy(wasi, { get: (t, k) => t[k] || stub(k), has: () => true }), ...(req.env ? { env: {} } : {}),
    ...(req.bare ? { env: { outll(v) { if ((n += 1) > (1 << 20)) throw new Exit(99); out.push(Buffer.from(v + '\n')) } } } : {}) }
  let code = 0, err = '', vals
  try {
    const mod = new WebAssembly.Module(fs.readFileSync(req.file))
    const inst = new WebAssembly.Instance(mod, imports)
    memory = inst.exports.memory
    globalThis.last = inst
    if (req.call) {
      const vals = []
      for (const [f, ...a] of req.call) vals.push(String(inst.exports[f](...a.map(x => typeof x === 'string' ? BigInt(x) : x))))
      return { code: 0, err: '', vals, out: Buffer.concat(out).toString('base64') }
    }
    if (req.bare) inst.exports[req.bare]()
    else inst.exports._start()
  } catch (e) {
    if (e instanceof Exit) code = e.code
    else { code = -1; err = String(e && e.stack || e).slice(0, 400) }
  }
  if (code === 0 && req.after) {        // functions called once the program has ended
    vals = []
    for (const [f, ...a] of req.after) {
      try { vals.push(String(globalThis.last.exports[f](...a.map(BigInt)))) } catch (e) { vals.push('error: ' + e) }
    }
  }
  return { code, err, vals, out: Buffer.concat(out).toString('base64') }
}

const rl = readline.createInterface({ input: process.stdin })
for await (const line of rl) {
  let r
  try { r = await run(JSON.parse(line)) } catch (e) { r = { code: -2, err: String(e), out: '' } }
  process.stdout.write(JSON.stringify(r) + '\n')
}
