'use strict'
// Helpers of a demonstration: everything happens below a scratch directory that is removed again.
const fs = require('fs')
const path = require('path')
const os = require('os')
const http = require('http')
const crypto = require('crypto')
const zlib = require('zlib')

const repo = process.cwd()
const scratch = fs.realpathSync(fs.mkdtempSync(path.join(os.tmpdir(), 'demo-')))
process.on('exit', () => fs.rmSync(scratch, { recursive: true, force: true }))

// minimal ustar writer
function tarball (files) {
  const blocks = []
  for (const [name, data] of Object.entries(files)) {
    const body = Buffer.from(data)
    const h = Buffer.alloc(512)
    h.write(name, 0)
    h.write('0000644\0', 100); h.write('0000000\0', 108); h.write('0000000\0', 116)
    h.write(body.length.toString(8).padStart(11, '0') + '\0', 124)
    h.write('00000000000\0', 136)
    h.write('        ', 148)
    h.write('0', 156)
    h.write('ustar\x0000', 257)
    let sum = 0
    for (const b of h) sum += b
    h.write(sum.toString(8).padStart(6, '0') + '\0 ', 148)
    blocks.push(h, body, Buffer.alloc((512 - body.length % 512) % 512))
  }
  blocks.push(Buffer.alloc(1024))
  return zlib.gzipSync(Buffer.concat(blocks))
}
const sha = (b) => crypto.createHash('sha256').update(b).digest('hex')

// serve(routes): routes maps a path suffix to {status, body} or a function
function serve (routes) {
  const hits = []
  const server = http.createServer((req, res) => {
    hits.push(req.url)
    const k = Object.keys(routes).find((k) => req.url.endsWith(k))
    const r = k ? (typeof routes[k] === 'function' ? routes[k](req) : routes[k]) : { status: 404, body: 'no' }
    res.writeHead(r.status || 200)
    res.end(r.body)
  })
  return new Promise((resolve) => server.listen(0, '127.0.0.1', () => resolve({
    url: `http://127.0.0.1:${server.address().port}`, hits, close: () => { server.closeAllConnections?.(); server.close() }
  })))
}

function gyp (opts) {
  const Gyp = require(path.join(repo, 'lib/node-gyp.js'))
  const g = Gyp()
  require(path.join(repo, 'lib/log.js')).logger.level = 'silent'
  g.opts = Object.assign({ argv: { remain: [] } }, opts)
  g.todo = []
  g.devDir = path.join(scratch, 'devdir')
  return g
}
const headers = (v) => tarball({ [`node-v${v}/include/node/node.h`]: '// h', [`node-v${v}/include/node/common.gypi`]: '{}' })

function main (fn) {
  const t = setTimeout(() => { console.log('FAIL: timed out'); process.exit(1) }, 60000)
  fn().then((msg) => { clearTimeout(t); console.log(msg ? 'FAIL: ' + msg : 'ok'); process.exit(msg ? 1 : 0) },
    (err) => { console.log('FAIL:', err); process.exit(1) })
}
module.exports = { repo, scratch, tarball, sha, serve, gyp, headers, main, fs, path, os }
