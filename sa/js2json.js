// Parse JS files with acorn and print one JSON object {file: ESTree}.
'use strict'
const fs = require('fs')
const path = require('path')
const acorn = require(path.join(__dirname, '..', 'vendor', 'acorn.js'))
const norm = require('./jsnorm.js')
const out = {}
for (const f of process.argv.slice(2)) {
  const src = fs.readFileSync(f, 'utf8')
  out[f] = norm(acorn.parse(src, { ecmaVersion: 'latest', sourceType: 'script', locations: true, allowHashBang: true, allowReturnOutsideFunction: true }))
}
process.stdout.write(JSON.stringify(out, (k, v) => {
  if (typeof v === 'bigint') return { bigint: String(v) }
  if (v instanceof RegExp) return undefined
  return v
}))
