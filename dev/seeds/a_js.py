I = "lib/install.js"
seed("p01-unlisted-checksum", "P01", [(I, "if (contentShasums[k] !== expectShasums[k]) {", "if (k in expectShasums && contentShasums[k] !== expectShasums[k]) {")], """
const { gyp, serve, headers, main, fs, path } = require('./h')
main(async () => {
  // a SHASUMS256.txt that does not list the headers tarball
  const s = await serve({ '-headers.tar.gz': { body: headers('18.0.0') }, 'SHASUMS256.txt': { body: 'aaaa  ./node-v18.0.0.tar.gz\\n' } })
  const g = gyp({ 'dist-url': s.url })
  let err
  try { await g.commands.install(['18.0.0']) } catch (e) { err = e }
  s.close()
  if (!err) return 'unverified headers were accepted'
  if (fs.existsSync(path.join(g.devDir, '18.0.0', 'installVersion'))) return 'marker left'
})
""", "a SHASUMS256.txt which has no entry for the downloaded file", "headers whose checksum is not listed are installed and certified")

seed("p02-reinstall-no-rollback", "P02", [(I, """      log.verbose('install', 'version is no good; reinstalling')
      try {
        return await go()
""", """      log.verbose('install', 'version is no good; reinstalling')
      try {
        return go()
""")], """
const { gyp, serve, main, fs, path } = require('./h')
main(async () => {
  const s = await serve({ '-headers.tar.gz': { status: 503, body: 'busy' } })
  const g = gyp({ 'dist-url': s.url, ensure: true })
  const d = path.join(g.devDir, '18.0.0')
  fs.mkdirSync(d, { recursive: true })
  fs.writeFileSync(path.join(d, 'installVersion'), '1\\n')
  let err
  try { await g.commands.install(['18.0.0']) } catch (e) { err = e }
  s.close()
  if (!err || !/503/.test(err.message)) return 'wrong outcome ' + err
  if (fs.existsSync(d)) return 'the failed install was not rolled back'
})
""", "--ensure with an outdated version directory, and a failing download", "a failed reinstall leaves the half-installed directory behind")

seed("p03-garbage-marker", "P03", [(I, "installVersion = parseInt(ver, 10) || 0", "installVersion = parseInt(ver, 10)")], """
const { gyp, serve, headers, sha, main, fs, path } = require('./h')
main(async () => {
  const t = headers('18.0.0')
  const s = await serve({ '-headers.tar.gz': { body: t }, 'SHASUMS256.txt': { body: sha(t) + '  node-v18.0.0-headers.tar.gz\\n' } })
  const g = gyp({ 'dist-url': s.url, ensure: true })
  const d = path.join(g.devDir, '18.0.0')
  fs.mkdirSync(d, { recursive: true })
  fs.writeFileSync(path.join(d, 'installVersion'), '') // torn write of an earlier run
  await g.commands.install(['18.0.0'])
  s.close()
  if (!fs.existsSync(path.join(d, 'include/node/node.h'))) return 'directory with an unreadable marker was taken as up to date'
})
""", "an installVersion file that is empty or not a number (torn write)", "--ensure accepts a directory whose marker is garbage")

seed("p04-prerelease-below-minimum", "P04", [(I, "if (semver.lt(release.version, '0.8.0')) {", "if (semver.satisfies(release.version, '<0.8.0')) {")], """
const { gyp, serve, main } = require('./h')
main(async () => {
  const s = await serve({})
  const g = gyp({ 'dist-url': s.url })
  let err
  try { await g.commands.install(['0.7.10-rc1']) } catch (e) { err = e }
  s.close()
  if (!err || !/Minimum target version/.test(err.message)) return 'not rejected by the version gate: ' + err
  if (s.hits.length) return 'downloaded ' + s.hits
})
""", "a prerelease version below 0.8.0 (semver ranges never match those)", "an unsupported version reaches the download")

seed("p05-arch-traversal", "P05", [(I, "const { libUrl, libPath } = release[arch]", "const { libUrl, libPath } = release[arch] || release.x64")], """
const h = require('./h')
const { serve, headers, sha, main, fs, path, os } = h
Object.defineProperty(process, 'platform', { value: 'win32' })
main(async () => {
  const tmp = path.join(h.scratch, 'a/b/c/tmp')
  fs.mkdirSync(tmp, { recursive: true })
  os.tmpdir = () => tmp
  const t = headers('18.0.0')
  const lib = 'LIB'
  const s = await serve({
    '-headers.tar.gz': { body: t }, 'node.lib': { body: lib },
    'SHASUMS256.txt': { body: sha(t) + '  node-v18.0.0-headers.tar.gz\\n' + sha(lib) + '  win-x64/node.lib\\n' }
  })
  const g = h.gyp({ 'dist-url': s.url, arch: '../../../escape' })
  try { await g.commands.install(['18.0.0']) } catch (e) {}
  s.close()
  if (fs.existsSync(path.join(h.scratch, 'a/escape')) || fs.existsSync(path.join(h.scratch, 'a/b/escape')) || fs.existsSync(path.join(h.scratch, 'escape'))) return 'wrote outside the version directory'
})
""", "Windows, and --arch set to a relative path that leaves the directory", "the import library is written outside the directories node-gyp owns")

seed("p06-retry-marker-position", "P06", [(I, "if (argv.indexOf(noretry) !== -1) {", "if (argv[0] === noretry) {")], """
const h = require('./h')
const { main, path, os } = h
main(async () => {
  os.tmpdir = () => path.join(h.scratch, 'tmp')
  const gfs = require('graceful-fs')
  let n = 0
  gfs.promises.mkdir = async (p) => {
    if (++n > 5) throw new Error('endless retry')
    const e = new Error('no access ' + p); e.code = 'EACCES'; e.first = n === 1; throw e
  }
  const g = h.gyp({ })
  let err
  try { await g.commands.install(['18.0.0']) } catch (e) { err = e }
  if (!err) return 'no error'
  if (n > 2) return 'retried ' + n + ' times'
})
""", "the temporary devdir is not writable either and a version was given", "the EACCES fallback retries forever")

seed("p07-noproxy-env", "P07", [("lib/download.js", "noProxy: gyp.opts.noproxy", "noProxy: gyp.opts.proxy ? gyp.opts.noproxy : undefined")], """
const h = require('./h')
const { serve, main, path, repo } = h
main(async () => {
  const s = await serve({ 'x.txt': { body: 'direct' } })
  const proxy = await serve({ 'x.txt': { body: 'via proxy' } })
  process.env.HTTP_PROXY = process.env.http_proxy = process.env.PROXY = process.env.proxy = proxy.url
  const { download } = require(path.join(repo, 'lib/download.js'))
  require(path.join(repo, 'lib/log.js')).logger.level = 'silent'
  const res = await download({ version: '1', opts: { noproxy: '127.0.0.1' } }, s.url + '/x.txt')
  const t = await res.text()
  s.close(); proxy.close()
  if (t !== 'direct' || proxy.hits.length) return 'the request went through the proxy in spite of --noproxy'
})
""", "the proxy comes from the environment, --noproxy from node-gyp's options", "--noproxy is ignored for proxies configured by environment")

seed("p08-completed-too-early", "P08", [("bin/node-gyp.js", "  const command = prog.todo.shift()\n", "  const command = prog.todo.shift()\n  completed = prog.todo.length === 0\n")], """
const h = require('./h')
const { main, path, repo, fs } = h
const cp = require('child_process')
main(async () => {
  // a last command whose promise never settles while the event loop runs dry
  const pre = path.join(h.scratch, 'pre.js')
  fs.writeFileSync(pre, `const p = require.resolve(${JSON.stringify(path.join(repo, 'lib/clean.js'))})
require.cache[p] = { id: p, filename: p, loaded: true, exports: () => new Promise(() => {}) }`)
  const r = cp.spawnSync(process.execPath, ['-r', pre, path.join(repo, 'bin/node-gyp.js'), 'clean'], { cwd: h.scratch, encoding: 'utf8' })
  if (r.status === 0) return 'exit status 0 although the command never completed'
})
""", "the last command's promise never settles and the event loop drains", "node-gyp exits 0 although its work never completed")

seed("p09-gyp-killed", "P09", [("lib/configure.js", "        if (code !== 0) {\n          reject", "        if (code) {\n          reject")], """
const h = require('./h')
const { main, path, fs } = h
const { EventEmitter } = require('events')
main(async () => {
  const dir = path.join(h.scratch, 'mod')
  fs.mkdirSync(path.join(dir, 'node/include/node'), { recursive: true })
  fs.writeFileSync(path.join(dir, 'node/include/node/config.gypi'), "{'variables': {}, 'target_defaults': {}}")
  fs.writeFileSync(path.join(dir, 'node/include/node/node_version.h'), '')
  process.chdir(dir)
  const g = h.gyp({ nodedir: path.join(dir, 'node'), python: 'python3' })
  g.spawn = () => { const e = new EventEmitter(); setTimeout(() => e.emit('exit', null, 'SIGKILL'), 10); return e }
  let err
  try { await g.commands.configure([]) } catch (e) { err = e }
  process.chdir(h.repo)
  if (!err) return 'gyp was killed by a signal and configure reported success'
})
""", "gyp is killed by a signal (exit code null)", "configure succeeds although gyp never generated the build files")
