FP, FV, CC, CO, RE, UT = "lib/find-python.js", "lib/find-visualstudio.js", "lib/create-config-gypi.js", "lib/configure.js", "lib/process-release.js", "lib/util.js"

seed("p10-no-version", "P10", [(FP, "      if (!valid) {", "      if (version && !valid) {")], """
const { gyp, repo, scratch, main, fs, path } = require('./h')
main(async () => {
  gyp({})
  const bad = path.join(scratch, 'oldpython')
  // knows where it is, but prints no version
  fs.writeFileSync(bad, `#!/bin/sh\\ncase "$2" in *executable*) printf '%s' '${bad}' ;; esac\\n`, { mode: 0o755 })
  delete process.env.NODE_GYP_FORCE_PYTHON
  delete process.env.PYTHON
  const found = await require(path.join(repo, 'lib/find-python.js')).findPython(bad)
  if (found === bad) return 'a program that prints no version was taken as a supported Python'
})
""", "a configured Python which answers with its path but prints no version", "a program whose version is unknown is used as Python")

seed("p11-newer-without-sdk", "P11", [(FV, "        this.addLog('- missing any Windows SDK')\\n        continue\\n".replace("\\n", "\n"), "        this.addLog('- missing any Windows SDK')\n")], """
const { gyp, repo, main, path } = require('./h')
main(async () => {
  gyp({})
  const F = require(path.join(repo, 'lib/find-visualstudio.js'))
  const f = new F({ major: 22 }, null)
  f.msBuildPathExists = () => true
  const pk = ['Microsoft.VisualStudio.VC.MSBuild.Base', 'Microsoft.VisualStudio.Component.VC.Tools.x86.x64', 'Microsoft.VisualStudio.Component.VC.Tools.ARM64']
  const info = await f.processData([
    { path: '/vs22', version: '17.4.1', packages: pk },
    { path: '/vs19', version: '16.1.1', packages: pk.concat('Microsoft.VisualStudio.Component.Windows10SDK.17763') }
  ], [2019, 2022])
  if (!info || !info.path.endsWith('vs19')) return 'chose ' + (info && info.path)
})
""", "a newer Visual Studio without a Windows SDK beside a complete older one", "an incomplete Visual Studio is chosen")

seed("p12-false-option", "P12", [(CC, "    if (opt in gyp.configDefs) {\n", "    if (opt in gyp.configDefs || !gyp.opts[opt]) {\n")], """
const { gyp, repo, scratch, main, path, fs } = require('./h')
main(async () => {
  const g = gyp({ 'use-feature': false, other: 'x' })
  const { createConfigGypi } = require(path.join(repo, 'lib/create-config-gypi.js'))
  const p = await createConfigGypi({ gyp: g, buildDir: scratch, nodeDir: scratch, vsInfo: {}, python: '/py' })
  const c = JSON.parse(fs.readFileSync(p, 'utf8').replace(/^#.*$/mg, ''))
  if (c.variables.other !== 'x') return 'other'
  if (c.variables.use_feature !== 'false') return 'use_feature is ' + c.variables.use_feature
})
""", "an option that is switched off (--no-use-feature)", "switched off options do not reach the build files")

seed("p14-tilde-in-nodedir", "P14", [(CO, "gyp.opts.nodedir.replace(/^~/, os.homedir())", "gyp.opts.nodedir.replace(/~/, os.homedir())")], """
const { gyp, repo, scratch, main, path, fs } = require('./h')
main(async () => {
  process.chdir(scratch)
  const nd = path.join(scratch, 'node~18')
  fs.mkdirSync(nd)
  const g = gyp({ nodedir: nd })
  let argv
  g.spawn = (c, a) => { argv = a; return { on: (e, f) => setImmediate(f, 0) } }
  await require(path.join(repo, 'lib/configure.js'))(g, [])
  if (!argv.includes('-Dnode_root_dir=' + nd)) return 'compiles against ' + argv.filter((a) => /root_dir/.test(a))
})
""", "a --nodedir with a ~ that is not its first character (an 8.3 name)", "the build compiles against a directory the user did not name")

seed("p15-open-regex", "P15", [("lib/install.js", "    const extname = path.extname(file)\n    return extname === '.h' || extname === '.gypi'\n", "    return /\\.(h|gypi)/.test(file)\n")], """
const { gyp, serve, tarball, sha, main, fs, path } = require('./h')
main(async () => {
  const t = tarball({ 'node-v18.0.0/include/node/node.h': '// h', 'node-v18.0.0/include/node/common.gypi': '{}', 'node-v18.0.0/bin/x.html': 'no' })
  const s = await serve({ '-headers.tar.gz': { body: t }, 'SHASUMS256.txt': { body: sha(t) + '  node-v18.0.0-headers.tar.gz\\n' } })
  const g = gyp({ 'dist-url': s.url })
  await g.commands.install(['18.0.0'])
  s.close()
  const d = path.join(g.devDir, '18.0.0')
  if (!fs.existsSync(path.join(d, 'include/node/node.h'))) return 'no headers'
  if (fs.existsSync(path.join(d, 'bin/x.html'))) return 'a file that is no header was installed'
})
""", "an archive with a file like x.html or x.hpp", "other files than headers and gypi files are installed")

seed("p17-python-with-space", "P17", [(FP, "const opts = { env, shell }", "const opts = { env, shell: shell || / /.test(exec) }")], """
const { gyp, repo, scratch, main, fs, path } = require('./h')
main(async () => {
  gyp({})
  process.chdir(scratch)
  delete process.env.NODE_GYP_FORCE_PYTHON
  delete process.env.PYTHON
  try { await require(path.join(repo, 'lib/find-python.js')).findPython('touch pwned #') } catch {}
  if (fs.existsSync(path.join(scratch, 'pwned'))) return 'the configured Python was run by a shell'
})
""", "a Python path with a space", "the configured Python path is interpreted by a shell")

seed("p18-mirror-over-option", "P18", [(RE, "  if (!overrideDistUrl && process.env.NODEJS_ORG_MIRROR) {", "  if (process.env.NODEJS_ORG_MIRROR) {")], """
const { gyp, repo, main, path } = require('./h')
main(async () => {
  process.env.NODEJS_ORG_MIRROR = 'http://mirror.invalid/'
  const g = gyp({ 'dist-url': 'http://chosen.invalid' })
  const r = require(path.join(repo, 'lib/process-release.js'))(['18.0.0'], g, 'v22.0.0', null)
  if (!r.tarballUrl.startsWith('http://chosen.invalid/')) return 'downloads from ' + r.tarballUrl
})
""", "--dist-url together with NODEJS_ORG_MIRROR in the environment", "the download comes from another place than the one asked for")

seed("p19-env-underscores", "P19", [("lib/node-gyp.js", "name = name.replace(/_/g, '-')", "name = name.replace('_', '-')")], """
const { gyp, main } = require('./h')
main(async () => {
  process.env.npm_config_some_long_name = 'v'
  const g = gyp({})
  g.parseArgv(['node', 'node-gyp', 'list'])
  if (g.opts['some-long-name'] !== 'v') return 'the option was not taken over: ' + Object.keys(g.opts)
})
""", "an npm option whose name has two dashes", "options given through npm with several dashes are lost")
