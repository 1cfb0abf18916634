WIN = """
const h = require('./h')
const { serve, headers, sha, main, fs, path, os } = h
Object.defineProperty(process, 'platform', { value: 'win32' })
const tmp = path.join(h.scratch, 'tmp')
fs.mkdirSync(tmp, { recursive: true })
os.tmpdir = () => tmp
async function again (opts, prepare) {
  const t = headers('18.0.0')
  const lib = 'LIB'
  const s = await serve({
    '-headers.tar.gz': { body: t }, 'node.lib': { body: lib },
    'SHASUMS256.txt': { body: sha(t) + '  node-v18.0.0-headers.tar.gz\\n' + sha(lib) + '  win-x64/node.lib\\n' }
  })
  const g = h.gyp({ 'dist-url': s.url, ensure: true, arch: 'x64', ...opts })
  const d = path.join(g.devDir, '18.0.0')
  fs.mkdirSync(path.join(d, 'include/node'), { recursive: true })
  fs.writeFileSync(path.join(d, 'include/node/node.h'), '// h')
  fs.writeFileSync(path.join(d, 'installVersion'), g.package.installVersion + '\\n')
  if (prepare) prepare(g, d)
  let err
  try { await g.commands.install(['18.0.0']) } catch (e) { err = e }
  s.close()
  return { g, d, err }
}
"""

seed("p01-lib-not-copied", "P01", [("lib/install.js", "      if (tarExtractDir !== devDir) {\n        await copyDirectory(", "      if (shouldDownloadTarball && tarExtractDir !== devDir) {\n        await copyDirectory(")], WIN + """
main(async () => {
  const { d, err } = await again()
  if (err) return 'failed: ' + err
  if (!fs.existsSync(path.join(d, 'x64/node.lib'))) return 'installed without the import library'
})
""", "Windows, --ensure, headers already installed, import library of the architecture missing", "the import library is downloaded, then thrown away, and the directory certified")

seed("p02-temp-left-behind", "P02", [("lib/install.js", "    } finally {\n      if (tarExtractDir !== devDir) {\n", "    } finally {\n      if (extractCount > 0 && tarExtractDir !== devDir) {\n")], WIN + """
main(async () => {
  const { err } = await again()
  if (err) return 'failed: ' + err
  if (fs.readdirSync(tmp).length) return 'left behind ' + fs.readdirSync(tmp)
})
""", "Windows, and an install that ends before a file was unpacked (or needs only the import library)", "temporary extraction directories pile up")

seed("p06-lib-denied", "P06", [("lib/install.js", """            return rollback(err)
          }
        } else if (err.code === 'EACCES') {
          return eaccesFallback(err)
        }
        throw err
      }
    }
  } else {""", """            return rollback(err)
          }
        }
        throw err
      }
    }
  } else {""")], WIN + """
main(async () => {
  const { g, err } = await again({}, (g, d) => {
    const gfs = require('graceful-fs')
    const stat = gfs.promises.stat
    gfs.promises.stat = async (p, ...a) => {
      if (String(p).startsWith(d) && String(p).endsWith('node.lib')) { const e = new Error('no access'); e.code = 'EACCES'; throw e }
      return stat.call(gfs.promises, p, ...a)
    }
  })
  if (err) return 'failed: ' + err
  if (g.devDir !== path.join(tmp, '.node-gyp')) return 'not retried in the temporary directory but in ' + g.devDir
})
""", "Windows, --ensure, and an architecture directory of the devdir that may not be read", "the install fails although the temporary directory could be used")

seed("p03-lib-dir-exists", "P03", [("lib/install.js", "      await fs.mkdir(dir, { recursive: true })\n      log.verbose('streaming'", "      await fs.mkdir(path.dirname(dir), { recursive: true })\n      await fs.mkdir(dir)\n      log.verbose('streaming'")], """
const h = require('./h')
const { serve, headers, sha, main, fs, path, os } = h
Object.defineProperty(process, 'platform', { value: 'win32' })
main(async () => {
  const tmp = path.join(h.scratch, 'tmp')
  fs.mkdirSync(tmp, { recursive: true })
  os.tmpdir = () => tmp
  // an archive that has a header in a directory named like the architecture
  const t = h.tarball({ 'node-v18.0.0/include/node/node.h': '// h', 'node-v18.0.0/x64/arch.h': '// a' })
  const s = await serve({
    '-headers.tar.gz': { body: t }, 'node.lib': { body: 'LIB' },
    'SHASUMS256.txt': { body: sha(t) + '  node-v18.0.0-headers.tar.gz\\n' + sha('LIB') + '  win-x64/node.lib\\n' }
  })
  const g = h.gyp({ 'dist-url': s.url, arch: 'x64' })
  let err
  try { await g.commands.install(['18.0.0']) } catch (e) { err = e }
  s.close()
  if (err) return 'failed: ' + err
})
""", "Windows, and an archive that already has a directory named like the architecture", "the install fails on a directory that is there already")

seed("p08-clean-not-awaited", "P08", [("lib/clean.js", "  await fs.rm(buildDir, { recursive: true, force: true })", "  fs.rm(buildDir, { recursive: true, force: true })\n    .catch((err) => log.warn('clean', err.message))")], """
const h = require('./h')
const { main, fs, path } = h
main(async () => {
  process.chdir(h.scratch)
  fs.mkdirSync('build/deep', { recursive: true })
  fs.writeFileSync('build/deep/x', 'x')
  const g = h.gyp({})
  await g.commands.clean([])
  if (fs.existsSync('build')) return 'clean is done and build is still there'
  process.chdir('/')
})
""", "a command that runs after clean in the same invocation (rebuild), or a build directory that cannot be removed", "clean reports success before, and even if, nothing was removed")

seed("p13-pythonpath-first", "P13", [("lib/configure.js", "      pypath.push(process.env.PYTHONPATH)", "      pypath.unshift(process.env.PYTHONPATH)")], """
const { gyp, repo, scratch, main, path, fs } = require('./h')
main(async () => {
  process.chdir(scratch)
  const nd = path.join(scratch, 'nd')
  fs.mkdirSync(nd)
  const g = gyp({ nodedir: nd })
  process.env.PYTHONPATH = '/my/modules'
  let env
  g.spawn = (c, a) => { env = process.env.PYTHONPATH; return { on: (e, f) => setImmediate(f, 0) } }
  await require(path.join(repo, 'lib/configure.js'))(g, [])
  if (!env.startsWith(path.join(repo, 'gyp', 'pylib'))) return 'the module path is ' + env
})
""", "PYTHONPATH set by the user, with a gyp package of its own", "a gyp package of the user shadows the one that came with node-gyp")

seed("p34-make-first-argument", "P34", [("lib/configure.js", "for (let i = argv.length - 1; i >= 0; --i) {", "for (let i = argv.length - 1; i > 0; --i) {")], """
const { gyp, repo, scratch, main, path, fs } = require('./h')
main(async () => {
  process.chdir(scratch)
  Object.defineProperty(process, 'platform', { value: 'win32' })
  const nd = path.join(scratch, 'nd')
  fs.mkdirSync(nd)
  const vs = require.resolve(path.join(repo, 'lib/find-visualstudio.js'))
  const py = require.resolve(path.join(repo, 'lib/find-python.js'))
  require.cache[py] = { id: py, filename: py, loaded: true, exports: { findPython: async () => 'python3' } }
  let looked = 0
  require.cache[vs] = { id: vs, filename: vs, loaded: true, exports: { findVisualStudio: async () => { looked++; return { versionYear: 2022, path: 'C:' } } } }
  for (const [args, n] of [[[], 1], [['-f', 'make'], 0], [['-Dx=1', '-f', 'make'], 0]]) {
    looked = 0
    const g = gyp({ nodedir: nd })
    g.spawn = () => ({ on: (e, f) => setImmediate(f, 0) })
    await require(path.join(repo, 'lib/configure.js'))(g, args)
    if (looked !== n) return 'Visual Studio was looked for ' + looked + ' times with ' + args
  }
})
""", "Windows without Visual Studio, and -f make as the first argument for gyp", "configure needs a Visual Studio that the make generator does not")

seed("p34-zoslib-version-text", "P34", [("lib/configure.js", "} else if (release.version.split('.')[0] >= 16) {", "} else if (release.version >= '16') {")], """
const { gyp, repo, scratch, main, path, fs } = require('./h')
main(async () => {
  process.chdir(scratch)
  Object.defineProperty(process, 'platform', { value: 'os390' })
  delete process.env.ZOSLIB_INCLUDES
  const root = path.join(scratch, 'root')
  fs.mkdirSync(path.join(root, 'lib'), { recursive: true })
  fs.writeFileSync(path.join(root, 'lib/libnode.x'), '')
  const fnd = require.resolve(path.join(repo, 'lib/find-node-directory.js'))
  require.cache[fnd] = { id: fnd, filename: fnd, loaded: true, exports: () => root }
  for (const [target, ok] of [['18.1.0', false], ['14.2.0', true], ['8.17.0', true]]) {
    const g = gyp({ nodedir: root, target })
    let started = false
    g.spawn = () => { started = true; return { on: (e, f) => setImmediate(f, 0) } }
    await require(path.join(repo, 'lib/configure.js'))(g, []).catch(() => {})
    if (started !== ok) return 'configure for ' + target + (ok ? ' failed' : ' went on')
  }
})
""", "z/OS, and headers of a version of one digit, which have no zoslib", "configure fails for these versions because of a zoslib that is not needed")
