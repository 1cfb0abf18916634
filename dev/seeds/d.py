I = "gyp/pylib/gyp/input.py"
B = "lib/build.js"

seed("p25-nested-include-global", "P25", [(I, "            LoadBuildFileIncludesIntoDict(v, subdict_path, data, aux_data, None, check)\n", "            LoadBuildFileIncludesIntoDict(v, subdict_path, data, aux_data, includes, check)\n")], """
from h import *
def demo():
    write({"g.gypi": {"target_defaults": {"defines": ["GLOBAL"]}},
           "a.gyp": {"target_defaults": {"defines": ["OWN"]}, "targets": [{"target_name": "t", "type": "none", "variables": {"x": "1"}}]}})
    rc, out = gyp("-I", D + "/g.gypi", "a.gyp")
    if rc:
        return out
    t = target(data("a.gypd"), "t")
    d = t["configurations"]["Default"]["defines"]
    if d != ["OWN", "GLOBAL"]:
        return "got %r" % d
    if "target_defaults" in t or "target_defaults" in t["configurations"]["Default"]:
        return "included into a section"
main(demo)
""", "an include given with -I while the build file has nested sections", "the file given on the command line is merged into every section of the build file", kind="py")

seed("p25-depth-of-first-file", "P25", [(I, "        d = gyp.common.RelativePath(depth, os.path.dirname(build_file_path))\n", "        d = variables.get(\"DEPTH\") or gyp.common.RelativePath(depth, os.path.dirname(build_file_path))\n")], """
from h import *
def demo():
    t = lambda n, *deps: {"targets": [{"target_name": n, "type": "none", "include_dirs": [], "defines": ["D=<(DEPTH)"], "dependencies": list(deps)}]}
    write({"a.gyp": t("a", "x/y/b.gyp:b"), "x/y/b.gyp": t("b")})
    rc, out = gyp("a.gyp")
    if rc:
        return out
    d = target(data("x/y/b.gypd"), "b")["configurations"]["Default"]["defines"]
    if d != ["D=../.."]:
        return "got %r" % d
main(demo)
""", "a dependency in a build file of another directory that uses DEPTH", "the dependency's DEPTH is that of the first file", kind="py")

BUILD = """
const { gyp, repo, scratch, main, fs, path } = require('./h')
const { EventEmitter } = require('events')
// runs the build command in scratch; nothing is started
async function build (opts, conf, argv) {
  const g = gyp(opts)
  const log = require(path.join(repo, 'lib/log.js'))
  process.chdir(scratch)
  fs.mkdirSync('build', { recursive: true })
  const c = { target_defaults: { default_configuration: 'Release' }, variables: { target_arch: 'x64', nodedir: '/nd', python: '/no/python3', msbuild_path: 'C:/MSBuild.exe' } }
  Object.assign(c.target_defaults, conf)
  fs.writeFileSync('build/config.gypi', '# generated\\n' + JSON.stringify(c, null, 2) + '\\n')
  let got
  const bin = path.join(scratch, 'bin')
  fs.mkdirSync(bin, { recursive: true })
  fs.writeFileSync(path.join(bin, 'make'), '#!/bin/sh\\n', { mode: 0o755 })
  const PATH = process.env.PATH
  process.env.PATH = bin + ':' + PATH
  g.spawn = (cmd, args) => {
    got = { cmd, args: args.map(String), links: fs.existsSync('build/node_gyp_bins') ? fs.readdirSync('build/node_gyp_bins') : [] }
    const p = new EventEmitter()
    setImmediate(() => p.emit('exit', 0, null))
    return p
  }
  await require(path.join(repo, 'lib/build.js'))(g, argv || [])
  process.env.PATH = PATH
  return got
}
main(async () => {
"""
seed("p26-no-debug", "P26", [(B, "buildType = gyp.opts.debug ? 'Debug' : 'Release'", "buildType = gyp.opts.debug ? 'Debug' : buildType")], BUILD + """
  const r = await build({ debug: false }, { default_configuration: 'Debug' })
  if (!r.args.includes('BUILDTYPE=Release')) return 'started with ' + r.args
})
""", "a module configured with --debug and then built with --no-debug", "the build of the release configuration builds the debug one")

seed("p26-jobs-zero", "P26", [(B, "        if (!isNaN(j) && j > 0) {\n          argv.push('--jobs')", "        if (!isNaN(j) && j >= 0) {\n          argv.push('--jobs')")], BUILD + """
  const r = await build({ jobs: '0' }, {})
  if (r.args.some((a) => a.startsWith('-j') || a === '--jobs')) return 'started with ' + r.args
  const s = await build({ jobs: '3' }, {})
  if (!/--jobs[ =]?3|-j ?3/.test(s.args.join(' '))) return 'started with ' + s.args
})
""", "--jobs 0 (or JOBS=0), which means no explicit number of jobs", "make is started with zero jobs and refuses to run")
