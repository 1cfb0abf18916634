IN="lib/install.js"; BU="lib/build.js"; NG="lib/node-gyp.js"; RM="lib/remove.js"; DL="lib/download.js"; BIN="bin/node-gyp.js"; CF="lib/configure.js"; LS="lib/list.js"; CL="lib/clean.js"; PR="lib/process-release.js"; UT="lib/util.js"
B="bad"
ADV=[
("P01","warn-count",B,[(IN,"if (extractErrors || extractCount === 0) {","if (extractErrors && extractCount === 0) {")]),
("P01","count-only",B,[(IN,"if (extractErrors || extractCount === 0) {","if (extractCount === 0) {")]),
("P01","status-range",B,[(IN,"            if (res.status !== 200) {\n              throw new Error(`${res.status} response","            if (res.status >= 400) {\n              throw new Error(`${res.status} response")]),
("P01","shasum-break",B,[(IN,"        if (contentShasums[k] !== expectShasums[k]) {","        if (expectShasums[k] && contentShasums[k] !== expectShasums[k]) {")]),
("P01","shasum-prefix",B,[(IN,"        if (contentShasums[k] !== expectShasums[k]) {","        if (!contentShasums[k].startsWith(expectShasums[k])) {")]),
("P01","loop-keys",B,[(IN,"      for (const k in contentShasums) {","      for (const k in expectShasums) {\n        if (!contentShasums[k]) continue")]),
("P01","no-await-pipeline",B,[(IN,"            await pipeline(\n              res.body,","            pipeline(\n              res.body,")]),
("P01","copy-after",B,[(IN,"      if (tarExtractDir !== devDir) {\n        await copyDirectory(tarExtractDir, devDir)\n      }\n\n",""),(IN,"      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\\n')\n","      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\\n')\n      if (tarExtractDir !== devDir) {\n        await copyDirectory(tarExtractDir, devDir)\n      }\n")]),
("P03","marker-value",B,[(IN,"gyp.package.installVersion + '\\n')","(gyp.package.installVersion + 1) + '\\n')")]),
("P01","flush-late",B,[(IN,"    this._callback(null, this._digester.digest('hex'))\n    callback()","    callback()\n    setImmediate(() => this._callback(null, this._digester.digest('hex')))")]),
("P01","digest-skip",B,[(IN,"    this._digester.update(chunk)\n","    if (chunk.length > 0 && this._callback) {\n      this._digester.update(chunk.subarray(0, 65536))\n    }\n")]),
("P01","any-lib",B,[(IN,"        ...(win ? [downloadNodeLib()] : []),","        ...(win ? [downloadNodeLib().catch(() => {})] : []),")]),
("P01","shasum-lower",B,[(IN,"        expectShasums[name] = items[0]","        expectShasums[name] = contentShasums[name] || items[0]")]),
("P01","onwarn-info",B,[(IN,"    function onwarn (code, message) {\n      extractErrors = true\n","    function onwarn (code, message) {\n      extractErrors = code !== 'TAR_ENTRY_INFO'\n")]),
("P02","go-noawait",B,[(IN,"      log.verbose('install', 'version is no good; reinstalling')\n      try {\n        return await go()","      log.verbose('install', 'version is no good; reinstalling')\n      try {\n        return go()")]),
("P02","rollback-swallow",B,[(IN,"    await gyp.commands.remove([release.versionDir])\n    throw err","    await gyp.commands.remove([release.versionDir])\n    if (err.code !== 'ENOENT') throw err")]),
("P02","rollback-version",B,[(IN,"    await gyp.commands.remove([release.versionDir])","    await gyp.commands.remove([release.version])")]),
("P02","rollback-partial",B,[(IN,"    await gyp.commands.remove([release.versionDir])","    if (!gyp.opts.ensure) await gyp.commands.remove([release.versionDir])")]),
("P02","wrap-error",B,[(IN,"    await gyp.commands.remove([release.versionDir])\n    throw err","    await gyp.commands.remove([release.versionDir])\n    throw new Error('install failed')")]),
("P02","lib-only-noroll",B,[(IN,"          try {\n            shouldDownloadTarball = false\n            return await go()\n          } catch (err) {\n            return rollback(err)\n          }","          shouldDownloadTarball = false\n          return await go()")]),
("P02","rollback-noawait",B,[(IN,"    await gyp.commands.remove([release.versionDir])\n    throw err","    gyp.commands.remove([release.versionDir])\n    throw err")]),
("P03","le",B,[(IN,"if (installVersion < gyp.package.installVersion) {","if (installVersion < gyp.package.installVersion - 1) {")]),
("P03","string-cmp",B,[(IN,"installVersion = parseInt(ver, 10) || 0","installVersion = ver.trim() || 0")]),
("P03","default-cur",B,[(IN,"    let installVersion = 0\n","    let installVersion = gyp.package.installVersion\n")]),
("P03","nodelib-name",B,[(IN,"path.resolve(devDir, arch, 'node.lib')","path.resolve(devDir, 'node.lib')")]),
("P03","eacces-good",B,[(IN,"      if (err.code !== 'ENOENT') {\n        throw err\n      }\n    }\n    log.verbose('got","      if (err.code !== 'ENOENT') {\n        return\n      }\n    }\n    log.verbose('got")]),
("P03","win-return",B,[(IN,"    if (win) {\n      log.verbose('on Windows; need to check node.lib')","    if (win && arch !== 'x64') {\n      log.verbose('on Windows; need to check node.lib')")]),
("P03","lib-nodownload",B,[(IN,"    let shouldDownloadTarball = true\n","    let shouldDownloadTarball = true\n") if 0 else (IN,"            shouldDownloadTarball = false\n            return await go()","            return")]),
("P04","gte",B,[(IN,"semver.lt(release.version, '0.8.0')","semver.lt(release.version, '0.6.0')")]),
("P04","pre-any",B,[(IN,"release.semver.prerelease[0] === 'pre'","release.semver.prerelease.length > 1 && release.semver.prerelease[0] === 'pre'")]),
("P04","pre-return",B,[(IN,"    if (!gyp.opts.nodedir) {\n      throw new Error('\"pre\"","    if (!gyp.opts.nodedir && !gyp.opts.ensure) {\n      throw new Error('\"pre\"")]),
("P04","mkdir-early",B,[(IN,"  // Determine which node dev files version we are installing\n","  await fs.mkdir(gyp.devDir, { recursive: true })\n")]),
("P05","rm-parent",B,[(RM,"if (path.dirname(versionPath) !== path.resolve(gyp.devDir)) {","if (!versionPath.startsWith(path.resolve(gyp.devDir))) {")]),
("P05","rm-relative",B,[(RM,"  await fs.rm(versionPath, { recursive: true, force: true })","  await fs.rm(path.resolve(version), { recursive: true, force: true })")]),
("P05","clean-opt",B,[(CL,"const buildDir = 'build'","const buildDir = gyp.opts.directory || 'build'")]),
("P05","clean-argv",B,[(CL,"const buildDir = 'build'","const buildDir = argv[0] || 'build'")]),
("P05","tar-nostrip",B,[(IN,"                strip: 1,\n                cwd: tarExtractDir,\n                filter: isValid,","                strip: 1,\n                cwd: tarExtractDir,\n                preservePaths: true,\n                filter: isValid,")]),
("P05","tmp-rm",B,[(IN,"          await fs.rm(tarExtractDir, { recursive: true })","          await fs.rm(path.dirname(tarExtractDir), { recursive: true })")]),
("P05","bins-dir",B,[(BU,"buildBinsDir = path.resolve('build', 'node_gyp_bins')","buildBinsDir = path.resolve(nodeDir, 'node_gyp_bins')")]),
("P06","noretry-drop",B,[(IN,"return gyp.commands.install(argv.concat(noretry))","return gyp.commands.install([release.version])")]),
("P06","noretry-first",B,[(IN,"return gyp.commands.install(argv.concat(noretry))","return gyp.commands.install([noretry].concat(argv))")]),
("P06","swallow",B,[(IN,"    if (argv.indexOf(noretry) !== -1) {\n      throw err\n    }","    if (argv.indexOf(noretry) !== -1) {\n      return\n    }")]),
("P06","tmp",B,[(IN,"gyp.devDir = path.resolve(tmpdir, '.node-gyp')","gyp.devDir = path.resolve(gyp.devDir, '.node-gyp')")]),
("P06","gt0",B,[(IN,"    if (argv.indexOf(noretry) !== -1) {","    if (argv.indexOf(noretry) > 1) {")]),
("P06","noreturn",B,[(IN,"return gyp.commands.install(argv.concat(noretry))","gyp.commands.install(argv.concat(noretry))")]),
("P06","cwd-return",B,[(IN,"      gyp.todo.push({ name: 'remove', args: argv })\n    }","      gyp.todo.push({ name: 'remove', args: argv })\n      return\n    }")]),
("P07","ca-first",B,[(DL,"  return ca.match(re)","  return ca.match(re)[0]")]),
("P07","ca-noglob",B,[(DL,"-----END CERTIFICATE-----)/g","-----END CERTIFICATE-----)/")]),
("P07","proxy-or",B,[(DL,"    proxy: gyp.opts.proxy,","    proxy: gyp.opts.ensure ? undefined : gyp.opts.proxy,")]),
("P07","noproxy-key",B,[(DL,"    noProxy: gyp.opts.noproxy","    noproxy: gyp.opts.noproxy")]),
("P07","ca-swallow",B,[(DL,"    requestOpts.ca = await readCAFile(cafile)","    requestOpts.ca = await readCAFile(cafile).catch(() => undefined)")]),
("P07","ssl-env",B,[(DL,"  const cafile = gyp.opts.cafile\n","  requestOpts.strictSSL = gyp.opts['strict-ssl'] !== 'false'\n  const cafile = gyp.opts.cafile\n")]),
("P07","retry-insecure",B,[(DL,"  const res = await fetch(url, requestOpts)","  const res = await fetch(url, requestOpts).catch(() => fetch(url.replace('https:', 'http:'), requestOpts))")]),
("P07","ca-proxy",B,[(DL,"  if (cafile) {","  if (cafile && !gyp.opts.proxy) {")]),
("P08","exit-ok",B,[(BIN,"    return process.exit(1)","    return process.exit()")]),
("P08","exit-code",B,[(BIN,"    process.exit(6)","    process.exitCode = 0")]),
("P08","uncaught0",B,[(BIN,"  process.exit(7)","  process.exit(0)")]),
("P08","noawait-cmd",B,[(BIN,"    const args = await prog.commands[command.name](command.args) ?? []","    const args = prog.commands[command.name](command.args) ?? []")]),
("P08","next-after-fail",B,[(BIN,"    log.error('not ok')\n    return process.exit(1)","    log.error('not ok')\n    process.exitCode = 1\n    return run()")]),
("P08","pop",B,[(BIN,"prog.todo.shift()","prog.todo.pop()")]),
("P08","catch-list",B,[(BIN,"  } catch (err) {\n    log.error(command.name + ' error')","  } catch (err) {\n    if (command.name === 'list') return run()\n    log.error(command.name + ' error')")]),
("P08","cond-completed",B,[(BIN,"  if (!completed && !code) {","  if (!completed && !code && prog.todo.length) {")]),
("P09","signal",B,[(BU,"      if (code !== 0) {\n        return reject(","      if (code) {\n        return reject("),(BU,"      if (signal) {\n        return reject(","      if (signal && signal !== 'SIGTERM') {\n        return reject(")]),
("P09","code-gt",B,[(BU,"      if (code !== 0) {\n        return reject(","      if (code > 0) {\n        return reject("),(BU,"      if (signal) {\n","      if (signal === 'SIGKILL') {\n")]),
("P09","configure-falsy",B,[(CF,"        if (code !== 0) {\n          reject(","        if (code) {\n          reject(")]),
("P09","noawait",B,[(BU,"    await new Promise((resolve, reject) => proc.on('exit'","    new Promise((resolve, reject) => proc.on('exit'")]),
("P09","resolve-early",B,[(CF,"      const cp = gyp.spawn(python, argv)\n","      const cp = gyp.spawn(python, argv)\n      cp.on('error', () => resolve())\n")]),
("P09","dobuild-noawait",B,[(BU,"      await doBuild(msvs)\n      return\n","      doBuild(msvs)\n      return\n")]),
("P09","loadcfg",B,[(BU,"    if (win) {\n      await findSolutionFile()\n    } else {\n      await doWhich()","    if (win) {\n      await findSolutionFile()\n    } else {\n      doWhich()")]),
("P15","valid-all",B,[(IN,"return extname === '.h' || extname === '.gypi'","return extname === '.h' || extname === '.gypi' || file.endsWith('.gyp')")]),
("P15","valid-lower",B,[(IN,"return extname === '.h' || extname === '.gypi'","return extname.startsWith('.h') || extname === '.gypi'")]),
("P15","strip2",B,[(IN,"            file: tarPath,\n            strip: 1,","            file: tarPath,\n            strip: 2,")]),
("P15","filter-miss",B,[(IN,"            file: tarPath,\n            strip: 1,\n            filter: isValid,","            file: tarPath,\n            strip: 1,")]),
("P15","copy-flat",B,[(IN,"await copyDirectory(path.join(src, entry.name), path.join(dest, entry.name))","await copyDirectory(path.join(src, entry.name), dest)")]),
("P15","copy-skip",B,[(IN,"        throw new Error('Unexpected file directory entry type')","        log.silly('skipping', entry.name)")]),
("P15","ebusy-any",B,[(IN,"if (gyp.opts.ensure && err.code === 'EBUSY') {","if (gyp.opts.ensure) {")]),
("P15","ebusy-nostat",B,[(IN,"                await fs.stat(path.join(dest, entry.name))\n                return","                return")]),
("P15","copy-noawait",B,[(IN,"        await backOff(async () => {","        backOff(async () => {")]),
("P15","filter-first",B,[(IN,"      const isValid = valid(path)\n","      const isValid = valid(path) && !path.includes('/deps/')\n")]),
("P17","shell-opt",B,[(NG,"    const cp = childProcess.spawn(command, args, opts)","    const cp = childProcess.spawn(command, args, { ...opts, shell: process.platform === 'win32' })")]),
("P17","exec-join",B,[(UT,"cp.execFile(","cp.exec(")]),
("P19","args-lost",B,[(NG,"        commands.push({ name: arg, args: [] })","        if (!commands.some((c) => c.name === arg)) commands.push({ name: arg, args: [] })")]),
("P19","prefix-anywhere",B,[(NG,"if (name.indexOf(npmConfigPrefix) !== 0) {","if (name.indexOf(npmConfigPrefix) === -1) {")]),
("P19","env-replace-first",B,[(NG,"name = name.replace(/_/g, '-')","name = name.replace('_', '-')")]),
("P19","env-empty",B,[(NG,"          this.opts[name] = val","          if (val) this.opts[name] = val")]),
("P19","rebuild-args",B,[("lib/rebuild.js","{ name: 'configure', args: argv }","{ name: 'configure', args: [] }")]),
("P19","rebuild-order",B,[("lib/rebuild.js","    { name: 'clean', args: [] }\n    , { name: 'configure', args: argv }","    { name: 'configure', args: argv }\n    , { name: 'clean', args: [] }")]),
("P19","list-current",B,[(LS,"dir.filter((v) => v !== 'current')","dir.filter((v) => v.startsWith('v'))")]),
("P19","tilde",B,[(BIN,"prog.devDir = prog.devDir.replace(/^~/, homeDir)","prog.devDir = prog.devDir.replace(/~/, homeDir)")]),
("P19","devdir-order",B,[(BIN,"if (prog.devDir) {\n","if (prog.devDir && !process.env.XDG_CACHE_HOME) {\n")]),
("P19","list-slice",B,[(BIN,"args.forEach((version) => log.stdout(version))","args.slice(1).forEach((version) => log.stdout(version))")]),
]
ADV=[x for x in ADV]
