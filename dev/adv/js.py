FP="lib/find-python.js"; VS="lib/find-visualstudio.js"; CG="lib/create-config-gypi.js"; CF="lib/configure.js"; PR="lib/process-release.js"
I="lib/install.js"; N="lib/node-gyp.js"; B="bin/node-gyp.js"; BU="lib/build.js"
ADV = [
("P10","no-await",[(FP,"return await check.check()","return check.check()")]),
("P10","version-other",[(FP,"const version = await this.run(execPath, this.argsVersion, false)","const version = await this.run(this.configPython || execPath, this.argsVersion, false)")]),
("P10","win-loc-skip",[(FP,"for (let i = 0; i < this.winDefaultLocations.length; ++i)","for (let i = 1; i < this.winDefaultLocations.length; ++i)")]),
("P10","skip-force-falls",[(FP,"      if (this.env.NODE_GYP_FORCE_PYTHON) {","      if (this.env.NODE_GYP_FORCE_PYTHON && !this.configPython) {")]),
("P10","break-on-fail",[(FP,"        this.log.silly('runChecks: err = %j', (err && err.stack) || err)\n","        this.log.silly('runChecks: err = %j', (err && err.stack) || err)\n        if (this.configPython) break\n")]),
("P10","prerelease-swallow",[(FP,"        this.addLog('- THIS VERSION OF PYTHON IS NOT SUPPORTED')\n","        this.addLog('- THIS VERSION OF PYTHON IS NOT SUPPORTED')\n        if (this.env.NODE_GYP_FORCE_PYTHON) return this.succeed(execPath, version)\n")]),
("P10","win-loc-cmd",[(FP,"check: () => this.checkExecPath(location)","check: () => location")]),
("P10","run-swallow",[(FP,"      this.log.silly('execFile: threw:\\n%s', err.stack)\n      throw err\n","      this.log.silly('execFile: threw:\\n%s', err.stack)\n      return '3.6.0'\n")]),
("P10","ver-2parts",[(FP,"argsVersion = ['-c', 'import sys; print(\"%s.%s.%s\" % sys.version_info[:3]);']","argsVersion = ['-c', 'print(\"3.6.0\")']")]),
("P11","year-loose",[(VS,"if (this.configVersionYear && this.configVersionYear !== versionYear) {","if (this.configVersionYear && this.configVersionYear > versionYear) {")]),
("P11","setup-no-gate",[(VS,"  async findVisualStudio2017UsingSetupModule () {\n    if (this.nodeSemver.major >= 22) {","  async findVisualStudio2017UsingSetupModule () {\n    if (this.nodeSemver.major > 22) {")]),
("P11","sort-dropped",[(VS,"    vsInfo.sort((a, b) => b.versionYear - a.versionYear)\n","")]),
("P11","sort-asc",[(VS,"b.versionYear - a.versionYear","a.versionYear - b.versionYear")]),
("P11","sdk-nondesktop",[(VS,"parts[5] !== 'Desktop'","parts[5] === 'Mobile'")]),
("P11","toolset-2019",[(VS,"return 'v142'","return 'v141'")]),
("P11","relative-prefix",[(VS,"        path.relative(this.envVcInstallDir, vsPath) !== ''","        path.relative(this.envVcInstallDir, vsPath).startsWith('..')")]),
("P11","old-noconfig",[(VS,"      if (!this.checkConfigVersion(info.versionYear, vsPath)) {\n        return null\n      }\n\n      info.path","      this.checkConfigVersion(info.versionYear, vsPath)\n\n      info.path")]),
("P11","old-msbuild-missing",[(VS,"        this.addLog('- could not find MSBuild in registry for this version')\n        return null","        this.addLog('- could not find MSBuild in registry for this version')")]),
("P11","msbuild-2019-noPkg",[(VS,"    } else if (this.msBuildPathExists(msbuildPath)) {\n      return msbuildPath","    } else if (versionYear === 2022 || this.msBuildPathExists(msbuildPath)) {\n      return msbuildPath")]),
("P11","order-2013",[(VS,"      () => this.findVisualStudio2015(),\n      () => this.findVisualStudio2013()","      () => this.findVisualStudio2013(),\n      () => this.findVisualStudio2015()")]),
("P11","filter-unknown",[(VS,"if (info.versionYear && supportedYears.indexOf(info.versionYear) !== -1) {","if (!info.versionYear || supportedYears.indexOf(info.versionYear) !== -1) {")]),
("P11","sdk-win8",[(VS,"    } else if (info.packages.indexOf(win8SDK) !== -1) {","    } else if (info.packages.indexOf(win8SDK)) {")]),
("P11","env-only",[(VS,"    if (process.env.VCINSTALLDIR) {","    if (process.env.VCINSTALLDIR && !this.configMsvsVersion) {")]),
("P11","config-year-regex",[(VS,"this.configMsvsVersion.match(/^\\d{4}$/)","this.configMsvsVersion.match(/\\d{4}/)")]),
("P12","bool",[(CG,"      return String(v)","      return Number(v)")]),
("P12","opts-override-skip",[(CG,"    if (opt in gyp.configDefs) {","    if (opt in gyp.configDefs || opt in variables) {")]),
("P12","dash-first",[(CG,"opt.replace(/-/g, '_')","opt.replace('-', '_')")]),
("P12","debug-truthy",[(CG,"gyp.opts.debug ? 'Debug' : 'Release'","'Debug'")]),
("P12","arch-order",[(CG,"gyp.opts.arch || process.arch || 'ia32'","process.arch || gyp.opts.arch || 'ia32'")]),
("P12","cflags-keep",[(CG,"  defaults.cflags = []\n","  defaults.cflags = defaults.cflags || []\n")]),
("P12","forward-disturl",[(CG,"gyp.opts.nodedir || gyp.opts.disturl || gyp.opts['dist-url']","gyp.opts.nodedir || gyp.opts['dist-url']")]),
("P12","alias-config",[(CG,"return JSON.parse(JSON.stringify(process.config))","return { ...process.config }")]),
("P12","late-arch",[(CG,"  if (variables.target_arch === 'arm64') {\n    defaults.msvs","  if (process.arch === 'arm64') {\n    variables.target_arch = 'arm64'\n    defaults.msvs")]),
("P12","no-await-write",[(CG,"  await fs.writeFile(configPath","  fs.writeFile(configPath")]),
("P12","read-swallow",[(CG,"      return parseConfigGypi(baseConfigGypi.toString())\n    } catch (err) {\n      log.warn('read config.gypi', err.message)\n","      return parseConfigGypi(baseConfigGypi.toString())\n    } catch (err) {\n      log.warn('read config.gypi', err.message)\n      return {}\n")]),
("P12","comment-strip",[(CG,"config.replace(/#.*/g, '')","config.replace(/#.*/, '')")]),
("P12","undef-opts",[(CG,"    if (opt === 'argv') {\n      return\n    }\n","    if (opt === 'argv' || !gyp.opts[opt]) {\n      return\n    }\n")]),
("P13","order-common",[(CF,"    argv.push('-I', addonGypi)\n    argv.push('-I', commonGypi)\n","    argv.push('-I', commonGypi)\n    argv.push('-I', addonGypi)\n")]),
("P13","format-short",[(CF,"if (!~argv.indexOf('-f') && !~argv.indexOf('--format')) {","if (!~argv.indexOf('--format')) {")]),
("P13","format-eq1",[(CF,"if (!~argv.indexOf('-f') && !~argv.indexOf('--format')) {","if (argv.indexOf('-f') < 1 && !~argv.indexOf('--format')) {")]),
("P13","pypath-order",[(CF,"      pypath.push(process.env.PYTHONPATH)","      pypath.unshift(process.env.PYTHONPATH)")]),
("P13","pypath-sep",[(CF,"pypath.join(win ? ';' : ':')","pypath.join(':')")]),
("P13","nodedir-raw",[(CF,"argv.push('-Dnode_root_dir=' + nodeDir)","argv.push('-Dnode_root_dir=' + gyp.devDir)")]),
("P13","configs-skip",[(CF,"    configs.push(configPath)\n    return findConfigs()","    if (!configs.length) return findConfigs()\n    configs.push(configPath)\n    return findConfigs()")]),
("P13","common-fallback",[(CF,"      commonGypi = path.resolve(nodeDir, 'common.gypi')\n","      commonGypi = path.resolve('common.gypi')\n")]),
("P13","stat-any",[(CF,"      if (err.code !== 'ENOENT') {\n        throw err\n      }\n","")]),
("P13","outdir",[(CF,"argv.push('--generator-output', outputDir)","argv.push('--generator-output', path.dirname(buildDir))")]),
("P14","prefix-major",[(CF,"availVersion = major + '.' + minor + '.' + patch","availVersion = major + '.' + minor + '.0'")]),
("P14","prefix-override",[(CF,"    if (!gyp.opts.nodedir &&\n        process.config","    if (\n        process.config")]),
("P14","tilde-any",[(CF,"gyp.opts.nodedir.replace(/^~/, os.homedir())","gyp.opts.nodedir.replace(/~/, os.homedir())")]),
("P14","ensure-true",[(CF,"gyp.opts.ensure = !gyp.opts.tarball","gyp.opts.ensure = true")]),
("P14","install-noarg",[(CF,"await gyp.commands.install([release.version])","await gyp.commands.install([])")]),
("P14","install-noawait",[(CF,"await gyp.commands.install([release.version])","gyp.commands.install([release.version])")]),
("P14","versiondir",[(CF,"nodeDir = path.resolve(gyp.devDir, release.versionDir)","nodeDir = path.resolve(gyp.devDir, release.version)")]),
("P14","startswith",[(CF,"if (availVersion === release.version) {","if (availVersion && release.version.startsWith(availVersion)) {")]),
("P18","iojs-max",[(PR,"versionSemver.major >= 1 && versionSemver.major < 4","versionSemver.major >= 1 && versionSemver.major <= 4")]),
("P18","trail-slash",[(PR,"overrideDistUrl.replace(/\\/+$/, '')","overrideDistUrl.replace(/\\/$/, '')")]),
("P18","mirror-first",[(PR,"if (!overrideDistUrl && process.env.NODEJS_ORG_MIRROR) {","if (process.env.NODEJS_ORG_MIRROR) {")]),
("P18","target-first",[(PR,"(semver.valid(argv[0]) && argv[0]) || gyp.opts.target || defaultVersion","gyp.opts.target || (semver.valid(argv[0]) && argv[0]) || defaultVersion")]),
("P18","default-keep",[(PR,"  if (!isDefaultVersion) {","  if (!isDefaultVersion && gyp.opts.target) {")]),
("P18","arm64-x64",[(PR,"libUrlArm64 = resolveLibUrl(name, baseUrl, 'arm64', versionSemver.major)","libUrlArm64 = resolveLibUrl(name, baseUrl, 'x64', versionSemver.major)")]),
("P18","shasum",[(PR,"shasumsUrl: url.resolve(baseUrl, 'SHASUMS256.txt')","shasumsUrl: url.resolve(distBaseUrl, 'SHASUMS256.txt')")]),
("P18","vdir",[(PR,"versionDir: (name !== 'node' ? name + '-' : '') + version","versionDir: version")]),
("P18","hdr-range",[(PR,"'>= 3.0.0 || ~0.12.10 || ~0.10.42'","'>= 3.0.0 || ~0.12.0 || ~0.10.42'")]),
("P18","libpath",[(PR,"      libUrl: libUrl64,\n      libPath: normalizePath(path.relative(url.parse(baseUrl).path, url.parse(libUrl64).path))","      libUrl: libUrl64,\n      libPath: normalizePath(path.relative(url.parse(baseUrl).path, url.parse(libUrl32).path))")]),
("P18","major0",[(PR,"    if (versionMajor >= 1) {","    if (versionMajor >= 0) {")]),
("P18","isdefault-semver",[(PR,"const isDefaultVersion = version === semver.parse(defaultVersion).version","const isDefaultVersion = versionSemver.major === semver.parse(defaultVersion).major")]),
("P18","override-headers",[(PR,"defaultRelease.headersUrl && !overrideDistUrl","defaultRelease.headersUrl && !gyp.opts['dist-url']")]),
]
ADV=[(a,b,"bad",c) for a,b,c in ADV]
