p("P06", "The EACCES fallback runs at most once and installs the same version",
  "When the devdir is not accessible, an install is retried at most once, for the same version, with the devdir moved below the system temporary directory; every refused look at the devdir or refused creation of it leads there. If the retry fails too, the command rejects with the error, never loops and never reports success.",
  ["fault_sequences", "inputs"], "Every way the devdir and the temporary devdir can refuse access, with and without version arguments.",
  "Tests inject one EACCES at one call; recursion through the command table with other arguments is never followed.",
  ["lib/install.js"], [("eaccesFallback", "lib/install.js")], ENG + "; bounded-recursion and argument-sequence analysis")
p("P07", "Every request honours proxy, noproxy and cafile and never weakens TLS",
  "Every network request of node-gyp carries the user's proxy and no-proxy settings and, when one is given, the certificate authorities of the CA file; certificate checking is never switched off. Only URLs derived from the release information are requested.",
  ["inputs", "configurations"], "Every request site, every combination of options.",
  "Tests run one proxy and one CA configuration; they cannot show that no request site ignores the options.",
  ["lib/download.js", "lib/install.js"], [("download", "lib/download.js")], ENG + "; options-object flow into every request site, URL provenance")
p("P08", "The exit status of the command line tool is truthful",
  "node-gyp exits 0 only after every queued command completed; a rejected command, an uncaught exception or a command that never completes gives a non-zero status. Commands run one at a time in queue order, wait for every asynchronous operation they start, and none runs after a failed one.",
  ["fault_sequences", "schedules"], "Every command failing or never settling at every queue position.",
  "Tests call commands as functions; the process exit paths are not exercised at all.",
  ["bin/node-gyp.js", "lib/node-gyp.js"], [("run", "bin/node-gyp.js")], ENG + "; typestate of the queue, completion flag and exit calls")
p("P09", "A failed or killed gyp or compiler process never counts as success",
  "configure and build succeed only if the process they start ends with exit code 0 and no signal; every other end, including death by a signal, rejects the command. Nothing that must follow the process runs before it ended.",
  ["fault_sequences", "schedules"], "Every exit code and signal, every event order of the child process.",
  "Tests only ever see a child that exits 0; signals and spawn errors are not produced.",
  ["lib/build.js", "lib/configure.js", "lib/node-gyp.js"], [("doBuild", "lib/build.js"), ("runGyp", "lib/configure.js"), ("spawn", "lib/node-gyp.js")], ENG + "; facts on (code, signal) implied by each settling edge")
p("P10", "Only a working, supported Python is used, chosen in order of precedence",
  "The interpreter handed to gyp was run by node-gyp and reported a version in the supported range (3.6 or later); a candidate that fails to run or is unsupported is never returned, and when none qualifies the command fails. NODE_GYP_FORCE_PYTHON, when set, is the only candidate; otherwise --python or the npm configuration, PYTHON, the Windows launcher, python3, python and the Windows default locations are tried in this order, and an explicit setting is not skipped.",
  ["inputs", "configurations", "fault_sequences"], "Every combination of settings, every failing or lying candidate, both platforms.",
  "Tests stub one answer per scenario; precedence and acceptance on every path are never enumerated.",
  ["lib/find-python.js"], [("findPython", "lib/find-python.js"), ("checkExecPath", "lib/find-python.js")],
  ENG + "; abstract sequence of candidates, dominance of acceptance by the version test")

p("P11", "Only a complete, matching and supported Visual Studio is used",
  "On Windows a Visual Studio installation is used only if it has MSBuild, the C++ compiler and a Windows SDK and its year is supported for the targeted Node.js version (2017 before Node 22, 2015 before 19, 2013 before 9). A year or path given by --msvs-version, or the installation of the current VS command prompt, excludes every other installation; otherwise the newest acceptable one is used, and the platform toolset reported for it belongs to that year.",
  ["inputs", "configurations"], "Every list of installed products, every --msvs-version and environment, every target version.",
  "Tests replay a few recorded installation lists; what a returned installation must satisfy on every path is not enumerable by samples.",
  ["lib/find-visualstudio.js"], [("findVisualStudio", "lib/find-visualstudio.js"), ("processData", "lib/find-visualstudio.js"), ("checkConfigVersion", "lib/find-visualstudio.js")],
  ENG + "; dominance of acceptance by completeness, configuration and year tests")
p("P12", "config.gypi carries the user's options and the chosen toolchain",
  "The generated build/config.gypi contains every command-line option node-gyp does not define itself (dashes as underscores), target_arch from --arch or else the running architecture, the node directory and Python that configure chose, and Debug as default configuration exactly with --debug. Compile settings inherited from the build of the node binary are dropped, booleans are written as strings, and the headers' own config.gypi is the base exactly with --nodedir or --dist-url and without --force-process-config, falling back to the running node's configuration when it cannot be read.",
  ["inputs", "configurations"], "Every set of options and every base configuration.",
  "Tests check a few option sets; that no option is dropped and nothing is inherited must hold for all of them.",
  ["lib/create-config-gypi.js", "lib/configure.js"], [("getCurrentConfigGypi", "lib/create-config-gypi.js"), ("createConfigGypi", "lib/create-config-gypi.js")],
  ENG + "; must-write analysis of the configuration object, guarded-value precedence, loop-skip analysis")
p("P13", "gyp is started with the configured headers, includes and Python",
  "configure starts its own gyp script on binding.gyp, with the Python it found, and always passes the node directory, the generated config.gypi and those next to binding.gyp, then addon.gypi, then common.gypi, and the build directory as output. Extra arguments of the user are kept, a generator format is forced exactly when the user gave none, and the gyp library shipped with node-gyp comes first on the module path.",
  ["inputs", "configurations"], "Every argument list, platform, option set and PYTHONPATH.",
  "Tests look at one or two arguments of one invocation; presence on every path and relative order are not tested.",
  ["lib/configure.js"], [("runGyp", "lib/configure.js")],
  ENG + "; reconstruction of the argument list as ordered contributions, must-pass and reachability between them; constant propagation per class of arguments for the format")
p("P14", "gyp compiles against headers of the targeted Node.js version",
  "Without --nodedir, gyp starts only after an install of exactly the targeted version succeeded, which reuses existing headers exactly when no --tarball is given, and it is pointed at that version's directory below the devdir. Headers found through the node prefix are used only when their full version equals the target and --nodedir was not given; --nodedir itself is used with a leading ~ expanded.",
  ["inputs", "configurations", "fault_sequences"], "Every target, every prefix header version, every failing install.",
  "Tests run with one version whose headers exist; a mismatch or an install that is not waited for stays invisible.",
  ["lib/configure.js"], [("getNodeDir", "lib/configure.js")],
  ENG + "; dominance of the gyp start by the awaited install, equality guards, enumeration of the node directory's sources")
p("P15", "Exactly the headers and gypi files of an archive are installed",
  "From a headers archive exactly the .h and .gypi files are unpacked, with the archive's top directory stripped and no path leaving the target directory. On Windows every entry of the unpacked tree is then copied under the same name, and a failed copy fails the install unless the file was busy and is there.",
  ["inputs", "fault_sequences"], "Every archive content, every entry type, every copy error.",
  "Tests unpack one well-formed archive on one platform.",
  ["lib/install.js"], [("isValid", "lib/install.js"), ("valid", "lib/install.js"), ("copyDirectory", "lib/install.js")],
  ENG + "; path-sensitive evaluation of the filter over the extension domain, loop-skip analysis of the copy")
p("P16", "Generated build files are the same on every run",
  "For the same input files, options and environment gyp writes byte-identical build files on every run: neither the text nor the order of what is written depends on string hashing, on the order in which the operating system lists a directory, on object addresses, process ids or the clock.",
  ["inputs", "configurations"], "Every set of build files, targets and configurations, every hash seed and directory order, without --parallel.",
  "A test runs with one hash seed; differences between runs only show with several files, outputs or configurations and an unlucky seed.",
  ["gyp/pylib/gyp/__init__.py", "gyp/pylib/gyp/input.py", "gyp/pylib/gyp/common.py", "gyp/pylib/gyp/generator/make.py", "gyp/pylib/gyp/generator/ninja.py", "gyp/pylib/gyp/generator/msvs.py"],
  [("Load", "gyp/pylib/gyp/input.py"), ("GenerateOutput", "gyp/pylib/gyp/generator/make.py"), ("TopologicallySorted", "gyp/pylib/gyp/common.py")],
  "interprocedural order-taint dataflow over the Python syntax trees of the whole gyp library (set and directory-order sources, sorted() sanitizers, file writes as sinks)")
p("P17", "Commands are never interpreted by a shell",
  "node-gyp starts gyp, the build tool and every helper as a program with an argument vector, so paths, options and environment values containing spaces or shell metacharacters are passed on literally. The only command run through a shell is the probe of a Python command name on Windows, and there the program and every argument are quoted.",
  ["inputs", "configurations"], "Every path, option and environment value, on every platform.",
  "Tests use harmless paths and stub the child process; an injected metacharacter or a shell option on one platform goes unnoticed.",
  ["lib/node-gyp.js", "lib/find-python.js", "lib/util.js", "lib/build.js", "lib/configure.js", "lib/find-visualstudio.js"], [("spawn", "lib/node-gyp.js"), ("checkCommand", "lib/find-python.js"), ("execFile", "lib/util.js")],
  ENG + "; enumeration of child-process sites with guarded values of their shell option and quoting of program and arguments")
p("P18", "Downloads come from the right place for exactly the requested version",
  "The requested version is a valid version argument, else --target, else the running version, and headers, import libraries and checksums are all taken from the release directory of exactly that version. That directory lies below --dist-url, else --disturl, else NODEJS_ORG_MIRROR; without these the release data of the running binary is used if it is the requested version, else nodejs.org. The local headers directory is named after the version, and each architecture gets its own import library.",
  ["inputs", "configurations"], "Every version argument, option, mirror setting and release data, by class.",
  "Tests sample combinations of one version, one override and one kind of release data; the product of them is not covered.",
  ["lib/process-release.js", "lib/install.js", "lib/configure.js"], [("processRelease", "lib/process-release.js"), ("resolveLibUrl", "lib/process-release.js")],
  "conditional constant propagation over the release description's control flow graph for every input class, with symbolic strings; normal-form comparison of URL terms")
p("P19", "The command line and npm environment are carried out exactly as given",
  "Every command word on the command line runs in the given order with exactly the words that follow it as arguments (ls and rm mean list and remove; rebuild means clean, configure with its arguments, build). Every npm_config_* environment variable with a non-empty name becomes the option of that name with dashes for underscores. The headers directory is --devdir with a leading ~ expanded, else the user's cache directory, and list prints every installed version.",
  ["inputs", "configurations"], "Every sequence of word classes up to the bound, every environment variable name, every combination of directory options.",
  "Tests parse a few option sets with a single command; sequences of commands and arguments are never combined.",
  ["lib/node-gyp.js", "bin/node-gyp.js", "lib/rebuild.js", "lib/list.js"], [("parseArgv", "lib/node-gyp.js"), ("rebuild", "lib/rebuild.js"), ("list", "lib/list.js")],
  "conditional constant propagation over the parser's control flow graph for bounded sequences of word classes and all environment name classes, with symbolic option values")
p("P20", "Commands in build files fail loudly and are cached soundly",
  "While build files are read, a command expansion (<!) yields its standard output without trailing white space only if the command exited with status zero; a command that cannot start, fails or is killed by a signal, or a module that raises, is an error. A command runs in the directory of the build file containing it and only for the ! forms, and a remembered result is reused only for the same command, directory and kind. The working directory and the module path are restored whatever happens.",
  ["inputs", "fault_sequences"], "Every command text, directory and kind, every exit status and signal, every exception of an imported module.",
  "Tests run no command expansions; failures by signal and collisions of remembered results need particular commands and sequences.",
  ["gyp/pylib/gyp/input.py"], [("ExpandVariables", "gyp/pylib/gyp/input.py")],
  "dominance analysis over the supergraph of variable expansion with exception edges; data dependence of the command against the cache key")
p("P21", "Conditions are decided by their expression and nothing else",
  "A condition in a build file selects the dictionary after its first expression that holds, else the trailing alternative, else nothing; malformed lists and expressions that cannot be evaluated are errors. Expressions are expanded and then evaluated with the variables current at that place on every occurrence, and neither they nor the text of build files can reach Python's built-in functions. Conditions are processed once, in order, in their own phase, and what they select is fully expanded before it is merged.",
  ["inputs"], "Every shape of condition list up to six elements with every outcome of its expressions, every phase.",
  "Tests never combine several expressions, alternatives and phases; a condition remembered under the wrong text needs two files to show.",
  ["gyp/pylib/gyp/input.py"], [("EvalCondition", "gyp/pylib/gyp/input.py"), ("EvalSingleCondition", "gyp/pylib/gyp/input.py"), ("ProcessConditionsInDict", "gyp/pylib/gyp/input.py")],
  "conditional constant propagation with trace partitioning over the shapes of condition lists; enumeration of evaluation sites and the names they expose")
p("P22", "Variables have the value of their scope wherever they are used",
  "Every string in a build file is expanded, and every nested dictionary and list processed, with the variables of its own scope: those of the enclosing scopes, the automatic ones of the dictionary and its variables section, as they are after expansion and conditions; a scope never changes the scopes around it, and a default (name%) applies only where the variable is not set otherwise. A reference is replaced by its variable's value, as text or, alone with @, as a list; an unknown variable is an error. Each phase expands only its own references (<, >, ^), and text becomes an integer exactly if it is the canonical form of one.",
  ["inputs"], "Every arrangement of scopes, defaults, strings, lists and conditions by class, every reference form, value kind and phase.",
  "Tests have no scoping cases; a stale or shared scope shows only when sections nest and conditions change values.",
  ["gyp/pylib/gyp/input.py"], [("ProcessVariablesAndConditionsInDict", "gyp/pylib/gyp/input.py"), ("ProcessVariablesAndConditionsInList", "gyp/pylib/gyp/input.py"), ("ExpandVariables", "gyp/pylib/gyp/input.py"), ("LoadVariablesFromVariablesDict", "gyp/pylib/gyp/input.py")],
  "conditional constant propagation on an abstract heap with symbolic values; every recorded scope is compared to the scoping rules")
p("P23", "Merging never loses, shares, reorders or misplaces what is merged",
  "Merging one section into another follows the suffix of each key: = replaces, + prepends, ? applies only where nothing was set, otherwise lists are appended, dictionaries merged and scalars replaced; incompatible suffixes and types are errors. Order is kept, options that are not flags appear once, no merged value is shared with its source, and relative paths are rebased from the file they came from to the one they go to exactly in the path sections. Every configuration is the target's common settings followed by those it inherits and its own, abstract ones vanish, and keys that belong to the target stay there.",
  ["inputs"], "Every pair of value types and key suffixes, every arrangement of list items by class, every inheritance chain by class.",
  "Tests merge nothing; aliasing between targets, repeated items and rebased paths show only with particular include trees.",
  ["gyp/pylib/gyp/input.py", "gyp/pylib/gyp/simple_copy.py"], [("MergeDicts", "gyp/pylib/gyp/input.py"), ("MergeLists", "gyp/pylib/gyp/input.py"), ("MakePathRelative", "gyp/pylib/gyp/input.py"), ("SetUpConfigurations", "gyp/pylib/gyp/input.py")],
  "conditional constant propagation on an abstract heap with symbolic values; the resulting heap is compared to the merge policy for every class")
p("P24", "Dependencies are resolved, ordered and linked exactly as declared",
  "A dependency names the target it resolves to relative to its build file and toolset, wildcards included; names that do not exist or are ambiguous, and cycles among targets or build files, are errors. Every wanted target is handed on exactly once and after everything it depends on, and restricting the build keeps the full closure. Dependent and link settings reach exactly the targets that depend on their owner directly, through exports, transitively or by linking, and every linked target depends on all it links while static libraries keep only hard dependencies.",
  ["inputs"], "Every dependency relation over three targets (and selected larger ones), every combination of target types along a chain, exports, flags, files and toolsets.",
  "Tests cover cycle listing on one graph; order, settings and link closures depend on the shape of the whole graph.",
  ["gyp/pylib/gyp/input.py", "gyp/pylib/gyp/common.py"], [("BuildDependencyList", "gyp/pylib/gyp/input.py"), ("QualifyDependencies", "gyp/pylib/gyp/input.py"), ("DoDependentSettings", "gyp/pylib/gyp/input.py"), ("AdjustStaticLibraryDependencies", "gyp/pylib/gyp/input.py")],
  "interprocedural conditional constant propagation on an abstract heap over the loading pipeline, for every bounded dependency relation; the outcome is compared to the dependency rules")
p("P25", "Every build file is loaded completely, once, and at its right place",
  "Includes are found relative to the file that names them and merged where they stand, in order, at every level; those of the command line reach every build file, but not included files. Each dependency's file is loaded once, with a DEPTH relative to itself; each target has its own copy of its file's defaults, overridden by its own settings, for each toolset it lists, and passes every later phase once and in order. A missing, malformed or contradicting file is an error, as is a repeated key in checked mode, and the list of included files names every file that contributed.",
  ["inputs"], "Every arrangement of includes, defaults, toolsets and dependency files by class, every kind of malformed file at every place, syntax trees of checked files by class.",
  "Tests load no build file; relative includes, shared files, conditional toolsets and swallowed errors show only in particular trees of files.",
  ["gyp/pylib/gyp/input.py"], [("LoadOneBuildFile", "gyp/pylib/gyp/input.py"), ("LoadBuildFileIncludesIntoDict", "gyp/pylib/gyp/input.py"), ("LoadTargetBuildFile", "gyp/pylib/gyp/input.py"), ("ProcessToolsetsInDict", "gyp/pylib/gyp/input.py"), ("CheckedEval", "gyp/pylib/gyp/input.py"), ("Load", "gyp/pylib/gyp/input.py")],
  "interprocedural conditional constant propagation on an abstract heap with the build files' contents as abstract data; the loaded data and the recorded phases are compared to the rules of the input format")
p("P26", "The build runs the configured tool with exactly the requested settings",
  "The build starts the recorded MSBuild where there is a solution, and otherwise --make, MAKE or the platform's make, found in PATH; without a configuration, solution, Makefile or tool it fails and starts nothing. The tool gets the configuration of --debug or --no-debug, else the configured one, the configured architecture, the jobs of --jobs, else of JOBS (a positive number, or one per processor for max), and exactly the named targets and solution. Outside Windows the configured Python is python3 in the tool's PATH, through a link that replaces a stale one and is removed when the build ends.",
  ["configurations", "inputs"], "Every class of platform, option, environment variable, recorded configuration, target list and failing file operation.",
  "Tests build one addon with default options on the platform they run on.",
  ["lib/build.js"], [("build", "lib/build.js"), ("doBuild", "lib/build.js"), ("findSolutionFile", "lib/build.js")],
  "conditional constant propagation over the build command's inlined control flow graph for every input class; the program, argument vector and file operations reaching the process start are compared to the settings")
p("P27", "Exclusions and checks of targets are applied exactly",
  "A list filter (! names, / ordered regular expressions with exclude or include) removes exactly the items it finally excludes from the list beside it, at every level, keeps the order of the rest and records what was removed; a filter without a list is dropped and a malformed one is an error. Targets of unknown type, duplicate names in a directory, conflicting rules, and incomplete or ill-typed actions and run_as sections are errors. A rule gets exactly the remaining sources with its extension, and the generator sees numbers as text and all else unchanged.",
  ["inputs"], "Every arrangement of items, exclusions and expression sequences by class, every kind of malformed section, in every position.",
  "Tests have no filters and no invalid targets; which item survives depends on the sequence of several overlapping filters.",
  ["gyp/pylib/gyp/input.py"], [("ProcessListFiltersInDict", "gyp/pylib/gyp/input.py"), ("ValidateTargetType", "gyp/pylib/gyp/input.py"), ("ValidateRulesInTarget", "gyp/pylib/gyp/input.py"), ("ValidateRunAsInTarget", "gyp/pylib/gyp/input.py"), ("ValidateActionsInTarget", "gyp/pylib/gyp/input.py"), ("TurnIntIntoStrInDict", "gyp/pylib/gyp/input.py"), ("VerifyNoCollidingTargets", "gyp/pylib/gyp/input.py")],
  "interprocedural conditional constant propagation of the loading pipeline on an abstract heap, with constant folding of regular expressions; the targets handed on or the error are compared to the rules of the input format for every class")
p("P28", "The makefiles compile and link each target exactly as it is described",
  "On Linux, building compiles each source of a target once, with the compiler for its language and toolset and exactly the definitions, include directories and flags of the configuration that is built, whatever characters they contain. Each product is linked or archived from exactly the target's objects, its own and its dependencies' libraries and its flags, in order. Objects and products are named and placed as the target's name, product settings and type say, and no two steps write the same file.",
  ["inputs", "configurations"], "Every target type, kind of source, flag list, toolset and configuration by class, values with every character special to make or the shell.",
  "No test generates a makefile; what make and the shell make of the text depends on the values of the target and on the goal and configuration of the build.",
  ["gyp/pylib/gyp/generator/make.py"], [("WriteSources", "gyp/pylib/gyp/generator/make.py"), ("WriteTarget", "gyp/pylib/gyp/generator/make.py"), ("ComputeOutput", "gyp/pylib/gyp/generator/make.py"), ("EscapeCppDefine", "gyp/pylib/gyp/generator/make.py")],
  "interprocedural conditional constant propagation of the generator on template targets; the makefile text it yields is interpreted by an abstract model of make's and the shell's reading rules and compared to the targets")
p("P29", "The makefiles run actions, rules and copies exactly as declared and in time",
  "On Linux, building runs each action, and each rule once per matching source, with exactly its declared arguments, in its build file's directory and after its output directories exist, whichever output is asked for; it is repeated when any of its inputs changes. A target's compiling and linking wait for its own actions, rules and copies, and all of these wait for the products of its dependencies. Copies put every listed file under its name into the destination.",
  ["inputs", "schedules"], "Every arrangement of actions, rules and copies by class, every order in which make may run the steps, arguments with every special character.",
  "No test generates a makefile; a missing ordering or a mangled argument shows only with particular targets, parallel builds or goals.",
  ["gyp/pylib/gyp/generator/make.py"], [("WriteActions", "gyp/pylib/gyp/generator/make.py"), ("WriteRules", "gyp/pylib/gyp/generator/make.py"), ("WriteCopies", "gyp/pylib/gyp/generator/make.py"), ("WriteMakeRule", "gyp/pylib/gyp/generator/make.py")],
  "interprocedural conditional constant propagation of the generator on template targets; steps and the order relation of the makefile text are computed by an abstract model of make and compared to the declarations")
p("P30", "Make goals build the right targets, and nothing more than needed again",
  "By default make builds exactly the targets of the build files gyp was given and what these depend on; the name of any target or product is a goal that builds it, and each build file's own makefile builds that file's targets. The command of every step is recorded so that the next build reads back the same command, and so repeats a step only when something changed. The main makefile depends on every build file and include, and is regenerated, unless that is turned off, by running gyp again on the same files with the same options.",
  ["inputs", "histories"], "Every set of given build files, target type and dependency by class, every record of a previous build, commands with every special character.",
  "No test generates a makefile, let alone builds twice; what a second build repeats depends on how the first one's records read back.",
  ["gyp/pylib/gyp/generator/make.py"], [("GenerateOutput", "gyp/pylib/gyp/generator/make.py"), ("WriteAutoRegenerationRule", "gyp/pylib/gyp/generator/make.py"), ("WriteSubMake", "gyp/pylib/gyp/generator/make.py")],
  "interprocedural conditional constant propagation of the generator on template targets; an abstract model of make computes reachable steps, records and their re-reading from the text")

p("P31", "Every addon gets what compiling and linking against its Node.js needs",
  "Whatever its own settings, every target of an addon gets, on each platform, exactly what compiling and linking against the selected Node.js needs: its include directories, its definitions with the target's own name but never those for building Node.js itself, position-independent code, the delay-load hook and import library on Windows or the export file on AIX, IBM i and z/OS. A loadable module, the type a target has by default, ends in .node without a prefix. What the addon sets itself is kept.",
  ["inputs", "configurations"], "Every platform, architecture, engine, host binary and compiler by class, every target type, and targets that set by themselves each of the settings concerned.",
  "No test loads an addon's build file together with node-gyp's settings; only a build on the platform concerned would notice a missing setting.",
  ["addon.gypi", "gyp/pylib/gyp/input.py"], [("target_defaults", "addon.gypi"), ("Load", "gyp/pylib/gyp/input.py"), ("MergeDicts", "gyp/pylib/gyp/input.py"), ("ProcessConditionsInDict", "gyp/pylib/gyp/input.py")],
  "interprocedural conditional constant propagation of the complete loader over the source of the addon settings and template build files, compared with a specification of the settings per platform and target type")

p("P32", "gyp's arguments and environment mean what they say, then and on regeneration",
  "Variables are those of GYP_DEFINES overridden by the later -D, integers as numbers, and come before the generator's own; every loaded file is given the personal include file and then those of the command line, in order; each requested format is generated once, in order, from what was loaded for it with the given options and flags; --ignore-environment ignores the environment. Errors of the input end with status 1, a message and nothing built. The arguments recorded for a regeneration mean the same again in any environment.",
  ["inputs", "configurations"], "Arguments of every option and form, environments setting each variable, the platforms that choose formats and home directories, errors at every stage.",
  "No test runs gyp's main program; the precedence of arguments, environment and defaults shows only in the combination of several, and regeneration in a later environment.",
  ["gyp/pylib/gyp/__init__.py", "gyp/pylib/gyp/common.py"], [("gyp_main", "gyp/pylib/gyp/__init__.py"), ("RegenerateFlags", "gyp/pylib/gyp/__init__.py"), ("NameValueListToDict", "gyp/pylib/gyp/__init__.py"), ("Load", "gyp/pylib/gyp/__init__.py")],
  "interprocedural conditional constant propagation of the main program on constant arguments and environments up to the recorded calls of loader and generators, compared with a specification of the command line")
p("P33", "Visual Studio projects and solutions describe the targets",
  "On Windows every target has a well-formed project of its kind, whose product has the target's name and place; each configuration has exactly its definitions, directories, libraries and tool settings, converted to their names in current versions; every source is an item of its kind once, with an object file of its own, its precompiled header and its exclusions. Actions and copies are build steps with their commands, inputs and outputs; a failure ends the step. A project refers to the projects it depends on, and the solution of a file has all projects its targets need, in order, with the configurations the projects have.",
  ["inputs", "configurations"], "Target sets with every kind of target, source, setting and text, one or two configurations, several files and directories, actions, copies and precompiled headers.",
  "No test generates a project; mistakes show only in builds on Windows, for the one configuration or combination of settings that is affected.",
  ["gyp/pylib/gyp/generator/msvs.py", "gyp/pylib/gyp/MSVSSettings.py", "gyp/pylib/gyp/MSVSNew.py", "gyp/pylib/gyp/MSVSProject.py", "gyp/pylib/gyp/MSVSUtil.py", "gyp/pylib/gyp/easy_xml.py", "gyp/pylib/gyp/common.py"],
  [("GenerateOutput", "gyp/pylib/gyp/generator/msvs.py"), ("_GenerateMSBuildProject", "gyp/pylib/gyp/generator/msvs.py"), ("_FinalizeMSBuildSettings", "gyp/pylib/gyp/generator/msvs.py"),
   ("_AddSources2", "gyp/pylib/gyp/generator/msvs.py"), ("ConvertToMSBuildSettings", "gyp/pylib/gyp/MSVSSettings.py"), ("MSVSSolution", "gyp/pylib/gyp/MSVSNew.py"), ("XmlToString", "gyp/pylib/gyp/easy_xml.py")],
  "interprocedural conditional constant propagation of the project generator on template target sets, its text parsed as XML and solutions and compared per configuration with the targets")
p("P34", "configure gives gyp exactly what platform, options and headers call for",
  "On every platform configure gives gyp its arguments and environment exactly: the generator asked for in any form gyp accepts, else the platform's; the engine, Node.js library, export file and zoslib directory of the selected headers, the first that exists in a fixed order; the generated configuration and the addon's own that exist; and the found Python and Visual Studio. Headers of the node prefix are used only where that is enabled and their full version matches; otherwise they are installed, and Visual Studio is looked for only when gyp generates for it. Configure fails, and does not start gyp, exactly where something needed is missing or cannot be examined.",
  ["configurations", "inputs"], "Every class of platform, generator arguments, node directory, prefix headers, version, existing files, failing examination and environment variable.",
  "Tests configure one addon with default options on one platform; the branches for Windows, AIX, IBM i and z/OS and for other generators never run.",
  ["lib/configure.js", "lib/util.js"], [("getNodeDir", "lib/configure.js"), ("createBuildDir", "lib/configure.js"), ("runGyp", "lib/configure.js"), ("findAccessibleSync", "lib/util.js")],
  "conditional constant propagation over the configure command's inlined control flow graph for every input class; the arguments, environment and calls at the start of gyp are compared with a specification of what the class calls for")
