"""P33: on Windows the projects and the solution describe the targets."""
import ntpath
import re
import shlex
import xml.etree.ElementTree as ET

from ..interp import PATH
from .gencommon import Gen, T, const
from .p24_dependencies import NONE, Tally

ID = "P33"
EXPLANATION = (
    "Rule V1-V6: the projects, filters and solutions the Visual Studio generator writes for template target sets are obtained by constant propagation of GenerateOutput and everything "
    "it calls (Windows paths are computed by Python's ntpath; the Visual Studio version is a record of constants), parsed as XML and solution text and compared, for every "
    "configuration, with the targets. V1: project configurations, kind, toolset and the effective path of the product. V2: definitions, include and library directories, libraries and "
    "tool settings of the configuration and of no other. V3: every source is an item of its kind exactly once, with an object file of its own, precompiled headers and exclusions per "
    "configuration. V4: actions and copies are custom build steps with their commands, inputs and outputs. V5: project references and the solution name existing projects and "
    "configurations. V6: all text is well-formed after escaping.")

NS = "{http://schemas.microsoft.com/developer/msbuild/2003}"
TOP = "C:\\w"
VERSION = {"UsesVcxproj": True, "ProjectVersion": "17.0", "ProjectExtension": ".vcxproj", "SolutionVersion": "12.00", "Description": "Visual Studio 2022", "FlatSolution": False,
           "DefaultToolset": "v143", "ShortName": "2022", "ToolPath": "tool", "SetupScript": "setup", "Path": "C:\\VS"}
MODS = ("gyp.common", "gyp.easy_xml", "gyp.MSVSUtil", "gyp.MSVSProject", "gyp.MSVSNew", "gyp.MSVSSettings")
SDK = "10.0.19041.0"


def opened(a, s, e, n):
    """A new writer replaces what an earlier one wrote."""
    s["fx"] = s.get("fx", ()) + ((n.id, ("open", a[0]), ()),)
    return ("handle", a[0])


class VS(Gen):
    """The generator on Windows: ntpath, current directory C:\\w, no generated file exists yet."""

    def __init__(self, c, env=None):
        super().__init__(c, "gyp.generator.msvs", MODS, platform="win32", env=env)
        self.stubs = {"WriteOnDiff": opened, "EnsureDirExists": lambda a, s, e, n: NONE}

    def model(self, op, t):
        if op == "value":
            if t in (("a", ("mod", "os"), "sep"), ("a", PATH, "sep")):
                return ("c", "\\")
            if t == ("a", ("mod", "os"), "linesep"):
                return ("c", "\r\n")
            if t[0] == "a" and t[1] == ("sym", "version"):
                return ("list", (("c", "v10.0"),)) if t[2] == "compatible_sdks" else ("c", "Visual Studio 2022") if t[2] == "description" else None
        if op in ("truth", "notnull") and t == ("sym", "version"):
            return True
        if op == "call":
            f, a = t[1], t[2]
            if f[0] == "a" and f[1] == ("sym", "version") and f[2] in VERSION:
                return ("c", VERSION[f[2]])
            if f[0] == "a" and f[1] == PATH and all(const(x) for x in a):
                if f[2] in ("realpath", "abspath"):
                    return ("c", ntpath.normpath(ntpath.join(TOP, a[0][1])))
                if f[2] == "exists":
                    return ("c", True)
                if f[2] in ("join", "dirname", "basename", "split", "splitext", "normpath", "isabs", "splitdrive"):
                    r = getattr(ntpath, f[2])(*[x[1] for x in a])
                    return ("tuple", tuple(("c", x) for x in r)) if isinstance(r, tuple) else ("c", r)
        if op in ("call", "exec"):
            f = t[1] if op == "call" else t[0]
            if f[0] == "cls" and f[1].name == "memoize":
                return t[2][0] if op == "call" else t[1][0]
            if f[0] == "cls" and f[1].name == "OrderedSet" and op == "exec":
                _, a, s, e, _ = t
                q = e.seq(a[0], s) if a else ()
                return None if q is None else ("set", tuple(dict.fromkeys(q)))
        if op == "exec":
            f, a, s, e, n = t
            if f[0] == "a" and f[1][0] == "handle" and f[2] == "write" and a[0][0] == "c" and isinstance(a[0][1], bytes):
                return super().model(op, (f, (("c", a[0][1].decode()),), s, e, n))
            if f == ("glob", "open") and len(a) > 1 and a[1] == ("c", "rb"):
                return e.bad("OSError")
        return super().model(op, t)


KIND = {"executable": ("Application", ".exe", "Link"), "shared_library": ("DynamicLibrary", ".dll", "Link"), "loadable_module": ("DynamicLibrary", ".dll", "Link"),
        "static_library": ("StaticLibrary", ".lib", "Lib"), "none": ("Utility", None, None), "windows_driver": ("Driver", ".sys", "Link")}
ITEM = {".cc": "ClCompile", ".cpp": "ClCompile", ".c": "ClCompile", ".cxx": "ClCompile", ".h": "ClInclude", ".hxx": "ClInclude", ".rc": "ResourceCompile", ".asm": "MASM", ".s": "MASM",
        ".idl": "Midl"}
# Values of the settings of Visual Studio 2008, by number, and what Visual Studio 2010 and later call them.
ENUM = {("VCCLCompilerTool", "RuntimeLibrary"): ("ClCompile", "RuntimeLibrary", ["MultiThreaded", "MultiThreadedDebug", "MultiThreadedDLL", "MultiThreadedDebugDLL"]),
        ("VCCLCompilerTool", "Optimization"): ("ClCompile", "Optimization", ["Disabled", "MinSpace", "MaxSpeed", "Full"]),
        ("VCCLCompilerTool", "WarningLevel"): ("ClCompile", "WarningLevel", ["TurnOffAllWarnings", "Level1", "Level2", "Level3", "Level4"]),
        ("VCCLCompilerTool", "DebugInformationFormat"): ("ClCompile", "DebugInformationFormat", ["", "OldStyle", None, "ProgramDatabase", "EditAndContinue"]),
        ("VCCLCompilerTool", "InlineFunctionExpansion"): ("ClCompile", "InlineFunctionExpansion", ["Default", "OnlyExplicitInline", "AnySuitable"]),
        ("VCCLCompilerTool", "FavorSizeOrSpeed"): ("ClCompile", "FavorSizeOrSpeed", ["Neither", "Speed", "Size"]),
        ("VCCLCompilerTool", "ExceptionHandling"): ("ClCompile", "ExceptionHandling", ["false", "Sync", "Async"]),
        ("VCCLCompilerTool", "BasicRuntimeChecks"): ("ClCompile", "BasicRuntimeChecks", ["Default", "StackFrameRuntimeCheck", "UninitializedLocalUsageCheck", "EnableFastChecks"]),
        ("VCCLCompilerTool", "CallingConvention"): ("ClCompile", "CallingConvention", ["Cdecl", "FastCall", "StdCall"]),
        ("VCCLCompilerTool", "CompileAs"): ("ClCompile", "CompileAs", ["Default", "CompileAsC", "CompileAsCpp"]),
        ("VCCLCompilerTool", "StructMemberAlignment"): ("ClCompile", "StructMemberAlignment", ["Default", "1Byte", "2Bytes", "4Bytes", "8Bytes", "16Bytes"]),
        ("VCCLCompilerTool", "FloatingPointModel"): ("ClCompile", "FloatingPointModel", ["Precise", "Strict", "Fast"]),
        ("VCCLCompilerTool", "EnableEnhancedInstructionSet"): ("ClCompile", "EnableEnhancedInstructionSet", [
            "NotSet", "StreamingSIMDExtensions", "StreamingSIMDExtensions2", "AdvancedVectorExtensions", "NoExtensions", "AdvancedVectorExtensions2"]),
        ("VCLinkerTool", "SubSystem"): ("Link", "SubSystem", ["NotSet", "Console", "Windows", "Native", "EFI Application", "EFI Boot Service Driver", "EFI ROM", "EFI Runtime", "WindowsCE"]),
        ("VCLinkerTool", "LinkIncremental"): ("", "LinkIncremental", ["", "false", "true"]),
        ("VCLinkerTool", "OptimizeReferences"): ("Link", "OptimizeReferences", ["", "false", "true"]),
        ("VCLinkerTool", "EnableCOMDATFolding"): ("Link", "EnableCOMDATFolding", ["", "false", "true"]),
        ("VCLinkerTool", "LargeAddressAware"): ("Link", "LargeAddressAware", ["", "false", "true"]),
        ("VCLinkerTool", "RandomizedBaseAddress"): ("Link", "RandomizedBaseAddress", ["", "false", "true"]),
        ("VCLinkerTool", "DataExecutionPrevention"): ("Link", "DataExecutionPrevention", ["", "false", "true"]),
        ("VCLinkerTool", "UACExecutionLevel"): ("Link", "UACExecutionLevel", ["AsInvoker", "HighestAvailable", "RequireAdministrator"]),
        ("VCLinkerTool", "LinkTimeCodeGeneration"): ("Link", "LinkTimeCodeGeneration", ["Default", "UseLinkTimeCodeGeneration", "PGInstrument", "PGOptimization", "PGUpdate"]),
        ("VCLinkerTool", "TargetMachine"): ("Link", "TargetMachine", [
            "NotSet", "MachineX86", None, "MachineARM", "MachineEBC", "MachineIA64", None, "MachineMIPS", "MachineMIPS16", "MachineMIPSFPU", "MachineMIPSFPU16", None, None, None, "MachineSH4",
            None, "MachineTHUMB", "MachineX64"])}
BOOL = {("VCCLCompilerTool", "BufferSecurityCheck"): ("ClCompile", "BufferSecurityCheck"), ("VCCLCompilerTool", "RuntimeTypeInfo"): ("ClCompile", "RuntimeTypeInfo"),
        ("VCCLCompilerTool", "StringPooling"): ("ClCompile", "StringPooling"), ("VCCLCompilerTool", "OmitFramePointers"): ("ClCompile", "OmitFramePointers"),
        ("VCCLCompilerTool", "EnableFunctionLevelLinking"): ("ClCompile", "FunctionLevelLinking"), ("VCCLCompilerTool", "EnableIntrinsicFunctions"): ("ClCompile", "IntrinsicFunctions"),
        ("VCCLCompilerTool", "WarnAsError"): ("ClCompile", "TreatWarningAsError"), ("VCCLCompilerTool", "WholeProgramOptimization"): ("ClCompile", "WholeProgramOptimization"),
        ("VCCLCompilerTool", "SuppressStartupBanner"): ("ClCompile", "SuppressStartupBanner"), ("VCCLCompilerTool", "MinimalRebuild"): ("ClCompile", "MinimalRebuild"),
        ("VCLinkerTool", "GenerateDebugInformation"): ("Link", "GenerateDebugInformation"), ("VCLinkerTool", "IgnoreAllDefaultLibraries"): ("Link", "IgnoreAllDefaultLibraries"),
        ("VCLinkerTool", "IgnoreImportLibrary"): ("", "IgnoreImportLibrary"), ("VCLinkerTool", "LinkLibraryDependencies"): ("ProjectReference", "LinkLibraryDependencies")}
TEXT = {("VCLinkerTool", "ImportLibrary"): ("Link", "ImportLibrary"), ("VCLinkerTool", "EntryPointSymbol"): ("Link", "EntryPointSymbol"), ("VCLinkerTool", "StackReserveSize"): ("Link", "StackReserveSize"),
        ("VCLinkerTool", "ProgramDatabaseFile"): ("Link", "ProgramDatabaseFile"), ("VCCLCompilerTool", "ProgramDataBaseFileName"): ("ClCompile", "ProgramDataBaseFileName")}
LIST = {("VCLinkerTool", "DelayLoadDLLs"): ("Link", "DelayLoadDLLs"), ("VCLinkerTool", "IgnoreDefaultLibraryNames"): ("Link", "IgnoreSpecificDefaultLibraries"),
        ("VCLinkerTool", "ForceSymbolReferences"): ("Link", "ForceSymbolReferences"), ("VCLinkerTool", "AdditionalLibraryDirectories"): ("Link", "AdditionalLibraryDirectories"),
        ("VCCLCompilerTool", "DisableSpecificWarnings"): ("ClCompile", "DisableSpecificWarnings"), ("VCCLCompilerTool", "ForcedIncludeFiles"): ("ClCompile", "ForcedIncludeFiles"),
        ("VCCLCompilerTool", "AdditionalOptions"): ("ClCompile", "AdditionalOptions"), ("VCLinkerTool", "AdditionalOptions"): ("Link", "AdditionalOptions"),
        ("VCLibrarianTool", "AdditionalOptions"): ("Lib", "AdditionalOptions")}
PATHS = ("AdditionalIncludeDirectories", "AdditionalLibraryDirectories")


def unescape(s):
    return re.sub(r"%([0-9A-Fa-f]{2})", lambda m: chr(int(m[1], 16)), s)


def argument(s):
    """What a program receives for text the compiler task passes on: doubled backslashes before a quote that is escaped."""
    return re.sub(r'(\\*)\\"', lambda m: "\\" * (len(m[1]) // 2) + '"', s)


class Project:
    """A parsed .vcxproj file."""

    def __init__(self, path, text):
        self.path, self.dir = path, ntpath.dirname(path)
        self.root = ET.fromstring(text.encode())
        self.name = ntpath.splitext(ntpath.basename(path))[0]

    def tags(self, name):
        return self.root.iter(NS + name)

    def confs(self):
        return [(e.get("Include"), e.findtext(NS + "Configuration"), e.findtext(NS + "Platform")) for e in self.tags("ProjectConfiguration")]

    @staticmethod
    def holds(e, conf):
        w = e.get("Condition")
        return w is None or w == f"'$(Configuration)|$(Platform)'=='{conf}'"

    def values(self, name, conf):
        """Values a property takes, in order, in one configuration."""
        return [e.text or "" for g in self.tags("PropertyGroup") if self.holds(g, conf) for e in g if e.tag == NS + name and self.holds(e, conf)]

    def value(self, name, conf):
        v = self.values(name, conf)
        return v[-1] if v else None

    def tools(self, conf):
        """{(tool, setting): [values]}"""
        out = {}
        for g in self.tags("ItemDefinitionGroup"):
            if self.holds(g, conf):
                for t in g:
                    for x in t:
                        out.setdefault((t.tag[len(NS):], x.tag[len(NS):]), []).append(x.text or "")
        return out

    def items(self):
        """[(kind, path, element)]"""
        return [(e.tag[len(NS):], e.get("Include"), e) for g in self.tags("ItemGroup") if g.get("Label") is None for e in g]


class World:
    def __init__(self, gen, label, targets, options=None, flags=None, **kw):
        self.label, self.targets = label, targets
        self.names = [f"{b}:{t['target_name']}#{t['toolset']}" for b, t in targets]
        self.res = gen.run(list(zip(self.names, (t for _, t in targets))), options={"generator_output": "build", **(options or {})}, flags=flags or {}, flavor="win",
                           params={"msvs_version": ("sym", "version")}, **kw)
        self.files = {}
        if self.res[0] == "ok":
            for k, v in self.res[1].items():
                k = ntpath.normpath(TOP + k[2:] if k.startswith("/w") else k)
                self.files[k] = v
        self.projects = {}

    def project(self, b, t):
        return ntpath.normpath(ntpath.join(TOP, "build", ntpath.dirname(b), called(t) + ".vcxproj"))

    def load(self, b, t):
        p = self.project(b, t)
        if p not in self.projects:
            try:
                self.projects[p] = Project(p, self.files[p]) if p in self.files else None
            except ET.ParseError as e:
                self.projects[p] = e
        return self.projects[p]


def macro(x):
    """Paths below a directory in a variable, which ends in a backslash."""
    return re.sub(r"\)\\*(?=.)", r")\\", x).rstrip("\\")


def there(b, p):
    """Absolute form of a path in the settings of a target."""
    return macro(p.replace("/", "\\")) if p.startswith("$(") else ntpath.normpath(ntpath.join(TOP, ntpath.dirname(b), p))


def here(p, x):
    """Absolute form of a path in a project."""
    return macro(x) if x.startswith(("$(", "%(")) else ntpath.normpath(ntpath.join(p.dir, x))


def full(conf, cf, t=None):
    """Configuration and platform in the solution, or in the project of target t: programs for the build run on x64."""
    pl = cf.get("msvs_configuration_platform", "Win32")
    return (conf[:-len(pl) - 1] if conf.endswith("_" + pl) else conf), "x64" if t is not None and t["toolset"] == "host" and pl == "arm64" else pl


def called(t):
    return t["target_name"] + ("_host" if t["toolset"] == "host" else "")


def split(v, key, sep=";"):
    """Entries of a list setting, without the inherited ones at its end, and whether those are there."""
    xs = [x for x in v.split(sep) if x]
    inherit = f"%({key})"
    n = len(xs)
    while xs and xs[-1] == inherit:
        xs.pop()
    return xs, len(xs) < n


def effective(p, conf, platform, t, x, own):
    """A value with the variables of the project replaced."""
    outdir = p.value("OutDir", own)
    for _ in range(4):
        for k, v in (("$(OutDir)", outdir), ("$(ProjectName)", p.name), ("$(TargetName)", p.value("TargetName", own)), ("$(TargetExt)", p.value("TargetExt", own) or KIND[t["type"]][1]),
                     ("$(Configuration)", conf), ("$(Platform)", platform), ("$(SolutionDir)", TOP + "\\build\\"), ("$(IntDir)", p.value("IntDir", own))):
            if v is not None and k in x:
                x = x.replace(k, v)
    return ntpath.normpath(ntpath.join(p.dir, x))


def judge(w, ob):
    lab = w.label

    def check(rule, ok, what, why, key):
        ob(rule, ok, f"{lab}: {what}", why, key)
    if w.res[0] != "ok":
        return check("V1", False, "the solution is generated", f"{w.res[0]} {w.res[1]}", "projects are generated")
    check("V1", True, "", "", "projects are generated")
    guids = {}
    for b, t in w.targets:
        p = w.load(b, t)
        if isinstance(p, ET.ParseError):
            check("V6", False, f"the project of {called(t)} is well-formed", str(p), "well-formed XML")
            continue
        n = called(t)
        check("V1", p is not None, f"{n} has a project", str(sorted(w.files))[:200], "a project per target")
        if p is None:
            continue
        check("V6", True, "", "", "well-formed XML")
        gs = [e.text for e in p.tags("ProjectGuid")]
        check("V5", len(gs) == 1 and re.fullmatch(r"\{[0-9A-F]{8}(-[0-9A-F]{4}){3}-[0-9A-F]{12}\}", gs[0] or "") is not None, f"{n} has an identifier", str(gs), "project identifiers")
        check("V5", gs and gs[0] not in guids.values(), f"the identifier of {n} is its own", str(gs), "project identifiers")
        guids[(b, n)] = gs[0] if gs else None
        one(w, b, t, p, check)
    if len(guids) == len(w.targets):
        solution(w, guids, check)


def one(w, b, t, p, check):
    n, kind = called(t), t["type"]
    confs = {"|".join(full(k, cf, t)): (k, cf) for k, cf in t["configurations"].items()}
    have = p.confs()
    check("V1", sorted(x[0] for x in have) == sorted(confs) and all(x[0] == f"{x[1]}|{x[2]}" for x in have), f"{n} has its configurations", str(have), "project configurations")
    for own, (k, cf) in confs.items():
        c, pl = full(k, cf, t)
        L = f"{n} ({own})"
        ct = p.values("ConfigurationType", own)
        want = KIND[kind][0]
        check("V1", ct == [want], f"{L} is a {want}", str(ct), "kind of project")
        ts = "WindowsKernelModeDriver10.0" if kind == "windows_driver" else t["configurations"][t["default_configuration"]].get("msbuild_toolset", "v143")
        check("V1", p.values("PlatformToolset", own) == [ts], f"{L} is built with toolset {ts}", str(p.values("PlatformToolset", own)), "toolset")
        check("V1", p.value("WindowsTargetPlatformVersion", own) == SDK, f"{L} uses the SDK it names", str(p.value("WindowsTargetPlatformVersion", own)), "SDK version")
        tools = p.tools(own)
        for q, v in tools.items():
            check("V2", len(v) == 1, f"{L}: {q[0]}/{q[1]} is set once", str(v)[:200], "settings are set once")
        tools = {q: v[0] for q, v in tools.items()}
        attrs = cf.get("msbuild_configuration_attributes", {})
        od = p.value("OutDir", own)
        wantdir = there(b, attrs["OutputDirectory"]) if "OutputDirectory" in attrs else f"{TOP}\\build\\{c}"
        check("V1", od is not None and effective(p, c, pl, t, od, own) == wantdir and od.endswith("\\"), f"products of {L} are placed in {wantdir}", str(od), "output directory")
        tool = KIND[kind][2]
        if tool:
            out = tools.get((tool, "OutputFile"))
            ext = attrs.get("TargetExt") or ("." + t["product_extension"] if "product_extension" in t else KIND[kind][1])
            pd = t.get("product_dir", "$(OutDir)" + ("lib\\" if kind == "static_library" and not t.get("standalone_static_library") else ""))
            wantfile = ntpath.normpath(ntpath.join(pd.replace("$(OutDir)", wantdir + "\\"), t.get("product_prefix", "") + t.get("product_name", n) + ext))
            got = effective(p, c, pl, t, out, own) if out else None
            check("V1", got == wantfile, f"the product of {L} is {wantfile}", str((out, got)), "path of the product")
            name = (p.value("TargetName", own) or "").replace("$(ProjectName)", p.name)
            te = p.value("TargetExt", own) or KIND[kind][1]
            check("V1", name + te == ntpath.basename(wantfile), f"name and extension of {L} are those of its product", name + te, "target name and path")
            tp = p.value("TargetPath", own)
            check("V1", tp is None or effective(p, c, pl, t, tp, own) == wantfile, f"the target path of {L} is its product", str(tp), "target name and path")
        settings(w, b, t, p, cf, L, tools, own, check)
    sources(w, b, t, p, confs, check)
    steps(w, b, t, p, check)
    refs = [(e.get("Include"), e.findtext(NS + "Project")) for e in p.tags("ProjectReference") if e.get("Include")]
    want = {}
    for d in t.get("dependencies", ()):
        for (b2, t2), q in zip(w.targets, w.names):
            if q == d:
                o = w.load(b2, t2)
                want[w.project(b2, t2)] = next(o.tags("ProjectGuid")).text if isinstance(o, Project) else None
    check("V5", {here(p, x): g for x, g in refs} == want and len(refs) == len(want), f"{n} refers to the projects it depends on", str(refs)[:300], "project references")


def settings(w, b, t, p, cf, L, tools, own, check):
    """Compiler and linker settings of one configuration."""
    want = {}

    def lst(tool, key, xs, inherit=True):
        o = want.get((tool, key), ([], True))[0]
        want[(tool, key)] = (o + list(xs), inherit)
    cl = "ClCompile"
    conv = cf.get("msvs_settings", {})
    extra = []
    globals_ = {}
    for tool, kv in conv.items():
        for key, v in kv.items():
            q = (tool, key)
            if q in ENUM:
                T_, K, labels = ENUM[q]
                v = labels[int(v)]
            elif q in BOOL:
                T_, K = BOOL[q]
            elif q in TEXT:
                T_, K = TEXT[q]
                v = v.replace("$(ConfigurationName)", "$(Configuration)").replace("$(PlatformName)", "$(Platform)")
            elif q in LIST:
                T_, K = LIST[q]
                lst(T_, K, [x.replace("$(ConfigurationName)", "$(Configuration)") for x in v], K not in ("IgnoreSpecificDefaultLibraries", "ForceSymbolReferences", "ForcedIncludeFiles"))
                continue
            elif q == ("VCCLCompilerTool", "DefaultCharIsUnsigned"):
                extra += ["/J"] if v == "true" else []
                continue
            else:
                continue
            if T_ == "":
                globals_[K] = v
            else:
                want[(T_, K)] = v
    for tool, kv in cf.get("msbuild_settings", {}).items():
        for key, v in kv.items():
            if isinstance(v, list):
                lst(tool, key, v)
            else:
                want[(tool, key)] = v
    if extra:
        o = want.get((cl, "AdditionalOptions"))
        want[(cl, "AdditionalOptions")] = (o[0] + extra, True) if o else " ".join(extra)
    inc = cf.get("include_dirs", []) + cf.get("msvs_system_include_dirs", [])
    if inc:
        lst(cl, "AdditionalIncludeDirectories", [there(b, x) for x in inc])
    rinc = cf.get("resource_include_dirs", inc)
    if rinc:
        lst("ResourceCompile", "AdditionalIncludeDirectories", [there(b, x) for x in rinc])
    minc = cf.get("midl_include_dirs", []) + cf.get("msvs_system_include_dirs", [])
    if minc:
        lst("Midl", "AdditionalIncludeDirectories", [there(b, x) for x in minc])
    if cf.get("library_dirs"):
        lst("Link", "AdditionalLibraryDirectories", [there(b, x) for x in cf["library_dirs"]])
    libs = []
    for x in reversed(t.get("libraries", [])):
        x = x[2:] if x.startswith("-l") else x
        x = x if ntpath.splitext(x)[1] else x + ".lib"
        if x not in libs:
            libs.insert(0, x)
    lst("Link", "AdditionalDependencies", [x.replace("/", "\\") for x in libs], False)
    defs = [x for x in cf.get("defines", []) if x != "_HAS_TR1=0" or "msbuild_settings" in cf]
    if defs:
        lst(cl, "PreprocessorDefinitions", defs)
        lst("ResourceCompile", "PreprocessorDefinitions", defs)
    if cf.get("msvs_disabled_warnings"):
        lst(cl, "DisableSpecificWarnings", [str(x) for x in cf["msvs_disabled_warnings"]])
    if cf.get("msvs_precompiled_header"):
        h = ntpath.basename(cf["msvs_precompiled_header"])
        want[(cl, "PrecompiledHeader")], want[(cl, "PrecompiledHeaderFile")] = "Use", h
        lst(cl, "ForcedIncludeFiles", [h], False)
    else:
        want[(cl, "PrecompiledHeader")] = "NotUsing"
    dfs = [x for x in t.get("sources", ()) if x.endswith(".def")]
    if dfs and KIND[t["type"]][2] == "Link":
        want[("Link", "ModuleDefinitionFile")] = ("path", there(b, dfs[0]))
    for k, e in (("msvs_prebuild", "PreBuildEvent"), ("msvs_postbuild", "PostBuildEvent")):
        if cf.get(k):
            want[(e, "Command")] = cf[k]
    for q, v in sorted(want.items()):
        got = tools.get(q)
        if isinstance(v, tuple) and v[0] == "path":
            ok = got is not None and here(p, got) == v[1]
        elif isinstance(v, tuple):
            xs, inherit = split(got or "", q[1], " " if q[1] == "AdditionalOptions" else ";")
            if q[1] in PATHS:
                xs = [here(p, x) for x in xs]
            elif q[1] == "PreprocessorDefinitions":
                xs = ["expanded: " + x if "$(" in x else argument(unescape(x)) for x in xs]
            ok = xs == v[0] and inherit == v[1] if v[0] else not xs
        else:
            ok = got == v
        check("V2", ok, f"{L}: {q[0]}/{q[1]} is {str(v[0] if isinstance(v, tuple) else v)[:120]}", str(got)[:250], f"{q[0]}/{q[1]}")
    tool = KIND[t["type"]][2]
    rest = sorted(q for q in tools if q not in want and q[1] not in ("OutputFile", "TargetExt"))
    check("V2", not rest, f"{L} has no settings the target does not ask for", str({q: tools[q] for q in rest})[:250], "no other settings")
    check("V2", all(q[0] == tool for q in tools if q[1] in ("OutputFile", "TargetExt")), f"{L}: only {tool} has a product", str(sorted(tools))[:200], "no other settings")
    if t["type"] == "loadable_module":
        globals_.setdefault("IgnoreImportLibrary", "true")
    for k in ("IgnoreImportLibrary", "LinkIncremental"):
        check("V2", p.value(k, own) == globals_.get(k), f"{L}: {k} is {globals_.get(k)}", str(p.values(k, own)), k)


def sources(w, b, t, p, confs, check):
    n = called(t)
    items = [x for x in p.items() if x[0] not in ("ProjectReference", "CustomBuild")]
    src = list(dict.fromkeys(t.get("sources", [])))
    custom = {there(b, a["inputs"][0]) for a in t.get("actions", ()) if a["inputs"]} | {there(b, f) for x in t.get("copies", ()) for f in x["files"]}
    excluded = {there(b, x) for x in t.get("sources_excluded", ())} | {there(b, x) for a in t.get("actions", ()) for x in a["inputs"]}
    for a in t.get("actions", ()):
        src += a["inputs"]
        if int(a.get("process_outputs_as_sources", 0)):
            src += a["outputs"]
    src += t.get("sources_excluded", [])
    arm = t["toolset"] == "target" and any(full(k, cf)[1] == "arm64" for k, cf in t["configurations"].items())
    item = {**ITEM, **({".asm": "MARMASM", ".s": "MARMASM"} if arm else {})}
    want = {there(b, x): item.get(ntpath.splitext(x)[1].lower(), "None") for x in src}
    want = {k: v for k, v in want.items() if k not in custom}
    gypfile = there(b, ntpath.basename(b))
    got = {}
    for kind, x, e in items:
        got.setdefault(here(p, x), []).append((kind, e))
    check("V3", all(len(v) == 1 for v in got.values()), f"{n}: a source is listed once", str({k: len(v) for k, v in got.items() if len(v) > 1})[:200], "sources are listed once")
    for k, v in want.items():
        check("V3", [x[0] for x in got.get(k, ())] == [v], f"{n}: {k} is a {v} item", str(sorted((y, x[0][0]) for y, x in got.items()))[:250], "sources are items of their kind")
    imports = [(e.get("Project") or "").rsplit("\\", 1)[-1].lower() for e in p.tags("Import")]
    for v in sorted(set(want.values()) & {"MASM", "MARMASM"}):
        check("V3", imports.count(v.lower() + ".props") == imports.count(v.lower() + ".targets") == 1, f"{n} imports the rules of {v} items", str(imports)[:250], "rules of assembler sources")
    rest = set(got) - set(want) - {gypfile}
    check("V3", not rest, f"{n} has no other items", str(rest)[:200], "no other items")
    objs = {}
    for k, v in got.items():
        if v[0][0] != "ClCompile":
            continue
        e = v[0][1]
        o = [x.text for x in e if x.tag == NS + "ObjectFileName"]
        name = o[-1] if o else "$(IntDir)\\" + ntpath.splitext(ntpath.basename(k))[0] + ".obj"
        check("V3", name.startswith("$(IntDir)") and name.endswith(".obj") and ".." not in name, f"{n}: the object of {k} is in the intermediate directory", name, "objects")
        objs.setdefault(name.lower(), []).append(k)
    check("V3", all(len(v) == 1 for v in objs.values()), f"{n}: sources have objects of their own", str(objs)[:250], "objects")
    f = w.files.get(p.path + ".filters")
    try:
        root = ET.fromstring(f.encode()) if f is not None else None
        listed = sorted((e.tag[len(NS):], here(p, e.get("Include"))) for g in root.iter(NS + "ItemGroup") for e in g if e.tag != NS + "Filter") if root is not None else None
    except ET.ParseError as e:
        return check("V6", False, f"the filters of {n} are well-formed", str(e), "well-formed XML")
    if listed is not None:
        names = {e.get("Include") for e in root.iter(NS + "Filter") if e.get("Include")}
        used = {e.text for e in root.iter(NS + "Filter") if not e.get("Include")}
        check("V3", used <= names, f"{n}: filters in use are declared", str(sorted(used - names)), "filters")
        check("V3", {y for _, y in listed} >= set(want), f"{n}: the filters list the sources", str(listed)[:250], "filters")
    pchs = {}
    for own, (_, cf) in confs.items():
        s = cf.get("msvs_precompiled_source")
        pchs[own] = s and there(b, s)
    for k, v in got.items():
        kind, e = v[0]
        for own, (_, cf) in confs.items():
            ex = [x.text for x in e if x.tag == NS + "ExcludedFromBuild" and Project.holds(x, own)]
            related = {there(b, cf[q]) for q in ("msvs_precompiled_header", "msvs_precompiled_source") if cf.get(q)}
            wx = k in excluded and k not in related and k != gypfile
            check("V3", (ex[-1:] == ["true"]) == wx, f"{n} ({own}): {k} is {'excluded from' if wx else 'part of'} the build", str(ex), "excluded sources")
            if kind != "ClCompile" or wx:
                continue
            ph = [x.text or "" for x in e if x.tag == NS + "PrecompiledHeader" and Project.holds(x, own)]
            if pchs[own] == k:
                wp = "Create"
            elif pchs[own] and (ntpath.splitext(k)[1] == ".c") != (ntpath.splitext(pchs[own])[1] == ".c"):
                wp = ""
            else:
                wp = None
            if wp is None and any(pchs.values()) and not pchs[own]:
                continue   # nothing to inherit
            check("V3", (ph[-1] if ph else None) == wp, f"{n} ({own}): precompiled headers for {k}", f"{ph} instead of {wp}", "precompiled headers")


def words(cmd):
    """Words of a command line of Windows."""
    x = shlex.shlex(cmd, posix=True, punctuation_chars=False)
    x.whitespace_split, x.escape, x.commenters, x.quotes = True, "", "", '"'
    return list(x)


def steps(w, b, t, p, check):
    n = called(t)
    if not t.get("actions") and not t.get("copies"):
        check("V4", not list(p.tags("CustomBuild")), f"{n} has no build steps", "", "custom build steps")
        return
    got = {}
    for e in p.tags("CustomBuild"):
        got.setdefault(here(p, e.get("Include")), []).append(e)
    check("V4", all(len(v) == 1 for v in got.values()), f"{n}: one step per input", str({k: len(v) for k, v in got.items()}), "custom build steps")
    first, ins, outs, cmds = {}, {}, {}, {}
    for a in t.get("actions", ()):
        inputs = a["inputs"] or [b]
        k = there(b, inputs[0]) if a["inputs"] else None
        if k is None:
            k = next((x for x in got if x.endswith("\\" + ntpath.basename(b))), "no inputs")
        first[k] = True
        ins.setdefault(k, set()).update(there(b, x) for x in a["inputs"])
        outs.setdefault(k, set()).update(there(b, x) for x in a["outputs"])
        cmds.setdefault(k, []).append([a["action"][0].replace("/", "\\")] + a["action"][1:])
    for x in t.get("copies", ()):
        for f in x["files"]:
            if f.endswith("/"):
                continue
            k = there(b, f)
            first[k] = True
            dst = there(b, ntpath.join(x["destination"], ntpath.basename(f)))
            ins.setdefault(k, set()).add(k)
            outs.setdefault(k, set()).add(dst)
            cmds.setdefault(k, []).append(("copy", k, dst))
    check("V4", set(got) == set(first), f"{n}: the steps are those of its actions and copies", f"{sorted(got)} instead of {sorted(first)}"[:300], "custom build steps")
    for k in first:
        if k not in got:
            continue
        e = got[k][0]
        o = {here(p, x) for x in (e.findtext(NS + "Outputs") or "").split(";") if x}
        i = {here(p, x) for x in (e.findtext(NS + "AdditionalInputs") or "").split(";") if x} | {k}
        check("V4", o == outs[k], f"{n}: the step for {k} makes its outputs", f"{sorted(o)} instead of {sorted(outs[k])}"[:300], "outputs of steps")
        check("V4", i == ins[k] | {k}, f"{n}: the step for {k} has its inputs", f"{sorted(i)} instead of {sorted(ins[k])}"[:300], "inputs of steps")
        lines = [x for x in (e.findtext(NS + "Command") or "").replace("\r\n", "\n").split("\n") if x]
        run = [x for x in lines if not x.startswith(("if %errorlevel%", "set INPUTDIR", "if NOT DEFINED"))]
        stop = [j for j, x in enumerate(lines) if x.startswith("if %errorlevel% neq 0 exit /b")]
        check("V4", len(run) == len(cmds[k]) and all(any(lines[j - 1] == r for j in stop) for r in run), f"{n}: every command of {k} runs and a failure ends the step", str(lines)[:300], "commands of steps")
        for r, want in zip(run, cmds[k]):
            ws = words(r)
            while ws and ws[0] == "call":
                ws.pop(0)
            if want[0] == "copy":
                j = ws.index("copy") if "copy" in ws else None
                fs = [here(p, x) for x in ws[j + 1:] if not x.startswith("/")] if j is not None else None
                check("V4", fs == [want[1], want[2]], f"{n}: {want[1]} is copied to {want[2]}", r[:250], "commands of steps")
                check("V4", "mkdir" in ws and here(p, ws[ws.index("mkdir") + 1]) == ntpath.dirname(want[2]), f"{n}: the destination of {want[1]} is made", r[:250], "commands of steps")
            else:
                flat = [x if x[:1] in "/-" or "=" in x else here(p, x.replace("/", "\\")) for x in ws[1:]]
                wf = [x if x[:1] in "/-" or "=" in x else there(b, x) for x in want[1:]]
                check("V4", ws[:1] == want[:1] and flat == wf, f"{n}: the command of {k} is that of the action", f"{ws} instead of {want}"[:300], "commands of steps")


def solution(w, guids, check):
    byname = {q: (b, t) for (b, t), q in zip(w.targets, w.names)}
    for f in dict.fromkeys(b for b, _ in w.targets):
        path = ntpath.normpath(ntpath.join(TOP, "build", f[:-4] + ".sln"))
        text = w.files.get(path)
        check("V5", text is not None, f"{f} has a solution", str(sorted(w.files))[:200], "a solution per file")
        if text is None:
            continue
        want = {q for q in byname if byname[q][0] == f}
        todo = list(want)
        while todo:
            for d in byname[todo.pop()][1].get("dependencies", ()):
                if d not in want:
                    want.add(d)
                    todo.append(d)
        rows = re.findall(r'Project\("(\{[^"]*\})"\) = "([^"]*)", "([^"]*)", "(\{[^"]*\})"(.*?)EndProject\s', text, re.S)
        ids = [r[3] for r in rows]
        check("V5", len(ids) == len(set(ids)), f"entries of the solution of {f} differ", str(ids)[:200], "entries of the solution")
        rows = {r[3]: r for r in rows}
        folders = {g for g, r in rows.items() if not r[2].endswith(".vcxproj")}
        d = ntpath.dirname(path)
        got = {(ntpath.normpath(ntpath.join(d, r[2])), g, r[1]) for g, r in rows.items() if g not in folders}
        exp = {(w.project(*byname[q]), guids[(byname[q][0], called(byname[q][1]))], called(byname[q][1])) for q in want}
        check("V5", got == exp, f"the solution of {f} has the projects of its targets and of all they depend on", f"{sorted(got ^ exp)}"[:300], "entries of the solution")
        for q in want:
            b, t = byname[q]
            g = guids[(b, called(t))]
            deps = set(re.findall(r"(\{[0-9A-F-]*\}) = \{", rows[g][4])) if g in rows else set()
            exp = {guids[(byname[x][0], called(byname[x][1]))] for x in t.get("dependencies", ())}
            check("V5", deps == exp, f"the solution of {f} builds the dependencies of {called(t)} first", str(sorted(deps ^ exp))[:200], "order of the solution")
        sec = re.search(r"GlobalSection\(SolutionConfigurationPlatforms\)[^\n]*\n(.*?)EndGlobalSection", text, re.S)
        confs = {x.split(" = ")[0].strip() for x in sec[1].splitlines() if " = " in x} if sec else set()
        every = {"|".join(full(k, cf)) for _, t in w.targets for k, cf in t["configurations"].items()}
        check("V5", confs == every, f"the solution of {f} has the configurations of the targets", str(sorted(confs)), "configurations of the solution")
        sec = re.search(r"GlobalSection\(ProjectConfigurationPlatforms\)[^\n]*\n(.*?)EndGlobalSection", text, re.S)
        rows2 = dict(x.strip().split(" = ") for x in sec[1].splitlines() if " = " in x) if sec else {}
        for q in want:
            b, t = byname[q]
            g = guids[(b, called(t))]
            p = w.load(b, t)
            for k, cf in t["configurations"].items():
                own, its = "|".join(full(k, cf)), "|".join(full(k, cf, t))
                a, bl = rows2.get(f"{g}.{own}.ActiveCfg"), rows2.get(f"{g}.{own}.Build.0")
                check("V5", a == bl == its and its in [x[0] for x in p.confs()], f"{own} of the solution of {f} builds {its} of {called(t)}", f"{a}, {bl}", "configurations of the solution")
        nested = re.search(r"GlobalSection\(NestedProjects\)[^\n]*\n(.*?)EndGlobalSection", text, re.S)
        pairs = [x.strip().split(" = ") for x in nested[1].splitlines() if " = " in x] if nested else []
        check("V5", all(x in rows and y in folders for x, y in pairs) and len({x for x, _ in pairs}) == len(pairs), f"folders of the solution of {f} hold its projects", str(pairs)[:200], "folders")


def conf(platform="x64", **kw):
    return {"msvs_configuration_platform": platform, "msvs_windows_target_platform_version": SDK, **kw}


def two(debug=None, release=None, platform="x64"):
    return {"Debug": conf(platform, **(debug or {})), "Release": conf(platform, **(release or {}))}


def q(b, n):
    return f"{b}:{n}#target"


A = "binding.gyp"


def kinds():
    ds = {"defines": ["DEBUG", "LEVEL=2"], "include_dirs": ["inc", "C:/node/include/node", "$(X)/y"], "library_dirs": ["libs", "$(L)/z"], "msvs_system_include_dirs": ["sys", "$(S)/i"], "msvs_disabled_warnings": [4251, 4503]}
    rs = {"defines": ["NDEBUG"], "include_dirs": ["inc/rel"], "midl_include_dirs": ["idl"], "resource_include_dirs": ["res"]}
    return [(A, T("addon", "loadable_module", confs=two(ds, rs), sources=["a.cc"], product_extension="node", dependencies=[q(A, "lib"), q(A, "dll")],
                  libraries=["-lkernel32.lib", "-lfoo", "C:/node/Release/node.lib", "-lfoo", "bar.obj", "my-lib", "-ladv"])),
            (A, T("lib", "static_library", confs=two(rs, ds), sources=["l.c"], dependencies=[q(A, "gen")])),
            (A, T("dll", "shared_library", confs=two({}, {"defines": ["D=1"]}), sources=["d.cpp", "d.def"], product_name="other", product_prefix="pre_")),
            (A, T("app", "executable", confs=two({"defines": ["APP"]}, {}), sources=["m.cxx"], product_dir="$(OutDir)sub", dependencies=[q(A, "dll")])),
            (A, T("gen", "none", confs=two())),
            (A, T("alone", "static_library", confs=two(), sources=["s.c"], standalone_static_library=1, product_extension="a"))]


def files():
    src = ["a.cc", "b.c", "src/b.cpp", "lib/b.cpp", "src/lib/b.cpp", "x/a.cc", "x/y/a.cc", "inc/a.h", "inc/a.hxx", "r.rc", "f.asm", "g.s", "doc.txt", "UP.CPP", "$(GEN)/g.cc", "a.cc"]
    return [(A, T("t", "executable", confs=two(), sources=src, sources_excluded=["no.cc", "x/no.cc", "no.h"])),
            ("sub/s.gyp", T("deep", "static_library", confs=two({"include_dirs": ["inc", ".."]}), sources=["a.cc", "k/a.cc", "h.h"]))]


def headers():
    pch = {"msvs_precompiled_header": "src/pch.h", "msvs_precompiled_source": "src/pch.cc"}
    return [(A, T("both", "executable", confs=two(pch, pch), sources=["a.cc", "b.c", "src/pch.cc", "src/pch.h"])),
            (A, T("one", "executable", confs=two(pch), sources=["a.cc", "src/pch.cc", "src/pch.h"])),
            (A, T("left", "executable", confs=two(pch), sources=["a.cc"], sources_excluded=["src/pch.cc", "o.cc"])),
            (A, T("c", "executable", confs=two({"msvs_precompiled_header": "p.h", "msvs_precompiled_source": "p.c"}, {"msvs_precompiled_header": "p.h", "msvs_precompiled_source": "p.c"}),
                  sources=["a.cc", "b.c", "p.c"]))]


def tool(i):
    """Every setting with its i-th value."""
    out = {}
    for (t, k), (_, _, labels) in ENUM.items():
        v = [j for j, x in enumerate(labels) if x is not None]
        out.setdefault(t, {})[k] = v[i % len(v)] if i % 2 else str(v[i % len(v)])
    for t, k in BOOL:
        out.setdefault(t, {})[k] = ("true", "false")[i % 2]
    return out


def texts():
    s = {"VCLinkerTool": {"ImportLibrary": "$(OutDir)imp.lib", "EntryPointSymbol": "go", "StackReserveSize": "100000", "ProgramDatabaseFile": "$(OutDir)$(ConfigurationName).pdb",
                          "DelayLoadDLLs": ["node.exe", "a.dll"], "IgnoreDefaultLibraryNames": ["libcmt.lib"], "ForceSymbolReferences": ["_x", "_y"], "AdditionalOptions": ["/ltcg:incremental", "/d1"],
                          "AdditionalLibraryDirectories": ["C:\\own"]},
         "VCCLCompilerTool": {"DefaultCharIsUnsigned": "true", "AdditionalOptions": ["/std:c++20", "/Zc:__cplusplus"], "DisableSpecificWarnings": ["4100"], "ForcedIncludeFiles": ["f.h"],
                              "ProgramDataBaseFileName": "$(IntDir)x.pdb"}}
    o = {"VCCLCompilerTool": {"AdditionalOptions": ["/x"], "DefaultCharIsUnsigned": "true"}, "VCLibrarianTool": {"AdditionalOptions": ["/LTCG"]}}
    j = {"VCCLCompilerTool": {"DefaultCharIsUnsigned": "true"}, "VCLinkerTool": {"LinkIncremental": 2}}
    n = {"VCCLCompilerTool": {"DefaultCharIsUnsigned": "false"}}
    m = {"ClCompile": {"LanguageStandard": "stdcpp20", "AdditionalOptions": ["/m"]}, "Link": {"GenerateDebugInformation": "true"}}
    return [(A, T("t", "shared_library", confs=two({"msvs_settings": s, "library_dirs": ["more"], "msvs_disabled_warnings": ["4251"]}, {"msvs_settings": n}), sources=["a.cc"])),
            (A, T("u", "static_library", confs=two({"msvs_settings": o}, {"msvs_settings": j}), sources=["a.cc"])),
            (A, T("v", "executable", confs=two({"msbuild_settings": m, "defines": ["_HAS_TR1=0", "V"]}, {"defines": ["_HAS_TR1=0", "W"], "msvs_prebuild": "pre.bat", "msvs_postbuild": "post.bat"}), sources=["a.cc"]))]


def escapes():
    ds = ['NAME="x y"', "AMP=a&b<c>d", "LIST=a;b", "VAR=$(X)", "AT=@q'?*", "S='t'", 'PATH_="C:\\\\dir\\\\"', "PLAIN"]
    return [(A, T("t", "loadable_module", confs=two({"defines": ds, "include_dirs": ["a & b", "it's", "c<d"]}, {"defines": ds[:2]}), sources=["a&b.cc", "it's.cc", "x y/z.cc"], product_extension="node")),
            (A, T("u&v", "static_library", confs=two({"defines": ds[5:]}), sources=["a.cc"]))]


def builds():
    act = [{"action_name": "one", "inputs": ["in/a.in", "tool.py"], "outputs": ["gen/a.cc", "$(INT)/a.h"], "action": ["python", "tool.py", "--out", "gen/a.cc", "in/a.in"], "process_outputs_as_sources": 1},
           {"action_name": "two", "inputs": ["in/a.in", "other.in"], "outputs": ["gen/b.txt"], "action": ["node/bin/node", "other.in", "-x=y", "/q", "k=v/w"], "message": "second"},
           {"action_name": "three", "inputs": ["src.cc"], "outputs": ["gen/c.txt"], "action": ["type", "src.cc"]}]
    cps = [{"destination": "out/dir", "files": ["c1.txt", "sub/c2.txt"]}, {"destination": "$(OutDir)/data", "files": ["in/d.bin"]}]
    return [(A, T("t", "loadable_module", confs=two(), sources=["a.cc", "src.cc", "other.in"], actions=act, msvs_cygwin_shell=0)),
            (A, T("c", "none", confs=two(), copies=cps, msvs_cygwin_shell=0, dependencies=[q(A, "t")])),
            ("d/e.gyp", T("e", "none", confs=two(), actions=act[:1], copies=cps[:1], msvs_cygwin_shell=0))]


def trees():
    B, C, D = "deps/z/z.gyp", "deps/y.gyp", "src/s.gyp"
    return [(A, T("root", "loadable_module", confs=two(), sources=["r.cc"], dependencies=[q(B, "z"), q(C, "y")])),
            (B, T("z", "static_library", confs=two(), sources=["z.c"], dependencies=[q(C, "y2")])),
            (C, T("y", "static_library", confs=two(), sources=["y.c"])),
            (C, T("y2", "static_library", confs=two(), sources=["y.c"])),
            (D, T("solo", "executable", confs=two(), sources=["s.cc"], dependencies=[q(B, "z")])),
            (D, T("solo2", "executable", confs=two(), sources=["s2.cc"]))]


def names():
    return [(A, T("t", "executable", confs={"My_Debug": conf("x64", defines=["A"]), "Release_x64": conf("x64", defines=["B"]), "Release": conf("Win32", defines=["C"])}, sources=["a.cc"])),
            (A, T("u", "static_library", confs={"My_Debug": conf("x64"), "Release_x64": conf("x64"), "Release": conf("Win32")}, sources=["b.cc"]))]


def crossed():
    return [(A, T("tool", "executable", confs=two({"defines": ["H"]}, {}, "arm64"), toolset="host", sources=["tool.cc", "h.asm"], dependencies=["binding.gyp:base#host"])),
            (A, T("base", "static_library", confs=two({}, {}, "arm64"), toolset="host", sources=["b.cc"])),
            (A, T("base", "static_library", confs=two({"defines": ["T"]}, {}, "arm64"), sources=["b.cc", "t.asm", "u.s"])),
            (A, T("addon", "loadable_module", confs=two({}, {"defines": ["A"]}, "arm64"), sources=["a.cc"], dependencies=["binding.gyp:tool#host", q(A, "base")]))]


def attributes():
    a = {"msbuild_configuration_attributes": {"TargetExt": ".d", "OutputDirectory": "outd"}}
    b = {"msbuild_configuration_attributes": {"TargetExt": ".r", "OutputDirectory": "outr"}, "msbuild_toolset": "v142"}
    return [(A, T("t", "executable", confs=two(a, b), sources=["a.cc"])),
            (A, T("u", "none", confs=two({}, a))),
            (A, T("v", "loadable_module", confs=two({"msbuild_toolset": "ClangCL"}, {"msbuild_toolset": "ClangCL"}), sources=["a.cc"])),
            (A, T("w", "windows_driver", confs=two(), sources=["a.c"]))]


def check(c):
    c.rule("V1", "every target has a project of its kind whose product has the name and place of the target's")
    c.rule("V2", "every configuration is built with exactly its definitions, directories, libraries and tool settings")
    c.rule("V3", "every source is an item of its kind once, with an object of its own")
    c.rule("V4", "actions and copies are build steps with their commands, inputs and outputs")
    c.rule("V5", "references and solutions name existing projects and configurations, and all that are needed")
    c.rule("V6", "projects are well-formed whatever the settings contain")
    g = VS(c)
    loc = (g.f.loc if g.f is not None else ("gyp/pylib/gyp/generator/msvs.py", 1))
    if not g.ok:
        return c.ob("V1", loc, False, "the Visual Studio generator can be read")
    ob = Tally(c, loc)
    todo = [("kinds of targets", kinds()), ("sources", files()), ("precompiled headers", headers()), ("settings", texts()), ("special characters", escapes()), ("build steps", builds()),
            ("several files", trees()), ("configuration names", names()), ("attributes", attributes())]
    for i in range(0, 18, 2):
        todo.append((f"tool settings {i}", [(A, T("t", "executable", confs=two({"msvs_settings": tool(i)}, {"msvs_settings": tool(i + 1)}), sources=["a.cc"]))]))
    todo = [lambda x=x: judge(World(g, *x), ob) for x in todo]
    todo.append(lambda: judge(World(VS(c, {"GYP_CROSSCOMPILE": "1"}), "programs for the build", crossed()), ob))
    c.parallel(lambda f: f(), todo, ob)
    ob.done()
