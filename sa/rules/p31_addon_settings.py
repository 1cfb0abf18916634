"""The settings every target of an addon gets from node-gyp."""
import ast as pyast
import copy
import os
import posixpath

from .. import project
from ..match import *
from .loadcommon import Loading
from .p24_dependencies import Tally, outcome
from .pycommon import *

ID = "P31"
EXPLANATION = (
    "Interprocedural constant propagation of the whole loading pipeline, nothing replaced but the file system, over node-gyp's own addon.gypi together "
    "with abstract addon, configuration and common files, for every class of platform, target type, compiler, engine and option; the resulting "
    "settings of every target are compared with what building against the selected Node.js needs.")
ROOT, GYP, LIB, EXP = "/h/20.1.0", "/n", "/h/20.1.0/x64/node.lib", "/h/20.1.0/include/node/node.exp"
UNIX = ("linux", "android", "freebsd", "openbsd", "netbsd", "solaris", "mac", "aix", "os400", "zos", "cygwin")
PIC = ("freebsd", "openbsd", "netbsd", "solaris", "android")
KEYS = ("defines", "include_dirs", "cflags", "cflags_c", "cflags_cc", "ldflags", "libraries", "library_dirs", "sources")
SCALARS = ("type", "product_name", "product_prefix", "product_extension", "product_dir", "standalone_static_library")
WIN = ("msvs_settings", "msvs_disabled_warnings")
MAC = ("xcode_settings",)
TYPES = (None, "loadable_module", "shared_library", "static_library", "executable", "none")


def common(conf):
    """What a Node.js headers directory brings along, reduced to what addon.gypi has to undo or keep."""
    return {"variables": {"visibility%": "hidden", "library%": "static_library"},
            "target_defaults": {"default_configuration": "Release", "configurations": conf,
                                "defines": ["NODE_COMMON=1", "BUILDING_UV_SHARED=1", "BUILDING_V8_SHARED=1"], "cflags": ["-pthread", "-fPIE"]}}


def flat(d, conf):
    """The settings of one configuration of a target."""
    out = {k: v for k, v in d.items() if k != "configurations"}
    for k, v in d.get("configurations", {}).get(conf, {}).items():
        out[k] = out[k] + v if isinstance(v, list) and isinstance(out.get(k), list) else v
    return out


def tool(x):
    return sorted(map(str, x)) if isinstance(x, list) else {k: tool(v) for k, v in x.items() if v != {} and v != []} if isinstance(x, dict) else str(x)


def comparable(d, osname):
    out = {k: sorted(set(d[k])) for k in KEYS if d.get(k)}
    out.update((k, str(d[k])) for k in SCALARS if k in d)
    for k in WIN if osname == "win" else MAC if osname == "mac" else ():
        if d.get(k):
            out[k] = tool(d[k])
    return out


def merged(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k] + v if isinstance(v, list) and isinstance(out.get(k), list) else merged(out[k], v) if isinstance(v, dict) and k in out else v
    return out


class World:
    def __init__(self, osname, engine="v8", arch="x64", ltcg=None, binary=None, cc="clang", standalone=0, suffix=None):
        self.os, self.engine, self.arch, self.ltcg, self.binary, self.cc, self.standalone = osname, engine, arch, ltcg, binary, cc, standalone
        self.suffix = suffix if suffix is not None else ".exe" if osname == "win" else ""

    def label(self):
        return ", ".join(f"{k} {v}" for k, v in vars(self).items() if v is not None and (k, v) not in
                         (("engine", "v8"), ("arch", "x64"), ("cc", "clang"), ("standalone", 0), ("suffix", "")))

    def given(self):
        v = {"library": "shared_library", "visibility": "default", "node_root_dir": ROOT, "node_gyp_dir": GYP, "node_lib_file": LIB,
             "module_root_dir": "/w", "node_engine": self.engine, "OS": self.os, "EXECUTABLE_SUFFIX": self.suffix}
        if self.os in ("aix", "os400", "zos"):
            v["node_exp_file"] = EXP
        return v

    def config(self):
        v = {"target_arch": self.arch, "host_arch": "x64", "standalone_static_library": self.standalone}
        if self.ltcg is not None:
            v["node_with_ltcg"] = self.ltcg
        if self.binary is not None:
            v["node_host_binary"] = self.binary
        if self.engine == "chakracore":
            v["node_engine_libs"] = ["chakracore.lib", "other.lib"]
        return {"variables": v, "target_defaults": {"cflags": [], "default_configuration": "Release", "defines": [], "include_dirs": [], "libraries": []}}

    def node(self, t, own):
        """What a target needs to be built against Node.js on this platform."""
        kind = own.get("type", "loadable_module")
        win, mac, zos = self.os == "win", self.os == "mac", self.os == "zos"
        loadable = kind == "loadable_module"
        exe = (self.binary or "node") + self.suffix
        hook = win and str(own.get("win_delay_load_hook", "true")) == "true"
        d = {"type": kind, "product_prefix": own.get("product_prefix", "")}
        d["defines"] = [f"NODE_GYP_MODULE_NAME={t}", "USING_UV_SHARED=1", "USING_V8_SHARED=1", "V8_DEPRECATION_WARNINGS=1", "NODE_COMMON=1"]
        d["include_dirs"] = [posixpath.join(ROOT, x) for x in ("include/node", "src", "deps/openssl/config", "deps/openssl/openssl/include", "deps/uv/include",
                                                               "deps/zlib",
                                                               "deps/chakrashim/include" if self.engine == "chakracore" else "deps/v8/include")]
        d["cflags"] = ["-pthread", "-fPIE"]
        d["ldflags"], d["libraries"], d["sources"], d["library_dirs"] = [], [], [], []
        if loadable:
            d["product_extension"] = "node"
            d["defines"].append("BUILDING_NODE_EXTENSION")
        elif "product_extension" in own:
            d["product_extension"] = own["product_extension"]
        if kind == "static_library":
            d["standalone_static_library"] = self.standalone
        if not win:
            d["defines"] += ["_LARGEFILE_SOURCE", "_FILE_OFFSET_BITS=64"]
        if mac:
            d["defines"].append("_DARWIN_USE_64_BIT_INODE=1")
            d["xcode_settings"] = {"DYLIB_INSTALL_NAME_BASE": "@rpath"}
            if loadable:
                d["xcode_settings"]["OTHER_LDFLAGS"] = ["-undefined dynamic_lookup"]
        if self.os == "android" and kind != "executable":
            d["cflags"].remove("-fPIE")
        if self.os in PIC or self.os == "linux" and self.arch != "ia32":
            d["cflags"].append("-fPIC")
        if self.os in ("aix", "os400"):
            d["ldflags"].append("-Wl,-bimport:" + EXP)
        if zos:
            d["defines"] += ["_ALL_SOURCE", "MAP_FAILED=-1", "_UNIX03_SOURCE"]
            clang = self.cc in ("clang", "ibm-clang", "ibm-clang64")
            d["cflags"] += ["-m64"] if clang else ["-q64", "-Wc,DLL", "-qlonglong", "-qenum=int", "-qxclang=-fexec-charset=ISO8859-1"]
            d["ldflags"] += ["-m64" if clang else "-q64", EXP]
        if win:
            d["libraries"] += ["-l" + x + ".lib" for x in ("kernel32", "user32", "gdi32", "winspool", "comdlg32", "advapi32", "shell32", "ole32", "oleaut32", "uuid",
                                                          "odbc32", "DelayImp")] + [f'-l"{LIB}"']
            if self.engine == "chakracore":
                d["library_dirs"].append(ROOT + "/$(ConfigurationName)")
                d["libraries"] += ["chakracore.lib", "other.lib"]
            d["msvs_disabled_warnings"] = ["4251"]
            s = d["msvs_settings"] = {}
            if str(self.ltcg if self.ltcg is not None else "true") == "true":
                s["VCCLCompilerTool"] = {"WholeProgramOptimization": "true"}
                s["VCLibrarianTool"] = {"AdditionalOptions": ["/LTCG:INCREMENTAL"]}
                s["VCLinkerTool"] = {"OptimizeReferences": 2, "EnableCOMDATFolding": 2, "LinkIncremental": 1, "AdditionalOptions": ["/LTCG:INCREMENTAL"]}
            if hook:
                d["defines"].append(f'HOST_BINARY="{exe}"')
                d["sources"].append(GYP + "/src/win_delay_load_hook.cc")
                s["VCLinkerTool"] = merged(s.get("VCLinkerTool", {}), {"DelayLoadDLLs": [exe], "AdditionalOptions": ["/ignore:4199"]})
        return d


def want(w, t, conf, defaults, confs):
    own = {k: v for k, v in t.items() if k not in ("target_name", "remove")}
    d = merged(defaults, w.node(t["target_name"], own))
    own = merged(own, confs.get(conf, {}))
    for k, v in own.items():
        if k not in ("type", "product_prefix", "product_extension") and not k.endswith("!"):
            d = merged(d, {k: v})
    d["defines"] = [x for x in d["defines"] if x not in ("BUILDING_UV_SHARED=1", "BUILDING_V8_SHARED=1")]
    for k, v in own.items():
        if k.endswith("!") and k[:-1] in d:
            d[k[:-1]] = [x for x in d[k[:-1]] if x not in v]
    return d


def scene(p, ob, w, targets, defaults=None, confs=None, label=""):
    confs = confs or {"Release": {"defines": ["NDEBUG"]}}
    binding = {"targets": copy.deepcopy(targets)}
    if defaults:
        binding["target_defaults"] = copy.deepcopy(defaults)
    files = {"binding.gyp": binding, GYP + "/addon.gypi": copy.deepcopy(p.addon), "build/config.gypi": w.config(), ROOT + "/include/node/common.gypi": common(confs)}
    rs = p.load(files, ["binding.gyp"], w.given(), ["build/config.gypi", GYP + "/addon.gypi", ROOT + "/include/node/common.gypi"], commands={"echo $CC": w.cc + "\n"})
    what = w.label() + (", " + label if label else "")
    if len(rs) != 1 or rs[0][0] != "return":
        return ob("A1", False, what, f"loading gives {outcome(rs)}", what)
    got = {q.split(":")[1].split("#")[0]: d for q, d in rs[0][1].items()}
    if sorted(got) != sorted(t["target_name"] for t in targets):
        return ob("A1", False, what, f"the targets are {sorted(got)}", what)
    for t in targets:
        n = t["target_name"]
        for conf in confs:
            a = comparable(flat(got[n], conf), w.os)
            b = comparable(want(w, t, conf, defaults or {}, confs), w.os)
            kind = t.get("type", "loadable_module")
            for rule, keys in RULES.items():
                bad = [k for k in keys if a.get(k) != b.get(k)]
                why = "; ".join(f"{k} of {n} ({kind}, {conf}): {differ(a.get(k), b.get(k))}" for k in bad)
                ob(rule, not bad, what, why, what)
        if "include_dirs" in t:
            got_i = [x for x in flat(got[n], next(iter(confs))).get("include_dirs", []) if x in t["include_dirs"]]
            ob("A7", got_i == t["include_dirs"], what, f"the addon's include directories become {got_i}", what)


RULES = {"A1": ("type", "product_prefix", "product_extension", "product_name", "standalone_static_library"), "A2": ("include_dirs",), "A3": ("defines",),
         "A4": ("cflags", "cflags_c", "cflags_cc"), "A5": ("ldflags", "libraries", "library_dirs"), "A6": ("sources", "msvs_settings", "msvs_disabled_warnings", "xcode_settings")}


def differ(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        a, b = a or {}, b or {}
        return ", ".join(f"{k} {differ(a.get(k), b.get(k))}" for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))
    if isinstance(a, str) or isinstance(b, str):
        return f"{a} instead of {b}"
    a, b = list(a or []), list(b or [])
    for x in list(a):
        if x in b:
            a.remove(x)
            b.remove(x)
    return " and ".join(x for x in (f"{a} unexpected" if a else "", f"{b} missing" if b else "") if x)


def check(c):
    c.rule("A1", "a target is a loadable module ending in .node unless it says otherwise")
    c.rule("A2", "every target is compiled with the include directories of the selected Node.js")
    c.rule("A3", "every target has the definitions for using, and none of those for building, Node.js, and knows its own name")
    c.rule("A4", "every target is compiled with the flags its platform needs, position-independent where modules must be")
    c.rule("A5", "every target is linked with the import library or export file its platform needs")
    c.rule("A6", "on Windows a target has the delay-load hook unless it opts out; tool settings are those of the platform")
    c.rule("A7", "what the addon sets itself is kept")
    p = Loading(c)
    loc = ("addon.gypi", 1)
    path = os.path.join(project.REPO, "addon.gypi")
    if not p.ok or not os.path.exists(path):
        return c.ob("A1", loc, False, "the loading pipeline and addon.gypi exist")
    c.files.add("addon.gypi")
    with open(path) as f:
        text = f.read()
    try:
        p.addon = pyast.literal_eval(text)
    except (ValueError, SyntaxError):
        return c.ob("A1", loc, False, "addon.gypi is a literal")
    ob = Tally(c, loc)
    every = [{"target_name": "t" + str(i), **({"type": k} if k else {}), "sources": [f"src/t{i}.cc"]} for i, k in enumerate(TYPES)]
    hooks = [{"target_name": f"h{i}", "type": k, "win_delay_load_hook": h} for i, (k, h) in enumerate(
        [("loadable_module", "false"), ("executable", "true"), ("shared_library", "false"), ("loadable_module", "true")])]
    todo = []
    for o in UNIX + ("win",):
        todo.append(lambda o=o: scene(p, ob, World(o), every))
    for cc in ("ibm-clang", "ibm-clang64", "xlc", "njsc++", ""):
        todo.append(lambda cc=cc: scene(p, ob, World("zos", cc=cc), every[:2]))
    for a in ("ia32", "arm64", "arm", "x32"):
        todo.append(lambda a=a: scene(p, ob, World("linux", arch=a), every[:4]))
    todo.append(lambda: scene(p, ob, World("freebsd", arch="ia32"), every[:1]))
    todo.append(lambda: scene(p, ob, World("android", arch="ia32"), every))
    todo.append(lambda: scene(p, ob, World("linux", standalone=1), every[3:4]))
    todo.append(lambda: scene(p, ob, World("win", arch="ia32"), hooks))
    todo.append(lambda: scene(p, ob, World("win", binary="iojs"), hooks))
    todo.append(lambda: scene(p, ob, World("win", ltcg="false"), hooks))
    todo.append(lambda: scene(p, ob, World("win", ltcg="true"), every[:1]))
    todo.append(lambda: scene(p, ob, World("win", engine="chakracore"), every[:2]))
    todo.append(lambda: scene(p, ob, World("linux"), hooks, label="opting out of the hook"))
    own = [{"target_name": "m", "sources": ["a.cc", "b.c"], "defines": ["OWN=1", "BUILDING_OWN"], "include_dirs": ["/z/inc", "/a/inc"], "cflags": ["-O2"], "cflags_cc": ["-std=c++20"],
            "cflags!": ["-pthread"], "libraries": ["-lz"], "ldflags": ["-Wl,-z,now"], "product_name": "other", "product_dir": "/w/lib", "product_prefix": "p_",
            "msvs_settings": {"VCCLCompilerTool": {"ExceptionHandling": 1}}, "xcode_settings": {"GCC_ENABLE_CPP_EXCEPTIONS": "YES"}},
           {"target_name": "s", "type": "shared_library", "product_extension": "ext", "defines": ["USING_UV_SHARED=1"], "defines!": ["V8_DEPRECATION_WARNINGS=1", "OWN=1"]},
           {"target_name": "n", "type": "static_library", "sources": ["x.cc"], "include_dirs": ["/b/inc"]}]
    two = {"Debug": {"defines": ["DEBUG", "BUILDING_V8_SHARED=1"], "cflags": ["-g"]}, "Release": {"defines": ["NDEBUG"], "cflags": ["-O3"]}}
    for o in ("linux", "win", "mac", "aix"):
        todo.append(lambda o=o: scene(p, ob, World(o), own, confs=two, label="own settings"))
        todo.append(lambda o=o: scene(p, ob, World(o), every[:3], defaults={"defines": ["FROM_DEFAULTS"], "cflags": ["-W"], "include_dirs": ["/d/inc"]}, label="own defaults"))
    c.parallel(lambda f: f(), todo, ob)
    ob.done()
