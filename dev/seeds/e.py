seed("p27-regex-revisit", "P27", [(I, "if list_actions[index] == action_value:", "if list_actions[index] in (action_value, 1):")], """
from h import *
def demo():
    write({"a.gyp": {"targets": [{"target_name": "t", "type": "none", "sources": ["ab.c", "a.c", "b.c"],
                                  "sources/": [["exclude", "."], ["include", "a"], ["exclude", "b"]]}]}})
    rc, out = gyp("a.gyp")
    if rc:
        return out
    s = target(data("a.gypd"), "t").get("sources")
    if s != ["a.c"]:
        return "sources %r" % s
main(demo)
""", "three expressions on one list: an item included by one is excluded by a later one", "an item that is finally excluded stays in the list", kind="py")

seed("p27-rule-extension-dot", "P27", [(I, '        if rule_extension.startswith("."):\n            rule_extension = rule_extension[1:]\n        if rule_extension in rule_extensions:', '        if rule_extension in rule_extensions:')], """
from h import *
def demo():
    r = lambda n, e: {"rule_name": n, "extension": e, "outputs": ["<(RULE_INPUT_ROOT).c"], "action": ["x"]}
    write({"a.gyp": {"targets": [{"target_name": "t", "type": "none", "sources": ["a.y"], "rules": [r("one", "y"), r("two", ".y")]}]}})
    rc, out = gyp("a.gyp")
    if not rc:
        return "two rules for the same extension are accepted"
    write({"b.gyp": {"targets": [{"target_name": "t", "type": "none", "sources": ["a.y"], "rules": [r("one", ".y")]}]}})
    rc, out = gyp("b.gyp")
    if rc:
        return out
    s = target(data("b.gypd"), "t")["rules"][0].get("rule_sources")
    if s != ["a.y"]:
        return "rule sources %r" % s
main(demo)
""", "two rules of one target whose extensions differ only in the leading dot", "conflicting rules are accepted", kind="py")

seed("p28-shared-generated-object", "P28", [(MK, 'path = path.replace("$(obj)/", "$(obj).%s/$(TARGET)/" % self.toolset)', 'path = path.replace("$(obj)/", "$(obj).%s/" % self.toolset)')], """
from h import *
def demo():
    write({"a.gyp": {"targets": [
        {"target_name": "gen", "type": "none", "actions": [{"action_name": "g", "inputs": [], "outputs": ["<(SHARED_INTERMEDIATE_DIR)/v.c"],
                         "action": ["cp", "v.in", "<@(_outputs)"]}]},
        {"target_name": "one", "type": "executable", "dependencies": ["gen"], "defines": ["V=1"], "sources": ["<(SHARED_INTERMEDIATE_DIR)/v.c"]},
        {"target_name": "two", "type": "executable", "dependencies": ["gen"], "defines": ["V=2"], "sources": ["<(SHARED_INTERMEDIATE_DIR)/v.c"]}]},
        "v.in": "int main(void) { return V; }\\n"})
    rc, out = generate("a.gyp")
    if rc:
        return out
    rc, out = make()
    if rc:
        return out
    if run("build/Default/one")[0] != 1 or run("build/Default/two")[0] != 2:
        return "built with the definitions of another target"
main(demo)
""", "two targets that compile the same generated source from the shared intermediate directory with different definitions", "both targets share one object file, compiled with the definitions of one of them", kind="py")

seed("p28-rpath-first-library", "P28", [(MK, 'any(dep.endswith(".so") or ".so." in dep for dep in deps)', 'any(dep.endswith(".so") or ".so." in dep for dep in deps[:1])')], """
from h import *
def demo():
    write({"a.gyp": {"targets": [
        {"target_name": "st", "type": "static_library", "sources": ["st.c"]},
        {"target_name": "sh", "type": "shared_library", "sources": ["sh.c"], "cflags": ["-fPIC"]},
        {"target_name": "x", "type": "executable", "dependencies": ["st", "sh"], "sources": ["x.c"]}]},
        "st.c": "int st(void) { return 3; }\\n", "sh.c": "int sh(void) { return 4; }\\n",
        "x.c": "int st(void), sh(void);\\nint main(void) { return st() + sh(); }\\n"})
    rc, out = generate("a.gyp")
    if rc:
        return out
    rc, out = make()
    if rc:
        return out
    rc, out = run("build/Default/x", "/")
    if rc != 7:
        return "%s %s" % (rc, out)
main(demo)
""", "an executable that depends on a static library before a shared one", "the executable does not find the shared library when it is started", kind="py")

seed("p28-lib-name", "P28", [(MK, '        if self.type == "static_library":\n            if target[:3] == "lib":\n                target = target[3:]\n', '        if self.type == "static_library":\n            if target[:3] == "lib":\n                target = target.lstrip("lib")\n')], """
from h import *
def demo():
    write({"a.gyp": {"targets": [
        {"target_name": "libfoo", "type": "static_library", "sources": ["s.c"]},
        {"target_name": "libbar", "type": "static_library", "sources": ["s.c"]},
        {"target_name": "libiconv", "type": "static_library", "sources": ["s.c"]}]},
        "s.c": "int st(void) { return 3; }\\n"})
    rc, out = generate("a.gyp")
    if rc:
        return out
    rc, out = make()
    if rc:
        return out
    for n in ("libfoo.a", "libbar.a", "libiconv.a"):
        if not exists("build/Default/obj.target/" + n):
            return n + " was not built"
main(demo)
""", "a static library target whose name has an l, i or b right behind the lib prefix", "the library is built under a truncated name", kind="py")

seed("p29-rule-inputs-dependency", "P29", [(MK, 'for i in [rule_source] + rule.get("inputs", [])', 'for i in [rule_source]')], """
from h import *
import time
def demo():
    write({"a.gyp": {"targets": [{"target_name": "t", "type": "none", "sources": ["one.in"], "rules": [
        {"rule_name": "r", "extension": "in", "inputs": ["table.txt"], "outputs": ["<(SHARED_INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).out"],
         "action": ["cp", "table.txt", "<@(_outputs)"]}]}]}, "one.in": "", "table.txt": "first"})
    rc, out = generate("a.gyp")
    if rc:
        return out
    rc, out = make()
    if rc:
        return out
    f = "build/Default/obj/gen/one.out"
    if read(f) != "first":
        return "got %r" % read(f)
    old = time.time() - 1000
    for r, _, ns in os.walk(D):
        for n in ns:
            os.utime(os.path.join(r, n), (old, old))
    write({"table.txt": "second"})
    rc, out = make()
    if rc:
        return out
    if read(f) != "second":
        return "the output was not made again: %r" % read(f)
main(demo)
""", "a second build after a change to an extra input of a rule", "the rule is not run again", kind="py")

seed("p29-second-action-order", "P29", [(MK, "            self.WriteMakeRule(\n                extra_outputs,\n                deps,", "            self.WriteMakeRule(\n                extra_outputs[:1],\n                deps,")], """
from h import *
def demo():
    act = lambda n, i, o: {"action_name": n, "inputs": [], "outputs": ["<(SHARED_INTERMEDIATE_DIR)/" + o], "action": ["sh", "-c", i + ' && echo made > "<@(_outputs)"']}
    write({"a.gyp": {"targets": [
        {"target_name": "x", "type": "none", "dependencies": ["w"], "actions": [act("p", "true", "p.out"), act("q", "test -e <(SHARED_INTERMEDIATE_DIR)/w.out", "q.out")]},
        {"target_name": "w", "type": "none", "actions": [act("w", "true", "w.out")]}]}})
    rc, out = generate("a.gyp")
    if rc:
        return out
    rc, out = make("Default/obj/gen/q.out")
    if rc:
        return out
main(demo)
""", "a target with two actions, the second of which needs what a dependency makes; its output asked for alone, or a parallel build", "the second action runs before the dependency is built", kind="py")

seed("p29-second-output-directory", "P29", [(MK, "                for out in outputs:\n                    dir = os.path.dirname(out)\n", "                for out in outputs[:1]:\n                    dir = os.path.dirname(out)\n")], """
from h import *
def demo():
    write({"a.gyp": {"targets": [{"target_name": "t", "type": "none", "sources": ["one.in"], "rules": [
        {"rule_name": "r", "extension": "in", "outputs": ["<(SHARED_INTERMEDIATE_DIR)/src/<(RULE_INPUT_ROOT).c", "<(SHARED_INTERMEDIATE_DIR)/include/<(RULE_INPUT_ROOT).h"],
         "action": ["python3", "copy.py", "one.in", "<@(_outputs)"]}]}]}, "one.in": "x",
        "copy.py": "import shutil, sys\\nfor o in sys.argv[2:]:\\n    shutil.copy(sys.argv[1], o)\\n"})
    rc, out = generate("a.gyp")
    if rc:
        return out
    rc, out = make()
    if rc:
        return out
    if read("build/Default/obj/gen/include/one.h") != "x":
        return "no header"
main(demo)
""", "a rule with outputs in two directories", "the rule runs before the directory of its second output exists", kind="py")

seed("p30-nested-include-regeneration", "P30", [(MK, "                gyp.common.UnrelativePath(included_file, build_file),\n                options.toplevel_dir,", "                os.path.normpath(included_file),\n                options.toplevel_dir,")], """
from h import *
import time
def demo():
    write({"sub/a.gyp": {"includes": ["x.gypi"], "targets": [{"target_name": "t", "type": "none", "actions": [{"action_name": "a", "inputs": [], "outputs": ["<(SHARED_INTERMEDIATE_DIR)/o"],
            "action": ["sh", "-c", "echo <(word) > <@(_outputs)"]}]}]}, "sub/x.gypi": {"variables": {"word": "one"}}, "x.gypi": {}})
    rc, out = generate("sub/a.gyp")
    if rc:
        return out
    rc, out = make()
    if rc:
        return out
    old = time.time() - 1000
    for r, _, ns in os.walk(D):
        for n in ns:
            os.utime(os.path.join(r, n), (old, old))
    write({"sub/x.gypi": {"variables": {"word": "two"}}})
    rc, out = make()
    if rc:
        return out
    if read("build/Default/obj/gen/o") != "two\\n":
        return "built with the old settings"
main(demo)
""", "a build file below the top directory whose include changes after the makefiles were generated", "the makefiles are not regenerated and the old settings are built", kind="py")

seed("p30-second-build-file", "P30", [(MK, '        for filename in params["build_files_arg"]\n', '        for filename in params["build_files_arg"][:1]\n')], """
from h import *
import time
def demo():
    act = {"action_name": "a", "inputs": [], "outputs": ["<(SHARED_INTERMEDIATE_DIR)/<(_target_name)"], "action": ["sh", "-c", "echo <(word) > <@(_outputs)"]}
    t = lambda n, w: {"variables": {"word": w}, "targets": [{"target_name": n, "type": "none", "actions": [act]}]}
    write({"a.gyp": t("a", "one"), "b.gyp": t("b", "one")})
    rc, out = generate("a.gyp", "b.gyp")
    if rc:
        return out
    rc, out = make()
    if rc:
        return out
    old = time.time() - 1000
    for r, _, ns in os.walk(D):
        for n in ns:
            os.utime(os.path.join(r, n), (old, old))
    write({"b.gyp": t("b", "two")})
    rc, out = make()
    if rc:
        return out
    if read("build/Default/obj/gen/b") != "two\\n" or read("build/Default/obj/gen/a") != "one\\n":
        return "built with the old settings"
main(demo)
""", "several build files given to gyp, one of which changes after the makefiles were generated", "the makefile is regenerated for the first build file only", kind="py")
