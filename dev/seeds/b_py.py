I = "gyp/pylib/gyp/input.py"
MK = "gyp/pylib/gyp/generator/make.py"
NJ = "gyp/pylib/gyp/generator/ninja.py"

seed("p20-module-path", "P20", [(I, "                        sys.path.pop()\n", "                        sys.path.pop(0)\n")], """
from h import *
def demo():
    t = lambda n, m, deps=(): {"targets": [{"target_name": n, "type": "none", "defines": ["<!pymod_do_main(%s)" % m], "dependencies": list(deps)}]}
    write({"a/a.gyp": t("a", "first", ["../b/b.gyp:b"]), "b/b.gyp": t("b", "second"),
           "a/first.py": "def DoMain(args): return 'A'", "a/second.py": "def DoMain(args): return 'wrong'", "b/second.py": "def DoMain(args): return 'B'"})
    rc, out = gyp("a/a.gyp")
    if rc:
        return out
    if target(data("b/b.gypd"), "b")["configurations"]["Default"]["defines"] != ["B"]:
        return "the module of another directory was run"
main(demo)
""", "pymod_do_main in build files of two directories that have modules of the same name", "a build file's command runs the module of another directory", kind="py")

seed("p20-output-stripped", "P20", [(I, 'result.stdout.decode("utf-8").rstrip()', 'result.stdout.decode("utf-8").strip()')], """
from h import *
def demo():
    write({"a.gyp": {"targets": [{"target_name": "t", "type": "none", "defines": ["<!(printf '  x\\\\n')"]}]}})
    rc, out = gyp("a.gyp")
    if rc:
        return out
    d = target(data("a.gypd"), "t")["configurations"]["Default"]["defines"]
    if d != ["  x"]:
        return "got %r" % d
main(demo)
""", "a command whose output starts with white space", "the output of the command is altered", kind="py")

seed("p21-compiled-condition-key", "P21", [(I, """        if cond_expr_expanded in cached_conditions_asts:
            ast_code = cached_conditions_asts[cond_expr_expanded]""", """        if cond_expr in cached_conditions_asts:
            ast_code = cached_conditions_asts[cond_expr]"""), (I, "            cached_conditions_asts[cond_expr_expanded] = ast_code", "            cached_conditions_asts[cond_expr] = ast_code")], """
from h import *
def demo():
    t = lambda n: {"target_name": n, "type": "none", "variables": {"want": n}, "conditions": [["'<(want)' == 'a'", {"defines": ["IS_A"]}]]}
    write({"x.gyp": {"targets": [t("a"), t("b")]}})
    rc, out = gyp("x.gyp")
    if rc:
        return out
    d = data("x.gypd")
    conf = lambda n: target(d, n)["configurations"]["Default"]
    if conf("a").get("defines") != ["IS_A"] or "defines" in conf("b"):
        return "b got a's condition"
main(demo)
""", "the same condition text with a variable of a different value in two targets", "a condition is decided by the values of another target", kind="py")

seed("p22-stale-variables", "P22", [(I, """    # Conditional processing may have resulted in changes to automatics or the
    # variables dict.  Reload.
    variables = variables_in.copy()
    LoadAutomaticVariablesFromDict(variables, the_dict)
    LoadVariablesFromVariablesDict(variables, the_dict, the_dict_key)
""", """    # Conditional processing may have resulted in changes to automatics.  Reload.
    LoadAutomaticVariablesFromDict(variables, the_dict)
""")], """
from h import *
def demo():
    write({"x.gyp": {"targets": [{"target_name": "a", "type": "none", "variables": {"v": "outer"},
        "conditions": [["1", {"variables": {"v": "inner"}}]], "direct": {"nested": "<(v)"}}]}})
    rc, out = gyp("x.gyp")
    if rc:
        return out
    t = target(data("x.gypd"), "a")
    t = t.get("direct") or t["configurations"]["Default"]["direct"]
    if t["nested"] != "inner":
        return "got " + repr(t["nested"])
main(demo)
""", "a condition that changes a variable used deeper in the same target", "nested values use the variable's value from before the conditions", kind="py")

seed("p23-abstract-default", "P23", [(I, 'target_dict["default_configuration"] = sorted(concrete)[0]', 'target_dict["default_configuration"] = sorted(target_dict["configurations"])[0]')], """
from h import *
def demo():
    write({"x.gyp": {"targets": [{"target_name": "a", "type": "none", "configurations": {
        "Base": {"abstract": 1, "defines": ["B"]}, "Debug": {"inherit_from": ["Base"]}, "Release": {"inherit_from": ["Base"]}}}]}})
    rc, out = gyp("x.gyp")
    if rc:
        return out
    t = target(data("x.gypd"), "a")
    if t["default_configuration"] not in t["configurations"]:
        return "default configuration " + t["default_configuration"] + " does not exist"
main(demo)
""", "an abstract configuration whose name sorts before the concrete ones", "the default configuration is one that does not exist", kind="py")

seed("p23-shared-configurations", "P23", [(I, "new_configuration_dict[key] = gyp.simple_copy.deepcopy(target_val)", "new_configuration_dict[key] = target_val")], """
from h import *
def demo():
    write({"x.gyp": {"targets": [{"target_name": "a", "type": "none", "defines": ["COMMON"], "configurations": {
        "Debug": {"defines": ["DBG"]}, "Release": {"defines": ["REL"]}}}]}})
    rc, out = gyp("x.gyp")
    if rc:
        return out
    c = target(data("x.gypd"), "a")["configurations"]
    if sorted(c["Debug"]["defines"]) != ["COMMON", "DBG"] or sorted(c["Release"]["defines"]) != ["COMMON", "REL"]:
        return "configurations share their settings: %r" % c
main(demo)
""", "two configurations that add to the same list of the target", "the settings of one configuration appear in another one", kind="py")

seed("p24-partial-cycle", "P24", [(I, "    if len(flat_list) != len(targets):", "    if not flat_list:")], """
from h import *
def demo():
    t = lambda n, *d: {"target_name": n, "type": "none", "dependencies": list(d)}
    write({"x.gyp": {"targets": [t("ok"), t("a", "b"), t("b", "a")]}})
    rc, out = gyp("x.gyp", "--no-circular-check")
    if rc == 0:
        return "a circular dependency was accepted"
main(demo)
""", "a circular dependency next to targets that are not part of it", "the targets of the cycle silently vanish from the build", kind="py")

seed("p24-hard-dependency", "P24", [(I, '                    and not dependency_dict.get("hard_dependency", False)', '                    and not target_dict.get("hard_dependency", False)')], """
from h import *
def demo():
    write({"x.gyp": {"targets": [
        {"target_name": "gen", "type": "static_library", "hard_dependency": 1, "sources": ["g.c"]},
        {"target_name": "lib", "type": "static_library", "dependencies": ["gen"], "sources": ["l.c"]}]}})
    rc, out = gyp("x.gyp")
    if rc:
        return out
    deps = target(data("x.gypd"), "lib").get("dependencies", [])
    if [d for d in deps if ":gen#" in d] == []:
        return "the hard dependency of the static library was dropped"
main(demo)
""", "a static library that depends on one which generates its headers (hard_dependency)", "lib may be compiled before the generated files it needs exist", kind="py")

seed("p16-ninja-variables-order", "P16", [(NJ, "            needed_variables = sorted(needed_variables)\n", "            needed_variables = list(needed_variables)\n")], """
from h import *
def demo():
    seen = set()
    for hs in "0123456":
        write({"a.gyp": {"targets": [{"target_name": "t", "type": "none", "sources": ["x.in"], "rules": [{
            "rule_name": "r", "extension": "in", "outputs": ["o/<(RULE_INPUT_ROOT)"],
            "action": ["cp", "<(RULE_INPUT_PATH)", "<(RULE_INPUT_ROOT)", "<(RULE_INPUT_DIRNAME)", "<(RULE_INPUT_NAME)", "<(RULE_INPUT_EXT)"]}]}]}})
        rc, out = gyp("a.gyp", fmt="ninja", hashseed=hs)
        if rc:
            return out
        seen.add(read("out/Default/obj/t.ninja"))
    if len(seen) != 1:
        return "%d different ninja files for the same input" % len(seen)
main(demo)
""", "a rule using several RULE_INPUT variables and a different hash seed (another run)", "the ninja file of a rule target changes from run to run", kind="py")
