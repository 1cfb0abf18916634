VM = "gyp/pylib/gyp/generator/msvs.py"
VS = '''
import re
import xml.etree.ElementTree as ET
NS = "{http://schemas.microsoft.com/developer/msbuild/2003}"
C = {"msvs_configuration_platform": "x64", "msvs_windows_target_platform_version": "10.0.1"}
def confs(debug=None, release=None):
    return {"Debug": dict(C, **(debug or {})), "Release": dict(C, **(release or {}))}
def solution(*gyps):
    rc, out = gyp("--generator-output", "build", "-Gmsvs_version=2022", *gyps, fmt="msvs")
    if rc:
        raise Exception(out)
def project(name):
    return ET.fromstring(read("build/" + name + ".vcxproj"))
'''
seed("p33-unconditional-property", "P33", [(VM, "            if len(conditions) == num_configurations:", "            if len(values) == 1:")], """
from h import *""" + VS + """
def check():
    write({"a.gyp": {"targets": [{"target_name": "t", "type": "executable", "sources": ["a.cc"], "default_configuration": "Release",
           "configurations": confs({"msvs_settings": {"VCLinkerTool": {"LinkIncremental": "2"}}})}]}})
    solution("a.gyp")
    for e in project("t").iter(NS + "LinkIncremental"):
        if "Debug" not in (e.get("Condition") or ""):
            return "incremental linking of Debug applies to Release too"
main(check)
""", "a linker setting that is a project property (LinkIncremental) given by one of two configurations only", "a property only one configuration sets is written without its condition and applies to all", kind="py")
seed("p33-object-collision", "P33", [(VM, r"""re.sub(r"^(\.\.\\)+", "", file_name)""", r"""re.sub(r"^\.\.\\(.*\\)?", "", file_name)""")], """
from h import *""" + VS + """
def check():
    write({"a.gyp": {"targets": [{"target_name": "t", "type": "executable", "sources": ["src/util.cc", "lib/util.cc", "x/util.cc"], "default_configuration": "Release", "configurations": confs()}]}})
    solution("a.gyp")
    objs = [e.text for e in project("t").iter(NS + "ObjectFileName")]
    if len(objs) != 3 or len(set(objs)) != 3:
        return "objects are shared: " + str(objs)
main(check)
""", "two sources with the same name in src/ and lib/ of one target", "both sources are compiled to the same object file; one is lost from the product", kind="py")
seed("p33-solution-transitive", "P33", [(VM, "        sln_projects += gyp.common.DeepDependencyTargets(target_dicts, sln_projects)\n",
     "        for p in sln_projects[:]:\n            for d in target_dicts[p].get(\"dependencies\", []):\n                if d not in sln_projects:\n                    sln_projects.append(d)\n")], """
from h import *""" + VS + """
def check():
    write({"a.gyp": {"targets": [{"target_name": "a", "type": "none", "dependencies": ["b.gyp:b"], "default_configuration": "Release", "configurations": confs()}]},
           "b.gyp": {"targets": [{"target_name": "b", "type": "none", "dependencies": ["c.gyp:c"], "default_configuration": "Release", "configurations": confs()}]},
           "c.gyp": {"targets": [{"target_name": "c", "type": "none", "default_configuration": "Release", "configurations": confs()}]}})
    solution("a.gyp")
    names = re.findall(r'^Project[(].*? = "([^"]*)"', read("build/a.sln"), re.M)
    if sorted(names) != ["a", "b", "c"]:
        return "projects of the solution: " + str(names)
main(check)
""", "a dependency of a dependency in a third .gyp file", "the solution lacks projects that its projects depend on indirectly", kind="py")
VM = "gyp/pylib/gyp/generator/msvs.py"
VS = '''
import re
import xml.etree.ElementTree as ET
NS = "{http://schemas.microsoft.com/developer/msbuild/2003}"
C = {"msvs_configuration_platform": "x64", "msvs_windows_target_platform_version": "10.0.1"}
def confs(debug=None, release=None):
    return {"Debug": dict(C, **(debug or {})), "Release": dict(C, **(release or {}))}
def solution(*gyps):
    rc, out = gyp("--generator-output", "build", "-Gmsvs_version=2022", *gyps, fmt="msvs")
    if rc:
        raise Exception(out)
def project(name):
    return ET.fromstring(read("build/" + name + ".vcxproj"))
'''
seed("p33-unconditional-property", "P33", [(VM, "            if len(conditions) == num_configurations:", "            if len(values) == 1:")], """
from h import *""" + VS + """
def check():
    write({"a.gyp": {"targets": [{"target_name": "t", "type": "executable", "sources": ["a.cc"], "default_configuration": "Release",
           "configurations": confs({"msvs_settings": {"VCLinkerTool": {"LinkIncremental": "2"}}})}]}})
    solution("a.gyp")
    for e in project("t").iter(NS + "LinkIncremental"):
        if "Debug" not in (e.get("Condition") or ""):
            return "incremental linking of Debug applies to Release too"
main(check)
""", "a linker setting that is a project property (LinkIncremental) given by one of two configurations only", "a property only one configuration sets is written without its condition and applies to all", kind="py")
seed("p33-object-collision", "P33", [(VM, r"""re.sub(r"^(\.\.\\)+", "", file_name)""", r"""re.sub(r"^\.\.\\(.*\\)?", "", file_name)""")], """
from h import *""" + VS + """
def check():
    write({"a.gyp": {"targets": [{"target_name": "t", "type": "executable", "sources": ["src/util.cc", "lib/util.cc", "x/util.cc"], "default_configuration": "Release", "configurations": confs()}]}})
    solution("a.gyp")
    objs = [e.text for e in project("t").iter(NS + "ObjectFileName")]
    if len(objs) != 3 or len(set(objs)) != 3:
        return "objects are shared: " + str(objs)
main(check)
""", "two sources with the same name in src/ and lib/ of one target", "both sources are compiled to the same object file; one is lost from the product", kind="py")
seed("p33-solution-transitive", "P33", [(VM, "        sln_projects += gyp.common.DeepDependencyTargets(target_dicts, sln_projects)\n",
     "        for p in sln_projects[:]:\n            for d in target_dicts[p].get(\"dependencies\", []):\n                if d not in sln_projects:\n                    sln_projects.append(d)\n")], """
from h import *""" + VS + """
def check():
    write({"a.gyp": {"targets": [{"target_name": "a", "type": "none", "dependencies": ["b.gyp:b"], "default_configuration": "Release", "configurations": confs()}]},
           "b.gyp": {"targets": [{"target_name": "b", "type": "none", "dependencies": ["c.gyp:c"], "default_configuration": "Release", "configurations": confs()}]},
           "c.gyp": {"targets": [{"target_name": "c", "type": "none", "default_configuration": "Release", "configurations": confs()}]}})
    solution("a.gyp")
    names = re.findall(r'^Project[(].*? = "([^"]*)"', read("build/a.sln"), re.M)
    if sorted(names) != ["a", "b", "c"]:
        return "projects of the solution: " + str(names)
main(check)
""", "a dependency of a dependency in a third .gyp file", "the solution lacks projects that its projects depend on indirectly", kind="py")
seed("p33-library-order", "P33", [(VM, "    for entry in reversed(libraries):\n", "    for entry in libraries:\n"), (VM, "    unique_libraries_list.reverse()\n", "")], """
from h import *""" + VS + """
def check():
    write({"a.gyp": {"targets": [{"target_name": "t", "type": "executable", "sources": ["a.cc"], "libraries": ["-lbase", "-lmid", "base.lib"], "default_configuration": "Release", "configurations": confs()}]}})
    solution("a.gyp")
    libs = [e.text for e in project("t").iter(NS + "AdditionalDependencies")]
    if any(x != "mid.lib;base.lib" for x in libs):
        return str(libs)
main(check)
""", "a library named twice, before and after one that needs it", "the first mention of a repeated library is kept instead of the last, so that it is searched too early", kind="py")
