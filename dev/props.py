"""Source of properties.jsonl and MANIFEST.json:  python3 dev/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state))


ENG = "path-sensitive dataflow over an inlined control-flow supergraph (exception edges, callbacks, promises)"
TRUST = ("Sound up to the front end's model of JavaScript/Python calls, exceptions, promises and callbacks; names of "
         "library functions (fs, child_process, semver, os.path ...) are given their documented meaning. ")

p("P01", "The install marker certifies a complete, verified headers directory",
  "The installVersion file that later makes `--ensure` accept a version directory is written only after the headers were extracted without errors, every downloaded artefact arrived with status 200 and matched its SHA-256 in SHASUMS256.txt, and all files are in place: on Windows those unpacked to a temporary directory and the import library of the architecture too. It is the last thing an install writes, so no crash or failure leaves a marker beside missing or unverified files.",
  ["crash_points", "fault_sequences", "inputs"], "Every prefix of an install's effects (crash), every failing effect and every server answer.",
  "The install tests download once and succeed; a crash or failure between two effects, or a partially matching checksum list, is never produced.",
  ["lib/install.js"], [("go", "lib/install.js"), ("ShaSum", "lib/install.js")],
  ENG + "; must-precede and typestate of download/extract/verify/write", state=[("installVersion", "marker file read by --ensure", "lib/install.js")])
p("P02", "A failed install is rolled back and reported with its own error",
  "Once an install has started to touch the disk or the network, any failure removes the version directory again before the command rejects, and the rejection carries the original error. No failed step of an install ends in success, and the temporary extraction directory is removed however it ends.",
  ["fault_sequences", "schedules"], "Every effect of an install failing, alone or during rollback, in every interleaving of the parallel downloads.",
  "Tests inject at most one fault (a wrong checksum); the other twenty effects never fail in a test.",
  ["lib/install.js"], [("rollback", "lib/install.js"), ("go", "lib/install.js")], ENG + "; typestate dirty/rolled-back/failed")
p("P03", "--ensure reinstalls exactly when the directory is not up to date",
  "With --ensure an install returns without any effect only if the version directory exists, its recorded install version is a number not below the required one and, on Windows, the import library of the target architecture exists. In every other case it reinstalls, over directories that are already there, and an unexpected error of these probes is reported instead of being treated as either answer.",
  ["inputs", "fault_sequences", "configurations"], "Every content of the marker file, every error code of the probes, both platforms.",
  "Tests cover an up-to-date directory and a missing one; garbage markers, old markers, EPERM/ENOTDIR and the Windows arm are never run.",
  ["lib/install.js"], [("install", "lib/install.js")], ENG + "; fact-based reachability of effects and of effect-free returns")
p("P04", "No effect before the target version is accepted",
  "Nothing is written, removed, downloaded or delegated by an install unless the requested version parses as a version, is at least 0.8.0 and is not a '-pre' build. A rejected version raises an error; only the documented --nodedir case of '-pre' returns quietly.",
  ["inputs"], "Every version string and every path from the start of the command to an effect.",
  "Tests pass one or two versions; the order of checks against effects holds on every path only by construction.",
  ["lib/install.js", "lib/configure.js"], [("install", "lib/install.js"), ("getNodeDir", "lib/configure.js")], ENG + "; dominance of effects by version tests")
p("P05", "Files are written and deleted only where node-gyp owns the directory",
  "Whatever arguments, options or archive contents are given, node-gyp's commands delete recursively only build/, a version directory directly inside the devdir, or a temporary directory the same run created. They create and write files only below build/, below the devdir's version directory, or in such a temporary directory.",
  ["inputs", "configurations"], "All command-line arguments, including ones with path separators and '..', and all options.",
  "Tests remove one well-formed version; a traversal argument would have to be run for real to be noticed.",
  ["lib/remove.js", "lib/clean.js", "lib/build.js", "lib/install.js", "lib/create-config-gypi.js"],
  [("remove", "lib/remove.js"), ("clean", "lib/clean.js"), ("doBuild", "lib/build.js")], ENG + "; value-set analysis of path arguments, dominance by the containment test")

exec(open(os.path.join(V, "dev/props_more.py")).read()) if os.path.exists(os.path.join(V, "dev/props_more.py")) else None


def main():
    have = {f[:3].upper() for f in os.listdir(os.path.join(V, "sa/rules")) if f[0] == "p" and f[1:3].isdigit()}
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in sorted(P, key=lambda x: x["id"]):
            a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}
            if x["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in x["state"]]
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                                "quantifier": {"over": x["over"], "text": x["qtext"]},
                                "why_tests_cant": x["why"], "anchors": a}) + "\n")
            if x["technique"] is None:
                na.append({"property": x["id"], "reason": x["note"]})
            elif x["id"] in have:
                checks.append({"property": x["id"], "quick_cmd": f"python3 run.py {x['id']}",
                               "thorough_cmd": f"python3 run.py {x['id']} --tier thorough",
                               "evidence_file": f"evidence/{x['id']}.json", "technique": x["technique"], "level": "other",
                               "level_note": TRUST + (x["note"] or "")})
            else:
                na.append({"property": x["id"], "reason": "no check built yet"})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa run.py && node --version", "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "checks", len(na), "n/a", [x["property"] for x in na])


if __name__ == "__main__":
    main()
