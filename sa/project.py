"""Loads /repo's current sources."""
import os

from . import jsfront, pyfront
from .cfg import Program

REPO = os.environ.get("SA_REPO", "/repo")


def js_files(repo=None):
    repo = repo or REPO
    out = []
    for d in ("lib", "bin"):
        p = os.path.join(repo, d)
        for root, dirs, fs in os.walk(p):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith(".js"):
                    out.append(os.path.relpath(os.path.join(root, f), repo))
    return out


def py_files(repo=None):
    repo = repo or REPO
    out = []
    base = os.path.join(repo, "gyp/pylib")
    for root, dirs, fs in os.walk(os.path.join(base, "gyp")):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith(".py") and not f.endswith("_test.py"):
                full = os.path.join(root, f)
                rel = os.path.relpath(full, base)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                out.append((rel, os.path.relpath(full, repo)))
    for extra in ("gyp/gyp_main.py", "update-gyp.py"):
        if os.path.exists(os.path.join(repo, extra)):
            out.append((os.path.basename(extra)[:-3], extra))
    return out


_cache = {}


def js(repo=None):
    k = ("js", repo or REPO)
    if k not in _cache:
        _cache[k] = Program("js", jsfront.load(repo or REPO, js_files(repo)))
    return _cache[k]


def py(repo=None):
    k = ("py", repo or REPO)
    if k not in _cache:
        _cache[k] = Program("py", pyfront.load(repo or REPO, py_files(repo)))
    return _cache[k]
