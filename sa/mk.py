"""What GNU make does with a makefile text: variables, rules, and the commands
a goal needs, with the dependency relation between them.  Nothing is executed;
files exist when the caller says so."""
import posixpath
import re

DEFAULTS = {"CC": "cc", "CXX": "g++", "AR": "ar", "LD": "ld", "MAKE": "make", "MAKECMDGOALS": "", "CURDIR": "", "SHELL": "/bin/sh", "RM": "rm -f"}


class MakeError(Exception):
    pass


def close(s, i):
    """Index after the reference that starts at s[i] == '$'."""
    if i + 1 >= len(s):
        return i + 1
    o = s[i + 1]
    if o not in "({":
        return i + 2
    e = ")" if o == "(" else "}"
    d, j = 0, i + 1
    while j < len(s):
        if s[j] == o:
            d += 1
        elif s[j] == e:
            d -= 1
            if not d:
                return j + 1
        j += 1
    raise MakeError("unterminated variable reference: " + s[i:i + 60])


def uncomment(s):
    out, i = [], 0
    while i < len(s):
        ch = s[i]
        if ch == "$" and i + 1 < len(s):
            j = close(s, i)
            out.append(s[i:j])
            i = j
            continue
        if ch == "#":
            n = 0
            while n < len(out) and out[-1 - n] == "\\":
                n += 1
            if n:
                del out[len(out) - n:]
                out.extend("\\" * (n // 2))
            if n % 2 == 0:
                break
        out.append(ch)
        i += 1
    return "".join(out)


def words(s):
    """Words of a target or prerequisite list, with backslash-escaped spaces."""
    out, cur, i = [], None, 0
    while i < len(s):
        ch = s[i]
        if ch == "\\" and i + 1 < len(s) and s[i + 1] in " \t":
            cur = (cur or "") + s[i + 1]
            i += 2
            continue
        if ch in " \t\n":
            if cur is not None:
                out.append(cur)
            cur = None
        else:
            cur = (cur or "") + ch
        i += 1
    if cur is not None:
        out.append(cur)
    return out


def split_args(s, n=None):
    out, cur, i, d = [], "", 0, 0
    while i < len(s):
        ch = s[i]
        if ch == "$" and i + 1 < len(s):
            j = close(s, i)
            cur += s[i:j]
            i = j
            continue
        if ch in "({":
            d += 1
        elif ch in ")}":
            d -= 1
        if ch == "," and d <= 0 and (n is None or len(out) < n - 1):
            out.append(cur)
            cur = ""
        else:
            cur += ch
        i += 1
    return out + [cur]


def match(pat, w):
    if "%" not in pat:
        return "" if pat == w else None
    a, b = pat.split("%", 1)
    if w.startswith(a) and w.endswith(b) and len(w) > len(a) + len(b):
        return w[len(a):len(w) - len(b)]
    return None


FUNS = {"subst", "patsubst", "strip", "findstring", "filter", "filter-out", "sort", "word", "wordlist", "words", "firstword", "lastword", "dir", "notdir",
        "suffix", "basename", "addsuffix", "addprefix", "join", "wildcard", "realpath", "abspath", "if", "or", "and", "foreach", "call", "value", "origin",
        "shell", "error", "warning", "info", "eval", "flavor"}


class Rule:
    def __init__(self):
        self.prereqs, self.order, self.recipe, self.vars = [], [], None, []
        self.place = None


class Make:
    def __init__(self, files, root, cwd, exists, given=None, env=None):
        self.files, self.cwd, self.exists = files, cwd, {self.norm(x, cwd) for x in exists}
        self.vars = {k: ("=", v) for k, v in DEFAULTS.items()}
        self.given = dict(given or {})
        self.env = dict(env or {})
        self.vars.update({k: ("=", v) for k, v in self.env.items()})
        self.vars.update({k: (":=", v) for k, v in self.given.items()})
        self.rules, self.patterns, self.phony, self.missing, self.warnings = {}, [], set(), [], []
        self.depth, self.goal = 0, None
        self.built = {}
        self.mentioned = set()
        self.read(root)

    @staticmethod
    def norm(p, cwd):
        return posixpath.normpath(posixpath.join(cwd, p))

    def path(self, p):
        return self.norm(p, self.cwd)

    # ---- variables
    def var(self, name, ctx):
        for c in ctx:
            if name in c:
                k, v = c[name]
                return v if k == ":=" else self.expand(v, ctx)
        if name in self.vars:
            k, v = self.vars[name]
            return v if k == ":=" else self.expand(v, ctx)
        return ""

    def expand(self, s, ctx=()):
        self.depth += 1
        if self.depth > 200:
            raise MakeError("recursive variable")
        try:
            out, i = [], 0
            while i < len(s):
                ch = s[i]
                if ch != "$" or i + 1 >= len(s):
                    out.append(ch)
                    i += 1
                    continue
                j = close(s, i)
                out.append(self.ref(s[i:j], ctx))
                i = j
            return "".join(out)
        finally:
            self.depth -= 1

    def ref(self, r, ctx):
        if r == "$$":
            return "$"
        if r[1] not in "({":
            return self.var(r[1], ctx)
        body = r[2:-1]
        m = re.match(r"([a-z-]+)[ \t\n]+", body)
        if m and m.group(1) in FUNS:
            return self.fun(m.group(1), body[m.end():], ctx)
        name = self.expand(body, ctx)
        m = re.match(r"([^:]+):([^=]*)=(.*)$", name, re.S)
        if m:
            a, b = m.group(2), m.group(3)
            if "%" not in a:
                a, b = "%" + a, "%" + b
            return " ".join(self.patsubst(a, b, w) for w in self.var(m.group(1), ctx).split())
        return self.var(name, ctx)

    @staticmethod
    def patsubst(a, b, w):
        st = match(a, w)
        return w if st is None else b.replace("%", st, 1)

    def fun(self, f, s, ctx):
        lim = {"foreach": 3, "if": 3, "subst": 3, "patsubst": 3, "filter": 2, "filter-out": 2, "strip": 1, "shell": 1, "words": 1, "sort": 1, "dir": 1,
               "notdir": 1, "wildcard": 1, "abspath": 1, "word": 2, "wordlist": 3, "findstring": 2, "join": 2, "error": 1, "warning": 1, "info": 1,
               "eval": 1, "origin": 1, "value": 1, "suffix": 1, "basename": 1, "addprefix": 2, "addsuffix": 2, "firstword": 1, "lastword": 1}.get(f)
        a = split_args(s, lim)
        ex = lambda x: self.expand(x, ctx)
        if f == "if":
            c = ex(a[0].strip())
            return ex(a[1]) if c else ex(a[2]) if len(a) > 2 else ""
        if f == "or":
            for x in a:
                v = ex(x.strip())
                if v:
                    return v
            return ""
        if f == "and":
            v = ""
            for x in a:
                v = ex(x.strip())
                if not v:
                    return ""
            return v
        if f == "foreach":
            n = ex(a[0]).strip()
            return " ".join(self.expand(a[2], ({n: (":=", w)},) + tuple(ctx)) for w in ex(a[1]).split())
        if f == "call":
            xs = [ex(x) for x in a]
            n = xs[0].strip()
            args = {str(i): (":=", xs[i] if i < len(xs) else "") for i in range(10)}
            args["0"] = (":=", n)
            for c in ctx:
                if n in c:
                    return self.expand(c[n][1], (args,) + tuple(ctx))
            if n not in self.vars:
                return ""
            k, v = self.vars[n]
            return v if k == ":=" else self.expand(v, (args,) + tuple(ctx))
        a = [ex(x) for x in a]
        w = a[-1].split()
        if f == "subst":
            return a[2].replace(a[0], a[1]) if a[0] else a[2]
        if f == "patsubst":
            return " ".join(self.patsubst(a[0].strip(), a[1].strip(), x) for x in w)
        if f == "strip":
            return " ".join(w)
        if f == "findstring":
            return a[0] if a[0] in a[1] else ""
        if f in ("filter", "filter-out"):
            ps = a[0].split()
            return " ".join(x for x in w if any(match(p, x) is not None for p in ps) == (f == "filter"))
        if f == "sort":
            return " ".join(sorted(set(w)))
        if f == "word":
            i = int(a[0])
            return w[i - 1] if 0 < i <= len(w) else ""
        if f == "wordlist":
            return " ".join(w[int(a[0]) - 1:int(a[1])])
        if f == "words":
            return str(len(w))
        if f == "firstword":
            return w[0] if w else ""
        if f == "lastword":
            return w[-1] if w else ""
        if f == "dir":
            return " ".join(x[:x.rindex("/") + 1] if "/" in x else "./" for x in w)
        if f == "notdir":
            return " ".join(x.rsplit("/", 1)[-1] for x in w)
        if f == "suffix":
            return " ".join(x for x in (posixpath.splitext(y)[1] for y in w) if x)
        if f == "basename":
            return " ".join(posixpath.splitext(y)[0] for y in w)
        if f == "addprefix":
            return " ".join(a[0] + x for x in w)
        if f == "addsuffix":
            return " ".join(x + a[0] for x in w)
        if f == "join":
            p, q = a[0].split(), a[1].split()
            return " ".join((p[i] if i < len(p) else "") + (q[i] if i < len(q) else "") for i in range(max(len(p), len(q))))
        if f in ("abspath", "realpath"):
            return " ".join(self.path(x) for x in w)
        if f == "wildcard":
            return " ".join(x for x in w if self.path(x) in self.exists)
        if f == "origin":
            n = a[0].strip()
            return "command line" if n in self.given else "environment" if n in self.env and self.vars.get(n) == ("=", self.env[n]) else "default" if n in DEFAULTS and self.vars.get(n) == ("=", DEFAULTS[n]) else "file" if n in self.vars else "undefined"
        if f == "value":
            return self.vars.get(a[0].strip(), ("", ""))[1]
        if f in ("info", "warning", "eval"):
            return ""
        raise MakeError("function " + f)

    # ---- reading
    def read(self, name):
        text = self.files.get(self.path(name))
        if text is None:
            self.missing.append(name)
            return
        raw = text.split("\n")
        i, cur, conds = 0, None, []
        while i < len(raw):
            ln = raw[i]
            i += 1
            if ln.startswith("\t") and cur is not None:
                while ln.endswith("\\") and (len(ln) - len(ln.rstrip("\\"))) % 2 and i < len(raw):
                    ln += "\n" + raw[i]
                    i += 1
                if all(conds):
                    cur(ln[1:])
                continue
            while ln.endswith("\\") and (len(ln) - len(ln.rstrip("\\"))) % 2 and i < len(raw):
                ln = ln[:-1].rstrip() + " " + raw[i].lstrip()
                i += 1
            m = re.match(r"\s*(ifeq|ifneq|ifdef|ifndef|else|endif)\b(.*)$", ln)
            if m:
                self.cond(m.group(1), m.group(2).strip(), conds)
                continue
            m = re.match(r"\s*define\s+(\S+)\s*=?\s*$", ln)
            if m:
                body = []
                while i < len(raw) and not re.match(r"\s*endef\b", raw[i]):
                    body.append(raw[i])
                    i += 1
                i += 1
                if all(conds):
                    self.vars[m.group(1)] = ("=", "\n".join(body))
                cur = None
                continue
            if not all(conds):
                continue
            ln = uncomment(ln)
            if not ln.strip():
                continue
            m = re.match(r"\s*-?include\s+(.*)$", ln)
            if m:
                for f in self.expand(m.group(1)).split():
                    self.read(f)
                cur = None
                continue
            cur = self.statement(ln, cur)

    def cond(self, k, s, conds):
        if k == "endif":
            conds.pop()
        elif k == "else":
            conds[-1] = not conds[-1]
        elif k in ("ifdef", "ifndef"):
            conds.append((bool(self.vars.get(self.expand(s), ("", ""))[1]) == (k == "ifdef")))
        else:
            m = re.match(r"\((.*)\)$", uncomment(s).strip(), re.S)
            if not m:
                raise MakeError("conditional " + s)
            a = split_args(m.group(1), 2)
            conds.append((self.expand(a[0]).strip() == self.expand(a[1]).strip()) == (k == "ifeq"))

    @staticmethod
    def scan(s, chars):
        i = 0
        while i < len(s):
            if s[i] == "$" and i + 1 < len(s):
                i = close(s, i)
                continue
            if s[i] in chars:
                return i
            i += 1
        return -1

    def assignment(self, s):
        """(name, operator, value) of an assignment, None for another line."""
        m = re.match(r"\s*((?:export|override|private)\s+)*", s)
        t = s[m.end():]
        i = self.scan(t, "=:")
        if i < 0:
            return None
        if t[i] == ":":
            mm = re.match(r":{1,3}=", t[i:])
            if not mm:
                return None
            op, name, val = ":=", t[:i], t[i + len(mm.group(0)):]
        else:
            op = "="
            name, val = t[:i], t[i + 1:]
            if name and name[-1] in "?+!":
                op, name = name[-1] + "=", name[:-1]
        if re.search(r"\s", name.strip()) and "$(" not in name:
            return None
        return name.strip(), op, val.lstrip()

    def assign(self, d, name, op, val, ctx=()):
        n = self.expand(name, ctx)
        if d is self.vars and n in self.given:
            return
        if op == ":=":
            d[n] = (":=", self.expand(val, ctx))
        elif op == "=":
            d[n] = ("=", val)
        elif op == "?=":
            if n not in d or d is self.vars and d[n] == ("=", DEFAULTS.get(n, 0)) and False:
                d[n] = ("=", val)
        elif op == "+=":
            if n not in d:
                d[n] = ("=", val)
            else:
                k, v = d[n]
                d[n] = (k, v + " " + (self.expand(val, ctx) if k == ":=" else val))
        else:
            raise MakeError("operator " + op)

    def statement(self, ln, cur):
        a = self.assignment(ln)
        if a is not None:
            self.assign(self.vars, *a)
            return None
        x = re.match(r"\s*(export|unexport)\b", ln)
        if x:
            a = self.assignment(ln[x.end():])
            if a is not None:
                self.assign(self.vars, *a)
            return None
        i = self.scan(ln, ":")
        if i < 0:
            if not self.expand(ln).strip():
                return cur
            raise MakeError("missing separator: " + ln[:80])
        targets = [self.name(x) for x in words(self.expand(ln[:i]))]
        rest = ln[i + 1:]
        if rest.startswith(":"):
            rest = rest[1:]
        a = self.assignment(rest)
        if a is not None:
            for t in targets:
                r = self.rules.setdefault(t, Rule())
                n, op, v = a
                r.vars.append((self.expand(n), ":=" if op == ":=" else op, self.expand(v) if op == ":=" else v))
            return None
        semi = self.scan(rest, ";")
        inline = None
        if semi >= 0:
            rest, inline = rest[:semi], rest[semi + 1:]
        bar = self.scan(rest, "|")
        # expansion may bring the bar in as well
        pre, order = (rest, "") if bar < 0 else (rest[:bar], rest[bar + 1:])
        pre = [self.name(x) for x in words(self.expand(pre))]
        order = [self.name(x) for x in words(self.expand(order))]
        if "|" in pre:
            k = pre.index("|")
            pre, order = pre[:k], pre[k + 1:] + order
        self.mentioned.update(pre + order)
        if self.goal is None:
            self.goal = next((t for t in targets if "%" not in t and not (t.startswith(".") and "/" not in t)), None)
        if any("%" in t for t in targets):
            pat = {"targets": targets, "prereqs": pre, "order": order, "recipe": [] if inline is None else [inline]}
            self.patterns.append(pat)
            return pat["recipe"].append
        if targets == [".PHONY"]:
            self.phony.update(pre)
            return None
        rs = []
        fresh = []
        for t in targets:
            r = self.rules.setdefault(t, Rule())
            r.prereqs += pre
            r.order += order
            rs.append(r)
            fresh.append(True)

        def add(line):
            for k, r in enumerate(rs):
                if fresh[k]:
                    if r.recipe:
                        self.warnings.append("overriding recipe for " + targets[k])
                    r.recipe = []
                    fresh[k] = False
                r.recipe.append(line)
        if inline is not None and inline.strip():
            add(inline)
        return add

    @staticmethod
    def name(x):
        while x.startswith("./") and len(x) > 2:
            x = x[2:].lstrip("/")
        return x

    # ---- building
    def can(self, p):
        return self.path(p) in self.exists or p in self.rules or p in self.phony or p in self.mentioned and self.path(p) in self.exists

    def implicit(self, t):
        c = []
        for p in self.patterns:
            for x in p["targets"]:
                st = match(x, t)
                if st is not None:
                    c.append((len(st), st, p))
        c.sort(key=lambda x: x[0])
        for _, st, p in c:
            pre = [x.replace("%", st, 1) for x in p["prereqs"]]
            if p["recipe"] and all(self.can(x) for x in pre):
                return pre, p
        return None

    def build(self, t, inherited=(), chain=()):
        """Everything needed for target `t`, in make's order."""
        t = self.name(t)
        if t in self.built:
            return
        if t in chain:
            raise MakeError("circular dependency of " + t)
        r = self.rules.get(t)
        own = {}
        if r is not None:
            for n, op, v in r.vars:
                if op == ":=":
                    own[n] = (":=", v)
                elif op == "+=":
                    base = self.var(n, (own,) + tuple(inherited))
                    own[n] = (":=", (base + " " if base else "") + self.expand(v, (own,) + tuple(inherited)))
                else:
                    own[n] = ("=", v)
        ctx = (own,) + tuple(inherited)
        pre, order, recipe = (list(r.prereqs), list(r.order), r.recipe) if r is not None else ([], [], None)
        implied = None
        if recipe is None and t not in self.phony:
            implied = self.implicit(t)
            if implied is not None:
                pre = implied[0] + pre
                order = order + list(implied[1]["order"])
                recipe = implied[1]["recipe"]
        if r is None and implied is None and self.path(t) not in self.exists:
            raise MakeError("no rule to make " + t)
        first = implied[0][0] if implied is not None and implied[0] else pre[0] if pre else ""
        for p in pre + order:
            self.build(p, ctx, chain + (t,))
        uniq = list(dict.fromkeys(pre))
        oo = [x for x in dict.fromkeys(order) if x not in uniq]
        auto = {"@": t, "<": first, "^": " ".join(uniq), "?": " ".join(uniq), "|": " ".join(oo), "+": " ".join(pre),
                "*": "", "@F": t.rsplit("/", 1)[-1], "@D": posixpath.dirname(t) or "."}
        full = ({k: (":=", v) for k, v in auto.items()},) + ctx
        lines = []
        for ln in recipe or []:
            for x in self.expand(ln, full).split("\n"):
                x = x.strip()
                while x[:1] in ("@", "-", "+"):
                    x = x[1:].lstrip()
                if x:
                    lines.append(x)
        self.built[t] = {"lines": lines, "prereqs": uniq, "order": oo, "recipe": recipe, "phony": t in self.phony, "vars": full, "n": len(self.built)}

    def needs(self, t):
        """Targets that are always up to date before the commands of `t` run."""
        out, todo = set(), [self.name(t)]
        while todo:
            x = todo.pop()
            b = self.built.get(x)
            if b is None:
                continue
            for y in b["prereqs"] + b["order"]:
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out


OPS = ("&&", "||", ">>", ";", "|", "&", "(", ")", ">", "<")


ACTIVE = "\ue000"


def dollar(s, i):
    return s[i] == "$" and i + 1 < len(s) and (s[i + 1].isalnum() or s[i + 1] in "_({?@*#$!-")


def shell(s):
    """Words and operators of a POSIX shell command; operators come as ('op', x).
    Expansions stay as they are written."""
    out, cur, i = [], None, 0
    while i < len(s):
        ch = s[i]
        if ch == "\\" and i + 1 < len(s):
            if s[i + 1] != "\n":
                cur = (cur or "") + s[i + 1]
            i += 2
            continue
        if ch == "'":
            j = s.find("'", i + 1)
            if j < 0:
                return None
            cur = (cur or "") + s[i + 1:j]
            i = j + 1
            continue
        if ch == '"':
            cur = cur or ""
            i += 1
            while True:
                if i >= len(s):
                    return None
                if s[i] == '"':
                    break
                if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in '"\\$`':
                    cur += s[i + 1]
                    i += 2
                    continue
                cur += ACTIVE + s[i] if s[i] == "`" or dollar(s, i) else s[i]
                i += 1
            i += 1
            continue
        if ch in " \t\n":
            if cur is not None:
                out.append(cur)
            cur = None
            if ch == "\n":
                out.append(("op", ";"))
            i += 1
            continue
        if ch == "#" and cur is None:
            j = s.find("\n", i)
            i = len(s) if j < 0 else j
            continue
        o = next((o for o in OPS if s.startswith(o, i)), None)
        if o is not None:
            if cur is not None:
                out.append(cur)
            cur = None
            out.append(("op", o))
            i += len(o)
            continue
        cur = (cur or "") + (ACTIVE + ch if ch in "`*?[" or dollar(s, i) or ch == "~" and cur is None else ch)
        i += 1
    if cur is not None:
        out.append(cur)
    return out


def commands(s):
    """Simple commands (argument lists) of a shell command, with the operator before each."""
    out, cur, op = [], [], ""
    t = shell(s)
    if t is None:
        return None
    for x in t:
        if isinstance(x, tuple) and x[1] in (";", "&&", "||", "|", "&", "(", ")"):
            if cur:
                out.append((op, cur))
                op = ""
            op = x[1] if x[1] not in ("(", ")") else op + x[1]
            cur = []
        else:
            cur.append(x)
    if cur:
        out.append((op, cur))
    return out


def argv(words):
    """Arguments of a simple command without its redirections."""
    out, i = [], 0
    while i < len(words):
        x = words[i]
        if isinstance(x, tuple):
            if x[1] in (">", ">>", "<"):
                if out and out[-1] in ("1", "2"):
                    out.pop()
                i += 1
        else:
            out.append(x)
        i += 1
    return out
