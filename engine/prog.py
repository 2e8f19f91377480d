"""Loader for the exported (type-resolved) program."""
import json
import os
import re
import subprocess
import hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("NLCG_REPO", "/repo")
FLAGS = ["-std=c++17", "-DNDEBUG", "-w",
         "-I%s/include" % REPO, "-I%s/src" % REPO, "-I/usr/include/trilinos",
         "-I/usr/lib/x86_64-linux-gnu/openmpi/include",
         "-I/usr/include/x86_64-linux-gnu/openblas-pthread"]


class AnalysisBroken(Exception):
    """the analysis could not be carried out (not a verdict)"""


def strip(n):
    out = ''
    dep = 0
    i = 0
    while i < len(n):
        if dep == 0 and n.startswith('operator', i) and (i == 0 or not (n[i - 1].isalnum() or n[i - 1] == '_')):
            m = re.match(r'operator(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>|\(\))', n[i:])
            if m:
                out += m.group(0)
                i += len(m.group(0))
                continue
        c = n[i]
        if c == '<':
            dep += 1
        elif c == '>':
            dep -= 1
        elif dep == 0:
            out += c
        i += 1
    return out


def build_plugin():
    r = subprocess.run([os.path.join(HERE, "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    so = os.path.join(HERE, "build", "nlcgx.so")
    if r.returncode or not os.path.exists(so):
        raise AnalysisBroken("plugin build failed:\n" + r.stdout[-2000:])
    return so


def _export(src, out):
    so = build_plugin()
    cmd = ["clang++"] + FLAGS + ["-fsyntax-only", "-ferror-limit=0", "-fno-color-diagnostics", "-fplugin=" + so]
    for a in ("root=" + REPO + "/", "root=" + os.path.dirname(os.path.abspath(src)) + "/", "out=" + out):
        cmd += ["-Xclang", "-plugin-arg-nlcgx", "-Xclang", a]
    cmd += ["-Xclang", "-plugin", "-Xclang", "nlcgx", src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (r.returncode == 0 and os.path.exists(out)), r.stdout


def export(src, out):
    ok, log = _export(src, out)
    if ok:
        return out
    wit = os.path.join(VERIF, "witness") + "/"
    if src.startswith(wit):
        # a call that this tree does not offer (any more): drop that one-line witness and analyse the others
        d = out + ".d"
        os.makedirs(d, exist_ok=True)
        red = os.path.join(d, os.path.basename(src))
        lines = open(src).read().split("\n")
        path = src
        for _ in range(6):
            bad = {int(m) for m in re.findall(r"(?m)^%s:(\d+):" % re.escape(path), log)}
            hit = False
            for n in bad:
                t = lines[n - 1]
                if t.rstrip().endswith("}") and t.startswith(("void ", "C ", "double ", "int ", "MPI_Datatype ", "std::", "mvector<")):
                    lines[n - 1] = "// not offered by this tree: " + t
                    hit = True
            if not hit:
                break
            open(red, "w").write("\n".join(lines))
            path = red
            ok, log = _export(red, out)
            if ok:
                return out
    raise AnalysisBroken("cannot parse %s:\n%s" % (src, log[-3000:]))


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.F = d["funs"]
        self.C = d["classes"]
        self.T = d["types"]
        self.locs = d["locs"]
        self.globals = {g[0]: g[1] for g in d["globals"]}
        self.roots = d["roots"]
        self.unknown = d["unknown"]
        self.sn = [None] * len(self.F)
        self.callops = {}
        self.byname = {}
        for i, f in enumerate(self.F):
            if f.get("cls") is not None and f["cls"] >= 0:
                n = self.C[f["cls"]]["name"] + "::" + f["short"]
            else:
                n = strip(f["name"])
            f["id"] = i
            self.sn[i] = n
            self.byname.setdefault(n, []).append(i)
            if f["short"] == "operator()" and f.get("cls") is not None:
                self.callops.setdefault(f["cls"], []).append(i)
        self.lambdas = {}
        for f in self.F:
            self._lam(f.get("body"))
            for ini in f.get("inits") or []:
                self._lam(ini)
        for g in self.globals.values():
            self._lam(g.get("init"))
        self._fld = {}

    def _lam(self, x):
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, list):
                if y and y[0] == "lambda" and len(y) > 4:
                    self.lambdas[y[1]] = y
                    ops = self.callops.setdefault(y[1], [])
                    for f in ([y[2]] if y[2] >= 0 else []) + list(y[4]):
                        if f not in ops:
                            ops.append(f)
                st.extend(y)

    def loc(self, l):
        if isinstance(l, int) and 0 <= l < len(self.locs):
            s = self.locs[l]
            return s[len(REPO) + 1:] if s.startswith(REPO + "/") else s
        return "?"

    def ty(self, t):
        return self.T[t] if t is not None and t >= 0 else {"k": "other", "s": "?"}

    def strip_ref(self, t):
        while t is not None and t >= 0 and self.T[t]["k"] in ("ref", "rref"):
            t = self.T[t]["p"]
        return t

    def cls_of(self, t):
        t = self.strip_ref(t)
        if t is None or t < 0:
            return None
        x = self.T[t]
        return x.get("cls") if x["k"] == "rec" else None

    def cname(self, t):
        c = self.cls_of(t)
        return self.C[c]["name"] if c is not None and c >= 0 else None

    def fields(self, c):
        """[(name, typ, init)] with base fields first"""
        r = self._fld.get(c)
        if r is None:
            r = []
            for b in self.C[c].get("bases", []):
                if b is not None and b >= 0:
                    r += self.fields(b)
            r += [tuple(x) for x in self.C[c].get("fields", [])]
            self._fld[c] = r
        return r

    def find(self, name):
        return [i for i in self.byname.get(name, []) if self.F[i].get("body") is not None]
