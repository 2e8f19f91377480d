"""Shared models: evaluation of the solver entry points for every smearing enumerator."""
import gc
import os
import sys
import tempfile
import time

from prog import Prog, export, AnalysisBroken, REPO, VERIF, build_plugin
from interp import *
from prims import Prims
from backend import Backend
from term import *
from values import *

sys.setrecursionlimit(100000)

SMEAR = ["FERMI_DIRAC", "GAUSSIAN_SPLINE", "GAUSS", "METHFESSEL_PAXTON", "COLD"]


def sink(p):
    def f(I, fid, a, this, loc):
        fn = p.F[fid]
        k = p.ty(fn["ret"])["k"]
        if k == "void":
            return None
        if k in ("ref", "rref"):
            return this if this is not None else a[0]
        return Opq(I.fresh("log"))
    return f


def sinks(I, p, logging=False):
    """logging is observation only (its own behaviour is analysed separately)"""
    for n in p.byname:
        if logging and not (n.startswith("nlcglib::Timer") or n == "nlcglib::format"):
            continue
        if n.startswith("nlcglib::Logger::") or n.startswith("nlcglib::StepLogger") or n.startswith("nlcglib::Timer") or \
                n in ("nlcglib::operator<<", "nlcglib::format", "nlcglib::to_stdout"):
            I.nocall[n] = sink(p)


def allgather_prim(I, pr):
    def allg(I, fid, a, this, loc):
        m = I.load(this)
        cv = I.load(a[0]) if isinstance(a[0], (Ptr,)) else a[0]
        comm = pr.comm(I, cv.f["mpicomm_"]) if isinstance(cv, Rec) and "mpicomm_" in cv.f else mk("comm", "?")
        if comm.op == "comm" and comm.args[0] == "ompi_mpi_comm_null":
            own = m.f.get("comm_")
            if isinstance(own, Rec) and "mpicomm_" in own.f:
                comm = pr.comm(I, own.f["mpicomm_"])
        d = m.f["data_"]
        pr.coll(I, "mallgather", comm, d, loc)
        r = dict(m.f)
        dom = d.dom
        if comm.op == "comm" and comm.args[0] == "commk" and dom is mk("ldom"):
            dom = mk("gdom")
        elif not (comm.op == "comm" and comm.args[0] in ("commg", "ompi_mpi_comm_self")):
            dom = mk("partdom", dom if dom is not None else mk("emptydom"), comm)
        r["data_"] = Map(dom, d.s)
        return Rec(m.cls, r)
    I.nocall["nlcglib::mvector::allgather"] = allg


_prog = {}


def scratch():
    d = os.environ.get("NLCG_SCRATCH")
    if not d:
        d = tempfile.mkdtemp(prefix="nlcgx.")
        os.environ["NLCG_SCRATCH"] = d
        os.environ["NLCG_SCRATCH_OWNER"] = str(os.getpid())
    return d


def export_only(src):
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    if src.startswith("witness/"):
        path = os.path.join(VERIF, src)
    if not os.path.exists(path):
        raise AnalysisBroken("translation unit %s is gone" % src)
    out = os.path.join(scratch(), os.path.basename(src) + ".json")
    if not os.path.exists(out):
        export(path, out)
    return out


def load(src):
    """src: path of a translation unit (relative to the repository or absolute)"""
    if src not in _prog:
        _prog[src] = Prog(export_only(src))
    return _prog[src]


def S(n):
    return mk("sym", n)


class Solver:
    """one gated evaluation of an entry point"""

    def __init__(self, smear, entry="nlcglib::nlcg_us_cpu", args=None, prims=None, logging=False):
        t0 = time.time()
        self.p = p = load("src/nlcglib.cpp")
        self.pr = pr = (prims or Prims)(p)
        self.I = I = Interp(p, pr)
        self.B = Backend(I, pr)
        sinks(I, p, logging)
        allgather_prim(I, pr)
        fid = p.find(entry)
        if len(fid) != 1:
            raise AnalysisBroken("entry point %s not found" % entry)
        f = p.F[fid[0]]
        self.smear = smear
        if args is None:
            args = self.bindargs(f, smear)
        self.dead = False
        self.result = None
        try:
            self.result = I.call(fid[0], args, None, None)
            if isinstance(self.result, (Ptr, PtrSel)):
                self.result = I.load(self.result)
            self.pc = I.pc
        except Dead:
            self.dead = True
            self.pc = None
        self.eval_s = time.time() - t0

    def bindargs(self, f, smear):
        """arguments by type and declared position of the public interface"""
        out = []
        ndbl = 0
        nint = 0
        dn = ["T", "tol", "kappa", "tau"]
        inn = ["maxiter", "restart"]
        for (vid, name, ty) in f["params"]:
            cn = self.p.cname(ty) or ""
            k = self.p.ty(self.p.strip_ref(ty))["k"]
            if cn.endswith("EnergyBase"):
                out.append(self.B.energy)
            elif "Precond" in cn:
                out.append(self.B.P)
            elif "Overlap" in cn:
                out.append(self.B.S)
            elif k == "enum":
                out.append(num(smear))
            elif k == "flt":
                out.append(S(dn[ndbl]))
                ndbl += 1
            elif k == "int":
                out.append(S(inn[nint]))
                nint += 1
            else:
                raise AnalysisBroken("unexpected parameter %s of %s" % (name, f["name"]))
        return out

    # ---------------------------------------------------------------
    def mainloop(self):
        """outermost loop that (transitively) performs backend evaluations"""
        ids = {}
        for e in self.I.events:
            if e.kind == "compute" and e.loops:
                ids[e.loops[0]] = ids.get(e.loops[0], 0) + 1
        for l in self.I.loops:
            if l.id in ids:
                return l
        return None

    def ev(self, kind, loop=None):
        return [e for e in self.I.events if e.kind == kind and (loop is None or loop in e.loops)]

    def where(self, e):
        return self.I.p.loc(e.loc) if isinstance(e.loc, int) else str(e.loc)
