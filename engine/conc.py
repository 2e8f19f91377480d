"""Evaluation of code that handles a fixed small configuration (ranks, labels, block sizes): the integer structure is known, the data
stays symbolic.  Collectives are resolved rank by rank: pass s knows the outcome of the first s collectives of every rank."""
from interp import *
from interp import Interp
from prims import Prims
import prims as P_
from ri import Undecided


class NextCollective(Exception):
    pass


class CInterp(Interp):
    def loop(self, kind, loc, cond, body, inc, count=None):
        fr = self.frames[-1]
        sb = fr.brk
        fr.brk = []
        try:
            for i in range(400):
                g = cond()
                if g is FALSE:
                    break
                if g is not TRUE:
                    raise Undecided("loop bound at %s is not determined by the configuration" % (self.p.loc(loc) if isinstance(loc, int) else loc))
                self.unrolled(body)
                if inc is not None:
                    inc()
            else:
                raise Undecided("loop at %s does not end" % (self.p.loc(loc) if isinstance(loc, int) else loc))
        except Dead:
            self.pc = None
        flows = fr.brk
        fr.brk = sb
        if self.pc is not None:
            flows.append((self.pc, self.st, None))
        self.mergeflows(flows)


def keyof(k):
    if k.op == "mkkey" and isnum(k.args[0]) and isnum(k.args[1]):
        return (int(k.args[0].args[0]), int(k.args[1].args[0]))
    raise Undecided("label %r is not determined by the configuration" % (k,))


class CPrims(Prims):
    """comms: {name: (size, rank)}"""

    def __init__(self, prog, comms, known=()):
        Prims.__init__(self, prog)
        self.comms = comms
        self.known = list(known)
        self.done = []

    def keyrec(self, k):
        if k.op == "mkkey":
            return Rec(None, {"first": k.args[0], "second": k.args[1]})
        return Prims.keyrec(self, k)

    def status(self, I, name, loc, extra=()):
        return ZERO

    def cname(self, I, a):
        c = self.comm(I, a)
        if c.op != "comm":
            raise Undecided("communicator %r" % (c,))
        n = str(c.args[0])
        return "self" if n.endswith("comm_self") else "null" if n.endswith("comm_null") or n == "NULL" else n

    def cinfo(self, I, a):
        n = self.cname(I, a)
        if n == "self":
            return (1, 0)
        if n not in self.comms:
            raise Undecided("communicator %s" % n)
        return self.comms[n]

    def f_MPI_Comm_size(self, I, f, a, loc):
        I.store(a[1], num(self.cinfo(I, a[0])[0]))
        return ZERO

    def f_MPI_Comm_rank(self, I, f, a, loc):
        I.store(a[1], num(self.cinfo(I, a[0])[1]))
        return ZERO

    def f_MPI_Comm_compare(self, I, f, a, loc):
        x, y = self.cname(I, a[0]), self.cname(I, a[1])
        I.store(a[2], ZERO if x == y else num(3))
        return ZERO

    # sorted containers
    def m_map(self, I, f, m, a, this, loc):
        r = Prims.m_map(self, I, f, m, a, this, loc)
        if isinstance(this, Ptr):
            self.resort(I, this)
        return r

    def resort(self, I, this):
        v = self.val(I, this)
        if isinstance(v, Map) and v.dom is None and all(k.op == "mkkey" for k in v.s) and len(v.s) > 1:
            ks = sorted(v.s, key=keyof)
            if ks != list(v.s):
                I.store(this, Map(None, {k: v.s[k] for k in ks}))

    def map_ctor(self, I, args, loc):
        v = self.val1(I, args[0]) if args else None
        if isinstance(v, (It, Ptr)) and len(args) > 1:
            w = self.range_vec(I, v, self.val1(I, args[1]))
            if w.items is None:
                raise Undecided("map built from a range that is not determined by the configuration")
            d = {}
            for x in w.items:
                d.setdefault(self.keyterm(I, x.f["first"]), x.f["second"])      # first one wins
            return Map(None, {k: d[k] for k in sorted(d, key=keyof)})
        return Prims.map_ctor(self, I, args, loc)

    def entries(self, I, b, e):
        """concrete element pointers of a range"""
        out = []
        self.foreach(I, b, e, out.append, None)
        return out

    def mapto(self, I, b, e, d, fn, loc):
        bb = b if isinstance(b, Ptr) and b.off is not None else self.val1(I, b)
        if isinstance(bb, It) and bb.kind == "map":
            m = self.val(I, bb.cont)
            if isinstance(m, Map) and m.dom is None:
                dst = d if isinstance(d, Ptr) and d.off is not None else self.val1(I, d)
                if isinstance(dst, It) and dst.kind == "vec":
                    dc, do = dst.cont, dst.pos
                elif isinstance(dst, Ptr):
                    dc, do = Ptr(dst.cell, dst.path), dst.off or ZERO
                else:
                    raise Undecided("copy to %s" % type(dst).__name__)
                for i, x in enumerate(self.entries(I, b, e)):
                    self.place(I, dc, add(do, num(i)), fn(x))
                return d
        return Prims.mapto(self, I, b, e, d, fn, loc)

    def place(self, I, dc, i, v):
        w = I.load(dc)
        if isinstance(w, Vec) and w.items is not None and isnum(i) and not 0 <= i.args[0] < len(w.items):
            raise OutOfRange("element %s of a buffer of %d is written" % (i.args[0], len(w.items)))
        I.store(I.index(dc, i), v)

    def f_partial_sum(self, I, f, a, loc):
        b, e = self.val1(I, a[0]), self.val1(I, a[1])
        d = a[2] if isinstance(a[2], Ptr) and a[2].off is not None else self.val1(I, a[2])
        dc, do = (d.cont, d.pos) if isinstance(d, It) else (Ptr(d.cell, d.path), d.off or ZERO)
        s = None
        for i, x in enumerate(self.entries(I, b, e)):
            v = self.val(I, x)
            s = v if s is None else self.arith(I, "+", s, v)
            self.place(I, dc, add(do, num(i)), s)
        return d

    def f_exclusive_scan(self, I, f, a, loc):
        b, e = self.val1(I, a[0]), self.val1(I, a[1])
        d = a[2] if isinstance(a[2], Ptr) and a[2].off is not None else self.val1(I, a[2])
        dc, do = (d.cont, d.pos) if isinstance(d, It) else (Ptr(d.cell, d.path), d.off or ZERO)
        s = self.sc(I, a[3])
        for i, x in enumerate(self.entries(I, b, e)):
            v = self.val(I, x)
            self.place(I, dc, add(do, num(i)), s)
            s = self.arith(I, "+", s, v)
        return d

    # collectives
    def f_MPI_Allreduce(self, I, f, a, loc):
        v = self.val(I, a[0])
        rec = {"kind": "allreduce", "comm": self.cname(I, a[5]), "op": self.comm(I, a[4]), "type": self.comm(I, a[3]), "count": self.sc(I, a[2]), "value": v,
               "loc": I.p.loc(loc) if isinstance(loc, int) else str(loc), "pc": I.pc, "inplace": isinstance(v, T) and v.op == "const"}
        self.done.append(rec)
        I.store(a[1], mk("allreduce", rec["op"], mk("comm", rec["comm"]), v) if isinstance(v, T) else I.fresh("red"))
        return ZERO

    def f_MPI_Barrier(self, I, f, a, loc):
        self.done.append({"kind": "barrier", "comm": self.cname(I, a[0]), "loc": I.p.loc(loc), "pc": I.pc})
        return ZERO

    def gatherlike(self, I, f, a, loc, buf, cnt, disp, ty, comm):
        P, r = self.cinfo(I, comm)
        base = Ptr(buf.cell, buf.path) if isinstance(buf, Ptr) else None
        v = I.load(base) if base is not None else None
        cnts = I.load(Ptr(cnt.cell, cnt.path)) if disp is not None and isinstance(cnt, Ptr) else self.sc(I, cnt)
        dis = I.load(Ptr(disp.cell, disp.path)) if isinstance(disp, Ptr) else None
        sv = self.val1(I, a[0]) if not isinstance(a[0], T) else a[0]
        rec = {"kind": f["short"], "comm": self.cname(I, comm), "type": self.comm(I, ty), "counts": cnts, "displs": dis, "buf": v, "off": buf.off if isinstance(buf, Ptr) else None,
               "inplace": isinstance(sv, T) and sv.op in ("num", "const") or isinstance(sv, Opq), "loc": I.p.loc(loc) if isinstance(loc, int) else str(loc), "pc": I.pc,
               "stack": tuple(x.fid for x in I.frames)}
        self.done.append(rec)
        i = len(self.done) - 1
        if i >= len(self.known):
            raise NextCollective()
        if v is not None and self.known[i] is not None:
            I.store(base, self.known[i])
        return ZERO

    def opaque(self, I, f, name, args, this, loc):
        if name.startswith("MPI_"):
            self.done.append({"kind": name, "comm": None, "loc": I.p.loc(loc) if isinstance(loc, int) else str(loc), "pc": I.pc})
        return Prims.opaque(self, I, f, name, args, this, loc)


class OutOfRange(Exception):
    pass


class Mismatch(Exception):
    """the ranks do not take part in the same collective, or a collective goes outside its buffer"""

    def __init__(self, what, loc):
        Exception.__init__(self, what)
        self.loc = loc


def ints(v, what, n):
    if isinstance(v, Vec) and v.items is not None:
        if len(v.items) < n:
            raise Undecided("%s has %d entries for %d ranks" % (what, len(v.items), n))
        if all(isinstance(x, T) and isnum(x) for x in v.items[:n]):
            return [int(x.args[0]) for x in v.items[:n]]
    raise Undecided("%s is not determined by the configuration" % what)


def exchange(recs):
    """outcome of one gather for all ranks (in-place semantics)"""
    k = recs[0]
    for r, x in enumerate(recs):
        if x is None or x["kind"] != k["kind"] or x["comm"] != k["comm"]:
            raise Mismatch("rank %d takes part in %s while rank 0 is in %s" % (r, x and x["kind"], k["kind"]), k["loc"])
        if x["type"] is not k["type"]:
            raise Mismatch("ranks disagree about the element type of %s" % k["kind"], k["loc"])
    P = len(recs)
    blocks = []
    for r, x in enumerate(recs):
        if x["displs"] is None:
            if not isnum(x["counts"]):
                raise Undecided("count of %s" % k["kind"])
            c = int(x["counts"].args[0])
            cn, dp = [c] * P, [c * q for q in range(P)]
        else:
            cn, dp = ints(x["counts"], "receive counts", P), ints(x["displs"], "displacements", P)
        off = int(x["off"].args[0]) if x["off"] is not None else 0
        blocks.append((cn, [d + off for d in dp]))
        if cn != blocks[0][0]:
            raise Mismatch("ranks disagree about the receive counts of %s: %s and %s" % (k["kind"], blocks[0][0], cn), k["loc"])
    out = []
    for r, x in enumerate(recs):
        v = x["buf"]
        if not (isinstance(v, Vec) and v.items is not None):
            if all(c == 0 for c in blocks[r][0]):
                out.append(None)
                continue
            raise Undecided("buffer of %s is not determined by the configuration" % k["kind"])
        it = list(v.items)
        for q in range(P):
            for j in range(blocks[r][0][q]):
                src = recs[q]["buf"].items
                s, d = blocks[q][1][q] + j, blocks[r][1][q] + j
                if not 0 <= s < len(src) or not 0 <= d < len(it):
                    raise Mismatch("%s goes outside its buffer of %d elements (counts %s, displacements %s)" % (k["kind"], len(it), blocks[r][0], blocks[r][1]), k["loc"])
                it[d] = src[s]
        for q in range(P):      # overlapping blocks
            for q2 in range(q):
                a0, a1 = blocks[r][1][q], blocks[r][1][q] + blocks[r][0][q]
                b0, b1 = blocks[r][1][q2], blocks[r][1][q2] + blocks[r][0][q2]
                if max(a0, b0) < min(a1, b1):
                    raise Mismatch("blocks of ranks %d and %d overlap in %s" % (q2, q, k["kind"]), k["loc"])
        out.append(Vec(items=it))
    return out


def together(P, run):
    """run(rank, known) -> (result, primitives); known outcomes of earlier collectives; returns results and the collectives of every rank"""
    known = [[] for _ in range(P)]
    for s in range(60):
        outs = [run(r, known[r]) for r in range(P)]
        stopped = [o[0] is NextCollective for o in outs]
        if not any(stopped):
            n = [len(o[1].done) for o in outs]
            if len(set(n)) != 1:
                raise Mismatch("ranks perform %s collectives" % n, outs[0][1].done[-1]["loc"] if outs[0][1].done else "?")
            return outs
        recs = [o[1].done[len(known[r])] if len(o[1].done) > len(known[r]) else None for r, o in enumerate(outs)]
        # reductions and barriers before the gather
        while all(x is not None and x["kind"] in ("allreduce", "barrier") for x in recs):
            for r in range(P):
                known[r].append(None)
            recs = [o[1].done[len(known[r])] if len(o[1].done) > len(known[r]) else None for r, o in enumerate(outs)]
        base = next(x for x in recs if x is not None)
        if any(x is None for x in recs):
            raise Mismatch("only some ranks take part in %s" % base["kind"], base["loc"])
        new = exchange(recs)
        for r in range(P):
            known[r].append(new[r])
    raise Undecided("collectives do not end")
