"""Shared set-up for the routing functions: symbolic jobs, contours and predicates on motions."""
import z3
from pydv import values as V
from pydv.stubs import reg
from .base import *

MODS = ["cq_cam.address", "cq_cam.command", "cq_cam.routers"]
RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()


class JobStub:
    """what the routers need of a job; writing to it is noticed"""

    def __init__(self, e, **kw):
        self.rapid_height = kw.get("rapid_height") or R(e, "rapid_height")
        self.op_safe_height = kw.get("op_safe_height") or R(e, "op_safe_height")
        self.feed = R(e, "feed", gt=0)
        self.plunge_feed = R(e, "plunge_feed", gt=0)
        self.precision = 3
        self.tool_radius = R(e, "tool_radius", gt=0)

    def __setattr__(self, k, v):
        if k in self.__dict__:
            V.eng().fail("the job is not modified", k)
        self.__dict__[k] = v


class FaceStub:
    """a contour at a depth"""

    def __init__(self, outer, depth, key=None):
        self.outer, self.depth, self.key = outer, depth, key
        self.inners = PList([])


def xyz(v):
    return (v.x, v.y, v.z)


def diff(a, b):
    """the coordinates differ (None: not known)"""
    if a is None and b is None:
        return z3.BoolVal(False)
    if a is None or b is None:
        return z3.BoolVal(True)
    return num(a) != num(b)


def eqv(a, b):
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    return num(a) == num(b)


def kinds(P):
    C = P["cq_cam.command"]
    return C


@reg
class AnyMotion:
    """a motion of unknown kind: only its ends are known"""

    def __init__(self, start, end):
        self.start, self.end = start, end


def motion(C, c):
    return isinstance(c, (C.MotionCommand, AnyMotion))


def rapid_contract(e, P, job, preds, adjs, safe_given=True, heights=True):
    """contract of rapid_to, proved for C01 / C02 / C15 by the transition units: it is safe and
    continuous, lifts to the rapid height first and ends on the start of the next path."""
    from pydv.loops import AbsSeq
    from pydv.lists import Win
    M, A, C = P["cq_cam.routers"], P["cq_cam.address"], P["cq_cam.command"]

    def contract(start, end, rapid_height, safe_plunge_height=None, plunge_feed=None):
        if heights:
            e.prove("transitions are made at the job's rapid height", eqv(rapid_height, job.rapid_height))
            if safe_plunge_height is not None:
                e.prove("transitions descend to the operation safe height", eqv(safe_plunge_height, job.op_safe_height))
            e.prove("transitions plunge at the plunge feed", eqv(plunge_feed, job.plunge_feed))
        top = A.AddressVector(start.x, start.y, rapid_height)
        lift = C.Retract.abs(z=rapid_height, start=start)
        n = e.fresh_int("tr").t
        e.assume(n >= 1)
        q = AbsSeq(n, f"tr{n}")
        q.flags_all = {p.name for p in preds}
        q.flags_adj = {p.name for p in adjs}
        q.first = AnyMotion(top, A.AddressVector(*[e.fresh_real("t" + c) for c in "xyz"]))
        q.last = AnyMotion(A.AddressVector(*[e.fresh_real("u" + c) for c in "xyz"]),
                           A.AddressVector(end.x, end.y, end.z))
        return PList(chunks=[[lift], Win(q, z3.IntVal(0), n)])
    M.rapid_to = contract


def safe_pred(P, job):
    """rapid moves only travel at a safe height (one motion)"""
    C = P["cq_cam.command"]
    lim = z3.If(num(job.rapid_height) <= num(job.op_safe_height), num(job.rapid_height), num(job.op_safe_height))

    def f(c):
        if isinstance(c, AnyMotion):
            return None
        if not motion(C, c):
            return z3.BoolVal(False)
        if not isinstance(c, C.RapidCommand):
            return z3.BoolVal(True)
        sx, sy, sz = xyz(c.start)
        ex, ey, ez = xyz(c.end)
        if ez is None:
            return z3.BoolVal(False)
        g = [num(ez) >= lim]
        moved = z3.Or(diff(sx, ex), diff(sy, ey))
        if sz is None:
            g.append(z3.Not(moved))
        else:
            g.append(z3.Implies(moved, num(sz) >= lim))
        return z3.And(*g)
    return Pred("safe", f)


def chain_pred(P):
    C = P["cq_cam.command"]

    def f(a, b):
        if not motion(C, a) or not motion(C, b):
            return z3.BoolVal(False)
        return z3.And(*[eqv(p, q) for p, q in zip(xyz(a.end), xyz(b.start))])
    return AdjPred("chain", f)


def feed_pred(P, job):
    """cutting motions use the job's feeds: vertical descents the plunge feed"""
    C = P["cq_cam.command"]

    def f(c):
        if isinstance(c, AnyMotion):
            return None
        if not motion(C, c):
            return z3.BoolVal(False)
        if isinstance(c, C.RapidCommand):
            return z3.BoolVal(True)
        if c.feed is None:
            return z3.BoolVal(False)
        sx, sy, sz = xyz(c.start)
        ex, ey, ez = xyz(c.end)
        if isinstance(c, C.PlungeCut):
            return num(c.feed) == num(job.plunge_feed)
        if None in (sx, sy, sz, ex, ey, ez):
            return num(c.feed) == num(job.feed)
        down = z3.And(*[z3.And(num(a) - num(b) < V.const_term(1e-5), num(a) - num(b) > V.const_term(-1e-5))
                        for a, b in ((sx, ex), (sy, ey))], num(ez) < num(sz))
        return z3.Or(num(c.feed) == num(job.feed), z3.And(num(c.feed) == num(job.plunge_feed), down))
    return Pred("feed", f)


def plunge_pred(P, job):
    """a cut that only descends is made at the plunge feed"""
    C = P["cq_cam.command"]

    def f(c):
        if isinstance(c, AnyMotion):
            return None
        if not motion(C, c):
            return z3.BoolVal(False)
        if isinstance(c, C.RapidCommand):
            return z3.BoolVal(True)
        sx, sy, sz = xyz(c.start)
        ex, ey, ez = xyz(c.end)
        if sz is None or ez is None:
            return z3.BoolVal(False)
        if isinstance(c, C.PlungeCut):
            return z3.And(z3.Not(diff(sx, ex)), z3.Not(diff(sy, ey)))
        return z3.BoolVal(True)
    return Pred("plunge", f)


def prove_list(e, label, cmds, *preds):
    for p in preds:
        p.odd = False
        if isinstance(p, AdjPred):
            g = cmds.adj_formula(p)
        else:
            g = cmds.all_formula(p)
        if g is None and p.odd:
            raise V.Unsupported(f"{label}: elements of another kind ({p.name})")
        e.prove(f"{label}: {p.name}", g)


def contours(e, P, closed=True):
    """n contours; contour k has m(k) >= 2 points X(k,i),Y(k,i), closed, at depth Z(k)"""
    n = e.fresh_int("faces").t
    e.assume(n >= 1)
    m = e.fresh_func("m", IS, IS)
    X = e.fresh_func("X", IS, IS, RS)
    Y = e.fresh_func("Y", IS, IS, RS)
    Z = e.fresh_func("Z", IS, RS)

    def face(k):
        e.axiom(m(k) >= 2)
        if closed:
            e.axiom(z3.And(X(k, m(k) - 1) == X(k, z3.IntVal(0)), Y(k, m(k) - 1) == Y(k, z3.IntVal(0))))
        return FaceStub(PList.of_seq(fseq(m(k), lambda i: (V.SymNum(X(k, i)), V.SymNum(Y(k, i))))), V.SymNum(Z(k)), k)
    return PList.of_seq(fseq(n, face)), n, m, X, Y, Z


def distance_contract(e, P, log=None, exact=True):
    """contract of distance_to_path, proved by C13"""
    M = P["cq_cam.routers"]

    def contract(point, path):
        n = path.len_term()
        d, t = e.fresh_real("dist").t, e.fresh_real("par").t
        cx, cy, j = e.fresh_real("cx").t, e.fresh_real("cy").t, e.fresh_int("seg").t
        e.assume(z3.And(d >= 0, j >= 0, j < n - 1, t >= 0, t <= 1))
        a, b = path.at(j), path.at(z3.simplify(j + 1))
        e.assume(z3.And(cx == num(a[0]) + t * (num(b[0]) - num(a[0])), cy == num(a[1]) + t * (num(b[1]) - num(a[1]))))
        dx, dy = num(point[0]) - cx, num(point[1]) - cy
        if exact:
            e.assume(d == dx * dx + dy * dy)
        if log:
            log(point, path, d, (cx, cy), j)
        return V.SymNum(d), (V.SymNum(cx), V.SymNum(cy)), (V.SymNum(j), V.SymNum(t))
    M.distance_to_path = contract


# ------------------------------------------------------------------ wires
def oriented(edge, first):
    """start (first) or end of an edge in its own direction; this is the contract of
    edge_start_point / edge_end_point, proved for C12"""
    rev = edge.q("reversed", BS)
    a, b = edge.vec("start"), edge.vec("end")
    if not first:
        a, b = b, a
    return [z3.simplify(z3.If(rev, num(q), num(p))) for p, q in zip(a.toTuple(), b.toTuple())]


def edge_point(P, edge, first):
    return P.mods["cadquery"].Vector(*[V.mk(t) for t in oriented(edge, first)])


def wire_contracts(e, P):
    """trusted: the wire explorer lists the edges of a wire so that each starts where the
    previous one ends, and the last ends where the first starts if the wire is closed"""
    M = P["cq_cam.routers"]

    def link(w, i, n):
        j = z3.If(i + 1 == n, z3.IntVal(0), i + 1)
        a, b = w.edge_at(i), w.edge_at(z3.simplify(j))
        e.axiom(z3.Implies(z3.And(i >= 0, i < n, z3.Or(i + 1 < n, w.q("closed", BS))),
                           z3.And(*[p == q for p, q in zip(oriented(a, False), oriented(b, True))])))

    def edges_of(w):
        n = w.nedges()

        def el(i):
            link(w, i, n)
            return w.edge_at(i)
        q = PList.of_seq(fseq(n, el))
        q.wire = w
        return q

    M.wire_to_ordered_edges = edges_of
    M.edge_start_point = lambda ed, *a: edge_point(P, ed, True)
    M.edge_end_point = lambda ed, *a: edge_point(P, ed, False)
    return edges_of


def wire_distance_contract(e, P, log=None):
    """trusted: BRepExtrema finds a distance and the vertex or edge (with its parameter) it is measured to"""
    M = P["cq_cam.routers"]
    cq = P.mods["cadquery"]

    def contract(v, wire):
        d = e.fresh_real("dist").t
        e.assume(d >= 0)
        j = e.fresh_int("on").t
        e.assume(z3.And(j >= 0, j < wire.nedges()))
        k = e.choose(2)
        if k == 0:
            t = cq.Vertex.of(e.fresh_int("vx").t)
            e.assume(z3.And(*[p == num(q) for p, q in zip(oriented(wire.edge_at(j), True), t.toTuple())]))
            t.ghost_j = j
            prm = None
        else:
            t = wire.edge_at(j)
            t.ghost_j = j
            prm = V.mk(e.fresh_real("prm").t)
        if log:
            log(v, wire, d, t, prm)
        return V.mk(d), t, prm
    M.distance_to_wire = contract

    def shift(edges, target):
        """contract of shift_edges (proved for C12): the edges from the target on, cyclically"""
        n = edges.len_term()
        j = target.ghost_j
        return PList.of_seq(fseq(n, lambda i: edges.at(z3.simplify(z3.If(i + j < n, i + j, i + j - n)))))
    M.shift_edges = shift


def route_edge_contract(e, P, job, preds, adjs):
    """contract of route_edge, proved for C12: a continuous list of cuts at the given feed, from
    the start of the edge (or the position of start_p) to its end (or the position of end_p)"""
    from pydv.loops import AbsSeq
    from pydv.lists import Win
    M, A, C = P["cq_cam.routers"], P["cq_cam.address"], P["cq_cam.command"]

    def contract(edge, precision, start_p=None, end_p=None, arrow=False, feed=None):
        is_feed, is_plunge = eqv(feed, job.feed), eqv(feed, job.plunge_feed)
        (ax, ay, az), (bx, by, bz) = oriented(edge, True), oriented(edge, False)
        line = bterm(edge.geomType() == "LINE")
        near = z3.And(*[z3.And(d < V.const_term(1e-5), d > V.const_term(-1e-5)) for d in (ax - bx, ay - by)])
        e.prove("edges are routed at the job's feed, or descend at the plunge feed",
                z3.Or(is_feed, z3.And(is_plunge, line, near, bz < az)))
        e.prove("a vertical descent is cut at the plunge feed",
                z3.Implies(z3.And(line, ax == bx, ay == by, bz < az), is_plunge))
        sp = edge_point(P, edge, True) if start_p is None else edge.positionAt(start_p, "parameter")
        ep = edge_point(P, edge, False) if end_p is None else edge.positionAt(end_p, "parameter")
        n = e.fresh_int("re").t
        e.assume(n >= 1)
        q = AbsSeq(n, f"re{n}")
        q.flags_all = {p.name for p in preds}
        q.flags_adj = {p.name for p in adjs}
        q.first = AnyMotion(A.AddressVector(*sp.toTuple()), A.AddressVector(*[e.fresh_real("v" + c) for c in "xyz"]))
        q.last = AnyMotion(A.AddressVector(*[e.fresh_real("w" + c) for c in "xyz"]), A.AddressVector(*ep.toTuple()))
        return PList(chunks=[Win(q, z3.IntVal(0), n)]), ep
    M.route_edge = contract


def edge_hints(P):
    """the position reached is the end of the last edge routed"""
    cq = P.mods["cadquery"]

    def end_of(e, loop, idx):
        try:
            with e.no_fork():
                x = loop.seq.at(z3.simplify(idx))
        except Exception:
            return None
        if isinstance(x, tuple):
            x = x[1]
        return oriented(x, False) if isinstance(x, cq.Edge) else None

    def hint(e, loop, env, i):
        if loop.is_while or loop.seq is None or end_of(e, loop, i - 1) is None:
            return []
        out = []
        for p in env:
            for k, c in enumerate("xyz"):
                if p and p[-1] in (c, "." + c):
                    def f(lp, v, idx, p=p, k=k):
                        t = end_of(V.eng(), lp, idx - 1)
                        return None if t is None or p not in v else v[p] == t[k]
                    out.append(("customl", f"end{p}", f))
        return out
    return hint


def wires_run(e, P, linked, known, preds, adjs, closed=True, log=None, rapid=None, more=None):
    """route_wires on any number of wires of any number of edges"""
    M, A, C = P["cq_cam.routers"], P["cq_cam.address"], P["cq_cam.command"]
    cq = P.mods["cadquery"]
    e.use_templates = False
    job = JobStub(e)
    e.preds += preds(job)
    e.adjs += adjs
    ps = list(e.preds)
    wire_contracts(e, P)
    wire_distance_contract(e, P, log)
    route_edge_contract(e, P, job, ps, adjs)
    rapid_contract(e, P, job, ps, adjs)
    e.loop_hints.append(edge_hints(P))
    W = e.fresh_func("wire", IS, IS)
    n = e.fresh_int("wires").t
    e.assume(n >= 1)

    def wire(i):
        w = cq.Wire.of(W(i))
        e.axiom(w.nedges() >= 1)
        if closed:
            e.axiom(w.q("closed", BS))
        return w
    wires = PList.of_seq(fseq(n, wire))
    stepover = R(e, "stepover", gt=0) if linked else None
    prev = A.AddressVector(*[R(e, "p" + c) for c in "xyz"]) if known else A.AddressVector()
    if more:
        more(job, stepover)
    cmds = M.route_wires(job, wires, stepover=stepover, previous_pos=prev)
    e.cover("done")
    return job, cmds, ps


def polyfaces_run(e, P, linked, known, preds, adjs, log=None, exact=False, more=None):
    M, A = P["cq_cam.routers"], P["cq_cam.address"]
    e.use_templates = False
    job = JobStub(e)
    faces, n, m, X, Y, Z = contours(e, P)
    distance_contract(e, P, log, exact=exact)
    e.preds += preds(job)
    e.adjs += adjs
    ps = list(e.preds)
    rapid_contract(e, P, job, ps, adjs)
    stepover = R(e, "stepover", gt=0) if linked else None
    prev = A.AddressVector(*[R(e, "p" + c) for c in "xyz"]) if known else A.AddressVector()
    if more:
        more(job, stepover)
    cmds = M.route_polyface_outers(job, faces, stepover=stepover, previous_pos=prev)
    e.cover("done")
    return job, cmds, ps


RAPID_TRUST = "rapid_to meets its contract (proved by the transition unit of C01, C02 and C15)"
EDGE_TRUST = "route_edge meets its contract (proved for C12)"
WIRE_TRUST = ["BRepTools_WireExplorer lists the edges of a wire in connected order",
              "BRepExtrema_DistShapeShape answers with a vertex or an edge of the wire",
              "shift_edges meets its contract (proved for C12)", EDGE_TRUST, RAPID_TRUST]
POLY_TRUST = ["distance_to_path meets its contract (proved for C13)", RAPID_TRUST]


def cases(unit, run, what, trusts, preds, adjs, after):
    for linked in (True, False):
        for known in (True, False):
            def f(P, linked=linked, known=known):
                e = V.eng()
                e.on_exception = no_exception()
                job, cmds, ps = run(e, P, linked, known, lambda job: preds(P, job), adjs(P))
                prove_list(e, what, cmds, *ps, *e.adjs)
                if after:
                    after(e, P, cmds, job, what)
            unit(f"{what}, {'with' if linked else 'without'} step-over, "
                 f"{'from a known position' if known else 'first tool path'}",
                 MODS, must_cover=["done"], trusts=trusts)(f)


def transition_run(e, P):
    M, A = P["cq_cam.routers"], P["cq_cam.address"]
    cq = P.mods["cadquery"]
    job = JobStub(e)
    known = B(e, "known")
    s = A.AddressVector(*[R(e, "s" + c) for c in "xyz"]) if known else A.AddressVector()
    end = cq.Vector(R(e, "ex"), R(e, "ey"), R(e, "ez"))
    safe = opt(e, "safe", lambda: job.op_safe_height)
    pf = job.plunge_feed
    mark = e.write_mark()
    cmds = M.rapid_to(s, end, job.rapid_height, safe, pf)
    frame(e, mark, "positions given are not modified")
    return job, s, end, safe, cmds
