"""C12: wires are traced edge by edge, in order, with the right curve."""
import z3
from pydv import values as V
from .base import *
from .routes import *

UNITS = []
unit = units(UNITS)
UM = ["cq_cam.utils.utils", "cq_cam.utils.interpolation", "cq_cam.address", "cq_cam.command", "cq_cam.routers"]
OCC = ["cadquery edge queries (start, end, position, parameter, centre, normal, closed, length) are functions of the edge",
       "numpy.linspace returns equally spaced values between its bounds"]


def edge(e, P):
    return P.mods["cadquery"].Edge.of(e.fresh_int("edge").t)


def veq(a, b):
    def t(v):
        return v if isinstance(v, z3.ExprRef) else num(v)
    return z3.And(*[t(p) == t(q) for p, q in zip(a, b)])


@unit("an edge is oriented", UM, must_cover=["oriented"], trusts=OCC)
def ends(P):
    e = V.eng()
    e.on_exception = no_exception()
    U = P["cq_cam.utils.utils"]
    ed = edge(e, P)
    rev = ed.q("reversed", BS)
    s, t = U.edge_start_point(ed), U.edge_end_point(ed)
    e.prove("the start point is the start in the edge's own direction", veq(xyz(s), oriented(ed, True)))
    e.prove("the end point is the end in the edge's own direction", veq(xyz(t), oriented(ed, False)))
    a, b = U.edge_start_end(ed)
    e.prove("start and end together agree", z3.And(veq(xyz(a), xyz(s)), veq(xyz(b), xyz(t))))
    p, q = U.edge_start_param(ed), U.edge_end_param(ed)
    p0, p1 = num(ed.paramAt(0)), num(ed.paramAt(1))
    e.prove("the start parameter is the one of the start point", num(p) == z3.If(rev, p1, p0))
    e.prove("the end parameter is the one of the end point", num(q) == z3.If(rev, p0, p1))
    e.cover("oriented")


def setup(P):
    """route_edge with the orientation helpers replaced by their contracts"""
    e = V.eng()
    e.on_exception = no_exception(allow=("NotImplementedError",))
    M = P["cq_cam.routers"]
    ed = edge(e, P)
    rev = ed.q("reversed", BS)
    M.edge_start_point = lambda d, *a: edge_point(P, d, True)
    M.edge_end_point = lambda d, *a: edge_point(P, d, False)
    p0, p1 = ed.paramAt(0), ed.paramAt(1)
    ps, pe = z3.If(rev, num(p1), num(p0)), z3.If(rev, num(p0), num(p1))
    M.edge_start_param = lambda d: V.mk(z3.simplify(ps))
    M.edge_end_param = lambda d: V.mk(z3.simplify(pe))
    return e, M, ed, ps, pe


def run(e, P, M, ed, ps, pe, part=None):
    a = b = None
    if part is None or part:
        a = opt(e, "start_p", lambda: R(e, "start_p"))
        b = opt(e, "end_p", lambda: R(e, "end_p"))
    feed = opt(e, "feed", lambda: R(e, "feed", gt=0)) if part is None else R(e, "feed", gt=0)
    mark = e.write_mark()
    cmds, ep = M.route_edge(ed, 3, start_p=a, end_p=b, arrow=B(e, "arrow") if part is None else False, feed=feed)
    frame(e, mark, "the edge is not modified")
    sp = oriented(ed, True) if a is None else xyz(ed.positionAt(a, "parameter"))
    tp = oriented(ed, False) if b is None else xyz(ed.positionAt(b, "parameter"))
    pa, pb = (ps if a is None else num(a)), (pe if b is None else num(b))
    e.prove("the end returned is the end of the part asked for", veq(xyz(ep), tp))
    return cmds, feed, sp, tp, pa, pb


def common(e, P, cmds, feed, sp, tp):
    C = P["cq_cam.command"]
    n = cmds.len_term()
    e.prove("something is routed", n >= 1)
    first, last = cmds.at(z3.IntVal(0)), cmds.at(z3.simplify(n - 1))
    e.prove("it starts on the start of the part asked for", veq(xyz(first.start), sp))
    e.prove("it ends on the end of the part asked for", veq(xyz(last.end), tp))
    prove_list(e, "edge", cmds, chain_pred(P), Pred("cuts at the given feed", lambda c: z3.And(
        z3.BoolVal(isinstance(c, (C.Cut, C.CircularCW, C.CircularCCW)) and not isinstance(c, C.PlungeCut)), eqv(c.feed, feed))))


def geom(e, ed, names):
    from pydv.stubs import SymText
    g = ed.geomType()
    e.assume(z3.Or(*[bterm(g == n) for n in names]))


@unit("straight edges", UM, must_cover=["line"], trusts=OCC, requires=["the edge is a line"])
def line(P):
    e, M, ed, ps, pe = setup(P)
    geom(e, ed, ["LINE"])
    C = P["cq_cam.command"]
    cmds, feed, sp, tp, pa, pb = run(e, P, M, ed, ps, pe)
    common(e, P, cmds, feed, sp, tp)
    e.prove("a line is one straight cut", mkbool(z3.BoolVal(len(cmds.items()) == 1 and isinstance(cmds.items()[0], C.Cut))))
    e.cover("line")


@unit("circular edges", UM, must_cover=["circle", "arc", "tiny"], trusts=OCC,
      requires=["the edge is circular, about the Z axis"])
def arc(P):
    e, M, ed, ps, pe = setup(P)
    geom(e, ed, ["ARC", "CIRCLE"])
    nz = num(ed.normal().z)
    e.assume(nz != 0)
    C = P["cq_cam.command"]
    cmds, feed, sp, tp, pa, pb = run(e, P, M, ed, ps, pe)
    common(e, P, cmds, feed, sp, tp)
    its = cmds.items()
    rev = ed.q("reversed", BS)
    cw = z3.If(rev, nz > 0, nz < 0)
    ctr = xyz(ed.arcCenter())
    if any(isinstance(c, C.Cut) for c in its):
        e.cover("tiny")
        e.prove("only an arc without extent is cut straight",
                z3.And(z3.BoolVal(len(its) == 1), z3.Not(ed.q("closed", BS))))
        # Vector equality of cadquery has a tolerance: the ends are closer than it
        e.prove("only an arc without extent is cut straight", bterm(P.mods["cadquery"].Vector(*[V.mk(x) if isinstance(x, z3.ExprRef) else x for x in sp])
                                                                    == P.mods["cadquery"].Vector(*[V.mk(x) if isinstance(x, z3.ExprRef) else x for x in tp])))
        return
    for c in its:
        e.prove("the arc turns in the edge's direction",
                z3.If(cw, z3.BoolVal(isinstance(c, C.CircularCW)), z3.BoolVal(isinstance(c, C.CircularCCW))))
        e.prove("the arc has the edge's centre", veq(xyz(c.center), ctr))
    closed = ed.q("closed", BS)
    if len(its) == 2:
        e.cover("circle")
        e.prove("only a full circle is cut in two", closed)
        for k, (c, m) in enumerate(zip(its, (0.25, 0.75))):
            e.prove("a half circle passes through its middle",
                    veq(xyz(c.mid), xyz(ed.positionAt(V.mk(pa + V.const_term(m) * (pb - pa)), "parameter"))))
        e.prove("the first half ends opposite the start",
                veq(xyz(its[0].end), xyz(ed.positionAt(V.mk(pa + (pb - pa) / 2), "parameter"))))
    else:
        e.cover("arc")
        e.prove("an open arc is one arc", z3.And(z3.BoolVal(len(its) == 1), z3.Not(closed)))
        e.prove("the arc passes through its middle",
                veq(xyz(its[0].mid), xyz(ed.positionAt(V.mk(pa + (pb - pa) / 2), "parameter"))))


def linspace_contract(e, P):
    """n values from a to b in order, the first is a and the last is b"""
    np = P.mods["numpy"]

    def linspace(a, b, n=50):
        t = term_of(n)
        a, b = (num(V.mk(x) if isinstance(x, z3.ExprRef) else x) for x in (a, b))

        def f(i):
            f_ = z3.Function("lin", RS, RS, IS, IS, RS)
            q = f_(a, b, t, i)
            e.axiom(z3.Implies(i == 0, q == a))
            e.axiom(z3.Implies(i == t - 1, q == b))
            return V.mk(q)
        return PList.of_seq(fseq(t, f))
    return linspace


def spline_unit(part):
    @unit("other curves, " + ("a part" if part else "whole"), UM, must_cover=["part" if part else "whole"],
          trusts=OCC + ["edge_interpolation_count is at least 2 (proved for C18)"],
          requires=["the edge is a spline or an offset curve"])
    def spline(P):
        e, M, ed, ps, pe = setup(P)
        geom(e, ed, ["BSPLINE", "SPLINE", "OFFSET"])
        C = P["cq_cam.command"]
        n = e.fresh_int("chords").t
        e.assume(n >= 2)
        M.edge_interpolation_count = lambda d, p: V.SymNum(n)
        lin = linspace_contract(e, P)
        M.np.linspace = lin
        e.adjs += [chain_pred(P)]
        rev = ed.q("reversed", BS)
        cmds, feed, sp, tp, pa, pb = run(e, P, M, ed, ps, pe, part)
        N = cmds.len_term()
        e.prove("every chord is cut", N == n)
        first, last = cmds.at(z3.IntVal(0)), cmds.at(z3.simplify(N - 1))
        e.prove("it starts on the start of the part asked for", veq(xyz(first.start), sp))
        e.prove("it ends on the end of the part asked for", veq(xyz(last.end), tp))
        prove_list(e, "edge", cmds, chain_pred(P))
        # an arbitrary chord
        K = e.fresh_int("K").t
        e.assume(z3.And(K >= 0, K < n))
        c = cmds.at(K)
        e.prove("chords are straight cuts at the given feed", z3.And(z3.BoolVal(isinstance(c, C.Cut)), eqv(c.feed, feed)))
        if not part:
            e.cover("whole")
            i, j = (1, 0) if e.decide(rev) else (0, 1)
            d = lin(i, j, V.SymNum(n)).at(K)
            e.prove("chord K ends on the K-th of equally spaced points of the edge", veq(xyz(c.end), xyz(ed.positionAt(d))))
        elif e.inputs["start_p_given"] or e.inputs["end_p_given"]:
            e.cover("part")
            d = lin(pa, pb, V.SymNum(n)).at(K)
            e.prove("chord K ends on the K-th of equally spaced points of the part",
                    veq(xyz(c.end), xyz(ed.positionAt(d, "parameter"))))
    return spline


spline_unit(False)
spline_unit(True)


@unit("edges of a linked wire are shifted, none lost", UM, must_cover=["edge", "vertex"], trusts=OCC)
def shifted(P):
    e = V.eng()
    e.on_exception = no_exception(allow=("ValueError",))
    M = P["cq_cam.routers"]
    cq = P.mods["cadquery"]
    w = cq.Wire.of(e.fresh_int("wire").t)
    n = w.nedges()
    e.assume(n >= 1)
    edges = PList.of_seq(fseq(n, lambda i: w.edge_at(i)))
    M.edge_start_point = lambda d, *a: edge_point(P, d, True)
    kind = pick(e, "kind", ["edge", "vertex"])
    if kind == "edge":
        j0 = I(e, "j").t
        e.assume(z3.And(j0 >= 0, j0 < n))
        target = w.edge_at(j0)
    else:
        target = cq.Vertex.of(e.fresh_int("vx").t)
    r = M.shift_edges(edges, target)
    e.prove("no edge is lost or added", r.len_term() == n)
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < n))
    first = r.at(z3.IntVal(0))
    e.cover(kind)
    if kind == "edge":
        e.prove("it begins with the edge that was found", first.key == target.key)
    else:
        e.prove("it begins with the edge that starts on the vertex that was found",
                bterm(edge_point(P, first, True) == cq.Vector(target.toTuple())))
    # cyclic: element K is edge (K + j) mod n for a j that does not depend on K
    j = e.fresh_int("shift").t
    ch = r.chunks
    los = [c.lo for c in ch if not isinstance(c, list)]
    if los:
        jj = los[0]
        idx = z3.If(K + jj < n, K + jj, K + jj - n)
        e.prove("the others follow in their cyclic order", r.at(K).key == w.edge_at(z3.simplify(idx)).key)
    else:
        e.fail("the others follow in their cyclic order", "not a selection of the edges")


@unit("a wire is routed edge by edge in its own order", UM, must_cover=["wire"],
      trusts=WIRE_TRUST)
def ordered(P):
    """ghost: the contract of route_edge records which edge it is called with"""
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    M, A, C = P["cq_cam.routers"], P["cq_cam.address"], P["cq_cam.command"]
    cq = P.mods["cadquery"]
    job = JobStub(e)
    wire_contracts(e, P)
    rapid_contract(e, P, job, [], [])
    w = cq.Wire.of(e.fresh_int("wire").t)
    n = w.nedges()
    e.assume(n >= 1)
    ghost = Ghost()
    ghost.n = V.mk(z3.IntVal(0))

    def contract(ed, precision, start_p=None, end_p=None, arrow=False, feed=None):
        k = term_of(ghost.n)
        e.prove("the next edge routed is the next edge of the wire", z3.And(k < n, ed.key == w.edge_at(k).key))
        e.prove("whole edges are routed", mkbool(z3.BoolVal(start_p is None and end_p is None)))
        e.prove("edges are routed with the job's precision", mkbool(z3.BoolVal(precision == job.precision)))
        R_.setattr_(ghost, "n", V.mk(z3.simplify(k + 1)))
        c = C.Cut.abs(*oriented_n(ed, False), start=A.AddressVector(*oriented_n(ed, True)))
        return PList([c]), edge_point(P, ed, False)
    M.route_edge = contract
    cmds = M.route_wires(job, PList([w]))
    e.prove("every edge of the wire is routed", term_of(ghost.n) == n)
    e.cover("wire")


def oriented_n(ed, first):
    return [V.mk(t) for t in oriented(ed, first)]


from pydv import runtime as R_


@reg
class Ghost:
    pass
