"""C18: curves are flattened within tolerance, end to end, in order."""
import z3
from pydv import values as V, runtime as R_
from pydv.stubs import reg, SymText
from .base import *
from .routes import *

UNITS = []
unit = units(UNITS)
IM = ["cq_cam.utils.utils", "cq_cam.utils.interpolation"]
ARC = ("positionAt(d) is the point at the fraction d of the curve's length, so that no point between two of them is "
       "further from them than half the length between them")
OCC = ["cadquery edge queries (start, end, position, length, orientation, type) are functions of the edge", ARC,
       "numpy.linspace returns equally spaced values between its bounds"]


def edge(e, P, name="edge"):
    return P.mods["cadquery"].Edge.of(e.fresh_int(name).t)


def veq(a, b):
    def t(v):
        return v if isinstance(v, z3.ExprRef) else num(v)
    return z3.And(*[t(p) == t(q) for p, q in zip(a, b)])


@unit("the number of points of a curve", IM, must_cover=["count"], replay="count", trusts=OCC)
def count(P):
    e = V.eng()
    e.on_exception = no_exception()
    I_ = P["cq_cam.utils.interpolation"]
    p = pick(e, "precision", [0, 1, 2, 3, 4, 5, 6])
    ed = edge(e, P)
    n = I_.edge_interpolation_count(ed, p)
    L = num(ed.Length())
    e.assume(L >= 0)
    nt = term_of(n)
    e.prove("at least the two ends, a whole number", z3.And(z3.BoolVal(z3.is_int(nt)), nt >= 2))
    # half of one piece: L / (n - 1) / 2 <= 1.5 units of the last decimal
    e.prove("no chord departs by more than one and a half units of the last decimal",
            2 * L * 10 ** p <= 2 * 3 * (num(n) - 1) * z3.RealVal(1))
    e.cover("count")


@unit("the number of points of the coarse outline", IM, must_cover=["count"], replay="count", trusts=OCC)
def coarse(P):
    e = V.eng()
    e.on_exception = no_exception()
    U = P["cq_cam.utils.utils"]
    ed = edge(e, P)
    rev = ed.q("reversed", BS)
    L = num(ed.Length())
    e.assume(L >= 0)
    tol = None if B(e, "default tolerance") else R(e, "tolerance", gt=0)
    r = to_plist(U.position_space(ed) if tol is None else U.position_space(ed, tol))
    t = z3.RealVal("1/10") if tol is None else num(tol)
    n = r.len_term()
    e.prove("at least the two ends", n >= 2)
    e.prove("no chord departs by more than the tolerance", L <= 2 * t * (z3.ToReal(n) - 1))
    a, b = (z3.If(rev, z3.RealVal(1), z3.RealVal(0)), z3.If(rev, z3.RealVal(0), z3.RealVal(1)))
    e.prove("it begins at the start of the edge", num(r.at(z3.IntVal(0))) == a)
    e.prove("it ends at the end of the edge", num(r.at(z3.simplify(n - 1))) == b)
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < n))
    e.prove("equally spaced positions in between, in order",
            num(r.at(K)) * (z3.ToReal(n) - 1) == a * (z3.ToReal(n) - 1) + (b - a) * z3.ToReal(K))
    e.cover("count")


@unit("a curve becomes equally spaced points from its start to its end", IM, must_cover=["forward", "reversed"],
      replay="edge", trusts=OCC)
def interpolate(P):
    e = V.eng()
    e.on_exception = no_exception()
    I_ = P["cq_cam.utils.interpolation"]
    n = e.fresh_int("points").t
    e.assume(n >= 2)
    ed = edge(e, P)
    asked = []

    def cnt(d, p):
        asked.append(1)
        e.prove("the number of points is that of the edge and the precision",
                z3.And(d.key == ed.key, z3.BoolVal(p == 3)))
        return V.SymNum(n)
    I_.edge_interpolation_count = cnt
    rev = e.decide(ed.q("reversed", BS))
    mark = e.write_mark()
    r = to_plist(I_.interpolate_edge_to_vectors(ed, 3))
    frame(e, mark, "the edge is not modified")
    e.cover("reversed" if rev else "forward")
    e.prove("as many points as asked", r.len_term() == n)
    lin = P.mods["numpy"].linspace
    whole = to_plist(lin(1, 0, V.SymNum(n)) if rev else lin(0, 1, V.SymNum(n)))
    e.prove("fractions from 0 to 1 of the length", z3.And(num(whole.at(z3.IntVal(0))) == (1 if rev else 0),
                                                       num(whole.at(z3.simplify(n - 1))) == (0 if rev else 1)))
    s, t = ed.positionAt(1 if rev else 0), ed.positionAt(0 if rev else 1)
    e.prove("the first point is the start of the edge", veq(xyz(r.at(z3.IntVal(0))), xyz(s)))
    e.prove("the last point is the end of the edge", veq(xyz(r.at(z3.simplify(n - 1))), xyz(t)))
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < n))
    d = whole.at(K)
    e.prove("point K is the K-th of equally spaced points along the edge", veq(xyz(r.at(K)), xyz(ed.positionAt(d))))


TYPES = ["LINE", "CIRCLE", "ELLIPSE", "HYPERBOLA", "PARABOLA", "BEZIER", "BSPLINE", "OFFSET", "OTHER"]


@unit("lines are kept whole, everything else is interpolated", IM, must_cover=["line", "curve", "offset of a line"],
      replay="edge", trusts=OCC + ["get_underlying_geom_type names the type of the innermost basis curve (checked at run time only)"])
def whole(P):
    e = V.eng()
    e.on_exception = no_exception()
    I_ = P["cq_cam.utils.interpolation"]
    ed = edge(e, P)
    g = ed.geomType()
    e.assume(z3.Or(*[bterm(g == n) for n in TYPES]))
    under = SymText(e.fresh_int("underlying").t)
    I_.get_underlying_geom_type = lambda d: under
    token = PList([])
    asked = []

    def interp(d, p):
        asked.append(p)
        e.prove("the edge itself is interpolated, at the precision given", z3.And(d.key == ed.key, z3.BoolVal(p == 3)))
        return token
    I_.interpolate_edge_to_vectors = interp
    mark = e.write_mark()
    r = I_.edge_to_vectors(ed, 3)
    frame(e, mark, "the edge is not modified")
    straight = z3.Or(bterm(g == "LINE"), z3.And(bterm(g == "OFFSET"), bterm(under == "LINE")))
    if asked:
        e.cover("curve")
        e.prove("a straight line is kept as a single segment", z3.Not(straight))
        e.prove("the points are those of the interpolation", mkbool(z3.BoolVal(r is token)))
        return
    e.cover("line")
    if e.decide(bterm(g == "OFFSET")):
        e.cover("offset of a line")
    e.prove("only straight lines are kept as one segment", straight)
    its = to_plist(r).items()
    e.prove("a line is its two ends", mkbool(z3.BoolVal(len(its) == 2)))
    e.prove("in the direction of the edge", z3.And(veq(xyz(its[0]), oriented(ed, True)),
                                                   veq(xyz(its[-1]), oriented(ed, False))))


@reg
class Pt:
    """the q-th point of edge k; points are compared by place, with the tolerance cadquery has"""

    def __init__(self, k, q):
        self.k, self.q = k, q


def chain_of(n, cnt, closing):
    """consecutive points: of one edge, or from an edge to the next, or closing the wire"""
    def f(a, b):
        if not isinstance(a, Pt) or not isinstance(b, Pt):
            return z3.BoolVal(False)
        same = z3.And(a.k == b.k, b.q == a.q + 1)
        nxt = z3.And(a.q == cnt(a.k) - 1, b.k == a.k + 1, b.q == 1)
        close = z3.And(a.k == n - 1, a.q == cnt(a.k) - 1, b.k == 0, b.q == 0) if closing else z3.BoolVal(False)
        return z3.Or(same, nxt, close)
    return AdjPred("consecutive points of the wire", f)


def contiguous(e, n):
    """edges of a wire: point q of edge k; the first point of an edge is the last of the one before"""
    cnt = e.fresh_func("points", IS, IS)
    XYZ = [e.fresh_func("P" + c, IS, IS, RS) for c in "xyz"]

    def pt(k, q):
        k, q = (z3.IntVal(v) if isinstance(v, int) else v for v in (k, q))
        e.axiom(cnt(k) >= 2)
        e.axiom(cnt(k - 1) >= 2)
        return VPt(k, q)

    def at(k, q):
        k, q = term_of(k) if not isinstance(k, z3.ExprRef) else k, term_of(q) if not isinstance(q, z3.ExprRef) else q
        pt(k, q)
        # the first point of an edge is written as the last one of the edge before
        return [z3.If(z3.And(q == 0, k >= 1), F(k - 1, cnt(k - 1) - 1), F(k, q)) for F in XYZ]
    VPt.at = staticmethod(at)
    return cnt, pt


@reg
class VPt(Pt):
    def __eq__(self, o):
        from pydv.stubs import Vector
        a, b = self.at(self.k, self.q), o.at(o.k, o.q)
        return Vector(*[V.mk(z3.simplify(t)) for t in a]) == Vector(*[V.mk(z3.simplify(t)) for t in b])

    def __ne__(self, o):
        return mkbool(z3.Not(bterm(self == o)))

    __hash__ = None


@reg
class Ed:
    def __init__(self, k):
        self.k = k


def last_hint(n, cnt):
    """the last point so far is the last point of its edge"""
    def hint(e2, loop, env, i):
        out = []
        for b in [p[:-1] for p in env if p[-1] == ".q" and "#last" in p]:
            def f(lp, v, idx, b=b):
                if b + (".q",) not in v:
                    return None
                k = v.get(b + (".k",))
                return None if k is None else v[b + (".q",)] == cnt(k) - 1
            out.append(("customl", "last point of its edge", f))
        return out
    return hint


@unit("the points of a wire: every edge's points, in order, end to end", IM, must_cover=["closed", "added", "open"],
      replay="wire", trusts=["edge_to_vectors and wire_to_ordered_edges meet their contracts (proved here and for C12)"])
def wire(P):
    e = V.eng()
    e.on_exception = no_exception()
    I_ = P["cq_cam.utils.interpolation"]
    n = e.fresh_int("edges").t
    e.assume(n >= 1)
    cnt, pt = contiguous(e, n)
    I_.wire_to_ordered_edges = lambda w: PList.of_seq(fseq(n, Ed))
    chain = chain_of(n, cnt, True)
    e.adjs += [chain]

    def vecs(d, p):
        e.prove("at the precision given", mkbool(z3.BoolVal(p == 3)))
        k = d.k if isinstance(d.k, z3.ExprRef) else term_of(d.k)
        e.axiom(cnt(k) >= 2)
        return PList.of_seq(fseq(cnt(k), lambda q: pt(k, q), adj={chain: z3.BoolVal(True)}))
    I_.edge_to_vectors = vecs
    close = B(e, "close")

    e.loop_hints.append(last_hint(n, cnt))
    r = to_plist(I_.wire_to_vectors(object(), 3) if close and B(e, "by default") else I_.wire_to_vectors(object(), 3, close=close))
    L = r.len_term()
    e.prove("there are points", L >= 2 if close else L >= 1)
    first, last = r.at(z3.IntVal(0)), r.at(z3.simplify(L - 1))
    e.prove("it begins with the first point of the first edge", z3.And(first.k == 0, first.q == 0))
    prove_list(e, "wire", r, chain)
    end = z3.And(last.k == n - 1, last.q == cnt(n - 1) - 1)
    if close:
        added = z3.And(last.k == 0, last.q == 0)
        e.prove("it ends with the last point of the last edge, or closes", z3.Or(end, added))
        e.prove("it is closed", bterm(first == last))
        e.cover("added" if e.decide(added) else "closed")
    else:
        e.cover("open")
        gap = bterm(pt(z3.IntVal(0), z3.IntVal(0)) == pt(n - 1, cnt(n - 1) - 1))
        e.prove("an open outline ends with the last point of the last edge", z3.Implies(z3.Not(gap), end))


@unit("the coarse outline: every edge's points, in order, end to end", IM, must_cover=["done"], replay="flatten",
      trusts=["position_space meets its contract (proved here)", "Edge.positions returns the points at the positions given"])
def outline(P):
    e = V.eng()
    e.on_exception = no_exception(allow=("ValueError",))
    U = P["cq_cam.utils.utils"]
    n = e.fresh_int("edges").t
    e.assume(n >= 1)
    cnt, pt = contiguous(e, n)
    kind = e.fresh_func("kind", IS, IS)
    chain = chain_of(n, cnt, False)
    e.adjs += [chain]
    e.loop_hints.append(last_hint(n, cnt))
    line0 = kind(z3.IntVal(0)) == SymText.code_of("LINE")
    e.loop_hints.append(lambda e2, loop, env, i: [("custom", "first edge straight", lambda en, ix: line0)])

    @reg
    class Pos:
        def __init__(self, k, q):
            self.k, self.q = k, q

    class Fe:
        def __init__(self, k):
            self.k = k
            e.axiom(cnt(k) >= 2)

        def geomType(self):
            return SymText(kind(self.k))

        def positions(self, ps, mode="length", planar=False):
            ps = to_plist(ps)
            K = e.fresh_int("K").t
            e.prove("all but the first position of the edge", ps.len_term() == cnt(self.k) - 1)
            if e.decide(z3.And(K >= 0, K < ps.len_term())):
                p = ps.at(K)
                e.prove("its own positions in order", z3.And(p.k == self.k, p.q == K + 1))
            return PList.of_seq(fseq(cnt(self.k) - 1, lambda q: pt(self.k, q + 1), adj={chain: z3.BoolVal(True)}))
    U.position_space = lambda ed, *a: PList.of_seq(fseq(cnt(ed.k), lambda q: Pos(ed.k, q)))

    def endp(ed, *a):
        # a straight edge has two points
        e.prove("only straight edges are kept as one segment", bterm(ed.geomType() == "LINE"))
        e.axiom(z3.Implies(bterm(ed.geomType() == "LINE"), cnt(ed.k) == 2))
        return pt(ed.k, z3.IntVal(1))
    U.edge_end_point = endp
    r = to_plist(U.flatten_edges(PList.of_seq(fseq(n, Fe))))
    L = r.len_term()
    e.cover("done")
    e.prove("there are points", L >= 1)
    a, b = r.at(z3.IntVal(0)), r.at(z3.simplify(L - 1))
    e.prove("it begins with the first edge, after its start", z3.And(a.k == 0, a.q == 1))
    e.prove("it ends with the end of the last edge", z3.And(b.k == n - 1, b.q == cnt(n - 1) - 1))
    prove_list(e, "outline", r, chain)
