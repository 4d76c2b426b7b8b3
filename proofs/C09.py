"""C09: tabs are complete, disjoint, ordered and left standing."""
import z3
from pydv import values as V, runtime as R_
from pydv.stubs import reg
from .base import *
from .routes import IS, RS, BS, prove_list, eqv

UNITS = []
unit = units(UNITS)
TM = ["cq_cam.operations.tabs"]
LIN = ["numpy.linspace returns equally spaced values between its bounds"]


def ti(v):
    return V.term_of(v) if not isinstance(v, z3.ExprRef) else v


@reg
class EdgeStub:
    """an edge: its length and its kind"""

    def __init__(self, length, kind):
        self.length, self.kind = length, kind

    def Length(self):
        return self.length

    def geomType(self):
        return self.kind


class Np:
    """numpy, remembering the last number of points asked for"""

    def __init__(self, e, np):
        self.e, self.np = e, np

    def linspace(self, a, b, n=50, **k):
        self.e.points = z3.ToReal(ti(n))
        return self.np.linspace(a, b, n, **k)


def hint(e, loop, env, i):
    out = []
    if ("count",) in env:
        c = lambda q: z3.ToReal(q[("count",)])
        L, w, a = num(e.L), num(e.w), e.asked
        out += [("custom", "at least one tab", lambda q, k: c(q) >= 1),
                ("custom", "no more than asked", lambda q, k: c(q) <= a),
                ("custom", "as many as fit", lambda q, k: z3.Or(c(q) == a, L <= w * (c(q) + 2)))]
    for k0 in [k for k in env if k[-2:] == ("#last", 0) and k[:-1] + (1,) in env]:
        out.append(("custom", "place %s" % (k0,), lambda q, k, k0=k0: z3.Implies(
            ti(k) >= 1, (q[k0] + q[k0[:-1] + (1,)]) * (e.points - 1) == 2 * z3.ToReal(ti(k)))))
    return out


def start(t):
    return num(t[0])


def end(t):
    return num(t[1])


@unit("tabs of an edge", TM, must_cover=["tabs", "none", "other kind"], trusts=LIN, replay="edge",
      requires=["the edge has a length, the tabs have a width, spacing > width"])
def edge_tabs(P):
    e = V.eng()
    e.on_exception = no_exception(allow=())
    M = P["cq_cam.operations.tabs"]
    w, sp, h = R(e, "width", gt=0), R(e, "spacing", gt=0), R(e, "height")
    e.assume(num(sp) > num(w))
    only = pick(e, "only", [None, "LINE", "CIRCLE"])
    kind = pick(e, "kind", ["LINE", "CIRCLE"])
    L = R(e, "length", gt=0)
    e.L, e.w, e.points = L, w, z3.RealVal(0)
    lt, wt, st = num(L), num(w), num(sp)
    e.asked = z3.ToReal(e.fresh_int("asked").t)
    e.assume(z3.And(e.asked >= 0, e.asked * st <= lt, (e.asked + 1) * st > lt))
    M.np = Np(e, M.np)
    e.loop_hints.append(hint)
    wide = Pred("the tab is as wide as asked", lambda t: (end(t) - start(t)) * lt == wt)
    e.preds += [wide]
    even = AdjPred("the tabs are evenly spaced", lambda a, b: (start(b) - start(a)) * (e.points - 1) == 1)
    apart = AdjPred("the tabs do not overlap", lambda a, b: start(b) >= end(a))
    e.adjs += [even, apart]
    t = M.EdgeTabs(spacing=sp, width=w, height=h, only=only)
    t.load_ordered_edges(to_plist([EdgeStub(L, kind)]))
    ds = t.edges_ds[0]
    n = z3.ToReal(ds.len_term())
    if only is not None and only != kind:
        e.cover("other kind")
        e.prove("an edge of another kind has no tabs", n == 0)
        return
    if e.decide(n == 0):
        e.cover("none")
        e.prove("an edge without tabs is too short for one", lt < st)
        return
    e.cover("tabs")
    e.prove("no more tabs than asked", n <= e.asked)
    e.prove("fewer tabs than asked only when more do not fit", z3.Or(n == e.asked, lt <= wt * (n + 2)))
    prove_list(e, "edge tabs", ds, wide, even)
    a, b = ds.at(z3.IntVal(0)), ds.at(z3.simplify(ds.len_term() - 1))
    e.prove("the first tab is one step from the start of the edge", (start(a) + end(a)) * (n + 1) == 2)
    e.prove("the last tab is one step from the end of the edge", (2 - start(b) - end(b)) * (n + 1) == 2)
    e.prove("the first tab does not begin before the edge", start(a) >= 0)
    e.prove("the last tab does not end after the edge", end(b) <= 1)
    prove_list(e, "edge tabs", ds, apart)


class States:
    """the states, as numbers"""
    NORMAL, TAB, IGNORE = 0, 1, 2


def d(t):
    return num(t[0])


@unit("transitions of an edge", TM, must_cover=["tabs"], replay="edge", requires=["the tabs of the edge are in order"])
def edge_transitions(P):
    e = V.eng()
    e.on_exception = no_exception(allow=())
    M = P["cq_cam.operations.tabs"]
    T = M.Transition = States
    n = e.fresh_int("tabs").t
    a, b = e.fresh_func("begin", IS, RS), e.fresh_func("end", IS, RS)
    # which tab begins here, which ends here (tabs follow one another, so that is one tab)
    ia, ib = e.fresh_func("beginning", RS, IS), e.fresh_func("ending", RS, IS)
    e.assume(n >= 0)

    def tabat(i):
        e.axiom(z3.Implies(z3.And(i >= 0, i < n), z3.And(ia(a(i)) == i, ib(b(i)) == i, 0 <= a(i), a(i) < b(i), b(i) <= 1)))
        e.axiom(z3.Implies(z3.And(i >= 1, i < n), b(i - 1) <= a(i)))
        return V.mk(a(i)), V.mk(b(i))
    t = M.EdgeTabs(spacing=2, width=1, height=R(e, "height"))
    t.edges_ds = to_plist([PList.of_seq(fseq(n, tabat))])
    tab = lambda t: eqv(t[1], T.TAB)
    usual = lambda t: eqv(t[1], T.NORMAL)
    preds = [
        AdjPred("they are in order", lambda p, q: d(p) <= d(q)),
        AdjPred("a tab ends where it should", lambda p, q: z3.Implies(tab(p), z3.And(
            usual(q), d(p) == a(ia(d(p))), d(q) == b(ib(d(q))), ib(d(q)) == ia(d(p))))),
        AdjPred("only tabs and the usual cut", lambda p, q: z3.Or(tab(p), usual(p))),
        AdjPred("the first tab is met first", lambda p, q: z3.Implies(z3.And(tab(q), d(p) == 0), ia(d(q)) == 0)),
        AdjPred("tabs are met one by one", lambda p, q: z3.Implies(z3.And(tab(q), d(p) > 0), z3.And(usual(p), ia(d(q)) == ib(d(p)) + 1))),
        AdjPred("the last tab is met last", lambda p, q: z3.Implies(z3.And(usual(p), usual(q)), z3.Or(n == 0, ib(d(p)) == n - 1)))]
    e.adjs += preds
    tr = t.edge_tab_transitions(0)
    e.cover("tabs")
    prove_list(e, "transitions", tr, *preds)
    f, l = tr.at(z3.IntVal(0)), tr.at(z3.simplify(tr.len_term() - 1))
    e.prove("they begin at the start of the edge", z3.And(d(f) == 0, usual(f)))
    e.prove("they end at the end of the edge", z3.And(d(l) == 1, usual(l)))
    e.prove("one for each begin and each end", tr.len_term() == 2 * n + 2)


class WireStub:
    def __init__(self, length):
        self.length = length

    def Length(self):
        return self.length


@unit("tabs of a wire", TM, must_cover=["tabs"], trusts=LIN, replay="wire",
      requires=["count >= 1, the tabs have a width, and fit the wire without overlapping"])
def wire_tabs(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.operations.tabs"]
    from pydv.stubs import uf
    count = I(e, "count", 1)
    L, h = R(e, "length", gt=0), R(e, "half_fraction", gt=0)
    ht, ct = num(h), num(count)
    e.assume(2 * ht * ct < 1)
    c = lambda k: uf("lin", RS, z3.RealVal(0), z3.RealVal(1), ct, z3.ToReal(k) if z3.is_int(k) else k)
    K = e.fresh_int("K").t
    e.assume(z3.And(0 <= K, K <= ti(count)))
    where = z3.If(K == ti(count), z3.RealVal(1), c(z3.If(K == ti(count), z3.IntVal(0), K)))
    e.assume(z3.Implies(K < ti(count), c(K) * ct == z3.ToReal(K)))
    wide = Pred("the tab is as wide as asked", lambda t: end(t) - start(t) == 2 * ht)
    placed = Pred("the middle of a tab is on the wire", lambda t: z3.And(0 <= start(t) + end(t), start(t) + end(t) <= 2))
    m = Measure("tab K", lambda t: z3.If(start(t) + end(t) == 2 * where, z3.IntVal(1), z3.IntVal(0)))
    m.nonneg = True
    e.preds += [wide, placed]
    e.measures += [m]
    e.loop_hints.append(lambda e, loop, env, i: [
        ("custom", "tab K %s" % (k0,), lambda q, j, k0=k0: q[k0] == z3.If(z3.Or(K < ti(j), z3.And(K == ti(count), ti(j) >= 1)), z3.IntVal(1), z3.IntVal(0)))
        for k0 in env if k0[-2:] == ("#m", "tab K")])
    t = M.WireTabs(count=count, width=V.mk(2 * num(L) * ht), height=R(e, "height"))
    t.load_wire(WireStub(L))
    e.cover("tabs")
    prove_list(e, "wire tabs", t.wire_tab_ds, wide, placed)
    e.prove("tab K, or what is beyond the start of the wire, is there once", t.wire_tab_ds.measure_term(m) == 1)
    e.prove("that is all", t.wire_tab_ds.len_term() == ti(count) + 1)


@unit("place of each edge on its wire", TM, must_cover=["edges"], replay="wire",
      requires=["there is an edge, and each edge has a length"])
def ranges(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.operations.tabs"]
    n = I(e, "edges", 1)
    ln, so_far = e.fresh_func("length", IS, RS), e.fresh_func("length_before", IS, RS)
    nt = ti(n)
    e.assume(so_far(0) == 0)
    # induction lemma: every part of the wire is no longer than the wire
    tot = so_far(nt)
    e.assume(tot > 0)
    # the fraction of the wire before edge i, and the edge that begins there (the edges have lengths, so that is one edge)
    frac, idx = e.fresh_func("fraction_before", IS, RS), e.fresh_func("beginning", RS, IS)

    def step(i):
        e.axiom(z3.Implies(z3.And(i >= 0, i < nt), z3.And(ln(i) > 0, so_far(i + 1) == so_far(i) + ln(i), so_far(i) >= 0, so_far(i + 1) <= tot)))
        for k in (i, i + 1):
            e.axiom(z3.Implies(z3.And(k >= 0, k <= nt), z3.And(frac(k) * tot == so_far(k), idx(frac(k)) == k)))
    step(z3.IntVal(0))
    step(z3.simplify(nt - 1))

    def sum_(e, pl, start=0):
        k = e.fresh_int("any").t
        e.assume(z3.And(k >= 0, k < nt))
        step(k)
        e.prove("the length of the wire is the sum of the lengths of its edges",
                z3.And(pl.len_term() == nt, num(pl.at(k)) == ln(k), num(start) == 0))
        return V.mk(tot)
    e.hooks["sum"] = sum_

    def edge(i):
        step(i)
        return EdgeStub(V.mk(ln(i)), "LINE")
    joined = AdjPred("an edge begins where the one before ends", lambda p, q: start(q) == end(p))
    inside = Pred("an edge is a part of the wire", lambda t: z3.And(0 <= start(t), start(t) < end(t), end(t) <= 1))
    at = lambda t: idx(start(t))
    own = Pred("an edge is where those before it end", lambda t: z3.And(
        0 <= at(t), at(t) < nt, start(t) == frac(at(t)), end(t) == frac(at(t) + 1)))
    e.adjs.append(joined)
    e.preds += [inside, own]

    def hint(e, loop, env, i):
        out = [("custom", "so far %s" % (k,), lambda q, j, k=k: q[k] == frac(ti(j)))
               for k in env if env[k].sort() == RS]
        return out
    e.loop_hints.append(hint)
    t = M.WireTabs(count=3, width=1, height=1)
    t.load_ordered_edges(PList.of_seq(fseq(nt, edge)))
    e.cover("edges")
    rs = t.edge_ranges
    e.prove("one place for each edge", rs.len_term() == nt)
    prove_list(e, "edges", rs, joined, inside, own)
    a, b = rs.at(z3.IntVal(0)), rs.at(z3.simplify(rs.len_term() - 1))
    e.prove("the first edge begins where the wire does", start(a) == 0)
    e.prove("the last edge ends where the wire does", end(b) == 1)


@unit("from the wire to the edge", TM, must_cover=["map"], replay="wire", requires=["the edge has a length"])
def wire_to_edge(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.operations.tabs"]
    a, b, x, y = R(e, "a"), R(e, "b"), R(e, "x"), R(e, "y")
    e.assume(num(a) < num(b))
    f = lambda v: num(M.WireTabs.wire_d_to_edge_d(v, (a, b)))
    e.prove("the start of the edge is 0", f(a) == 0)
    e.prove("the end of the edge is 1", f(b) == 1)
    e.prove("the order is kept", z3.And(z3.Implies(num(x) < num(y), f(x) < f(y)), z3.Implies(num(x) == num(y), f(x) == f(y))))
    e.prove("it is measured along the edge", f(x) * (num(b) - num(a)) == num(x) - num(a))
    e.cover("map")


class World:
    """the tabs of a wire and one edge of it: the wire from es to ee"""

    def __init__(self, e, inside):
        self.e = e
        self.n = e.fresh_int("tabs").t
        self.a, self.b = e.fresh_func("begin", IS, RS), e.fresh_func("end", IS, RS)
        self.es, self.ee = num(R(e, "edge_start")), num(R(e, "edge_end"))
        self.x = num(R(e, "place"))
        self.K = e.fresh_int("K").t
        # the place on the edge of a place on the wire
        self.p = e.fresh_func("on_edge", RS, RS)
        e.assume(z3.And(self.es < self.ee, self.es <= self.x, self.x < self.ee, 0 <= self.K, self.K < self.n))
        e.axiom(z3.And(self.p(self.es) == 0, self.p(self.ee) == 1))
        for i in (self.K,):
            e.assume(self.a(i) < self.b(i))
        self.inside, self.order = inside, None
        e.assume(z3.And(self.a(self.K) <= self.x, self.x < self.b(self.K)) == z3.BoolVal(inside))
        for v in self.places():
            self.place(v)

    def places(self):
        return [self.es, self.ee, self.x, self.a(self.K), self.b(self.K)]

    def place(self, y):
        """the contract of wire_d_to_edge_d"""
        Y = z3.Real("Y")
        if self.order is None:
            self.order = z3.And(*[z3.And((Y < v) == (self.p(Y) < self.p(v)), (Y == v) == (self.p(Y) == self.p(v)))
                                  for v in self.places()])
        self.e.axiom(z3.substitute(self.order, (Y, y)))
        return self.p(y)

    def tab(self, i):
        e, K = self.e, self.K
        ok = z3.And(i >= 0, i < self.n)
        e.axiom(z3.Implies(ok, self.a(i) < self.b(i)))
        e.axiom(z3.Implies(z3.And(ok, i != K), z3.Or(self.b(i) < self.a(K), self.b(K) < self.a(i))))
        if not self.inside:
            e.axiom(z3.Implies(ok, z3.Or(self.x < self.a(i), self.b(i) <= self.x)))
        self.place(self.a(i)), self.place(self.b(i))
        return V.mk(self.a(i)), V.mk(self.b(i))

    def begin(self, i):
        """where tab i begins on the edge"""
        return z3.If(self.a(i) <= self.es, z3.RealVal(0), self.p(self.a(i)))


def max01(t):
    return z3.If(t < 0, z3.RealVal(0), t)


def wire_edge(inside):
    def f(P):
        e = V.eng()
        e.on_exception = no_exception()
        M = P["cq_cam.operations.tabs"]
        T = M.Transition = States
        e.use_templates = False
        w = World(e, inside)
        K, n, p = w.K, w.n, w.p
        X = p(w.x)
        tab, usual = (lambda t: eqv(t[1], T.TAB)), (lambda t: eqv(t[1], T.NORMAL))
        bound = Pred("on the edge", lambda t: z3.And(0 <= d(t), d(t) <= 1))
        state = Pred("a tab or the usual cut", lambda t: z3.Or(tab(t), usual(t)))
        e.preds += [bound, state]
        k = z3.Int("k")
        from_tab = lambda t, i: z3.And(d(t) == w.begin(i), w.es < w.b(i), w.a(i) <= w.ee)
        if inside:
            near = Pred("nothing between the begin of tab K and the place", lambda t: z3.Implies(
                d(t) <= X, z3.Or(d(t) < w.begin(K), z3.And(d(t) == w.begin(K), tab(t)))))
            e.preds += [near]
            m = Measure("begin of K", lambda t: z3.If(z3.And(d(t) == w.begin(K), tab(t)), z3.IntVal(1), z3.IntVal(0)))
        else:
            origin = Pred("from a tab", lambda t: z3.Implies(tab(t), z3.Exists([k], z3.And(0 <= k, k < n, from_tab(t, k)))))
            e.preds += [origin]
            m = Measure("end of K", lambda t: z3.If(z3.And(d(t) == p(w.b(K)), usual(t)), z3.IntVal(1), z3.IntVal(0)))
        m.nonneg = True
        e.measures.append(m)
        need = z3.BoolVal(True) if inside else z3.And(w.es < w.b(K), w.b(K) <= w.ee)
        e.loop_hints.append(lambda e, loop, env, i: [
            ("custom", "K %s" % (k0,), lambda q, j, k0=k0: z3.Implies(z3.And(K < ti(j), need), q[k0] >= 1))
            for k0 in env if k0[-2:] == ("#m", m.name)])
        t = M.WireTabs(count=3, width=1, height=1)
        t.wire_tab_ds = PList.of_seq(fseq(n, w.tab))
        t.edge_ranges = to_plist([(V.mk(w.es), V.mk(w.ee))])
        M.WireTabs.wire_d_to_edge_d = staticmethod(lambda v, r: V.mk(w.place(num(v))))
        tr = t.edge_tab_transitions(0)
        if not e.final:
            return          # nothing below has loops: only the last round needs it
        ln = tr.len_term()
        e.cover("in a tab" if inside else "outside")
        e.prove("there is a begin and an end", ln >= 2)
        f, l = tr.at(z3.IntVal(0)), tr.at(z3.simplify(ln - 1))
        e.prove("they begin at the start of the edge", d(f) == 0)
        e.prove("they end at the end of the edge", d(l) == 1)
        # the last transition at or before the place
        j, q = e.fresh_int("j").t, e.fresh_int("q").t
        e.assume(z3.And(0 <= j, j < ln - 1))
        g, h = tr.at(j), tr.at(z3.simplify(j + 1))
        e.prove("they are in order", d(g) <= d(h))
        e.assume(z3.And(d(g) <= X, X < d(h)))
        total = tr.measure_term(m)
        e.prove("there is one for K", z3.Implies(need, total >= 1))
        e.assume(z3.Implies(need, z3.And(0 <= q, q < ln)))
        c = tr.at(q)
        # list lemmas: what is counted in a list is in it; neighbours in order are all in order
        e.assume(z3.Implies(need, m.fn(c) == 1))
        e.assume(z3.Implies(z3.And(need, q <= j), d(c) <= d(g)))
        e.assume(z3.Implies(z3.And(need, q > j), d(h) <= d(c)))
        if inside:
            e.prove("in a tab the tool is raised", tab(g))
        else:
            e.prove("the tool is raised for a tab, or cuts", z3.Or(tab(g), usual(g)))
            e.prove("no transition to a tab comes from nowhere", z3.Implies(tab(g), z3.Exists([k], z3.And(0 <= k, k < n, from_tab(g, k)))))
            e.prove("outside of the tabs the tool is not raised", z3.Not(z3.And(tab(g), from_tab(g, K))))
    return f


REQ = ["the tabs of the wire are disjoint (see tabs of a wire)", "the edge has a length"]
LEM = ["lists: what is counted in a list is in it; neighbours in order are all in order"]
unit("a wire's tabs on an edge, in a tab", TM, must_cover=["in a tab"], replay="wire", requires=REQ, trusts=LEM)(wire_edge(True))
unit("a wire's tabs on an edge, outside", TM, must_cover=["outside"], replay="wire", requires=REQ, trusts=LEM)(wire_edge(False))


PM = ["cq_cam.address", "cq_cam.command", "cq_cam.utils.utils", "cq_cam.operations.tabs", "cq_cam.operations.profile"]


class Way:
    """the wire: edge i is s = i .. i + 1 of it, in its own direction"""
    rev = length = None
    close = None
    REV = None


@reg
class Piece:
    """a piece of the way from place s0 to place s1 (of edge i, or a line), at heights l0 and l1:
    0 is the height of the wire itself, 1 the height of the tabs"""

    def __init__(self, i, s0, l0, s1, l1):
        self.i, self.s0, self.l0, self.s1, self.l1 = i, s0, l0, s1, l1

    @property
    def wrapped(self):
        return Wrapped(self)

    def Length(self):
        return V.mk(Way.length(ti(self.i)))

    def paramAt(self, t):
        return Param(self.i, t)

    def _geomAdaptor(self):
        return Adaptor(self.i)


def at_end(p, first):
    """(s, level) of an end of a piece"""
    return (num(p.s0), num(p.l0)) if first else (num(p.s1), num(p.l1))


class Wrapped:
    def __init__(self, p):
        self.p = p

    def Orientation(self, *a):
        p = self.p
        if a:
            if a[0] is Way.REV:
                s0, s1 = p.s0, p.s1
                R_.setattr_(p, "s0", s1)
                R_.setattr_(p, "s1", s0)
            return None
        return Way.REV if V.eng().decide(Way.rev(ti(p.i))) else None


@reg
class Param:
    def __init__(self, i, t):
        self.i, self.t = i, t


@reg
class Adaptor:
    def __init__(self, i):
        self.i = i

    def Curve(self):
        return self

    def Trsf(self):
        return "trsf"

    def Transformed(self, t):
        return CurveAt(self.i, 0)


@reg
class CurveAt:
    def __init__(self, i, level):
        self.i, self.level = i, level


@reg
class Place:
    def __init__(self, s, l):
        self.s, self.l = s, l

    def same(self, o):
        return Way.close(num(self.s), num(self.l), num(o.s), num(o.l))

    def __eq__(self, o):
        return V.mkbool(self.same(o))

    def __ne__(self, o):
        return V.mkbool(z3.Not(self.same(o)))

    __hash__ = None


class MakeEdge:
    def __init__(self, c, p, q):
        V.eng().prove("a part of an edge is cut from its own curve", z3.And(ti(p.i) == ti(c.i), ti(q.i) == ti(c.i)))
        V.eng().prove("a part of an edge has an extent", num(p.t) < num(q.t))
        self.c, self.p, self.q = c, p, q

    def Edge(self):
        i = ti(self.c.i)
        r = V.eng().decide(Way.rev(i))
        s = [V.mk(z3.simplify(z3.ToReal(i) + (1 - num(p.t) if r else num(p.t)))) for p in (self.p, self.q)]
        return Piece(self.c.i, s[0], self.c.level, s[1], self.c.level)


class CqStub:
    """the contracts of cadquery used here"""

    def __init__(self, e, cq, out):
        self.e, self.out = e, out
        self.Vector = cq.Vector

        class Edge:
            def __new__(cls, x):
                return x

            @staticmethod
            def makeLine(a, b):
                return Piece(-1, a.s, a.l, b.s, b.l)

        class Wire:
            @staticmethod
            def assembleEdges(es):
                out.append(es)
                return Whole(0)
        self.Edge, self.Wire = Edge, Wire

    def Plane(self, o):
        self.e.prove("tabs are at the tab height", z3.And(num(o[0]) == 0, num(o[1]) == 0, num(o[2]) == self.e.tab_z))
        return self

    def toPln(self):
        return self


@reg
class Whole:
    def __init__(self, zmin):
        self.zmin = zmin

    def BoundingBox(self):
        return self


class TabsStub:
    def __init__(self, e, n, w):
        self.e, self.n, self.w = e, n, w
        self.m = e.fresh_func("transitions", IS, IS)
        self.d = e.fresh_func("place", IS, IS, RS)
        self.st = e.fresh_func("state", IS, IS, IS)
        self.loaded = False

    given = 0

    def st_before(self, it):
        return self.e.inputs["before"]

    def load_ordered_edges(self, es):
        self.loaded = True

    def facts(self, i, k):
        m, d, st = self.m, self.d, self.st
        self.e.axiom(z3.And(m(i) >= 2, d(i, 0) == 0, d(i, m(i) - 1) == 1))
        self.e.axiom(z3.Implies(z3.And(k >= 0, k < m(i)), z3.And(0 <= d(i, k), d(i, k) <= 1, 0 <= st(i, k), st(i, k) <= 2)))
        self.e.axiom(z3.Implies(z3.And(k >= 0, k < m(i) - 1), d(i, k) <= d(i, k + 1)))
        self.e.axiom(z3.Implies(z3.And(k >= 1, k < m(i)), d(i, k - 1) <= d(i, k)))

    def edge_tab_transitions(self, i):
        it = ti(i)
        self.e.prove("the tabs know the wire", z3.BoolVal(self.loaded))
        self.facts(it, z3.IntVal(0))
        if it.as_long() < self.given:
            # an edge before the one in question: what came last is at its own height, or in a tab
            e, m = self.e, self.m
            e.assume(z3.And(m(it) == 2, self.st(it, 1) == 0, self.st(it, 0) == pick(e, "before", [0, 1])))
            return to_plist([(0, self.st_before(it)), (1, 0)])

        def el(k):
            self.facts(it, k)
            return V.mk(self.d(it, k)), V.mk(self.st(it, k))
        return PList.of_seq(fseq(self.m(it), el))


class WireTabsStub(TabsStub):
    wire = False

    def load_wire(self, w):
        self.wire = True

    def load_ordered_edges(self, es):
        self.e.prove("the tabs of a wire know its length first", z3.BoolVal(self.wire))
        self.loaded = True


def apply(P, edges=1):
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    M = P["cq_cam.operations.profile"]
    Way.rev = e.fresh_func("reversed", IS, BS)
    Way.length = e.fresh_func("length", IS, RS)
    Way.close = e.fresh_func("close", RS, RS, RS, RS, BS)
    Way.REV = M.TopAbs_REVERSED
    M.Transition = P["cq_cam.operations.tabs"].Transition = States
    n = z3.IntVal(edges)
    zmin, tz = R(e, "floor"), R(e, "tab_height")
    e.tab_z = num(tz)
    out = []
    M.cq = CqStub(e, M.cq, out)
    M.GeomProjLib = type("G", (), {"ProjectOnPlane_s": staticmethod(lambda c, p, v, keep: CurveAt(c.i, 1))})
    M.Geom_Plane = lambda p: p
    M.BRepBuilderAPI_MakeEdge = MakeEdge

    def edge(i):
        e.axiom(Way.length(i) > 0)
        return Piece(V.mk(i), V.mk(z3.ToReal(i)), 0, V.mk(z3.ToReal(i) + 1), 0)
    M.wire_to_ordered_edges = lambda w: to_plist([edge(z3.IntVal(i)) for i in range(edges)])

    def place(p, first):
        s, l = at_end(p, first)
        return Place(V.mk(z3.simplify(s)), V.mk(z3.simplify(l)))
    M.edge_start_point = lambda p: place(p, True)
    M.edge_end_point = lambda p: place(p, False)
    tabs = WireTabsStub(e, n, True)
    tabs.given = edges - 1
    I_, K = z3.IntVal(edges - 1), e.fresh_int("K").t
    e.assume(0 <= K)
    tabs.facts(I_, K)
    e.assume(K < tabs.m(I_) - 1)
    joined = AdjPred("they are joined", lambda p, q: (lambda a, b: z3.Or(z3.And(a[0] == b[0], a[1] == b[1]), Way.close(a[0], a[1], b[0], b[1])))(
        at_end(p, False), at_end(q, True)))
    order = AdjPred("they are in order", lambda p, q: at_end(p, False)[0] <= at_end(q, True)[0])
    fwd = Pred("they lead along the wire", lambda p: at_end(p, True)[0] <= at_end(p, False)[0])
    e.adjs += [joined, order]
    e.preds += [fwd]

    def universal(e, pl, want_all):
        """what holds of all elements holds of element K"""
        if e.decide(K < pl.len_term()) and bool(pl.at(K)) != want_all:
            raise V.PathAbort()
    e.hooks["quant_all"] = universal
    # from transition K of edge I to the next one
    dK, dL, sK = tabs.d(I_, K), tabs.d(I_, K + 1), tabs.st(I_, K)
    long_ = (dL - dK) * Way.length(I_) > z3.RealVal("1e-7")
    part = Measure("part", lambda p: z3.If(z3.And(ti(p.i) == I_, num(p.s0) == I_ + dK, num(p.s1) == I_ + dL, num(p.l0) == num(p.l1),
                                                  num(p.l0) == z3.If(sK == 1, 1, 0)), z3.IntVal(1), z3.IntVal(0)))
    whole = Measure("whole", lambda p: z3.If(z3.And(ti(p.i) == I_, num(p.s0) == I_, num(p.s1) == I_ + 1, num(p.l0) == 0,
                                                    num(p.l1) == 0), z3.IntVal(1), z3.IntVal(0)))
    part.nonneg = whole.nonneg = True
    e.measures += [part, whole]
    e.loop_hints.append(lambda e, loop, env, i: [
        ("custom", "part K %s" % (k0,), lambda q, k, k0=k0: z3.Implies(z3.And(K < ti(k), long_), q[k0] >= 1))
        for k0 in env if k0[-2:] == ("#m", "part")])
    e.loop_hints.append(lambda e, loop, env, i: [
        ("custom", "so far %s %d" % (k0, j), lambda q, k, k0=k0, j=j: q[k0] <= j + tabs.d(j, ti(k)))
        for k0 in env if k0[-1] == ".s1" and env[k0].sort() == RS for j in range(edges)])
    if edges > 1:
        e.assume(z3.Not(Way.rev(0)))

        def begin(q, k0):
            s, l, b = q[k0], num(V.mk(q[k0[:-1] + (".l0",)])), z3.RealVal(e.inputs["before"])
            return z3.And(1 <= s, z3.Or(z3.And(s == 1, l == b), Way.close(1, b, s, l)))
        e.loop_hints.append(lambda e, loop, env, i: [
            ("custom", "begin %s" % (k0,), lambda q, k, k0=k0: begin(q, k0))
            for k0 in env if k0[-2:] == ("#first", ".s0") and k0[:-1] + (".l0",) in env])
    w = Whole(zmin)
    r = M.apply_tabs(w, tz, tabs)
    if not e.final:
        return
    if not out:
        e.cover("above")
        e.prove("only a wire at the tab height has no tabs", z3.And(z3.BoolVal(r is w), num(zmin) >= num(tz) - z3.RealVal("1e-6")))
        return
    e.cover("tabs")
    prove_list(e, "pieces", out[0], joined, order, fwd)
    e.prove("every part is there, at the tab height if a tab, else at its own", z3.Implies(long_, z3.Or(
        out[0].measure_term(part) >= 1, z3.And(sK == 0, out[0].measure_term(whole) >= 1))))


for _n in (1,):
    unit("tabs are put into a wire of %d edge%s" % (_n, "s" * (_n > 1)), PM, must_cover=["tabs", "above"], replay="profile",
         bounded="wires of one edge, with any number of transitions on it",
         trusts=["OCC: edges made of a part of a curve, projected curves, Vector equality within a tolerance, assembleEdges of joined edges"],
         requires=["the transitions of an edge are in order, from 0 to 1"])(lambda P, n=_n: apply(P, n))
