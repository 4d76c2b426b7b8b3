"""C20: zigzag clearing covers each scan line once and stays inside."""
import z3
from pydv import values as V, runtime as R_
from pydv.stubs import reg
from .base import *
from .routes import IS, RS, BS, prove_list

UNITS = []
unit = units(UNITS)
LISTS = ["list.pop, list.remove, in, on a list without repetitions (python)"]


def ti(v):
    return V.term_of(v) if not isinstance(v, z3.ExprRef) else v


def mkn(v):
    return V.mk(z3.simplify(ti(v)))


def asb(v):
    return V.bterm(v)


@reg
class Sp:
    """a point: 2 s and 2 s + 1 are the ends of scan line s, other numbers are corners of the boundary;
    by says how it got into the path: 1 as the end of a scan line, 0 along the boundary, or as a beginning"""
    xy = None

    def __init__(self, id, by):
        self.id, self.by = id, by

    def __eq__(self, o):
        return V.mkbool(ti(self.id) == ti(o.id)) if isinstance(o, Sp) else False

    def __ne__(self, o):
        return V.mkbool(ti(self.id) != ti(o.id)) if isinstance(o, Sp) else True

    __hash__ = None

    def __getitem__(self, i):
        return V.mk(Sp.xy(z3.IntVal(V.term_of(i).as_long()), ti(self.id)))


@reg
class Ghost:
    """what is so for scan line K: is it still to do; is its first, its second end free"""

    def __init__(self):
        self.left, self.a, self.b = True, True, True


class World:
    """the contracts of the scan lines and of the linked polygons, for scan line K"""

    def __init__(self, e):
        self.e = e
        self.N = e.fresh_int("lines").t
        self.K = e.fresh_int("K").t
        e.assume(z3.And(self.N >= 1, self.K >= 0, self.K < self.N))
        self.step = e.fresh_func("along_boundary", IS, IS, BS)
        Sp.xy = e.fresh_func("coordinate", IS, IS, RS)
        self.g = Ghost()
        self.first = self.cut = None

    def end(self, id, a, b):
        """the value for point id: a at the first end of K, b at the second, anything elsewhere"""
        other = self.e.fresh_bool("other").t
        return z3.If(id == 2 * self.K, asb(a), z3.If(id == 2 * self.K + 1, asb(b), other))

    def take(self, id, label):
        """the point is free, and then no more"""
        e, g = self.e, self.g
        e.prove(label, z3.And(z3.Implies(id == 2 * self.K, asb(g.a)), z3.Implies(id == 2 * self.K + 1, asb(g.b))))
        R_.setattr_(g, "a", V.mkbool(z3.simplify(z3.And(asb(g.a), id != 2 * self.K))))
        R_.setattr_(g, "b", V.mkbool(z3.simplify(z3.And(asb(g.b), id != 2 * self.K + 1))))

    def ends(self, line, by):
        """the two ends of a scan line, in any order"""
        o = self.e.fresh_int("first_end").t
        self.e.assume(z3.And(o >= 0, o <= 1))
        return (Sp(mkn(2 * line + o), by), Sp(mkn(2 * line + 1 - o), by))


W = None


@reg
class Lines:
    """the scan lines left to do"""

    def __init__(self, n):
        self.n = n

    def aslist(self):
        return self

    def __bool__(self):
        return W.e.decide(ti(self.n) > 0)

    def gone(self, line):
        e, g = W.e, W.g
        R_.setattr_(g, "left", V.mkbool(z3.simplify(z3.And(asb(g.left), line != W.K))))
        R_.setattr_(self, "n", mkn(ti(self.n) - 1))
        e.assume(z3.Implies(asb(g.left), ti(self.n) >= 1))

    def pop(self, i):
        e = W.e
        e.prove("there is a scan line left to take", ti(self.n) >= 1)
        line = e.fresh_int("line").t
        if W.first is None:
            W.first = line
        e.assume(z3.And(line >= 0, line < W.N, z3.Implies(line == W.K, asb(W.g.left))))
        self.gone(line)
        return W.ends(line, 1)

    def remove(self, pair):
        line = z3.simplify(ti(pair[0].id) / 2)
        W.e.prove("a scan line that is taken is still to do", z3.Implies(line == W.K, asb(W.g.left)))
        self.gone(line)


@reg
class Poly:
    def reset(self):
        pass

    def drop(self, p):
        W.take(ti(p.id), "the beginning of a sequence is free")
        if W.cut is None:
            W.cut = 4 * W.first + 1 - ti(p.id)
        R_.setattr_(p, "by", 0)

    def nearest_linked(self, p):
        e, g = W.e, W.g
        W.take(ti(p.id), "the end of a scan line is free when it is reached")
        if e.decide(e.fresh_bool("alone").t):
            return None
        n = e.fresh_int("corners").t
        f = e.fresh_func("corner", IS, IS)
        e.assume(n >= 1)
        q = f(n - 1)
        e.assume(z3.And(q >= 0, q < 2 * W.N, q != ti(p.id), W.step(ti(p.id), f(z3.IntVal(0)))))
        e.assume(z3.And(z3.Implies(q == 2 * W.K, asb(g.a)), z3.Implies(q == 2 * W.K + 1, asb(g.b))))
        W.take(q, "taken at once")
        return PList.of_seq(fseq(n, lambda i: Sp(V.mk(f(i)), 0), adj={W.adj: True}, meas={W.vis: z3.IntVal(0)}))


class Lookup:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, p):
        return self.f(p)


@unit("every scan line is passed once, between them only the boundary is followed",
      ["cq_cam.operations.strategy"], must_cover=["routed"], replay="zigzag", trusts=LISTS,
      requires=["there is a scan line", "the two maps lead from the ends of a scan line to the scan line and to its polygon"])
def route(P):
    global W
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    e.split_ends = True
    M = P["cq_cam.operations.strategy"]
    W = w = World(e)
    K = w.K

    def visits(x):
        if not isinstance(x, Sp):
            return None
        return z3.If(z3.And(ti(x.by) == 1, z3.Or(ti(x.id) == 2 * K, ti(x.id) == 2 * K + 1)), z3.IntVal(1), z3.IntVal(0))

    def moved(a, b):
        if not isinstance(a, Sp) or not isinstance(b, Sp):
            return None
        i, j = ti(a.id), ti(b.id)
        across = z3.And(i / 2 == j / 2, i != j, j >= 0, j < 2 * w.N)
        return z3.If(ti(b.by) == 1, across, w.step(i, j))
    step = AdjPred("a step", moved)

    def whole(L):
        if not isinstance(L, PList):
            return None
        f = L.first_last("first")
        g = L.adj_formula(step)
        if not isinstance(f, Sp) or g is None:
            return None
        return z3.And(bterm(g), ti(f.by) == 0)
    seq = Pred("a sequence: scan lines and parts of the boundary, from the beginning of a scan line", whole)
    seq.whole, seq.step = True, step
    vis = Measure("visits", visits)
    e.measures += [vis]
    w.adj, w.vis = step, vis
    e.preds += [seq]
    e.adjs += [step]

    def hint(e2, loop, env, i):
        out = []
        lf, a, b, n = [next((p for p in env if p[-1] == k and p[0] == "@"), None) for k in ("left", "a", "b", "n")]

        def c(name, fn, *ps):
            if None not in ps:
                out.append(("custom", f"{name} {ps}", lambda en, i: None if any(p not in en for p in ps)
                            else fn(*[en[p] for p in ps])))
        one = z3.IntVal(1)
        c("both ends of what is left are free", lambda l, x, y, k: z3.Implies(l, z3.And(x, y, k >= 1)), lf, a, b, n)
        for p in env:
            if p[-1] == ".id" and len(p) == 2:
                c("of what is done, only the end reached is free", lambda l, x, y, q: z3.And(
                    q >= 0, q < 2 * W.N, z3.Implies(l, z3.And(q != 2 * W.K, q != 2 * W.K + 1)), z3.Implies(z3.Not(l), z3.And(x == (q == 2 * W.K), y == (q == 2 * W.K + 1)))),
                  lf, a, b, p)
            if p[-2:] == ("#first", ".id") and len(p) == 4:
                c("along the boundary from the first line", lambda x: W.step(W.cut, x), p)
            if p[-1] == ".by":
                c("how it came here", lambda x: x == 0, p)
        ms = [p for p in env if p[-2:] == ("#m", "visits") and len(p) < 5]
        for k, p in enumerate(ms):
            for q in ms[k:]:
                for off in (False, True):
                    c(f"passed when it is done {off}", lambda l, x, y, off=off, p=p, q=q: x + (y if p != q else 0) + (
                        z3.If(W.first == W.K, 1, 0) if off else 0) == z3.If(l, 0, one), lf, p, q)
        return out
    e.loop_hints.append(hint)
    lines = Lines(V.mk(w.N))
    m = e.fresh_int("polygons").t
    e.assume(m >= 0)
    r = M.ZigZagStrategy._route_zig_zag(PList.of_seq(fseq(m, lambda j: Poly())), lines, Lookup(lambda p: Poly()),
                                        Lookup(lambda p: w.ends(z3.simplify(ti(p.id) / 2), 1)))
    e.cover("routed")
    e.prove("passed exactly once", to_plist(r).measure_term(vis) == 1)
    prove_list(e, "moves", to_plist(r), seq)


@reg
class Pt:
    """corner h of a polygon"""

    def __init__(self, h):
        self.h = h

    def __eq_formula__(self, o):
        return ti(self.h) == ti(o.h) if isinstance(o, Pt) else z3.BoolVal(False)

    def __eq__(self, o):
        return V.mkbool(ti(self.h) == ti(o.h)) if isinstance(o, Pt) else False

    def __ne__(self, o):
        return V.mkbool(ti(self.h) != ti(o.h)) if isinstance(o, Pt) else True

    __hash__ = None


@reg
class Free:
    """the linked points that were not used yet: those that were free, without the ones taken since"""
    free = None

    def __init__(self):
        self.gone, self.gone2 = -1, -1

    def has(self, h):
        return z3.And(Free.free(h), h != ti(self.gone), h != ti(self.gone2))

    def remove(self, p):
        e = V.eng()
        e.prove("only a linked point that was not used yet is used", self.has(ti(p.h)))
        if ti(self.gone).eq(z3.IntVal(-1)):
            R_.setattr_(self, "gone", p.h)
        else:
            R_.setattr_(self, "gone2", p.h)

    def __contains__(self, p):
        return V.eng().decide(self.has(ti(p.h)))

    def __bool__(self):
        e = V.eng()
        if e.decide(e.fresh_bool("some_left").t):
            Free.w = e.fresh_int("other").t
            e.assume(z3.And(Free.w >= 0, Free.w < Free.n, self.has(Free.w)))
            return True
        return False


@unit("from a linked point the boundary is followed, either way, to the next one that was not used yet",
      ["cq_cam.utils.linked_polygon"], must_cover=["path", "none left"], replay="linked", trusts=LISTS,
      requires=["no corner is repeated", "the linked points are corners", "the point is linked and was not used yet"])
def nearest_linked(P):
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    e.split_ends = True
    M = P["cq_cam.utils.linked_polygon"]
    n, h0 = e.fresh_int("corners").t, e.fresh_int("point").t
    e.assume(z3.And(h0 >= 0, h0 < n))
    Free.n = n
    Free.free = e.fresh_func("free", IS, BS)
    e.assume(Free.free(h0))
    dist = e.fresh_func("dist", IS, IS, RS)
    M.cached_dist2 = lambda p, q: V.mk(dist(ti(p.h), ti(q.h)))
    poly = PList.of_seq(fseq(n, lambda j: Pt(mkn(j))))
    here = poly.at(h0)
    lp = M.LinkedPolygon(poly)
    left = Free()
    R_.setattr_(lp, "_linked_points", left)

    def free(h):
        return z3.And(Free.free(h), h != h0)

    def up(h):
        return z3.If(h + 1 == n, 0, h + 1)

    def way(step):
        return lambda a, b: z3.And(step(ti(a.h), ti(b.h)), z3.Not(free(ti(a.h)))) \
            if isinstance(a, Pt) and isinstance(b, Pt) else None
    fwd = AdjPred("forward along the boundary", way(lambda a, b: b == up(a)))
    bwd = AdjPred("backward along the boundary", way(lambda a, b: a == up(b)))
    e.adjs += [fwd, bwd]

    def hint(e2, loop, env, i):
        out = [("custom", f"not passed {k}", lambda en, i, f=f: z3.Implies(i > f(), z3.Not(free(Free.w))))
               for k, f in enumerate((lambda: fpos(), lambda: n - 2 - fpos()))]
        for p in env:
            if p[-1] == ".h":
                for name, g in (("first ahead", lambda x: x == up(h0)), ("first behind", lambda x: up(x) == h0)):
                    out.append(("custom", f"{name} {p}", lambda en, i, p=p, g=g: None if p not in en else g(en[p])))
                for name, g in (("ahead", lambda i: z3.If(h0 + i >= n, h0 + i - n, h0 + i)),
                                ("behind", lambda i: z3.If(h0 - i < 0, h0 - i + n, h0 - i))):
                    out.append(("custom", f"so far {name} {p}", lambda en, i, p=p, g=g:
                                None if p not in en else en[p] == g(i)))
                out.append(("custom", f"used {p}", lambda en, i, p=p: None if p not in en else z3.Not(free(en[p]))))
        return out

    def fpos():
        return z3.If(Free.w > h0, Free.w - h0 - 1, n - h0 - 1 + Free.w)
    e.loop_hints.append(hint)
    r = lp.nearest_linked(here)
    if r is None:
        e.cover("none left")
        return
    e.cover("path")
    L = to_plist(r)
    a, b = L.first_last("first"), L.first_last("last")
    e.prove("leads to a free point", free(ti(b.h)))
    f, g = L.adj_formula(fwd), L.adj_formula(bwd)
    e.prove("follows the boundary one way, past no free point", z3.Or(
        z3.And(ti(a.h) == up(h0), V.bterm(f) if f is not None else False),
        z3.And(up(ti(a.h)) == h0, V.bterm(g) if g is not None else False)))
    e.prove("the points used are taken", z3.And(ti(left.gone) == h0, ti(left.gone2) == ti(b.h)))


@unit("a point that is linked is put into the boundary where it lies, between its neighbours on the segment",
      ["cq_cam.utils.linked_polygon"], must_cover=["linked"], replay="linked", trusts=LISTS + ["list.sort is stable (python)"],
      requires=["no corner is repeated", "the point is not linked yet and no corner",
                "what lies between the ends of the segment lies in order of distance from its beginning",
                "a segment that leads back leads to the first corner"])
def link_point(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.utils.linked_polygon"]
    n, s, t = (e.fresh_int(k).t for k in ("corners", "start", "end"))
    e.assume(z3.And(n >= 2, s >= 0, s < n, t >= 0, t < n, z3.Or(t > s, z3.And(t == 0, s > 0))))
    stop = z3.If(t > s, t, n)
    dist, was = e.fresh_func("dist", IS, RS), e.fresh_func("linked", IS, IS)

    def d2(p, q):
        e.prove("distances are those from the beginning of the segment", ti(q.h) == s)
        h = ti(p.h)
        for k in (h - 1, h):
            e.axiom(z3.Implies(z3.And(k > s, k + 1 < stop), dist(k) <= dist(k + 1)))
        return V.mk(dist(h))
    M.cached_dist2 = d2
    poly = PList.of_seq(fseq(n, lambda j: Pt(mkn(j))))
    m = e.fresh_int("linked").t
    e.assume(m >= 0)

    def old(j):
        e.axiom(was(ti(j)) >= 0)
        return Pt(V.mk(was(ti(j))))
    lp = M.LinkedPolygon(poly, PList.of_seq(fseq(m, old)))
    lp.link_point(Pt(-1), poly.at(s), poly.at(t))
    e.cover("linked")
    L, new = to_plist(lp.polygon), to_plist(lp.linked_points)
    N = L.len_term()
    e.prove("one point more", N == n + 1)
    K, at = e.fresh_int("K").t, e.fresh_int("at").t
    e.assume(z3.And(at >= 0, at < N))
    e.assume(ti(L.at(at).h) == -1)
    e.prove("within the segment", z3.And(at > s, at <= stop))
    e.assume(z3.And(K >= 0, K < N))
    e.prove("the rest as it was", ti(L.at(K).h) == z3.If(K < at, K, z3.If(K == at, -1, K - 1)))
    for h in (at - 1, at):
        d2(Pt(V.mk(z3.simplify(h))), Pt(V.mk(s)))
    e.prove("nothing before it lies farther", z3.Implies(at - 1 > s, dist(at - 1) <= dist(z3.IntVal(-1))))
    e.prove("nothing behind it lies nearer", z3.Implies(at < stop, dist(z3.IntVal(-1)) <= dist(at)))
    e.prove("it is linked now", z3.And(new.len_term() == m + 1, ti(new.first_last("last").h) == -1))
    j = e.fresh_int("j").t
    e.assume(z3.And(j >= 0, j < m))
    e.prove("what was linked still is", ti(new.at(j).h) == was(j))


@unit("the linked points become free again, those that are used or dropped are no longer free, all stay linked",
      ["cq_cam.utils.linked_polygon"], must_cover=["all", "but one"], replay="linked", trusts=LISTS,
      requires=["no point is linked twice", "the points used or dropped are free"])
def free_points(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.utils.linked_polygon"]
    m, K, K2 = (e.fresh_int(k).t for k in ("linked", "K", "K2"))
    was, inv = e.fresh_func("linked", IS, IS), e.fresh_func("place", IS, IS)
    e.assume(z3.And(m >= 0, K >= 0, K < m, K2 >= 0, K2 < m, K != K2))

    def at(j):
        j = ti(j)
        e.axiom(z3.Implies(z3.And(j >= 0, j < m), inv(was(j)) == j))
        return Pt(mkn(was(j)))
    points = PList.of_seq(fseq(m, at))
    a, b = points.at(K), points.at(K2)
    lp = M.LinkedPolygon(PList([]), points, PList([]))

    def check(gone):
        L, old = to_plist(lp._linked_points), to_plist(lp.linked_points)
        j, i = e.fresh_int("j").t, e.fresh_int("i").t
        e.assume(z3.And(j >= 0, j < m, i >= 0, i < L.len_term()))
        e.prove("all stay linked", z3.And(old.len_term() == m, ti(old.at(j).h) == was(j)))
        e.prove("as many are free", L.len_term() == m - len(gone))
        h = ti(L.at(i).h)
        e.prove("a free point is linked, and it was not taken", z3.And(
            was(inv(h)) == h, *[h != ti(g.h) for g in gone]))
        k, k1 = e.fresh_int("k").t, z3.If(K < K2, K, K2)
        e.assume(z3.And(k >= 0, k < m, *[k != z for z in (K, K2)[:len(gone)]]))
        w = k - z3.Sum([z3.IntVal(0)] + [z3.If(k > z, 1, 0) for z in (K, K2)[:len(gone)]])
        e.prove("the others are free", ti(L.at(z3.simplify(w)).h) == was(k))
    if e.decide(e.fresh_bool("beginning").t):
        e.cover("but one")
        lp.reset(a)
        check([a])
        lp.drop(b)
        check([a, b])
    else:
        e.cover("all")
        lp.reset()
        check([])
        lp.drop(a)
        check([a])


@reg
class Map:
    """a dictionary, as far as point q is concerned"""
    q = what = None

    def __init__(self):
        self.val = -1

    def __setitem__(self, k, v):
        R_.setattr_(self, "val", V.mk(z3.simplify(z3.If(ti(k.id) == Map.q, Map.what(v), ti(self.val)))))


@unit("the ends of every scan line lead to it", ["cq_cam.operations.strategy"], must_cover=["mapped"], replay="zigzag",
      requires=["no two scan lines share an end"], trusts=LISTS)
def ends(P):
    global W
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    e.split_ends = True
    M = P["cq_cam.operations.strategy"]
    W = w = World(e)
    o = e.fresh_func("first_end", IS, IS)
    Map.q = z3.simplify(2 * w.K + (1 if e.decide(e.fresh_bool("second").t) else 0))
    Map.what = lambda v: z3.simplify(ti(v[0].id) / 2)
    e.hooks["new_dict"] = Map
    e.skolem_idx.append(w.K)

    def line(j):
        j = ti(j)
        e.axiom(z3.And(o(j) >= 0, o(j) <= 1))
        return (Sp(mkn(2 * j + o(j)), 0), Sp(mkn(2 * j + 1 - o(j)), 0))
    times = Measure("times", lambda x: z3.If(ti(x.id) == Map.q, z3.IntVal(1), z3.IntVal(0)) if isinstance(x, Sp) else None)
    e.measures += [times]

    def hint(e2, loop, env, i):
        return [("custom", f"line K {p}", lambda en, i, p=p: None if p not in en else en[p] == z3.If(i > W.K, W.K, -1))
                for p in env if p[-1] == "val"]
    e.loop_hints.append(hint)
    r = M.ZigZagStrategy._scanline_end_map(PList.of_seq(fseq(w.N, line)))
    e.cover("mapped")
    e.prove("the end leads to its scan line", ti(r[0].val) == w.K)
    e.prove("every end is listed once", to_plist(r[1]).measure_term(times) == 1)


@reg
class Corner:
    """corner h of boundary b"""

    def __init__(self, b, h):
        self.b, self.h = b, h


@reg
class Links:
    """how often scan point q was linked, to which boundary, and whether it is still to be linked"""

    def __init__(self):
        self.left, self.times, self.to = True, 0, -1


class Reg:
    e = g = q = pos = dist = None


@reg
class Points:
    """the scan points not yet linked"""

    def __getitem__(self, s):
        return Points()

    def asloop(self):
        e, g = Reg.e, Reg.g
        m, f, pos = e.fresh_int("points").t, e.fresh_func("point", IS, IS), e.fresh_int("place").t
        had = asb(g.left)
        e.assume(z3.And(m >= 0, z3.Implies(had, z3.And(pos >= 0, pos < m, f(pos) == Reg.q))))

        def at(j):
            j = ti(j)
            e.axiom(z3.Implies(f(j) == Reg.q, z3.And(had, j == pos)))
            return Sp(V.mk(f(j)), 0)
        s = fseq(m, at)
        s.pos, s.had = pos, had
        return PList.of_seq(s)

    def remove(self, p):
        e, g = Reg.e, Reg.g
        e.prove("a scan point that is linked was still to be linked", z3.Implies(ti(p.id) == Reg.q, asb(g.left)))
        R_.setattr_(g, "left", V.mkbool(z3.simplify(z3.And(asb(g.left), ti(p.id) != Reg.q))))

    def __bool__(self):
        Reg.e.prove("every scan point on the boundary is linked", z3.Not(asb(Reg.g.left)))
        return False


@reg
class Linked:
    """the contract of LinkedPolygon"""

    def __init__(self, polygon):
        self.b = to_plist(polygon).at(z3.IntVal(0)).b

    def link_point(self, p, a, b):
        e, g = Reg.e, Reg.g
        is_q = ti(p.id) == Reg.q
        e.prove("linked where it lies, within tolerance", z3.And(
            ti(a.b) == ti(self.b), ti(b.b) == ti(self.b), Reg.dist(ti(p.id), ti(a.b), ti(a.h)) < z3.RealVal("1e-7") + 0))
        R_.setattr_(g, "times", V.mk(z3.simplify(ti(g.times) + z3.If(is_q, 1, 0))))
        R_.setattr_(g, "to", V.mk(z3.simplify(z3.If(is_q, ti(self.b), ti(g.to)))))


@unit("every scan point is linked once, to the boundary it lies on", ["cq_cam.operations.strategy"],
      must_cover=["linked"], replay="zigzag", trusts=LISTS + ["dist_to_segment_squared is a function of the point and the segment"],
      requires=["every scan point lies on a segment of a boundary, within tolerance", "boundaries have corners"])
def link(P):
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    e.split_ends = True
    e.refresh = True
    M = P["cq_cam.operations.strategy"]
    Reg.e, Reg.g = e, Links()
    Reg.q = q = e.fresh_int("q").t
    Reg.dist = dist = e.fresh_func("dist", IS, IS, IS, RS)
    nb, size = e.fresh_int("boundaries").t, e.fresh_func("corners", IS, IS)
    B0, S0 = e.fresh_int("its_boundary").t, e.fresh_int("its_segment").t
    e.assume(z3.And(B0 >= 0, B0 < nb, S0 >= 0, S0 < size(B0), dist(q, B0, S0) < z3.RealVal("1e-7")))

    def boundary(b):
        b = ti(b)
        e.axiom(size(b) >= 1)
        return PList.of_seq(fseq(size(b), lambda h: Corner(V.mk(b), mkn(h))))

    def d2(p, a, c):
        b, h = ti(a.b), ti(a.h)
        e.prove("the segments are those of the boundary, the last one leads back to its beginning", z3.And(
            ti(c.b) == b, ti(c.h) == z3.If(h + 1 == size(b), 0, h + 1)))
        return (V.mk(dist(ti(p.id), b, h)), None)
    M.dist_to_segment_squared = d2
    M.LinkedPolygon = Linked
    Map.q = q
    Map.what = lambda v: ti(v.b)
    e.hooks["new_dict"] = Map
    order = AdjPred("in order", lambda a, b: ti(b.b) == ti(a.b) + 1 if isinstance(a, Linked) and isinstance(b, Linked) else None)
    e.adjs += [order]

    def now(cls):
        for v in e.items_now.values():
            if cls is Corner and isinstance(v, tuple) and isinstance(v[0], Corner):
                return v[0]
        return None

    def hint(e2, loop, env, i):
        left, times, to, val = [next((p for p in env if p[0] == "@" and p[-1] == k), None)
                                for k in ("left", "times", "to", "val")]
        out = []

        def c(name, fn, *ps):
            if None not in ps:
                out.append(("customl", f"{name} {ps}", lambda lp, en, i: None if any(p not in en for p in ps)
                            else fn(lp, i, *[en[p] for p in ps])))
        c("linked once when done", lambda lp, i, l, t: t == z3.If(l, 0, 1), left, times)
        c("known where", lambda lp, i, l, t, v: z3.Implies(z3.Not(l), v == t), left, to, val)

        def sq(lp):
            return lp.seq.chunks[0].seq if isinstance(lp.seq, PList) and lp.seq.chunks and not isinstance(
                lp.seq.chunks[0], list) else None

        def points(lp, i, l):
            s = sq(lp)
            if not hasattr(s, "pos"):
                return None
            k = now(Corner)
            return z3.And(z3.Implies(s.had, z3.Or(l, i > s.pos)), z3.Implies(l, s.had),
                          z3.Implies(z3.And(s.had, i > s.pos, dist(q, ti(k.b), ti(k.h)) < z3.RealVal("1e-7")), z3.Not(l)))
        c("points", points, left)

        def segments(lp, i, l):
            x = sq(lp)
            if x is None or x.kind != "pairwise":
                return None
            b = ti(lp.seq.at(z3.IntVal(0))[0].b)
            return z3.And(z3.Implies(z3.And(b == B0, i > S0), z3.Not(l)), z3.Implies(b > B0, z3.Not(l)))
        c("segments", segments, left)
        c("boundaries", lambda lp, i, l: z3.Implies(i > B0, z3.Not(l)), left)
        for p in env:
            if p[-1] == ".b":
                out.append(("custom", f"number {p}", lambda en, i, p=p: None if p not in en else en[p] == i - 1))
                out.append(("custom", f"number one {p}", lambda en, i, p=p: None if p not in en else en[p] == 0))
        return out
    e.loop_hints.append(hint)
    r = M.ZigZagStrategy._link_scanpoints_to_boundaries(Points(), PList.of_seq(fseq(nb, boundary)))
    e.cover("linked")
    g = Reg.g
    e.prove("linked once", ti(g.times) == 1)
    e.prove("its boundary is found again", ti(r[1].val) == ti(g.to))
    L = to_plist(r[0])
    e.prove("one linked polygon for each boundary", z3.And(L.len_term() == nb, ti(L.first_last("first").b) == 0))
    prove_list(e, "the linked polygons", L, order)


@reg
class Ring:
    """boundary j of the region, a wire or (flat) a polygon"""

    def __init__(self, j, flat=0):
        self.j, self.flat = j, flat


class _Wire(type):
    def __instancecheck__(cls, x):
        if not isinstance(x, Ring):
            return False
        return V.eng().decide(cls.is_wire(ti(x.j)))


class WireLike(metaclass=_Wire):
    is_wire = None


@reg
class Count:
    """what the clipper was given; the code under contract cannot read it"""
    ghost = True

    def __init__(self):
        self.clipped, self.lines = 0, 0


class Clip:
    """the clipper, as far as boundary K and the scan lines are concerned"""
    g = K = box = done = line = None

    def __init__(self):
        if Clip.done is not None:
            V.eng().fail("one clipper", "made again")
        Clip.done = False

    def hit(self, j, closed):
        g = Clip.g
        if Clip.done:
            V.eng().fail("the boundaries are all there when the scan lines are clipped", "late")
        R_.setattr_(g, "clipped", V.mk(z3.simplify(ti(g.clipped) + z3.If(ti(j) == Clip.K, 1, 0))))

    def add_clip_wire(self, w, cache=True):
        e = V.eng()
        e.prove("a wire is added as a wire", WireLike.is_wire(ti(w.j)))
        self.hit(w.j, True)
        return Ring(w.j, 1)

    def add_clip_polygon(self, p, is_closed=False, cache=False):
        e = V.eng()
        e.prove("a polygon is added as a closed polygon", z3.And(z3.Not(WireLike.is_wire(ti(p.j))), asb(is_closed)))
        self.hit(p.j, True)

    def max_bounds(self):
        V.eng().prove("the bounds are those of the whole region", ti(Clip.g.clipped) == 1)
        return R_.D(*Clip.box.items())

    def add_subject_polygon(self, line, is_closed=False):
        e, g = V.eng(), Clip.g
        if Clip.done:
            e.fail("the scan lines are all there when they are clipped", "late")
        a, b = line[0], line[1]
        (ax, ay), (bx, by) = (a[0], a[1]), (b[0], b[1])
        x0, x1 = num(Clip.box["left"]), num(Clip.box["right"])
        e.prove("a scan line spans the region, a step above the one before", z3.And(
            num(ay) == Clip.line(ti(g.lines)), num(by) == num(ay), z3.Or(
                z3.And(num(ax) == x0, num(bx) == x1), z3.And(num(ax) == x1, num(bx) == x0)), z3.Not(asb(is_closed))))
        R_.setattr_(g, "lines", V.mk(z3.simplify(ti(g.lines) + 1)))

    def execute(self, *a):
        e, g = V.eng(), Clip.g
        Clip.done = True
        e.prove("every boundary is clipped once", ti(g.clipped) == 1)
        e.prove("the scan lines cover the region", z3.And(
            Clip.line(ti(g.lines)) >= num(Clip.box["top"]), Clip.line(ti(g.lines) - 1) < num(Clip.box["top"])))
        return "the scan lines inside"


@unit("scan lines a step apart cover the region, are clipped by every boundary and routed along them",
      ["cq_cam.operations.strategy"], must_cover=["routed"], replay="zigzag", trusts=LISTS + [
          "pyclipper clips scan lines by the boundaries added", "numpy.arange: start + i * step, below the end"],
      requires=["the region has some extent", "the step-over is positive"])
def process(P):
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    M = P["cq_cam.operations.strategy"]
    no, ni = e.fresh_int("outer").t, e.fresh_int("inner").t
    K = e.fresh_int("boundary").t
    e.assume(z3.And(no >= 0, ni >= 0, K >= 0, K < no + ni))
    e.skolem_idx += [K, z3.simplify(K - no)]
    WireLike.is_wire = e.fresh_func("is_wire", IS, BS)
    Clip.g, Clip.K, Clip.done = Count(), K, None
    x0, x1, y0, y1 = [R(e, k) for k in ("left", "right", "bottom", "top")]
    e.assume(z3.And(num(x0) < num(x1), num(y0) < num(y1)))
    Clip.box = {"left": x0, "top": y1, "right": x1, "bottom": y0}
    d, so = R(e, "diameter", gt=0), R(e, "stepover", gt=0)
    step = z3.simplify(num(d) * num(so))
    e.axiom(step > 0)
    Clip.line = lambda k: num(y0) + z3.ToReal(k) * step
    task = type("Task", (), {})()
    task._tool_diameter, task.stepover = d, so
    M.WireClipper = Clip
    M.cq.Wire = WireLike
    cls = M.ZigZagStrategy

    def end_map(lines):
        if lines != "the scan lines inside":
            e.fail("the scan lines inside the region are linked", str(lines)[:100])
        return "lines of points", "points"

    def linking(points, boundaries):
        L = to_plist(boundaries)
        if points != "points":
            e.fail("the ends of the scan lines are linked", str(points)[:100])
        e.prove("to all boundaries", z3.And(L.len_term() == no + ni, ti(L.at(z3.IntVal(0)).j) == 0))
        prove_list(e, "the boundaries", L, order, flat)
        return "polygons", "polygons of points"

    def route(polygons, lines, to_polygon, to_line):
        if (polygons, lines, to_polygon, to_line) != ("polygons", "the scan lines inside", "polygons of points", "lines of points"):
            e.fail("the scan lines are routed along the boundaries", "something else")
        return "the path"
    cls._scanline_end_map = staticmethod(end_map)
    cls._link_scanpoints_to_boundaries = staticmethod(linking)
    cls._route_zig_zag = staticmethod(route)

    order = AdjPred("all of them", lambda a, b: ti(b.j) == ti(a.j) + 1 if isinstance(a, Ring) and isinstance(b, Ring) else None)
    flat = Pred("polygons", lambda x: z3.Or(ti(x.flat) == 1, z3.Not(WireLike.is_wire(ti(x.j)))) if isinstance(x, Ring) else None)
    e.adjs.append(order)
    e.preds.append(flat)

    def hint(e2, loop, env, i):
        def jth(lp, en, i, p, k):
            x = lp.seq.at(z3.IntVal(0)) if isinstance(lp.seq, PList) else None
            return en[p] == ti(x.j) + (i - 1 if k else 0) if isinstance(x, Ring) and p in en else None

        def so_far(lp, en, i, p):
            x = lp.seq.at(z3.IntVal(0)) if isinstance(lp.seq, PList) else None
            return en[p] == z3.If(K < ti(x.j) + i, 1, 0) if isinstance(x, Ring) and p in en else None
        return [("customl", f"K or not {p}", lambda lp, en, i, p=p: so_far(lp, en, i, p)) for p in env if p[-1] == "clipped"
                ] + [("customl", f"number {k} {p}", lambda lp, en, i, p=p, k=k: jth(lp, en, i, p, k))
                     for p in env if p[-1] == ".j" for k in (0, 1)]
    e.loop_hints.append(hint)
    r = cls.process(task, PList.of_seq(fseq(no, lambda j: Ring(mkn(j)))),
                    PList.of_seq(fseq(ni, lambda j: Ring(mkn(j + no)))))
    e.cover("routed")
    if r != "the path":
        e.fail("the path is returned", str(r)[:100])
