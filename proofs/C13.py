"""C13: nearest point of a segment and of a polyline."""
import z3
from pydv import values as V
from .base import *

UNITS = []
unit = units(UNITS)
U = ["cq_cam.utils.utils"]
G = ["cq_cam.utils.utils", "cq_cam.utils.geometry_op"]


def d2(a, b):
    return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])


def segment(e, P):
    p = (R(e, "px"), R(e, "py"))
    v = (R(e, "vx"), R(e, "vy"))
    w = (R(e, "wx"), R(e, "wy"))
    return p, v, w, P["cq_cam.utils.utils"].dist_to_segment_squared(p, v, w)


def nn(p):
    return (num(p[0]), num(p[1]))


@unit("nearest point of a segment: distance and membership", U, replay="segment", must_cover=["proper", "point"])
def seg_member(P):
    e = V.eng()
    e.on_exception = no_exception()
    p, v, w, (d, c) = segment(e, P)
    p, v, w, c = nn(p), nn(v), nn(w), nn(c)
    e.prove("the distance is the squared distance to the returned point", num(d) == d2(p, c))
    l2 = d2(v, w)
    if e.decide(l2 == 0):
        e.cover("point")
        e.prove("a zero-length segment is its point", And(c[0] == v[0], c[1] == v[1]))
        return
    e.cover("proper")
    # witness of membership: the parameter of the projection of c
    cross = (c[0] - v[0]) * (w[1] - v[1]) - (c[1] - v[1]) * (w[0] - v[0])
    dot = (c[0] - v[0]) * (w[0] - v[0]) + (c[1] - v[1]) * (w[1] - v[1])
    e.prove("the returned point lies on the segment's line", cross == 0)
    e.prove("the returned point is not before the start", dot >= 0)
    e.prove("the returned point is not after the end", dot <= l2)


@unit("nearest point of a segment: no point of the segment is closer", U, replay="segment", must_cover=["proper"])
def seg_nearest(P):
    e = V.eng()
    e.on_exception = no_exception()
    p, v, w, (d, c) = segment(e, P)
    p, v, w, c = nn(p), nn(v), nn(w), nn(c)
    # case split: before, after, beside the segment
    dot = (p[0] - v[0]) * (w[0] - v[0]) + (p[1] - v[1]) * (w[1] - v[1])
    if not e.decide(dot <= 0):
        e.decide(dot >= d2(v, w))
    e.cover("proper")
    # obtuse angle at c towards both ends; by the lemma below no point is closer
    for name, q in (("start", v), ("end", w)):
        e.prove(f"the way on towards the {name} leads away from the point",
                (p[0] - c[0]) * (q[0] - c[0]) + (p[1] - c[1]) * (q[1] - c[1]) <= 0)


@unit("lemma: obtuse angles towards both ends make a point the nearest", U)
def seg_lemma(P):
    e = V.eng()
    p, v, w, c = [(e.fresh_real("a").t, e.fresh_real("b").t) for _ in range(4)]
    s = e.fresh_real("s").t
    e.assume(z3.And(s >= 0, s <= 1))
    dots = []
    for q in (v, w):
        dots.append(e.fresh_real("d").t)
        e.assume(dots[-1] == (p[0] - c[0]) * (q[0] - c[0]) + (p[1] - c[1]) * (q[1] - c[1]))
        e.assume(dots[-1] <= 0)
    q = (v[0] + s * (w[0] - v[0]), v[1] + s * (w[1] - v[1]))
    m = (p[0] - c[0]) * (q[0] - c[0]) + (p[1] - c[1]) * (q[1] - c[1])
    e.prove("linear in the position", m == (1 - s) * dots[0] + s * dots[1])
    a = e.fresh_real("m").t
    e.prove("a mean of two non-positive numbers", z3.Implies(a == (1 - s) * dots[0] + s * dots[1], a <= 0))
    e.prove("law of cosines", d2(p, q) == d2(p, c) + d2(q, c) - 2 * m)
    x, y = e.fresh_real("x").t, e.fresh_real("y").t
    e.prove("a square is not negative", x * x + y * y >= 0)


@unit("nearest point of a polyline of any length", G, replay="polyline", must_cover=["several"],
      trusts=["sqrt(x) is the non-negative root of x"])
def polyline(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.utils.geometry_op"]
    Rl = z3.RealSort()
    n = e.fresh_int("n").t
    e.assume(n >= 2)
    X, Y = e.fresh_func("X", z3.IntSort(), Rl), e.fresh_func("Y", z3.IntSort(), Rl)
    p = (R(e, "px"), R(e, "py"))
    D = e.fresh_func("D", Rl, Rl, Rl, Rl, Rl)
    CX = e.fresh_func("CX", Rl, Rl, Rl, Rl, Rl)
    CY = e.fresh_func("CY", Rl, Rl, Rl, Rl, Rl)

    def contract(point, a, b):
        """contract of dist_to_segment_squared (proved by the units above)"""
        if point is not p and not (z3.eq(num(point[0]), p[0].t) and z3.eq(num(point[1]), p[1].t)):
            raise V.Unsupported("query for another point")
        args = [num(a[0]), num(a[1]), num(b[0]), num(b[1])]
        d, cx, cy = D(*args), CX(*args), CY(*args)
        e.axiom(d >= 0)
        return V.SymNum(d), (V.SymNum(cx), V.SymNum(cy))
    M.dist_to_segment_squared = contract
    path = PList.of_seq(fseq(n, lambda i: (V.SymNum(X(i)), V.SymNum(Y(i)))))

    def seg(k):
        return [X(k), Y(k), X(k + 1), Y(k + 1)]
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < n - 1))

    def hints(e_, loop, env, i):
        out = []
        reals = [q for q, t in env.items() if t.sort() == Rl]
        ints = [q for q, t in env.items() if t.sort() == z3.IntSort()]
        for q in reals:
            out.append(("custom", ("ub", q), lambda en, i, q=q: z3.Implies(i > K, en[q] <= D(*seg(K)))))
        for j in ints:
            out.append(("custom", ("idx", j), lambda en, i, j=j: z3.And(en[j] >= 0, en[j] < i)))
            for q in reals:
                for f in (D, CX, CY):
                    out.append(("custom", ("at", j, q, str(f)),
                                lambda en, i, j=j, q=q, f=f: en[q] == f(*seg(en[j]))))
                out.append(("custom", ("par", j, q), lambda en, i, j=j, q=q: par(en[q], en[j])))
        return out

    def par(t, j):
        s = seg(j)
        a, b, c = (s[0], s[1]), (s[2], s[3]), (CX(*s), CY(*s))
        l2 = d2(a, b)
        return z3.And(t >= 0, z3.If(l2 == 0, t == 0, t * t == d2(a, c) / l2))
    e.loop_hints.append(hints)
    d, c, pos = M.distance_to_path(p, path)
    j, t = term_of(pos[0]), num(pos[1])
    e.cover("several")
    e.prove("the segment index is one of the polyline's", z3.And(j >= 0, j < n - 1))
    e.prove("the distance is that of the reported segment", num(d) == D(*seg(j)))
    e.prove("the point is that of the reported segment", z3.And(num(c[0]) == CX(*seg(j)), num(c[1]) == CY(*seg(j))))
    e.prove("no segment of the polyline is closer", num(d) <= D(*seg(K)))
    e.prove("the parameter is the position of the point along its segment", par(t, j))
