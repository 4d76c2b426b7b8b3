"""C18: real edges and wires of every kind, in both orientations and with locations, flattened by the real functions."""
import math

import cadquery as cq
import ops
from OCP.BRepAdaptor import BRepAdaptor_Curve
from OCP.TopAbs import TopAbs_REVERSED
from cq_cam.utils import interpolation as I
from cq_cam.utils import utils as U

RULE = "random edges (lines, arcs, circles, ellipses, splines, offset curves; reversed, placed) and wires at precision 0-3; non-trivial: more than two points"


def make_edge(d):
    z = d.get("z", 0)
    V = lambda p: cq.Vector(p[0], p[1], z)
    t = d["t"]
    if t == "line":
        e = cq.Edge.makeLine(V(d["a"]), V(d["b"]))
    elif t == "arc":
        e = cq.Edge.makeCircle(d["r"], V(d["a"]), cq.Vector(0, 0, d.get("n", 1)), d["a1"], d["a2"])
    elif t == "circle":
        e = cq.Edge.makeCircle(d["r"], V(d["a"]), cq.Vector(0, 0, d.get("n", 1)))
    elif t == "ellipse":
        e = cq.Edge.makeEllipse(d["r"], d["r"] * .6, V(d["a"]), cq.Vector(0, 0, 1), cq.Vector(1, 0, 0), d["a1"], d["a2"])
    elif t == "spline":
        e = cq.Edge.makeSpline([V(p) for p in d["pts"]])
    elif t == "offset":
        w = cq.Wire.assembleEdges([cq.Edge.makeSpline([V(p) for p in d["pts"]]), cq.Edge.makeLine(V(d["pts"][-1]), V(d["pts"][0]))])
        es = [x for o in w.offset2D(d["o"]) for x in o.Edges()]
        e = max(es, key=lambda x: (x.geomType() == "OFFSET", x.Length()))
    else:
        raise KeyError(t)
    if d.get("loc"):
        x, y, a = d["loc"]
        e = cq.Edge(e.wrapped.Moved(cq.Location(cq.Plane((x, y, 0)), cq.Vector(), ).wrapped)).rotate(cq.Vector(0, 0, 0), cq.Vector(0, 0, 1), a)
    if d.get("rev"):
        e = cq.Edge(e.wrapped.Reversed())
    return e


def curve(e, n=2000):
    """points along the curve in its own direction, from the kernel's curve"""
    c = BRepAdaptor_Curve(e.wrapped)
    a, b = c.FirstParameter(), c.LastParameter()
    ts = [a + (b - a) * i / n for i in range(n + 1)]
    if e.wrapped.Orientation() == TopAbs_REVERSED:
        ts.reverse()
    out = []
    for t in ts:
        p = c.Value(t)
        out.append((p.X(), p.Y(), p.Z()))
    return out


def seg_dist(p, a, b):
    d = [b[k] - a[k] for k in range(3)]
    l = sum(x * x for x in d)
    t = 0 if l == 0 else max(0, min(1, sum((p[k] - a[k]) * d[k] for k in range(3)) / l))
    return math.dist(p, [a[k] + t * d[k] for k in range(3)])


def follow(R, pts, ref, tol, gap, what):
    """pts are on the curve, in order, from its start to its end, and no reference point is further than tol from them"""
    R.check(math.dist(pts[0], ref[0]) <= 1e-6, "%s starts at %s, the curve at %s", what, pts[0], ref[0])
    R.check(math.dist(pts[-1], ref[-1]) <= 1e-6, "%s ends at %s, the curve at %s", what, pts[-1], ref[-1])
    res = max(math.dist(a, b) for a, b in zip(ref, ref[1:]))
    k = 0
    for i, p in enumerate(pts):
        # the first reference point from k on that is within the resolution
        j = k
        best = None
        while j < len(ref):
            d = math.dist(p, ref[j])
            if best is None or d < best[0]:
                best = (d, j)
            if d <= res * .55:
                break
            if best[0] <= res and d > best[0] + 4 * res:
                break
            j += 1
        R.check(best[0] <= res, "%s: point %d %s is not on the rest of the curve (%s)", what, i, p, best[0])
        if i and gap is not None:
            # all the passed part is near the chord
            for q in ref[k:best[1] + 1]:
                dd = seg_dist(q, pts[i - 1], p)
                R.check(dd <= tol, "%s: the curve is %s from the chord %s %s, the tolerance is %s", what, dd, pts[i - 1], p, tol)
        k = best[1]


def case_edge(R, precision, **d):
    e = make_edge(d)
    ref = curve(e, 4000)
    v = [p.toTuple() for p in I.edge_to_vectors(e, precision)]
    R.check(len(v) >= 2, "%d points", len(v))
    if len(v) < 3:
        R.trivial_case()
    if d["t"] == "line":
        R.check(len(v) == 2, "a line became %d points", len(v))
    closed = math.dist(ref[0], ref[-1]) < 1e-9
    if closed and len(v) == 2:
        return
    L = e.Length()
    tol = max(1.5 * 10 ** -precision, 1e-5) + 1e-9
    follow(R, v, ref, tol, True, "edge")
    n = I.edge_interpolation_count(e, precision)
    R.check(n >= 2 and (n == 2 or n <= L * 10 ** precision + 1e-6) and n > L * 10 ** precision - 1 - 1e-6, "count %s for length %s", n, L)
    a, b = U.edge_start_end(e)
    R.check(math.dist(a.toTuple(), ref[0]) < 1e-6 and math.dist(b.toTuple(), ref[-1]) < 1e-6, "edge_start_end %s %s", a, b)


def wire_ref(es):
    """the edges in the order the wire is travelled"""
    out = []
    for e in es:
        r = curve(e, 1500)
        if out:
            R0 = math.dist(out[-1], r[0])
            if R0 > 1e-4:
                return None
        out += r if not out else r[1:]
    return out


def case_wire(R, kind, precision, **d):
    w = ops.closed_wire(d, d.get("z", 0)) if kind == "closed" else cq.Wire.assembleEdges([make_edge(x) for x in d["edges"]])
    if d.get("rev"):
        w = cq.Wire(w.wrapped.Reversed())
    es = U.wire_to_ordered_edges(w)
    R.check(len(es) == len(w.Edges()), "%d edges of %d", len(es), len(w.Edges()))
    ref = wire_ref(es)
    if ref is None:
        R.fail("the ordered edges are not connected")
    v = [p.toTuple() for p in I.wire_to_vectors(w, precision)]
    if len(v) < 3:
        R.trivial_case()
    if math.dist(ref[0], ref[-1]) > 1e-6:
        R.check(v[-1] == v[0], "not closed")
        v = v[:-1]
        v2 = [p.toTuple() for p in I.wire_to_vectors(w, precision, close=False)]
        R.check(v2 == v, "open and closed points differ")
    tol = max(1.5 * 10 ** -precision, 1e-5) + 1e-9
    for e in es:
        if e.geomType() == "LINE":
            continue
    R.check(math.dist(v[0], ref[0]) < 1e-6, "wire starts elsewhere")
    follow(R, v, ref, tol, True, "wire")
    t = I.vectors_to_2d_tuples(I.wire_to_vectors(w, precision))
    R.check([p[:2] for p in v] == list(map(tuple, t))[:len(v)], "the plane points differ")
    # the coarse flattening of the clipper (lines and arcs)
    if all(e.geomType() in ("LINE", "CIRCLE") for e in es):
        f = [ref[0]] + [p.toTuple() for p in U.flatten_wire(w)]
        follow(R, f, ref, .1 + 1e-9, True, "flat wire")
        n = sum(e.geomType() == "LINE" for e in es)
        if n == len(es):
            R.check(len(f) == n + 1, "%d lines became %d points", n, len(f))


def redge(rng):
    q = lambda s=20: round(rng.uniform(-s, s), 3)
    t = rng.choice(["line", "arc", "arc", "arc", "circle", "ellipse", "spline", "offset"])
    d = {"t": t, "a": [q(), q()], "b": [q(), q()], "z": rng.choice([0, -1.5, 3]), "rev": rng.random() < .5}
    if rng.random() < .4:
        d["loc"] = [q(), q(), rng.choice([0, 90, 33.3])]
    if t in ("arc", "circle", "ellipse"):
        d["r"] = rng.choice([.004, .02, .3, 1, 3.175, 12])
        d["n"] = rng.choice([1, 1, -1])
        a = rng.uniform(0, 300)
        d["a1"], d["a2"] = round(a, 2), round(a + rng.choice([5, 45, 90, 180, 270, 300]), 2)
        if t == "ellipse":
            d["r"] = rng.choice([.3, 1, 5])
    if t in ("spline", "offset"):
        n = rng.randrange(3, 6)
        d["pts"] = [[i * 3 + round(rng.uniform(-.5, .5), 2), round(rng.uniform(-1.5, 1.5), 2) if t == "spline" else round(2 * math.sin(math.pi * i / (n - 1)), 2)] for i in range(n)]
        d["o"] = rng.choice([.5, 1])
    return d


def generate(R):
    rng = R.rng("C18")
    n = 3 if R.thorough else 1
    for _ in range(160 * n):
        d = redge(rng)
        d["precision"] = rng.choice([0, 1, 1, 2] + ([3] if d.get("r", 9) < 1 else []))
        yield "edge", d
    for _ in range(80 * n):
        d = ops.rwire(rng, kinds=("rect", "rectf", "circle", "slot", "poly", "mixed", "spline"))
        d.update(kind="closed", precision=rng.choice([0, 1, 1]), rev=rng.random() < .5)
        yield "wire", d
    for _ in range(40 * n):
        x, es = 0.0, []
        for _ in range(rng.randrange(2, 5)):
            if rng.random() < .5:
                es.append({"t": "line", "a": [x, 0], "b": [x + 2, 0]})
                x += 2
            else:
                r = rng.choice([.5, 1, 2, .03])
                es.append({"t": "arc", "a": [x + r, 0], "r": r, "a1": 0, "a2": 180, "n": rng.choice([1, -1])})
                x += 2 * r
        rng.shuffle(es) if False else None
        yield "wire", {"kind": "open", "edges": es, "precision": rng.choice([1, 2]), "rev": rng.random() < .4}


def from_model(case, model):
    import random

    class Q:
        thorough = False

        def rng(self, *a):
            return random.Random(5)
    for i, x in enumerate(generate(Q())):
        if i % 3 == 0:
            yield x
