"""C19: shapes drawn for random motions and for whole jobs, compared with the motions."""
import math
import sys
import types

import cadquery as cq
import ops
import trace
from OCP.gp import gp_Pnt
from cq_cam.address import AddressVector
from cq_cam.command import Circular, CircularCCW, CircularCW, Cut, PlungeCut, Rapid

RULE = "random motions (rapids, cuts, plunges, arcs, unknown starts) and whole random jobs, as edges and as display objects; non-trivial: at least one drawn motion"


def cq_editor_stub():
    if "cq_editor" in sys.modules:
        return
    from OCP.Quantity import Quantity_Color, Quantity_TOC_RGB
    m, u = types.ModuleType("cq_editor"), types.ModuleType("cq_editor.cq_utils")
    m.cq_utils = u
    u.to_occ_color = lambda *a: Quantity_Color(.1, .2, .3, Quantity_TOC_RGB)
    sys.modules["cq_editor"], sys.modules["cq_editor.cq_utils"] = m, u


def full(v, base):
    return tuple(getattr(v, a) if getattr(v, a) is not None else base[k] for k, a in enumerate("xyz"))


def ends(c):
    """start and end of the motion; unknown start coordinates are drawn at zero"""
    s = full(c.start, (0, 0, 0))
    return s, full(c.end, s)


def close(a, b, tol=1e-5):
    return math.dist(a, b) <= tol * max(1, *map(abs, a))


def check_edge(R, c, e, T=None):
    s, t = ends(c)
    a, b = e.startPoint().toTuple(), e.endPoint().toTuple()
    if T is not None:
        s, t = T(s), T(t)
    R.check(close(a, s) and close(b, t), "motion %s from %s is drawn from %s to %s, it goes from %s to %s", c, trace.pt(c.start), a, b, s, t)
    if isinstance(c, Circular):
        if e.geomType() == "CIRCLE":
            n = 400
            es = [e.positionAt(i / n).toTuple() for i in range(n + 1)]
            # the passed points of the arc by its own centre and direction
            for p in trace.arc_points(c, 16):
                q = T(p) if T else p
                R.check(min(math.dist(q, r) for r in es) <= 1e-3 + e.Length() / n, "arc %s: %s is not on the drawn arc", c, p)
            m = full(c.mid, ends(c)[0])
            m = T(m) if T else m
            R.check(min(math.dist(m, r) for r in es) <= 1e-3 + e.Length() / n, "arc %s: the mid point is not drawn", c)
            R.check(abs(e.Length() - arc_len(c)) <= 1e-3 * max(1, e.Length()), "arc %s drawn with length %s, it is %s long", c, e.Length(), arc_len(c))
        else:
            m = full(c.mid, ends(c)[0])
            m = T(m) if T else m
            R.check(abs(math.dist(a, m) + math.dist(m, b) - math.dist(a, b)) < 1e-3, "arc %s is drawn as a line", c)
    else:
        R.check(e.geomType() == "LINE", "%s is drawn as %s", c, e.geomType())


def arc_len(c):
    p = trace.arc_points(c, 2)
    r = math.dist((c.start.x, c.start.y), (c.center.x, c.center.y))
    a = [math.atan2(q[1] - c.center.y, q[0] - c.center.x) for q in p]
    d = 0
    for x, y in zip(a, a[1:]):
        t = (y - x) % (2 * math.pi)
        if isinstance(c, CircularCW):
            t = 2 * math.pi - t
        d += t
    return r * d


def motion(d):
    st = AddressVector(*d["start"])
    k = d["kind"]
    if k == "rapid":
        return Rapid(end=AddressVector(*d["end"]), start=st)
    if k == "cut":
        return Cut(end=AddressVector(*d["end"]), start=st, feed=100)
    if k == "plunge":
        return PlungeCut(end=AddressVector(z=d["end"][2]), start=st, feed=100)
    cx, cy, r = d["c"]
    a0, a1 = math.radians(d["a0"]), math.radians(d["a1"])
    z = st.z
    P = lambda a: (cx + r * math.cos(a), cy + r * math.sin(a))
    cls = CircularCW if a1 < a0 else CircularCCW
    return cls(start=AddressVector(*P(a0), z), end=AddressVector(*P(a1), z), mid=AddressVector(*P((a0 + a1) / 2), z),
               center=AddressVector(cx, cy, z), feed=100)


def moved(c):
    s, t = ends(c)
    return math.dist(s, t)


def case_motion(R, **d):
    c = motion(d)
    e = c.to_ais_shape(as_edges=True)
    m = moved(c)
    if isinstance(c, Circular):
        m = arc_len(c)
    if m <= 2e-5:
        R.trivial_case()
        R.check(e is None or m > 0, "%s does not move and is drawn", c)
        return
    R.check(e is not None, "%s from %s moves by %s and is not drawn", c, trace.pt(c.start), m)
    check_edge(R, c, e)
    cq_editor_stub()
    s = c.to_ais_shape(alt_color=d.get("alt", False))
    R.check(s is not None, "%s is not displayed", c)
    check_display(R, c, s)


def check_display(R, c, s):
    from OCP.AIS import AIS_Line, AIS_Shape
    if isinstance(s, AIS_Line):
        from OCP.Geom import Geom_CartesianPoint
        try:
            a, b = Geom_CartesianPoint(gp_Pnt()), Geom_CartesianPoint(gp_Pnt())
            a, b = s.Points(a, b) or (a, b)
            p, q = (a.X(), a.Y(), a.Z()), (b.X(), b.Y(), b.Z())
        except Exception:
            return
        if p == q:
            return
        x, y = ends(c)
        R.check(close(p, x) and close(q, y), "motion %s is displayed from %s to %s", c, p, q)
    elif isinstance(s, AIS_Shape):
        check_edge(R, c, cq.Edge(s.Shape()))
    else:
        R.fail(f"displayed as {type(s)}")


def case_job(R, ops_, job):
    jb, pl = ops.job(job)
    for d in ops_:
        d["job"] = dict(job)
        jb, _ = ops.build(d, jb)
    T = lambda p: pl.toWorldCoords(tuple(p)).toTuple()
    edges = jb.to_shapes(as_edges=True)
    k = 0
    for op in jb.operations:
        for c in op.commands[1:]:
            m = moved(c)
            if m <= 2e-5:
                if k < len(edges) and m > 0 and edges[k].Length() < 3e-5:
                    k += 1
                continue
            R.check(k < len(edges), "only %d motions of %s are drawn", k, sum(len(o.commands) - 1 for o in jb.operations))
            check_edge(R, c, edges[k], T)
            k += 1
    R.check(k == len(edges), "%d shapes are drawn, %d motions move", len(edges), k)
    cq_editor_stub()
    groups = jb.to_shapes()
    R.check(len(groups) == len(jb.operations), "%d groups for %d operations", len(groups), len(jb.operations))
    for g, op in zip(groups, jb.operations):
        paths = g.Children().First()
        n = sum(c.to_ais_shape() is not None for c in op.commands[1:])
        R.check(paths.Children().Size() == n, "%d motions displayed of %d", paths.Children().Size(), n)
        tr = paths.LocalTransformation()
        for p in ((0, 0, 0), (1, 0, 0), (0, 1, 2)):
            q = gp_Pnt(*p).Transformed(tr)
            R.check(math.dist((q.X(), q.Y(), q.Z()), T(p)) < 1e-6, "the displayed path is placed in another plane")


def generate(R):
    rng = R.rng("C19")
    n = 3 if R.thorough else 1
    q = lambda: rng.choice([0, 1, -2.5, round(rng.uniform(-30, 30), 3), rng.uniform(-1, 1)])
    for _ in range(500 * n):
        k = rng.choice(["rapid", "cut", "cut", "plunge", "arc", "arc"])
        st = [q(), q(), q()]
        if k == "arc":
            a0 = rng.uniform(0, 360)
            d = {"kind": k, "start": st, "c": [q(), q(), rng.choice([.002, .5, 3, 20])], "a0": a0,
                 "a1": a0 + rng.choice([-1, 1]) * rng.choice([5, 60, 90, 180, 200, 300])}
            if rng.random() < .15:      # nearly a whole turn, or very little of one
                d["a1"] = a0 + rng.choice([-1, 1]) * rng.choice([359.5, 355, .5, 1])
        else:
            en = [x if rng.random() < .35 else q() for x in st]
            en = [None if rng.random() < .25 else x for x in en]
            if k == "plunge":
                en = [None, None, q()]
            if k != "plunge" and rng.random() < .1:      # a very short one
                en = [x + rng.choice([0, 1]) * rng.choice([-1, 1]) * 10 ** -rng.uniform(1, 4) for x in st]
            if k == "rapid" or rng.random() < .2:
                st = [None if rng.random() < .3 else x for x in st]
            d = {"kind": k, "start": st, "end": en, "alt": rng.random() < .5}
        yield "motion", d
    for _ in range(40 * n):
        jd = ops.rjob(rng)
        jd["plane"] = rng.choice([None, [[0, 0, 0], [0, 1, 0], [0, 0, 1]]] + ops.PLANES[2:])
        jd["tool_diameter"], jd["precision"] = 1, 1
        o = []
        for _ in range(rng.randrange(1, 3)):
            d = ops.rop(rng, ("profile", "wires", "drill", "pocket"), jobd=dict(jd))
            if d["op"] == "pocket":
                d["areas"] = d["areas"][:1]
            if d["op"] == "drill":
                d["z"] = 0
            d.pop("job")
            o.append(d)
        yield "job", {"ops_": o, "job": jd}


def from_model(case, model):
    import random

    class Q:
        thorough = False

        def rng(self, *a):
            return random.Random(5)
    for i, x in enumerate(generate(Q())):
        if i % 2 == 0:
            yield x
