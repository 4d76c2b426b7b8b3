"""C16: the offsets of real profiles and pockets, compared with shapely buffers of the given wires."""
import math

import ops
import trace
from C08 import runs
from common import frac
from C12 import bounds, ordered, pts_of
from cq_cam.utils.geometry_op import calculate_offset
from shapely import LineString, MultiPolygon, Point, Polygon
from shapely.ops import unary_union

RULE = "random settings of calculate_offset; random profiles and pockets with default and explicit offsets in random planes; non-trivial: a cut off the wire itself"


def ring(w, z=0):
    pts = []
    for e in ordered(ops.closed_wire(w, z)):
        pts += [p[:2] for p in pts_of(e, *bounds(e), 1 if e.geomType() == "LINE" else 400)][:-1]
    return pts


def poly(w):
    return Polygon(ring(w))


def case_calc(R, radius, offset, default):
    off = tuple(offset) if isinstance(offset, list) else offset
    got = calculate_offset(radius, off, default)
    o = (default or 0) if off is None else off
    want = radius * o[0] + o[1] if isinstance(o, tuple) else radius * o
    R.near(got, want, "offset %s with radius %s and default %s" % (off, radius, default), 1e-9)
    if off is None and not default:
        R.trivial_case()


def rings_of(g):
    if g.is_empty:
        return []
    gs = g.geoms if isinstance(g, MultiPolygon) else [g]
    return [LineString(x.exterior.coords) for x in gs if x.area > .1]


def wanted_rings(p, d):
    return rings_of(p.buffer(d, quad_segs=64) if d else p)


def case_profile(R, **d):
    job, cmds = ops.build(d)
    r = d["job"]["tool_diameter"] / 2
    oo, io = d.get("outer_offset", 1), d.get("inner_offset", -1)
    want = []
    if oo is not None:
        want += wanted_rings(poly(d["shape"]), oo * r)
    if io is not None:
        for h in d["shape"].get("holes", []):
            want += wanted_rings(poly(h), io * r)
    if oo == 0 and not d["shape"].get("holes"):
        R.trivial_case()
    got = []
    for run in runs(cmds):
        l = LineString(trace.xy_points(run, 48))
        if not any(l.hausdorff_distance(g) < 1e-6 for g in got):
            got.append(l)
    compare(R, got, want, .02)


def compare(R, got, want, tol):
    left = list(want)
    for g in got:
        ds = sorted((g.hausdorff_distance(w), k) for k, w in enumerate(left))
        R.check(ds and ds[0][0] < tol, "a path %s is %s away from every wanted offset wire (wanted %s)",
                g.bounds, ds[0][0] if ds else "", [w.bounds for w in left])
        left.pop(ds[0][1])
    R.check(not left, "the offset wires %s are not cut", [w.bounds for w in left])


def case_wires(R, **d):
    job, cmds = ops.build(d)
    r = d["job"]["tool_diameter"] / 2
    want = []
    for w in d["wires"]:
        want += wanted_rings(poly(w), d["offset"] * r)
    if not d["offset"]:
        R.trivial_case()
    got = [LineString(trace.xy_points(run, 48)) for run in runs(cmds)]
    compare(R, got, want, .02)


def off(o, r, default):
    if o is None:
        o = default
    return o[0] * r + o[1] if isinstance(o, (list, tuple)) else o * r


def region(shape, oo, io):
    g = poly(shape).buffer(oo, quad_segs=64)
    return g.difference(unary_union([poly(h).buffer(io, quad_segs=64) for h in shape.get("holes", [])]))


def case_pocket(R, **d):
    for k in ("outer_offset", "inner_offset", "avoid_outer_offset", "avoid_inner_offset"):
        if isinstance(d.get(k), list):
            d[k] = tuple(d[k])
    r = d["job"]["tool_diameter"] / 2
    oo = off(d.get("outer_offset"), r, 0 if d["avoid"] else -1)
    io = off(d.get("inner_offset"), r, 1)


    def left(t):  # every side moved outwards by t (a cusp moves further than its sides)
        g = unary_union([region(s, oo + t, io - t) for s, _ in d["areas"]])
        if d["avoid"]:
            ao = off(d.get("avoid_outer_offset"), r, 1)
            g = g.difference(unary_union([poly(s).buffer(ao - t, quad_segs=64) for s, _ in d["avoid"]]))
        return g

    g = left(0)
    if g.is_empty or g.area < .3:
        R.trivial_case()
        return
    job, cmds = ops.build(d)
    tol = 2.5 * 10 ** -job.precision
    grown, shrunk = left(tol).buffer(1e-6), left(-tol)
    for c in cmds:
        if trace.paths([c]) and c.end.x is not None:
            R.check(grown.contains(Point(c.end.x, c.end.y)), "the cutter goes to %s, %s outside of the region left to it (bounds %s)",
                    (c.end.x, c.end.y), g.distance(Point(c.end.x, c.end.y)), g.bounds)
    # the outer boundary is reached
    cut = [LineString(trace.xy_points(p, 8)) for p in trace.paths(cmds) if len(trace.xy_points(p, 8)) > 1]
    u = unary_union(cut)
    for l in rings_of(g):
        for i in range(60):
            p = l.interpolate(i / 60, normalized=True)
            R.check(u.distance(p) < 2 * tol or shrunk.distance(p) > 2 * tol, "the boundary point %s of the region is %s away from every cut", (p.x, p.y), u.distance(p))


def generate(R):
    rng = R.rng("C16")
    n = 3 if R.thorough else 1
    for _ in range(200 * n):
        q = lambda: round(rng.uniform(-4, 4), 3)
        yield "calc", {"radius": rng.choice([1, .5, 3.175, round(rng.uniform(.1, 9), 3)]),
                       "offset": rng.choice([None, None, 0, 0.0, 1, -1, q(), [q(), q()], [0, q()], [q(), 0]]),
                       "default": rng.choice([None, 0, 1, -1, .5])}
    for _ in range(120 * n):
        d = ops.rop(rng, ("profile",))
        d["z"], d["tabs"], d["stepdown"] = rng.choice([-1, -3]), None, rng.choice([None, 1])
        d["shape"] = ops.rface(rng, kinds=("rect", "rect", "rectf", "circle", "slot", "poly", "mixed", "spline"))
        d.pop("outer_offset", None), d.pop("inner_offset", None)
        d["job"]["tool_diameter"] = rng.choice([.5, 1, 1.5])
        d["job"]["precision"] = 2
        if rng.random() < .6:
            d["outer_offset"], d["inner_offset"] = rng.choice([(0, 0), (1.5, -1), (None, -1), (1, None), (-1, 1), (2, -.5), (-2, .75), (0, -1)])
            if d["outer_offset"] is None and not d["shape"].get("holes"):
                d["outer_offset"] = -.5
        yield "profile", d
    for _ in range(60 * n):
        d = ops.rop(rng, ("wires",))
        d["wires"] = d["wires"][:1] if rng.random() < .5 else [dict(w, at=[40 * i, 0]) for i, w in enumerate(d["wires"])]
        d["offset"], d["tabs"], d["stepdown"] = rng.choice([1, -1, .5, 2, -.5]), None, None
        d["job"]["tool_diameter"] = rng.choice([.5, 1])
        d["job"]["precision"] = 2
        yield "wires", d
    for _ in range(120 * n):
        d = ops.rop(rng, ("pocket",))
        d["areas"] = d["areas"][:1]
        d["areas"][0][1] = -2
        d["stepdown"] = None
        d["job"]["precision"] = 2
        d["job"]["tool_diameter"] = rng.choice([.5, 1, 1.5])
        size = rng.choice([8, 12])
        d["areas"][0][0] = ops.rface(rng, size=size, kinds=("rect", "rect", "rectf", "circle", "slot", "poly", "mixed", "spline"))
        for k in ("outer_offset", "inner_offset", "avoid_outer_offset"):
            if rng.random() < .4:
                d[k] = rng.choice([0, -1, -.5, [-1, -.2], [0, -.5], .5, -2] if k == "outer_offset" else [0, 1, .5, [1, .3], [0, .4], 1.5])
        if rng.random() < .5:
            x, y = d["areas"][0][0]["at"]
            d["avoid"] = [[{"t": rng.choice(["rect", "circle"]), "w": 3, "h": 2.5, "r": 1.4,
                            "at": [round(x + rng.uniform(-3, 3), 2), round(y + rng.uniform(-3, 3), 2)]}, rng.choice([0, -1, -2])]]
        else:
            d["avoid"] = None
        yield "pocket", d


def from_model(case, model):
    m = {k: frac(v) for k, v in model.items()}
    g = lambda k, v: v if m.get(k) is None else m[k]
    for o in (None, g("offset", 1.5), 0, [g("multiplier", 2.0), g("distance", .5)], [1, -.5]):
        for dflt in (None, g("default", -1.0), 1, -1, 0.5):
            yield "calc", {"radius": g("radius", 1.5), "offset": o, "default": dflt}
    import random
    rng = random.Random(5)

    class T:
        thorough = False

        @staticmethod
        def rng(*a):
            return rng
    for x in generate(T):
        if x[0] != "calc":
            yield x
