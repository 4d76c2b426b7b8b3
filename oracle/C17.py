"""C17: the regions built for stacked pockets and the real pocket programs, compared with shapely."""
import math

import ops
import trace
from C07 import levels_of
from C16 import off, poly, region
from shapely.geometry import LineString, Point, Polygon
from shapely.ops import unary_union
from cq_cam.operations import pocket as P
from cq_cam.utils.geometry_op import PathFace

RULE = "random sets of overlapping, stacked and framed areas with holes, depths and avoided areas; non-trivial: two depths, an avoided area or overlapping faces"


def ring(p, flip):
    p = [tuple(map(float, q)) for q in p] + [tuple(map(float, p[0]))]
    return p[::-1] if flip else p


def want_region(areas, avoid, d):
    deep = [a for a in areas if a["d"] <= d]
    g = unary_union([Polygon(a["o"]) for a in deep])
    g = g.difference(unary_union([Polygon(i) for a in deep for i in a["i"]]))
    return g.difference(unary_union([Polygon(a["o"]) for a in avoid if a["d"] >= d]))


def case_regions(R, areas, avoid):
    fs = [PathFace(ring(a["o"], a["f"]), [ring(i, not a["f"]) for i in a["i"]], a["d"]) for a in areas]
    av = [PathFace(ring(a["o"], a["f"]), [], a["d"]) for a in avoid]
    depths = sorted({a["d"] for a in areas}, reverse=True)
    if len(areas) < 2 and not avoid:
        R.trivial_case()
    out = P.build_pocket_ops(fs, av)
    R.check([o.depth for o in out] == sorted([o.depth for o in out], reverse=True), "the levels are not cleared from the top: %s", [o.depth for o in out])
    R.check({o.depth for o in out} <= set(depths), "a level that no face has")
    for d in depths:
        w = want_region(areas, avoid, d)
        gs = [Polygon(o.outer, o.inners).buffer(0) for o in out if o.depth == d]
        g = unary_union(gs)
        bad = g.symmetric_difference(w).buffer(-1e-5)
        R.check(bad.is_empty, "level %s clears the wrong area: %s too much, %s missing near %s", d, g.difference(w).area, w.difference(g).area, bad.bounds)
        R.check(sum(x.area for x in gs) <= g.area + 1e-6, "an area is cleared twice at level %s", d)
    # where the steps of each op may start
    done = []
    for o in out:
        s = P.determine_stepdown_start_depth(o, done)
        if s is not None:
            R.check(any(q.depth == s and Polygon(q.outer, q.inners).buffer(1e-6).covers(Polygon(o.outer, o.inners)) for q in done),
                    "the steps of the level %s start at %s, where it is not open", o.depth, s)
        best = [q.depth for q in done if Polygon(q.outer, q.inners).buffer(-1e-6).covers(Polygon(o.outer, o.inners))]
        R.check(not best or (s is not None and s <= min(best)), "the steps start at %s, the area is open to %s", s, best)
        done.append(o)


def case_pocket(R, **d):
    r = d["job"]["tool_diameter"] / 2
    oo = 0 if d["avoid"] else -1
    if "outer_offset" in d:
        oo = d["outer_offset"]
    oo, io, ao = oo * r, r, r

    def left(z, t):
        g = unary_union([region(s, oo + t, io - t) for s, f in d["areas"] if f <= z + 1e-6])
        g = g.difference(unary_union([poly(h).buffer(io - t, quad_segs=64) for s, f in d["areas"] if f <= z + 1e-6 for h in s.get("holes", [])]))
        if d["avoid"]:
            g = g.difference(unary_union([poly(s).buffer(ao - t, quad_segs=64) for s, f in d["avoid"] if f >= z - 1e-6]))
        return g
    floors = sorted({f for _, f in d["areas"]}, reverse=True)
    for s, f in d["areas"]:
        if region(s, oo, io).area < .3:
            R.trivial_case()
            return
    if any(left(f, -.05).area < .3 for f in floors):
        R.trivial_case()
        return
    job, cmds = ops.build(d)
    tol = 2.5 * 10 ** -job.precision
    step = d["stepdown"]
    so = (.5 if d["stepover"] is None else d["stepover"]) * r
    seen = []     # (z, line)
    zs = set()
    big = {}
    for p in trace.paths(cmds):
        pts = trace.xy_points([c for c in p if trace.moves(c, "xy")], 8)
        z = min(c.end.z for c in p if c.end.z is not None)
        zs.add(round(z, 5))
        R.check(any(abs(z - f) < 1e-5 or f < z for f in floors), "a cut at %s below every floor", z)
        k = max([f for f in floors if f <= z + 1e-5])
        g = big.setdefault(k, left(k, tol).buffer(1e-6))
        prev = None
        if step and z < -step - 1e-6:
            prev = unary_union([l for y, l in seen if z + 1e-6 < y <= z + step + 1e-6])
        for q in pts:
            R.check(g.contains(Point(q)), "at height %s the cutter is at %s, outside of the area open to %s", z, q, k)
            if prev is not None:
                R.check(prev.distance(Point(q)) <= so + 3 * tol, "at height %s the cutter is at %s, %s from the cuts one step above", z, q, prev.distance(Point(q)))
        if len(pts) > 1:
            seen.append((z, LineString(pts)))
    R.check(zs >= {round(f, 5) for f in floors}, "the floors are %s, the cuts are at %s", floors, sorted(zs))
    for f in floors:
        R.check(step or len(zs) == len(floors), "levels %s", zs)
        u = unary_union([l for z, l in seen if abs(z - f) < 1e-5])
        g = left(f, 0)
        shr = left(f, -tol)
        for gg in getattr(g, "geoms", [g]):
            if gg.area < .3:
                continue
            x0, y0, x1, y1 = gg.bounds
            for i in range(12):
                for j in range(12):
                    p = Point(x0 + (x1 - x0) * (i + .5) / 12, y0 + (y1 - y0) * (j + .5) / 12)
                    R.check(not gg.contains(p) or u.distance(p) <= so + 2 * tol, "at the floor %s the point %s is %s from every cut, the step-over is %s", f, (p.x, p.y), u.distance(p), so)
            for l in [gg.exterior]:
                for i in range(40):
                    p = l.interpolate(i / 40, normalized=True)
                    R.check(u.distance(p) < 2 * tol or shr.distance(p) > 2 * tol, "at the floor %s the boundary point %s is %s from every cut", f, (p.x, p.y), u.distance(p))


def rect(rng, x0=-10, x1=10, lo=3, hi=12):
    x, y = rng.uniform(x0, x1), rng.uniform(x0, x1)
    w, h = rng.uniform(lo, hi), rng.uniform(lo, hi)
    return [[round(p, 3), round(q, 3)] for p, q in ((x, y), (x + w, y), (x + w, y + h), (x, y + h))]


def shape(rng):
    if rng.random() < .6:
        return rect(rng)
    n = rng.randrange(3, 8)
    cx, cy, r = rng.uniform(-8, 8), rng.uniform(-8, 8), rng.uniform(2, 7)
    return [[round(cx + r * math.cos(2 * math.pi * (i + .3) / n), 3), round(cy + r * math.sin(2 * math.pi * (i + .3) / n), 3)] for i in range(n)]


def inner(rng, o):
    x0, y0 = min(p[0] for p in o), min(p[1] for p in o)
    x1, y1 = max(p[0] for p in o), max(p[1] for p in o)
    for _ in range(9):
        a, b = rng.uniform(.2, .6), rng.uniform(.2, .6)
        s = rng.uniform(.1, .3)
        q = [[x0 + (x1 - x0) * u, y0 + (y1 - y0) * v] for u, v in ((a, b), (a + s, b), (a + s, b + s), (a, b + s))]
        q = [[round(v, 3) for v in p] for p in q]
        if Polygon(o).contains(Polygon(q)):
            return [q]
    return []


def frame(rng):
    """areas around a courtyard"""
    w = rng.uniform(2, 3)
    return [[[0, 0], [12, 0], [12, w], [0, w]], [[12 - w, 0.1], [12, .1], [12, 12], [12 - w, 12]],
            [[.1, 12 - w], [12, 12 - w], [12, 11.9], [.1, 11.9]], [[0, .2], [w, .2], [w, 11.8], [0, 11.8]]]


def generate(R):
    rng = R.rng("C17")
    n = 3 if R.thorough else 1
    for _ in range(400 * n):
        areas, avoid = [], []
        if rng.random() < .2:
            ds = rng.choice([[-1] * 4, [-1, -2, -2, -3], [-2, -2, -1, -2]])
            areas = [{"o": [[round(v, 3) for v in p] for p in o], "i": [], "d": z, "f": False} for o, z in zip(frame(rng), ds)]
            if rng.random() < .5:
                areas.append({"o": [[4.5, 4.6], [7.1, 4.6], [7.1, 7.3], [4.5, 7.3]], "i": [], "d": rng.choice([-1, -2]), "f": rng.random() < .3})
            rng.shuffle(areas)
        else:
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5])):
                o = shape(rng)
                if areas and rng.random() < .25:     # inside of another
                    c = Polygon(areas[-1]["o"]).centroid
                    o = [[round(c.x + (p[0] - c.x) * .5, 3), round(c.y + (p[1] - c.y) * .5, 3)] for p in areas[-1]["o"]]
                areas.append({"o": o, "i": inner(rng, o) if rng.random() < .3 else [], "d": rng.choice([-1, -2, -3, -2.5, 0]), "f": rng.random() < .3})
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            avoid.append({"o": rect(rng, lo=1, hi=6), "i": [], "d": rng.choice([0, -1, -2, -3, -2.5]), "f": rng.random() < .3})
        yield "regions", {"areas": areas, "avoid": avoid}
    for _ in range(12 * n):     # many faces at many depths
        yield "regions", {"areas": [{"o": shape(rng), "i": [], "d": -round(.5 * rng.randrange(1, 9), 1), "f": rng.random() < .3} for _ in range(rng.randrange(6, 14))],
                          "avoid": [{"o": rect(rng, lo=1, hi=6), "i": [], "d": -round(.5 * rng.randrange(0, 9), 1), "f": False} for _ in range(rng.randrange(0, 8))]}
    for _ in range(60 * n):
        d = {"op": "pocket", "job": ops.rjob(rng), "areas": [], "stepdown": rng.choice([None, 1, .5, 1.5]), "stepover": rng.choice([None, .8, 1]), "avoid": None}
        d["job"]["tool_diameter"], d["job"]["precision"] = rng.choice([.5, 1]), 2
        k = rng.random()
        base = ops.rwire(rng, 12, ("rect", "circle", "slot"))
        x, y = base["at"]
        d["areas"] = [[base, rng.choice([-1, -2, -2.5])]]
        if k < .5:     # a deeper one inside
            d["areas"].append([dict(ops.rwire(rng, 5, ("rect", "circle", "slot")), at=[round(x + rng.uniform(-.4, .4), 2), round(y + rng.uniform(-.4, .4), 2)]), rng.choice([-3, -4])])
        elif k < .8:   # overlapping
            d["areas"].append([dict(ops.rwire(rng, 8, ("rect", "circle", "slot")), at=[round(x + rng.uniform(-6, 6), 2), round(y + rng.uniform(-6, 6), 2)]), rng.choice([-1, -2, -3])])
        if rng.random() < .4:
            d["avoid"] = [[{"t": rng.choice(["rect", "circle"]), "w": 3, "h": 2.5, "r": 1.4,
                            "at": [round(x + rng.uniform(-3, 3), 2), round(y + rng.uniform(-3, 3), 2)]}, rng.choice([0, -1, -2])]]
        yield "pocket", d


def from_model(case, model):
    import random

    class Q:
        thorough = False

        def rng(self, *a):
            return random.Random(5)
    for i, x in enumerate(generate(Q())):
        if i % 4 == 0:
            yield x
