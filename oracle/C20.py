"""C20: the real zigzag strategy on random regions with holes, compared with scan lines cut by shapely."""
import math
import types

import cadquery as cq
import numpy as np
import ops
import shapely
from shapely.geometry import LineString, Point, Polygon
from cq_cam.operations.strategy import ZigZagStrategy
from cq_cam.utils.linked_polygon import LinkedPolygon
from cq_cam.utils.utils import WireClipper

RULE = "random regions (polygons, rounded wires, holes) and spacings, and random linked polygons; non-trivial: at least three scan-line segments"


def ring_of(o):
    c = WireClipper()
    return c.add_clip_wire(o) if isinstance(o, cq.Wire) else list(o)


def case_zigzag(R, outers, inners, diameter, stepover, as_wire):
    make = (lambda d: ops.closed_wire(d, 0)) if as_wire else (lambda d: [tuple(p) for p in d["pts"]])
    ob, ib = [make(d) for d in outers], [make(d) for d in inners]
    rings = [ring_of(o) for o in ob + ib]
    before = [list(r) for r in rings]
    c = WireClipper()
    for r in rings:
        c.add_clip_polygon([tuple(p) for p in r], True)
    b = c.max_bounds()
    reg = Polygon()
    for r in rings:
        reg = reg.symmetric_difference(Polygon(r))
    bounds = reg.bounds
    R.check(b["left"] <= bounds[0] and b["right"] >= bounds[2] and b["bottom"] <= bounds[1] and b["top"] >= bounds[3], "the scan lines do not span the region")
    ys = np.arange(b["bottom"], b["top"], diameter * stepover)
    segs = []
    verts = [p[1] for r in rings for p in r]
    for y in ys:
        if not bounds[1] <= y <= bounds[3]:
            continue
        if min(abs(v - y) for v in verts) < 2e-7:
            R.trivial_case()     # a scan line through a vertex or along an edge
            return
        x = reg.intersection(LineString([(bounds[0] - 1, y), (bounds[2] + 1, y)]))
        for g in getattr(x, "geoms", [x]):
            if g.geom_type == "LineString" and g.length > 1e-9:
                segs.append((y, min(p[0] for p in g.coords), max(p[0] for p in g.coords)))
    if not segs:
        R.trivial_case()
        return
    if len(segs) < 3:
        R.trivial_case()
    task = types.SimpleNamespace(_tool_diameter=diameter, stepover=stepover)
    seqs = ZigZagStrategy.process(task, ob, ib)
    check_sequences(R, seqs, segs, reg)


def check_sequences(R, seqs, segs, reg):
    line = reg.boundary.buffer(1e-5)
    left = {}
    for s in segs:
        left[s] = 0
    for q in seqs:
        R.check(len(q) >= 2, "a sequence of %d points", len(q))
        for p in (q[0], q[-1]):
            R.check(reg.boundary.distance(Point(p)) < 1e-5, "a sequence starts or ends inside at %s", p)
        for a, b in zip(q, q[1:]):
            hit = None
            for y, x0, x1 in segs:
                if abs(a[1] - y) < 1e-6 and abs(b[1] - y) < 1e-6 and abs(min(a[0], b[0]) - x0) < 1e-5 and abs(max(a[0], b[0]) - x1) < 1e-5:
                    hit = (y, x0, x1)
            if hit and not (line.covers(LineString([a, b])) and left[hit]):
                left[hit] += 1
                continue
            R.check(math.dist(a, b) < 1e-9 or line.covers(LineString([a, b])), "the move %s - %s is neither a scan line nor along the boundary", a, b)
    for s, k in left.items():
        R.check(k == 1, "the scan-line segment y=%s from %s to %s is cut %d times", *s, k)


def case_linked(R, pts, links, starts):
    """a linked polygon hands out every linked point once, along the polygon"""
    pts = [tuple(p) for p in pts]
    lp = LinkedPolygon(list(pts))
    pos = {}
    for i, t in links:
        a, b = pts[i], pts[(i + 1) % len(pts)]
        p = (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)
        if p in pos or p in pts:
            continue
        lp.link_point(p, a, b)
        pos[p] = i + t
    for i, p in enumerate(pts):
        pos.setdefault(p, float(i))
    want = sorted(pos, key=lambda p: pos[p])
    R.check(lp.polygon == want, "the linked points are not in order along the polygon: %s", [round(pos[p], 3) for p in lp.polygon])
    links = set(lp.linked_points)
    R.check(len(links) == len(lp.linked_points), "a point is linked twice")
    if len(links) < 3:
        R.trivial_case()
    if not links:
        return
    lp.reset()
    n = len(lp.polygon)
    free = set(links)
    cur = lp.linked_points[starts % len(lp.linked_points)]
    while True:
        free.discard(cur)
        path = lp.nearest_linked(cur)
        if path is None:
            R.check(not free, "%d linked points were never reached", len(free))
            break
        R.check(path[-1] in free, "the path ends on a point that is not free")
        R.check(not any(p in free for p in path[:-1]), "the path passes a free point")
        k = lp.polygon.index(cur)
        up = [lp.polygon[(k + 1 + j) % n] for j in range(len(path))]
        down = [lp.polygon[(k - 1 - j) % n] for j in range(len(path))]
        R.check(path == up or path == down, "the path does not follow the polygon")
        free.discard(path[-1])
        if not free:
            break
        cur = sorted(free)[starts % len(free)]    # the tool arrives by a scan line on another free point


def rpoly(rng, at=(0, 0), r=10):
    n = rng.randrange(3, 9)
    return [[round(at[0] + r * math.cos(2 * math.pi * (i + .31) / n) * rng.uniform(.45, 1), 4),
             round(at[1] + r * math.sin(2 * math.pi * (i + .31) / n) * rng.uniform(.45, 1), 4)] for i in range(n)]


def comb(rng):
    """a region whose scan lines have many segments"""
    k, x, top, bot = rng.randrange(2, 5), 0.0, [], []
    pts = [[0.013, -.517]]
    for i in range(k):
        h = round(rng.uniform(3, 8), 3)
        pts = pts + [[i * 4 + .01, h], [i * 4 + 2.02, h + .3], [i * 4 + 2.5, round(rng.uniform(.5, 2.5), 3)]]
    pts.append([k * 4.1, -.6])
    return pts


def generate(R):
    rng = R.rng("C20")
    n = 3 if R.thorough else 1
    for _ in range(260 * n):
        d = {"diameter": rng.choice([.7, 1, 1.3, 2]), "stepover": rng.choice([.4, .5, .8, 1]), "as_wire": rng.random() < .35, "inners": []}
        if d["as_wire"]:
            k = rng.choice(["rect", "rectf", "circle", "slot", "mixed", "poly"])
            w = ops.rwire(rng, 12, (k,))
            d["outers"] = [w]
            if k in ("rect", "rectf") and rng.random() < .5:
                x, y = w["at"]
                d["inners"] = [{"t": rng.choice(["circle", "rect"]), "r": .95, "w": 1.7, "h": 2.1, "at": [x + .03, y - .07]}]
        else:
            if rng.random() < .4:
                d["outers"] = [{"pts": comb(rng)}]
            else:
                d["outers"] = [{"pts": rpoly(rng)}]
            if rng.random() < .4 and len(d["outers"][0]["pts"]) > 3:
                hole = rpoly(rng, r=2.2)
                if Polygon(d["outers"][0]["pts"]).buffer(-.2).contains(Polygon(hole)):
                    d["inners"] = [{"pts": hole}]
            if rng.random() < .2:
                d["outers"].append({"pts": rpoly(rng, at=(40, 3))})
        ok = all(Polygon(o["pts"]).is_valid for o in d["outers"] + d["inners"] if "pts" in o and not d["as_wire"])
        if ok:
            yield "zigzag", d
    for _ in range(150 * n):
        pts = rpoly(rng)
        yield "linked", {"pts": pts, "links": [[rng.randrange(len(pts)), round(rng.uniform(.05, .95), 3)] for _ in range(rng.randrange(0, 10))],
                         "starts": rng.randrange(10)}

    for _ in range(40 * n):     # links close to each other, many links
        pts = rpoly(rng)
        at = [[rng.randrange(len(pts)), rng.uniform(.05, .9)] for _ in range(rng.randrange(1, 4))]
        yield "linked", {"pts": pts, "links": [[i, t + rng.uniform(0, 10 ** -rng.uniform(1, 6))] for i, t in at for _ in range(rng.randrange(2, 6))],
                         "starts": rng.randrange(10)}
    for _ in range(3 * n):
        pts = rpoly(rng)
        yield "linked", {"pts": pts, "links": [[rng.randrange(len(pts)), round(rng.uniform(.02, .98), 5)] for _ in range(120)], "starts": rng.randrange(10)}


def from_model(case, model):
    import random

    class Q:
        thorough = False

        def rng(self, *a):
            return random.Random(5)
    for i, x in enumerate(generate(Q())):
        if x[0] == "linked" or i % 4 == 0:
            yield x
