"""Direct calls of the routers with random transitions, wires and contours."""
import math
import random

import cadquery as cq
import ops
from common import frac
from cq_cam import routers
from cq_cam.address import AddressVector
from cq_cam.fluent import Job
from cq_cam.utils.geometry_op import PathFace


def r_rapid_to(rng):
    q = lambda: rng.choice([round(rng.uniform(-30, 30), 3), 0.0, 1.0])
    end = [q(), q(), rng.choice([0, -1, -5.5, 0.5, 1, 2, 30])]
    start = rng.choice([None, [q(), q(), q()], [end[0], end[1], q()], [end[0], q(), 5], list(end), [None, None, 3]])
    return {"start": start, "end": end, "rapid": rng.choice([10, 5, 0.4, 1, 20]), "safe": rng.choice([None, 1, 2, 0.04, 12]),
            "plunge": rng.choice([None, 50, 120.5])}


def rapid_to(start, end, rapid, safe, plunge):
    s = AddressVector() if start is None else AddressVector(*start)
    e = cq.Vector(*end)
    before = (s.x, s.y, s.z, e.toTuple())
    cmds = routers.rapid_to(s, e, rapid, safe, plunge_feed=plunge)
    if (s.x, s.y, s.z, e.toTuple()) != before:
        raise AssertionError("the transition modified the positions it was given")
    return None, cmds


def descends(R, cmds, kw):
    """no rapid passes below the target or the safe height on the way down"""
    from cq_cam.command import RapidCommand
    z = None if kw["start"] is None else kw["start"][2]
    for c in cmds:
        if isinstance(c, RapidCommand) and z is not None and c.end.z is not None and c.end.z < z - 1e-9:
            low = min(kw["rapid"], kw["safe"] if kw["safe"] is not None else 1e9)
            R.check(c.end.z >= low - 1e-9, "a rapid descends to %s", c.end.z)
        if c.end.z is not None:
            z = c.end.z


# ------------------------------------------------------------------ routers
def ngon(rng, cx, cy, r, n=None):
    n = n or rng.randrange(3, 9)
    a = rng.uniform(0, 1)
    pts = [(round(cx + r * math.cos(a + 2 * math.pi * i / n), 3), round(cy + r * math.sin(a + 2 * math.pi * i / n), 3))
           for i in range(n)]
    if rng.random() < .5:
        pts.reverse()
    return [list(p) for p in pts + pts[:1]]


def r_route(rng, kinds=("contours", "contours", "wires")):
    k = rng.choice(kinds)
    d = {"kind": k, "job": dict(ops.rjob(rng), plane=None), "step": rng.choice([None, 0.5, 1, 1.5, 2.25]),
         "prev": rng.choice([None, [1, 2, 3], [0, 0, 10], [5.5, -2, -1]])}
    z = rng.choice([-1, -2.5, 0, 0.5])
    if k == "contours":
        cs = []
        r = rng.choice([1, 2.5])
        for _ in range(rng.randrange(1, 6)):
            cs.append({"pts": ngon(rng, rng.uniform(-.3, .3), rng.uniform(-.3, .3), r), "z": z})
            r += rng.choice([.4, .9, 1.2, 3])
            if rng.random() < .2:
                z -= rng.choice([.5, 1])
        if rng.random() < .1:
            p = cs[0]["pts"][0]
            cs.append({"pts": [p, [p[0] + 1, p[1]], [p[0] + 1, p[1] + 1], p], "z": z})
        if rng.random() < .08:      # a long chain of contours, or many points
            while len(cs) < 12:
                r += rng.choice([.4, .9, 1.2])
                cs.append({"pts": ngon(rng, rng.uniform(-.3, .3), rng.uniform(-.3, .3), r, rng.choice([None, 4, 60])), "z": z})
        d["contours"] = cs
    else:
        ws = []
        s = rng.choice([4, 6])
        for _ in range(rng.randrange(1, 5)):
            w = ops.rwire(rng, s, ("rect", "rectf", "circle", "slot", "poly", "mixed", "spline"), at=False)
            ws.append({"w": w, "z": z, "rev": rng.random() < .4, "edge": rng.random() < .1})
            s += rng.choice([.8, 1.5, 4])
            if rng.random() < .2:
                z -= 1
        d["wires"] = ws
        d["job"]["precision"] = 1
    return d


def wires_of(d):
    out = []
    for x in d["wires"]:
        w = ops.closed_wire(x["w"], x["z"])
        if x["rev"]:
            w = cq.Wire(w.wrapped.Reversed())
        if x["edge"]:
            w = w.Edges()[0]
        out.append(w)
    return out


def shape_state(ws):
    return [(w.ShapeType(), w.isNull(), tuple(round(v, 9) for v in (w.BoundingBox().xmin, w.BoundingBox().xmax,
             w.BoundingBox().ymin, w.BoundingBox().ymax, w.BoundingBox().zmin, w.BoundingBox().zmax)),
             w.wrapped.Orientation()) for w in ws]


def route(d):
    job, _ = ops.job(d["job"])
    prev = None if d["prev"] is None else AddressVector(*d["prev"])
    pstate = None if prev is None else (prev.x, prev.y, prev.z)
    if d["kind"] == "contours":
        pfs = [PathFace([tuple(p) for p in c["pts"]], [], c["z"]) for c in d["contours"]]
        state = lambda: [(list(p.outer), list(p.inners), p.depth) for p in pfs]
        before = (state(), len(pfs), pstate)
        cmds = routers.route_polyface_outers(job, pfs, stepover=d["step"], previous_pos=prev)
        after = (state(), len(pfs), None if prev is None else (prev.x, prev.y, prev.z))
    else:
        ws = wires_of(d)
        before = (shape_state(ws), len(ws), pstate)
        cmds = routers.route_wires(job, ws, stepover=d["step"], previous_pos=prev)
        after = (shape_state(ws), len(ws), None if prev is None else (prev.x, prev.y, prev.z))
    return job, cmds, (before, after)


def from_model(case, model):
    m = {k: frac(v) for k, v in model.items()}
    g = lambda k, dflt=0.0: dflt if m.get(k) is None else m[k]
    if case == "rapid_to":
        for known in (True, False):
            for safe in (None, g("op_safe", 1.0), 1.0):
                yield "rapid_to", {"start": [g("sx"), g("sy"), g("sz")] if known else None,
                                   "end": [g("ex"), g("ey"), g("ez")], "rapid": g("rapid", 10.0), "safe": safe,
                                   "plunge": g("plunge", 50.0)}
    else:
        rng = random.Random(7)
        for _ in range(60):
            yield "route", r_route(rng)
