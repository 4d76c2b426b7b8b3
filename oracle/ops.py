"""Random real operations on random real parts (JSON parameters -> job, operation)."""
import math
import sys
import types

import cadquery as cq
from cq_cam.fluent import Job
from cq_cam.groups import Unit
from cq_cam.operations.tabs import EdgeTabs, WireTabs
from cq_cam.tool import Tool

# ------------------------------------------------------------------ opencamlib stand-in (not installed here)


def ocl_stub():
    """opencamlib is not installed: a module of that name whose drop cutter samples a height function"""
    if "opencamlib" in sys.modules and not hasattr(sys.modules["opencamlib"], "_stub"):
        return sys.modules["opencamlib"]
    if "opencamlib" in sys.modules:
        return sys.modules["opencamlib"]
    ocl = types.ModuleType("opencamlib")
    ocl._stub = True
    ocl.height = lambda x, y: -1e9

    class Point:
        def __init__(self, x, y, z):
            self.x, self.y, self.z = x, y, z

    class CLPoint(Point):
        pass

    class Triangle:
        def __init__(self, *p):
            self.p = p

    class STLSurf:
        def __init__(self):
            self.t = []

        def addTriangle(self, t):
            self.t.append(t)

    class MillingCutter:
        pass

    class CylCutter(MillingCutter):
        def __init__(self, d, length):
            self.d = d

        def getDiameter(self):
            return self.d

    class BatchDropCutter:
        def __init__(self):
            self.pts = []

        def setCutter(self, c):
            pass

        def appendPoint(self, p):
            self.pts.append(CLPoint(p.x, p.y, p.z))

        def setSTL(self, s):
            pass

        def run(self):
            for p in self.pts:
                p.z = max(p.z, ocl.height(p.x, p.y))

        def getCLPoints(self):
            return self.pts

    for k in (Point, CLPoint, Triangle, STLSurf, MillingCutter, CylCutter, BatchDropCutter):
        setattr(ocl, k.__name__, k)
    sys.modules["opencamlib"] = ocl
    return ocl


# ------------------------------------------------------------------ planes
PLANES = [None, None, [[0, 0, 5], [1, 0, 0], [0, 0, 1]], [[3, -2, 7.5], [0, 1, 0], [0, 0, 1]],
          [[1, 2, 3], [1, 0, 0], [0, 1, 0]], [[-4, 5, 2], [0, 0, 1], [1, 0, 0]], [[2, 1, -3], [1, 1, 0], [0, 0, 1]],
          [[0, 1, 2], [1, 0, 1], [-1, 0, 1]]]


def plane(p):
    if p is None:
        return cq.Plane((0, 0, 0))
    return cq.Plane(tuple(p[0]), tuple(p[1]), tuple(p[2]))


def to_world(shape, pl):
    return shape.transformShape(pl.rG)


# ------------------------------------------------------------------ wires in job coordinates
def closed_wire(d, z):
    """d: {"t": rect|circle|slot|poly|spline|mixed, "at": (x, y), ...} -> closed planar wire at z"""
    x, y = d.get("at", (0, 0))
    wp = cq.Workplane(origin=(x, y, z))
    t = d["t"]
    if t == "rect":
        w = wp.rect(d["w"], d["h"])
        if d.get("fillet"):
            f = cq.Face.makeFromWires(w.objects[0])
            return f.fillet2D(d["fillet"], f.Vertices()).outerWire()
        return w.objects[0]
    if t == "circle":
        return wp.circle(d["r"]).objects[0]
    if t == "slot":
        return wp.slot2D(d["w"], d["h"]).objects[0]
    if t == "poly":
        return wp.polyline([tuple(p) for p in d["pts"]]).close().objects[0]
    if t == "spline":
        return wp.spline([tuple(p) for p in d["pts"]], periodic=True).wire().objects[0]
    if t == "mixed":
        w, h, r = d["w"], d["h"], d["r"]
        return (wp.moveTo(-w / 2, -h / 2).lineTo(w / 2, -h / 2).threePointArc((w / 2 + r, 0), (w / 2, h / 2))
                .lineTo(-w / 2, h / 2).close().objects[0])
    raise KeyError(t)


def rwire(rng, size=20.0, kinds=("rect", "rect", "rectf", "circle", "slot", "poly", "mixed"), at=True):
    k = rng.choice(kinds)
    at = (round(rng.uniform(-15, 15), 2), round(rng.uniform(-15, 15), 2)) if at else (0, 0)
    s = lambda lo, hi: round(rng.uniform(lo, hi) * size, 3)
    if k == "rect":
        return {"t": "rect", "w": s(.6, 1), "h": s(.5, 1), "at": at}
    if k == "rectf":
        return {"t": "rect", "w": s(.6, 1), "h": s(.6, 1), "fillet": s(.05, .2), "at": at}
    if k == "circle":
        return {"t": "circle", "r": s(.3, .5), "at": at}
    if k == "slot":
        return {"t": "slot", "w": s(.8, 1), "h": s(.3, .5), "at": at}
    if k == "mixed":
        return {"t": "mixed", "w": s(.6, .8), "h": s(.5, .7), "r": s(.1, .2), "at": at}
    if k == "spline":
        n = rng.randrange(5, 8)
        return {"t": "spline", "at": at, "pts": [
            [round(math.cos(2 * math.pi * i / n) * s(.35, .5), 3), round(math.sin(2 * math.pi * i / n) * s(.35, .5), 3)]
            for i in range(n)]}
    n = rng.randrange(3, 8)
    return {"t": "poly", "at": at, "pts": [
        [round(math.cos(2 * math.pi * (i + .2) / n) * s(.35, .55), 3),
         round(math.sin(2 * math.pi * (i + .2) / n) * s(.35, .55), 3)] for i in range(n)]}


def face(d, z, pl):
    outer = to_world(closed_wire(d, z), pl)
    inner = [to_world(closed_wire(h, z), pl) for h in d.get("holes", [])]
    return cq.Face.makeFromWires(outer, inner)


def rface(rng, size=20.0, holes=True, **kw):
    d = rwire(rng, size, **kw)
    if holes and rng.random() < .5 and d["t"] in ("rect", "circle") and min(d.get("w", 99), d.get("h", 99), 2 * d.get("r", 99)) > size * .55:
        x, y = d["at"]
        d["holes"] = [{"t": rng.choice(["circle", "rect"]), "r": size * .08, "w": size * .15, "h": size * .12,
                       "at": (round(x + rng.uniform(-1, 1), 2), round(y + rng.uniform(-1, 1), 2))}]
    return d


# ------------------------------------------------------------------ jobs
def rjob(rng):
    unit = rng.choice(["METRIC", "METRIC", "IMPERIAL"])
    d = {"feed": rng.choice([100, 350.5, 1200]), "tool_diameter": rng.choice([1, 2, 3, 3.175]), "unit": unit,
         "plane": rng.choice(PLANES)}
    if rng.random() < .6:
        d["plunge_feed"] = rng.choice([40, 77.25, 350.5])
    if rng.random() < .6:
        d["rapid_height"] = rng.choice([5, 12.5, 20, 0.8])
    if rng.random() < .5:
        d["op_safe_height"] = rng.choice([0.5, 1.5, 3, 0.75])
    if rng.random() < .2:
        d["precision"] = 2
    return d


def job(d):
    d = dict(d)
    pl = plane(d.pop("plane", None))
    d["unit"] = getattr(Unit, d.get("unit", "METRIC"))
    return Job(pl, **d), pl


def rtabs(rng):
    if rng.random() < .5:
        return {"t": "wire", "count": rng.randrange(1, 6), "width": rng.choice([1, 1.5]), "height": rng.choice([.5, 1, 2])}
    return {"t": "edge", "spacing": rng.choice([4, 6, 9]), "width": rng.choice([1, 1.5]), "height": rng.choice([.5, 1, 2])}


def tabs(d):
    if d is None:
        return None
    if d["t"] == "wire":
        return WireTabs(count=d["count"], width=d["width"], height=d["height"])
    return EdgeTabs(spacing=d["spacing"], width=d["width"], height=d["height"], only=d.get("only"))


def rop(rng, kinds=("profile", "wires", "pocket", "pocket", "drill", "surface"), jobd=None):
    """a random operation: {"op": kind, "job": ..., ...}"""
    k = rng.choice(kinds)
    d = {"op": k, "job": jobd or rjob(rng)}
    if k == "profile":
        d["shape"] = rface(rng)
        d["z"] = rng.choice([-1, -3, -7.25, 0, -4])
        d["stepdown"] = rng.choice([None, None, 1, 2, 2.5, 5])
        d["tabs"] = rtabs(rng) if d["z"] < -1.5 and rng.random() < .4 else None
        if rng.random() < .4:
            d["outer_offset"], d["inner_offset"] = rng.choice([(0, 0), (1.5, -1), (None, -1), (1, None), (-1, 1)])
            if d["inner_offset"] is not None and d["outer_offset"] is None and not d["shape"].get("holes"):
                d["outer_offset"] = 1
    elif k == "wires":
        d["wires"] = [rwire(rng) for _ in range(rng.randrange(1, 4))]
        d["z"] = rng.choice([-1, -3, 0, -2.5])
        d["offset"] = rng.choice([0, 0, 1, -1, .5])
        d["stepdown"] = rng.choice([None, 1, 2])
        d["tabs"] = rtabs(rng) if d["z"] < -1.5 and rng.random() < .3 else None
    elif k == "pocket":
        d["areas"] = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            size = rng.choice([8, 12, 14])
            d["areas"].append([rface(rng, size=size, holes=size > 10), rng.choice([-1, -2, -3.5, -5])])
        d["avoid"] = None
        if rng.random() < .3:
            d["avoid"] = [[rwire(rng, 5, ("rect", "circle")), 0]]
        d["stepdown"] = rng.choice([None, None, 1, 2, 1.5])
        d["stepover"] = rng.choice([None, .8, 1.2])
        d["job"]["tool_diameter"] = rng.choice([1, 1.5, 2])
        d["job"]["precision"] = rng.choice([1, 2])
    elif k == "drill":
        d["pts"] = [[round(rng.uniform(-20, 20), 3), round(rng.uniform(-20, 20), 3)] for _ in range(rng.randrange(1, 7))]
        d["depth"] = rng.choice([1, 3.5, 12, -4])
    elif k == "surface":
        d["w"], d["h"] = rng.choice([6, 8, 10]), rng.choice([6, 8])
        d["top"] = rng.choice([0, -.5])
        d["low"] = rng.choice([-3, -5])
        d["stepdown"] = rng.choice([None, -1, -2, -1.5])
        d["interp"] = rng.choice([.5, 1, 2])
        d["job"]["plane"] = None
    return d


def build(d, jb=None):
    """-> (job, commands of the operation)"""
    if jb is None:
        jb, pl = job(d["job"])
    else:
        pl = plane(d["job"].get("plane"))
    k = d["op"]
    if k == "profile":
        kw = {a: d[a] for a in ("outer_offset", "inner_offset") if a in d}
        new = jb.profile(face(d["shape"], d["z"], pl), stepdown=d["stepdown"], tabs=tabs(d["tabs"]), **kw)
    elif k == "wires":
        ws = [to_world(closed_wire(w, d["z"]), pl) for w in d["wires"]]
        new = jb.wire_profile(ws, offset=d["offset"], stepdown=d["stepdown"], tabs=tabs(d["tabs"]))
    elif k == "pocket":
        fs = [face(s, z, pl) for s, z in d["areas"]]
        av = None if not d["avoid"] else [face(s, z, pl) for s, z in d["avoid"]]
        kw = {a: d[a] for a in ("outer_offset", "inner_offset", "avoid_outer_offset", "avoid_inner_offset") if a in d}
        new = jb.pocket(fs, av, stepdown=d["stepdown"], stepover=d["stepover"], **kw)
    elif k == "drill":
        new = jb.drill([pl.toWorldCoords(tuple(p) + (d.get("z", 0),)) for p in d["pts"]], depth=d["depth"])
    elif k == "surface":
        ocl = ocl_stub()
        f = surface_face(d)
        ocl.height = height_fn(d)
        new = jb.surface3d(o=[f], tool=ocl.CylCutter(jb.tool_diameter or 2, 15), stepdown=d["stepdown"],
                           outer_boundary_offset=0, interpolation_step=d["interp"])
    else:
        raise KeyError(k)
    return new, new.operations[-1].commands


def height_fn(d):
    w, low, top = d["w"], d["low"], d["top"]
    wall = d.get("wall")

    def f(x, y):
        t = abs(x) / (w / 2)
        if wall is not None:
            return top if t > wall else low
        return low + (top - low) * min(t, 1.0)
    return f


def surface_face(d):
    """the flat floor of the surfaced area (the height comes from the drop cutter)"""
    w = {"t": "rect", "w": d["w"], "h": d["h"]}
    if d.get("poly"):
        w = {"t": "poly", "pts": d["poly"]}
    return cq.Face.makeFromWires(closed_wire(w, d["low"]), [])
