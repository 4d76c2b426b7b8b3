"""C14: random hole positions (points, wires, faces) drilled in random planes."""
import math

import cadquery as cq
import ops
import trace
from common import frac
from cq_cam.command import FeedRateCommand, RapidCommand

RULE = "random points, circle wires and faces (with and without holes) in random job planes and depths; non-trivial: two holes or a plane other than XY"


def local(pl, p):
    d = [a - b for a, b in zip(p, pl.origin.toTuple())]
    return [sum(a * b for a, b in zip(d, v.toTuple())) for v in (pl.xDir, pl.yDir, pl.zDir)]


def check_drill(R, job, cmds, holes, depth):
    z0 = -abs(depth)
    pos = [None, None, None]
    done = []
    for i, c in enumerate(cmds):
        s = list(pos)
        for k, a in enumerate("xyz"):
            v = getattr(c.end, a)
            if v is not None:
                pos[k] = v
        moved = any(pos[k] is not None and (s[k] is None or abs(pos[k] - s[k]) > 1e-9) for k in (0, 1))
        if isinstance(c, FeedRateCommand):
            R.check(not moved and s[2] is not None, "motion %d %s cuts sideways", i, c)
            R.check(pos[2] >= z0 - 1e-9, "motion %d goes to %s, the depth is %s", i, pos[2], z0)
            if abs(pos[2] - z0) < 1e-9 and s[2] > z0 + 1e-9:
                done.append((pos[0], pos[1]))
        else:
            R.check(isinstance(c, RapidCommand), "unknown motion %s", c)
            if moved:
                R.check(s[2] is not None and s[2] >= job.op_safe_height - 1e-9 and pos[2] >= job.op_safe_height - 1e-9,
                        "motion %d moves to %s at height %s", i, pos[:2], s[2])
            # above a hole just made the tool may go down rapidly again (a peck), elsewhere not below the surface
            peck = done and s[0] is not None and math.dist(done[-1], (pos[0], pos[1])) < 1e-9
            R.check(pos[2] is None or pos[2] >= -1e-9 or (peck and pos[2] >= z0 - 1e-9), "rapid %d to %s", i, pos[2])
        if not moved:
            continue
    left = list(holes)
    for d in done:
        j = [k for k, h in enumerate(left) if math.dist(h, d) < 1e-6]
        R.check(j, "a hole is drilled at %s, which is not one of the positions left %s", d, left[:6])
        left.pop(j[0])
    R.check(not left, "the holes %s are not drilled", left)


def case_points(R, pts, depth, job):
    jb, pl = ops.job(job)
    holes = [tuple(local(pl, p)[:2]) for p in pts]
    if len(pts) < 2:
        R.trivial_case()
    vs = [cq.Vector(*p) for p in pts]
    before = [v.toTuple() for v in vs]
    new = jb.drill(vs if len(vs) > 1 or depth > 2 else vs[0], depth=depth)
    R.check([v.toTuple() for v in vs] == before, "the points given were modified")
    check_drill(R, new, new.operations[-1].commands, holes, depth)


def case_shapes(R, shapes, depth, job, wp):
    jb, pl = ops.job(job)
    objs, holes = [], []
    for s in shapes:
        if s["kind"] == "wire":
            objs.append(ops.to_world(ops.closed_wire(s["w"], s["z"]), pl))
            holes.append(tuple(s["w"]["at"]))
        elif s["kind"] == "face":
            objs.append(ops.face(s["w"], s["z"], pl))
            holes += [tuple(h["at"]) for h in s["w"]["holes"]] if s["w"].get("holes") else [tuple(s["w"]["at"])]
        else:
            objs.append(pl.toWorldCoords(tuple(s["w"]["at"]) + (s["z"],)))
            holes.append(tuple(s["w"]["at"]))
    if len(holes) < 2:
        R.trivial_case()
    o = cq.Workplane().newObject(objs) if wp else objs
    new = jb.drill(o, depth=depth)
    check_drill(R, new, new.operations[-1].commands, holes, depth)


def generate(R):
    rng = R.rng("C14")
    n = 4 if R.thorough else 1
    for _ in range(400 * n):
        k = rng.choice([1, 2, 3, 5, 8, 14])
        pts = [[round(rng.uniform(-40, 40), 3), round(rng.uniform(-40, 40), 3), rng.choice([0, 0, 1.5, -2])] for _ in range(k)]
        if rng.random() < .4:      # a grid: many equal distances
            s = rng.choice([5, 10])
            pts = [[s * i, s * j, 0] for i in range(rng.randrange(1, 5)) for j in range(rng.randrange(1, 4))]
            rng.shuffle(pts)
        if rng.random() < .15:
            pts.append(list(pts[0]))
        yield "points", {"pts": pts, "depth": rng.choice([1, 3.5, 12, -4, 0.25]), "job": ops.rjob(rng)}
    for _ in range(150 * n):
        shapes = []
        for _ in range(rng.randrange(1, 5)):
            kind = rng.choice(["wire", "face", "face", "point"])
            at = [round(rng.uniform(-40, 40), 2), round(rng.uniform(-40, 40), 2)]
            w = {"t": rng.choice(["circle", "circle", "rect"]), "r": rng.choice([1, 2.5]), "w": 12, "h": 9, "at": at}
            if kind == "face" and rng.random() < .6:
                w = {"t": "rect", "w": 14, "h": 12, "at": at, "holes": [
                    {"t": "circle", "r": 1, "at": [at[0] - 4 + 3 * j, at[1] + rng.choice([-2, 0, 3])]} for j in range(rng.randrange(1, 4))]}
            shapes.append({"kind": kind, "w": w, "z": rng.choice([0, 0, -1])})
        yield "shapes", {"shapes": shapes, "depth": rng.choice([1, 3.5, -4]), "job": ops.rjob(rng),
                         "wp": rng.random() < .3}

    for k in (40, 130, 300):     # many holes
        yield "points", {"pts": [[round(rng.uniform(-90, 90), 3), round(rng.uniform(-90, 90), 3), 0] for _ in range(k)],
                         "depth": 2, "job": ops.rjob(rng)}
    for k in (5, 9, 12):
        w = {"t": "rect", "w": 200, "h": 200, "at": [3, 4], "holes": [
            {"t": "circle", "r": rng.choice([1, 1.5, 2]), "at": [3 + 14 * (i - (k - 1) / 2), 4 + 14 * (j - (k - 1) / 2)]}
            for i in range(k) for j in range(k)]}
        yield "shapes", {"shapes": [{"kind": "face", "w": w, "z": 0}], "depth": 2, "job": ops.rjob(rng), "wp": False}


def from_model(case, model):
    import random
    rng = random.Random(5)

    class T:
        thorough = False

        @staticmethod
        def rng(*a):
            return rng
    yield from generate(T)
