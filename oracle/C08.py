"""C08: the levels cut by real profiles."""
import math
import ops
import trace
from cq_cam.operations.profile import profile
from cq_cam.tool import Tool

RULE = "random wires, depths, steps, offsets and planes; non-trivial: at least two levels"


def runs(cmds):
    """the cut paths: feed motions between two rapids, without the plunge"""
    out = []
    for p in trace.paths(cmds):
        q = [c for c in p]
        while q and not trace.moves(q[0], "xy"):
            q = q[1:]
        if q:
            out.append(q)
    return out


def shape_of(run):
    return [(round(p[0], 4), round(p[1], 4)) for p in trace.xy_points(run, 6)]


def expected(floor, step):
    return None


def check_profile(R, cmds, floor, step, nwires=None):
    """cmds: one or more wires of the same depth"""
    rs = runs(cmds)
    R.check(rs, "nothing is cut")
    # split into wires: a new wire begins where the height goes up again
    groups = []
    for r in rs:
        zs = {round(c.end.z, 6) for c in r}
        R.check(len(zs) == 1, "a level is cut at heights %s", zs)
        z = r[0].end.z
        if groups and z < groups[-1][-1][0] - 1e-6 and shape_of(r) == groups[-1][-1][2]:
            groups[-1].append((z, r, shape_of(r)))
        else:
            groups.append([(z, r, shape_of(r))])
    many = 0
    for g in groups:
        zs = [z for z, _, _ in g]
        R.near(zs[-1], floor, "the last level is not the profile depth (levels %s)" % zs, 1e-6)
        if not step:
            R.check(len(zs) == 1, "levels %s without a step", zs)
            continue
        prev = min(0.0, floor) if floor > -1e-9 else 0.0
        for z in zs:
            R.check(prev - z <= step + 2e-3, "level %s follows %s, more than the step %s", z, prev, step)
            R.check(z <= 1e-6 or floor > 0, "level %s is above the stock", z)
            prev = z
        many = max(many, len(zs))
        for z, r, s in g:
            p, q = r[0].start, r[-1].end
            R.check(math.dist((p.x, p.y), (q.x, q.y)) < 1e-3, "the level %s is not closed", z)
    if nwires is not None:
        R.check(len(groups) == nwires, "%d wires are cut at all their levels, wanted %d", len(groups), nwires)
    if many < 2:
        R.trivial_case()
    return groups


def case_profile(R, **d):
    job, cmds = ops.build(d)
    n = 0
    oo, io = d.get("outer_offset", 1), d.get("inner_offset", -1)
    if oo is not None:
        n += 1
    if io is not None:
        n += len(d["shape"].get("holes", []))
    check_profile(R, cmds, d["z"], d["stepdown"], n)


def case_wires(R, **d):
    job, cmds = ops.build(d)
    check_profile(R, cmds, d["z"], d["stepdown"], len(d["wires"]))


def case_whole(R, **d):
    """every level follows the whole wire: its length is the length of the offset wire"""
    job, pl = ops.job(d["job"])
    w = ops.closed_wire(d["wires"][0], d["z"])
    cmds = profile(job, ops.to_world(w, pl), 0, d["stepdown"])
    for g in check_profile(R, cmds, d["z"], d["stepdown"], 1):
        for z, r, s in g:
            pts = trace.xy_points(r, 200)
            ln = sum(math.dist(a, b) for a, b in zip(pts, pts[1:]))
            R.check(abs(ln - w.Length()) < 2e-3 * w.Length() + 1e-3, "level %s follows %s of %s", z, ln, w.Length())


def generate(R):
    rng = R.rng("C08")
    n = 3 if R.thorough else 1
    for i in range(420 * n):
        k = rng.choice(["profile", "wires", "whole"])
        d = ops.rop(rng, ("profile",) if k == "profile" else ("wires",))
        d["z"] = rng.choice([-1, -3, -7.25, -4, -0.5, 0, round(rng.uniform(-9, -.1), 3)])
        d["tabs"] = None
        d["stepdown"] = rng.choice([None, 1, 2, 2.5, 5, 0.3, 20])
        if k == "profile":
            d["job"]["tool_diameter"] = rng.choice([.5, 1])
            if d.get("outer_offset") == -1:
                d.pop("outer_offset"), d.pop("inner_offset")
        else:
            d["offset"] = rng.choice([0, 1, 2])
        if i % 6 == 0 and d["stepdown"] and d["stepdown"] < 5:      # a thin first pass, or many passes
            d["z"] = -round(d["stepdown"] * rng.choice([1, 2, 3, 4, 12]) + rng.choice([.01, .02, .05, .1]) * d["stepdown"] * rng.choice([1, -1]), 6)
        yield k, d


def from_model(case, model):
    import random
    rng = random.Random(3)

    class T:
        thorough = False

        @staticmethod
        def rng(*a):
            return rng
    for i, x in enumerate(generate(T)):
        if i > 60:
            break
        yield x
