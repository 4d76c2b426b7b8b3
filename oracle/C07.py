"""C07: the levels cut by real pockets, and apply_stepdown called directly."""
import math
import ops
import trace
from common import frac
from cq_cam.operations.pocket import apply_stepdown
from cq_cam.utils.geometry_op import PathFace

RULE = "random pockets (one face, several steps) and random sequences with random depths and steps; non-trivial: at least two levels"


def levels_of(cmds):
    """[(z, [plane points])] of the cut paths, in order; a path is cut at one height"""
    out = []
    for p in trace.paths(cmds):
        # a group of feed motions begins with the plunge
        cuts = [c for c in p if trace.moves(c, "xy")]
        for c in cuts:
            if out and out[-1][0] == c.end.z and out[-1][2] is p:
                out[-1][1].append((c.end.x, c.end.y))
            else:
                out.append((c.end.z, [(c.start.x, c.start.y), (c.end.x, c.end.y)], p))
    return [(z, pts) for z, pts, _ in out]


def check_levels(R, zs, floor, step, start=0.0):
    """the heights of the contours in the order cut"""
    R.check(zs, "nothing is cut")
    R.near(min(zs), floor, "the deepest cut is not the floor", 1e-6)
    lv = [zs[0]]
    for z in zs[1:]:
        R.check(z <= lv[-1] + 1e-9, "level %s is cut after the deeper level %s", z, lv[-1])
        if z < lv[-1] - 1e-9:
            lv.append(z)
    R.near(lv[-1], floor, "the last level is not the floor", 1e-6)
    if not step:
        R.check(len(lv) == 1, "levels %s without a step", lv)
        return lv
    prev = start
    for z in lv:
        R.check(prev - z <= step + 1e-9, "level %s follows %s, more than the step %s", z, prev, step)
        prev = z
    return lv


def case_pocket(R, **d):
    job, cmds = ops.build(d)
    z = d["areas"][0][1]
    lv = levels_of(cmds)
    got = check_levels(R, [l[0] for l in lv], z, d["stepdown"])
    if len(got) < 2:
        R.trivial_case()
    # every level cuts the same contours
    per = {}
    for h, pts in lv:
        per.setdefault(round(h, 5), set()).add(frozenset((round(x, 6), round(y, 6)) for x, y in pts))
    ref = per[round(z, 5)]
    for h, cs in per.items():
        R.check(cs == ref, "level %s cuts other contours than the floor", h)


def case_step(R, start, end, step, shapes):
    seqs = [[PathFace([(float(i), float(j)), (i + 1.0, j), (i, j + 1.0), (float(i), float(j))], [[(9., 9.), (8., 8.), (9., 9.)]] if inner else [], end)
             for j, inner in enumerate(s)] for i, s in enumerate(shapes)]
    before = [[(list(p.outer), [list(q) for q in p.inners], p.depth) for p in s] for s in seqs]
    out = apply_stepdown(seqs, start, step)
    R.check(before == [[(list(p.outer), [list(q) for q in p.inners], p.depth) for p in s] for s in seqs],
            "apply_stepdown modified the sequences it was given")
    R.check(len(out) % len(seqs) == 0, "%d stepped sequences of %d", len(out), len(seqs))
    n = len(out) // len(seqs)
    if n < 2:
        R.trivial_case()
    prev = 0.0 if start is None else start
    top = prev
    for k in range(n):
        lv = out[k * len(seqs):(k + 1) * len(seqs)]
        zs = {p.depth for s in lv for p in s}
        R.check(len(zs) == 1, "level %d has depths %s", k, zs)
        z = zs.pop()
        R.check(z < prev + 1e-9 and prev - z <= step + 1e-9, "level %s after %s with step %s", z, prev, step)
        R.check(z >= end - 1e-9, "level %s is deeper than the floor %s", z, end)
        R.check([[list(map(tuple, p.outer)) for p in s] for s in lv] == [[p[0] for p in s] for s in before],
                "level %s cuts other contours", z)
        prev = z
    R.check(prev - end <= step + 1e-9, "the floor %s is more than one step %s below %s", end, step, prev)


def generate(R):
    rng = R.rng("C07")
    n = 3 if R.thorough else 1
    for _ in range(400 * n):
        end = rng.choice([-1, -3, -10, -0.5, round(rng.uniform(-20, -.01), 3)])
        start = rng.choice([None, None, round(rng.uniform(end, 0), 2), end])
        step = rng.choice([1, 0.5, 0.1, 3, 50, 0.7, round(rng.uniform(.05, 5), 3)])
        if ((start or 0) - end) / step > 300:
            step = ((start or 0) - end) / 50
        yield "step", {"start": start, "end": end, "step": step,
                       "shapes": [[rng.randrange(2) for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(1, 4))]}
    for _ in range(160 * n):
        d = ops.rop(rng, ("pocket",))
        d["areas"] = d["areas"][:1]
        d["areas"][0][1] = rng.choice([-1, -2, -3.5, -5, -0.75])
        d["avoid"] = None
        d["stepdown"] = rng.choice([None, 1, 2, .5, 10, .3])
        yield "pocket", d

    for _ in range(8 * n):      # many levels, sequences and contours
        yield "step", {"start": rng.choice([None, -1.5]), "end": round(rng.uniform(-60, -20), 2), "step": rng.choice([.5, .25, .75]),
                       "shapes": [[rng.randrange(2) for _ in range(rng.randrange(1, 25))] for _ in range(rng.randrange(4, 14))]}
    for _ in range(40 * n):     # a remainder that is only just more than nothing
        step = rng.choice([1, .5, .7, 2])
        yield "step", {"start": rng.choice([None, -step]), "end": -round(step * rng.randrange(2, 9) + rng.choice([1e-3, 5e-3, .02, .1 * step]), 6), "step": step,
                       "shapes": [[rng.randrange(2) for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(1, 4))]}


def from_model(case, model):
    m = {k: frac(v) for k, v in model.items()}
    end = m.get("end") if m.get("end") is not None else -3.0
    step = m.get("step") if m.get("step") else 1.0
    for start in (None, m.get("start")):
        for e in (end, -abs(end), -3.0):
            for s in (step, 1.0, 0.7):
                if s > 0 and (0 if start is None else start) - e < 300 * s:
                    yield "step", {"start": start, "end": e, "step": s, "shapes": [[0, 0], [0]]}
