"""C21: real surfacing operations over height functions (the drop cutter is a stand-in), cut at once and in steps."""
import copy
import math

import ops
import trace

ops.ocl_stub()
from cq_cam.operations.op3d import Surface3D  # noqa: E402

RULE = "random floors, height profiles and steps, and random sequences for the splitting function; non-trivial: at least two levels or two pieces"


def case_chop(R, seqs, last):
    seqs = [[tuple(p) for p in s] for s in seqs]
    before = copy.deepcopy(seqs)
    out = Surface3D._chop_sequences_by_depth(seqs, last)
    R.check(seqs == before, "the sequences were modified")
    want = []
    for s in seqs:
        run = []
        for p in s + [None]:
            if p is None or p[2] > last:
                if run:
                    want.append(run)
                run = []
            else:
                run.append(p)
    if len(want) < 2:
        R.trivial_case()
    R.check(out == want, "split into %s, the parts not above %s are %s", out, last, want)


def cuts(cmds):
    """the cut pieces: [[(x, y, z), ...]]"""
    out = []
    for p in trace.paths(cmds):
        cur = [(p[0].start.x, p[0].start.y, p[0].end.z)]
        R = [(c.end.x, c.end.y, c.end.z) for c in p[1:]]
        out.append(cur + R)
    return out


def levels_of(top, bottom, step):
    if not step:
        return [bottom]
    lv, k = [], 1
    while top + k * step > bottom + 1e-9:
        lv.append(top + k * step)
        k += 1
    return lv + [bottom]


def case_surface(R, **d):
    d = copy.deepcopy(d)
    _, flat = ops.build(dict(d, stepdown=None))
    ref = cuts(flat)
    h = ops.height_fn(d)
    pts = [p for s in ref for p in s]
    R.check(pts, "nothing is cut")
    for x, y, z in pts:
        R.near(z, max(d["low"], h(x, y)), "the path does not follow the surface", 1e-6)
    for s in ref:
        for a, b in zip(s, s[1:]):
            R.check(math.dist(a[:2], b[:2]) <= d["interp"] + 1e-6, "points %s %s are %s apart, the step is %s", a, b, math.dist(a[:2], b[:2]), d["interp"])
    job, cmds = ops.build(d)
    lv = levels_of(0, d["low"], d["stepdown"])
    if len(lv) < 2:
        R.trivial_case()
    got = cuts(cmds)
    want = []
    for i, l in enumerate(lv):
        lim = lv[i - 2] if i > 1 else 0
        for s in ref:
            run = []
            for p in s + [None]:
                if p is None or p[2] > lim + 1e-9:
                    if run:
                        want.append(run)
                    run = []
                else:
                    run.append((p[0], p[1], max(l, p[2])))
    R.check(len(got) == len(want), "%d pieces are cut, %d are wanted", len(got), len(want))
    for g, w in zip(got, want):
        R.check(len(g) == len(w) and all(math.dist(a, b) < 1e-6 for a, b in zip(g, w)), "the piece %s is cut, %s is wanted", g[:4], w[:4])
    # what the plan gives: every point ends at its height, by at most one step at a time
    last = {}
    for g in got:
        for x, y, z in g:
            k = (round(x, 6), round(y, 6))
            if d["stepdown"]:
                R.check(last.get(k, 0) - z <= abs(d["stepdown"]) + 1e-9, "point %s is lowered from %s to %s", k, last.get(k, 0), z)
            last[k] = min(z, last.get(k, 0))
    for x, y, z in pts:
        if z <= 0:
            R.near(last[(round(x, 6), round(y, 6))], z, "after the last level the point is not at its height", 1e-6)


def generate(R):
    rng = R.rng("C21")
    n = 3 if R.thorough else 1
    for _ in range(300 * n):
        q = lambda: round(rng.choice([rng.uniform(-6, 1), rng.choice([0, -1, -2])]), 2)
        yield "chop", {"seqs": [[[i, k, q()] for i in range(rng.randrange(0, 9))] for k in range(rng.randrange(0, 4))], "last": rng.choice([0, -1, -2, q()])}
    for _ in range(6 * n):
        yield "chop", {"seqs": [[[i, k, q()] for i in range(rng.randrange(50, 300))] for k in range(rng.randrange(3, 9))], "last": rng.choice([0, -1, -2, q()])}
    for _ in range(80 * n):
        d = ops.rop(rng, ("surface",))
        d["stepdown"] = rng.choice([-1, -2, -1.5, -.7, -10, -1.25, None])
        if rng.random() < .5:
            d["wall"] = rng.choice([.3, .55, .8])
        yield "surface", d


def from_model(case, model):
    import random

    class Q:
        thorough = False

        def rng(self, *a):
            return random.Random(5)
    for i, x in enumerate(generate(Q())):
        yield x
