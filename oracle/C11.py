"""C11: contours routed directly with random depths, entry points and step-overs; real pockets."""
import math

import ops
import routed
import trace
from common import frac
from cq_cam import routers
from cq_cam.command import FeedRateCommand

RULE = "random sequences of closed contours routed with and without links, from known and unknown positions; non-trivial: two contours"


def dist_seg(p, a, b):
    (px, py), (ax, ay), (bx, by) = p, a, b
    l = (bx - ax) ** 2 + (by - ay) ** 2
    t = 0 if l == 0 else max(0, min(1, ((px - ax) * (bx - ax) + (py - ay) * (by - ay)) / l))
    return math.dist(p, (ax + t * (bx - ax), ay + t * (by - ay)))


def on_contour(p, pts):
    return min(dist_seg(p, a, b) for a, b in zip(pts, pts[1:]))


def param(p, pts):
    """length along the contour of a point on it"""
    s, best = 0.0, None
    for a, b in zip(pts, pts[1:]):
        d = dist_seg(p, a, b)
        if best is None or d < best[0] - 1e-9:
            best = (d, s + math.dist(p, a))
        s += math.dist(a, b)
    return best[1]


def check_contours(R, job, cmds, contours, step, prev):
    """contours: [(points, depth)] in the order they are to be routed"""
    i, pos = 0, prev
    last_end = None
    for k, (pts, z) in enumerate(contours):
        total = sum(math.dist(a, b) for a, b in zip(pts, pts[1:]))
        # the transition
        lifted = False
        while i < len(cmds) and not (isinstance(cmds[i], FeedRateCommand) and trace.moves(cmds[i], "xy")):
            lifted |= not isinstance(cmds[i], FeedRateCommand)
            i += 1
        R.check(i < len(cmds) or total == 0, "contour %d is not cut", k)
        if not lifted:
            c = cmds[i]
            R.check(k > 0, "the first contour is entered with a cut")
            d = math.dist((c.start.x, c.start.y), (c.end.x, c.end.y))
            R.check(step is not None and d <= step + 10 ** -job.precision + 1e-9,
                    "contour %d is entered through the material over a distance of %s, the step-over is %s", k, d, step)
            R.check(last_end is None or math.dist(last_end, (c.start.x, c.start.y)) < 1e-9, "the link %d starts elsewhere", k)
            R.near(c.end.z, z, "the link does not end at the depth of its contour", 1e-9)
            i += 1
            entry = (c.end.x, c.end.y)
        else:
            entry = (cmds[i].start.x, cmds[i].start.y)
            R.near(cmds[i].start.z, z, "contour %d is entered at another depth" % k, 1e-9)
        R.check(on_contour(entry, pts) < 1e-6, "the entry %s of contour %d is not on it", entry, k)
        # once around
        s, done, seen = 0.0, entry, []
        while i < len(cmds) and s < total - 1e-6 and isinstance(cmds[i], FeedRateCommand):
            c = cmds[i]
            p, q = (c.start.x, c.start.y), (c.end.x, c.end.y)
            R.check(abs(c.start.z - z) < 1e-9 and abs(c.end.z - z) < 1e-9, "a cut of contour %d (depth %s) goes to %s", k, z, c.end.z)
            m = ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)
            R.check(max(on_contour(x, pts) for x in (p, m, q)) < 1e-6, "a cut %s %s of contour %d is not on it", p, q, k)
            s += math.dist(p, q)
            seen.append((p, q))
            done = q
            i += 1
        R.check(abs(s - total) < 1e-6, "contour %d has length %s, %s of it is cut", k, total, s)
        R.check(math.dist(done, entry) < 1e-6, "contour %d is entered at %s and left at %s", k, entry, done)
        # every vertex is passed, in the cyclic order of the contour or its reverse
        for v in pts:
            R.check(any(dist_seg(v, p, q) < 1e-6 for p, q in seen), "vertex %s of contour %d is not passed", v, k)
        # zero length leftovers
        while i < len(cmds) and isinstance(cmds[i], FeedRateCommand) and not trace.moves(cmds[i], "xyz"):
            i += 1
        last_end = done
    R.check(i == len(cmds), "motion %d %s belongs to no contour", i, cmds[i] if i < len(cmds) else "")


def case_route(R, **d):
    job, cmds, (before, after) = routed.route(d)
    R.check(before == after, "the contours or the position given were modified")
    cs = [([tuple(p) for p in c["pts"]], c["z"]) for c in d["contours"]]
    if len(cs) < 2:
        R.trivial_case()
    check_contours(R, job, cmds, cs, d["step"], d["prev"])


def case_pocket(R, **d):
    """in a real pocket a cut between contours is never longer than the step-over, and contours are closed"""
    job, cmds = ops.build(d)
    groups = trace.paths(cmds)
    R.check(groups, "nothing is cut")
    if len(groups) < 2:
        R.trivial_case()
    for g in groups:
        cuts = [c for c in g if trace.moves(c, "xy")]
        if not cuts:
            continue
        # split the group into closed contours by following it until it closes
        j = 0
        first = True
        while j < len(cuts):
            if not first:
                c = cuts[j]
                l = math.dist((c.start.x, c.start.y), (c.end.x, c.end.y))
                so = (d["stepover"] or .5) * job.tool_radius
                R.check(l <= so + 10 ** -job.precision + 1e-6, "a link of %s, the step-over is %s", l, so)
                j += 1
                if j == len(cuts):
                    R.fail("a path ends with a link")
            e = (cuts[j].start.x, cuts[j].start.y)
            n = 0
            while j < len(cuts):
                q = (cuts[j].end.x, cuts[j].end.y)
                j += 1
                n += 1
                if math.dist(q, e) < 1e-9:
                    break
            else:
                R.fail("a contour entered at %s is not closed" % (e,))
            R.check(n >= 2, "a contour of %d cuts", n)
            first = False


def generate(R):
    rng = R.rng("C11")
    n = 3 if R.thorough else 1
    for _ in range(1500 * n):
        yield "route", routed.r_route(rng, ("contours",))
    for _ in range(60 * n):
        d = ops.rop(rng, ("pocket",))
        yield "pocket", d


def from_model(case, model):
    import random
    rng = random.Random(4)
    for _ in range(200):
        yield "route", routed.r_route(rng, ("contours",))
