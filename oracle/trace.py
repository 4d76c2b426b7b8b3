"""Independent simulation of a list of motions, from their values and from their text."""
import math
from common import parse_words
from cq_cam.command import Circular, CircularCW, FeedRateCommand, PlungeCut, RapidCommand

AX = "xyz"


def pt(v):
    return (v.x, v.y, v.z)


def same(a, b, tol=1e-9):
    return (a is None and b is None) or (a is not None and b is not None and abs(a - b) <= tol)


def moves(c, axes, tol=1e-9):
    """does the motion travel along one of the axes (an unknown start counts as travel when it is given an end)"""
    for a in axes:
        s, e = getattr(c.start, a), getattr(c.end, a)
        if e is None or (s is not None and abs(s - e) <= tol):
            continue
        return True
    return False


def continuous(R, cmds, start=None, what=""):
    """each motion starts where the previous one ended (unknown starts are allowed only before a motion
    that does not depend on them)"""
    pos = [None, None, None] if start is None else list(start)
    tpos = [None, None, None]
    for i, c in enumerate(cmds):
        for k, a in enumerate(AX):
            s, e = getattr(c.start, a), getattr(c.end, a)
            if s is not None:
                R.check(pos[k] is None or abs(s - pos[k]) <= 1e-6,
                        "%smotion %d (%s) starts at %s=%s, the tool is at %s", what, i, c, a, s, pos[k])
            elif isinstance(c, Circular):
                R.fail(f"{what}arc {i} has no start")
            if e is not None:
                pos[k] = e
        # the text
        words = {l: float(v) for l, v, _ in parse_words(R, str(c))}
        for k, L in enumerate("XYZ"):
            if L in words:
                e = getattr(c.end, AX[k])
                R.check(e is not None and abs(words[L] - e) <= 5.1e-4, "%smotion %d text %s, end %s", what, i, c, pt(c.end))
        if isinstance(c, Circular):
            for k, L in enumerate("IJ"):
                cc = getattr(c.center, AX[k])
                if cc is None or L not in words:
                    continue
                R.check(tpos[k] is not None and abs(words[L] + tpos[k] - cc) <= 1.1e-3,
                        "%sarc %d: centre written %s=%s from %s, the centre is at %s", what, i, L, words[L], tpos[k], cc)
            r0 = math.dist((c.start.x, c.start.y), (c.center.x, c.center.y))
            r1 = math.dist((c.end.x, c.end.y), (c.center.x, c.center.y))
            R.check(abs(r0 - r1) <= 1e-4 * max(1, r0), "%sarc %d: start and end are %s and %s from the centre", what, i, r0, r1)
        for k, L in enumerate("XYZ"):
            if L in words:
                tpos[k] = words[L]
            if pos[k] is not None:
                R.check(tpos[k] is not None and abs(tpos[k] - pos[k]) <= 1.1e-3,
                        "%safter motion %d the text is at %s, the motions at %s", what, i, tpos, pos)
    return pos


def safe(R, cmds, job, kind, first=True):
    """rapids only travel at or above the safe height and never descend below it"""
    hs, hr = job.op_safe_height, job.rapid_height
    low = min(hs, hr) - 1e-9
    if first and cmds:
        c = cmds[0]
        R.check(isinstance(c, RapidCommand) and not moves(c, "xy") and c.end.z is not None,
                "the first motion is %s", c)
        R.check(abs(c.end.z - (hs if kind == "drill" else hr)) <= 1e-9, "the first motion goes to %s", c.end.z)
    for i, c in enumerate(cmds):
        if not isinstance(c, RapidCommand):
            continue
        if moves(c, "xy"):
            R.check(c.end.z is not None and c.end.z >= low and (c.start.z is None or c.start.z >= low),
                    "motion %d %s is a rapid in X or Y from z=%s to z=%s below %s", i, c, c.start.z, c.end.z, low)
            R.check(c.start.z is not None or i == 0 or cmds[i - 1].end.z is not None, "rapid %d at an unknown height", i)
        elif c.end.z is not None:
            if kind == "drill":
                R.check(c.end.z >= min(0, low) - 1e-9, "rapid %d goes to z=%s", i, c.end.z)
            else:
                R.check(c.end.z >= low, "rapid %d %s goes below the safe height %s", i, c, low)


def feeds(R, cmds, job):
    seen = False
    for i, c in enumerate(cmds):
        if not isinstance(c, FeedRateCommand):
            R.check(isinstance(c, RapidCommand), "unknown motion %r", c)
            R.check("F" not in str(c), "a rapid with a feed: %s", c)
            continue
        down = not moves(c, "xy") and c.start.z is not None and c.end.z < c.start.z - 1e-6
        want = job.plunge_feed if down else job.feed
        if isinstance(c, PlungeCut) and not down:
            want = c.feed if c.feed in (job.feed, job.plunge_feed) else want
        R.check(c.feed is not None or not (seen is False), "the first cutting motion %s has no feed", c)
        R.check(c.feed == want, "motion %d %s from %s is cut at feed %s, wanted %s", i, c, pt(c.start), c.feed, want)
        R.check(f"F{want}" in str(c).split(), "motion %d %s does not carry the feed %s", i, c, want)
        seen = True


def paths(cmds):
    """groups of consecutive feed motions: [(start point, [motions])]"""
    out, cur = [], None
    for c in cmds:
        if isinstance(c, FeedRateCommand):
            if cur is None:
                cur = []
                out.append(cur)
            cur.append(c)
        else:
            cur = None
    return out


def arc_points(c, n=12):
    """points along an arc, computed from its start, end, centre and turning direction only"""
    cx, cy = c.center.x, c.center.y
    r = math.dist((c.start.x, c.start.y), (cx, cy))
    a0 = math.atan2(c.start.y - cy, c.start.x - cx)
    a1 = math.atan2(c.end.y - cy, c.end.x - cx)
    cw = isinstance(c, CircularCW)
    d = a1 - a0
    if cw:
        while d >= -1e-9:
            d -= 2 * math.pi
    else:
        while d <= 1e-9:
            d += 2 * math.pi
    out = []
    for i in range(n + 1):
        t = i / n
        out.append((cx + r * math.cos(a0 + d * t), cy + r * math.sin(a0 + d * t),
                    c.start.z + (c.end.z - c.start.z) * t))
    return out


def xy_points(cmds, n=12):
    """the plane points passed by a run of feed motions, in order"""
    out = []
    for c in cmds:
        if isinstance(c, Circular):
            out += [p[:2] for p in arc_points(c, n)]
        else:
            out.append((c.start.x, c.start.y))
            out.append((c.end.x, c.end.y))
    res = []
    for p in out:
        if p[0] is None or p[1] is None:
            continue
        if not res or math.dist(res[-1], p) > 1e-9:
            res.append(p)
    return res
