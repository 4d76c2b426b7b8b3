"""C12: single edges (whole and in part, either orientation) and wires of edges."""
import math

import cadquery as cq
import ops
import routed
import trace
from cq_cam import routers
from cq_cam.command import Circular, Cut, FeedRateCommand
from cq_cam.utils.utils import wire_to_ordered_edges
from OCP.TopAbs import TopAbs_REVERSED
from OCP.BRepTools import BRepTools_WireExplorer

RULE = "random lines, arcs, circles, splines and offset curves, reversed or not, whole or in part; random closed and open wires; non-trivial: curved or more than one edge"


def ordered(wire):
    ex = BRepTools_WireExplorer(wire.wrapped)
    out = []
    while not ex.Current().IsNull():
        out.append(cq.Edge(ex.Current()))
        ex.Next()
    return out


def bounds(edge):
    """parameters at the start and the end in the edge's own direction"""
    a, b = edge._bounds()
    return (b, a) if edge.wrapped.Orientation() == TopAbs_REVERSED else (a, b)


def pts_of(edge, a, b, n):
    ad = edge._geomAdaptor()
    out = []
    for i in range(n + 1):
        p = ad.Value(a + (b - a) * i / n)
        out.append((p.X(), p.Y(), p.Z()))
    return out


def dist_seg3(p, a, b):
    d = [y - x for x, y in zip(a, b)]
    l = sum(x * x for x in d)
    t = 0 if l == 0 else max(0, min(1, sum((x - y) * z for x, y, z in zip(p, a, d)) / l))
    return math.dist(p, [x + t * y for x, y in zip(a, d)])


def sample(c, n=160):
    return trace.arc_points(c, n) if isinstance(c, Circular) else [trace.pt(c.start), trace.pt(c.end)]


def follows(R, cmds, curve, tol, what):
    """the motions run along the curve (dense points), in its order, and cover it"""
    path = []
    for c in cmds:
        path += sample(c)
    R.check(path, "%s: nothing is cut", what)
    j, m = 0, len(curve)
    for p in path:
        best = None
        for k in range(j, m - 1):
            d = dist_seg3(p, curve[k], curve[k + 1])
            if best is None or d < best[0] - 1e-12:
                best = (d, k)
            if best[0] <= tol and d > 4 * tol + best[0]:
                break
        if best is None:
            best = (math.dist(p, curve[-1]), j)
        R.check(best[0] <= tol, "%s: the motion passes %s, %s away from the rest of the curve", what, p, best[0])
        j = best[1]
    for q in curve[:: max(1, m // 40)]:
        d = min((dist_seg3(q, a, b) for a, b in zip(path, path[1:])), default=math.dist(q, path[0]))
        R.check(d <= tol, "%s: the point %s of the curve is not cut (%s away)", what, q, d)


def make_edge(d):
    t, z = d["t"], d["z"]
    if t == "line":
        e = cq.Edge.makeLine(cq.Vector(*d["a"], z), cq.Vector(*d["b"], d.get("z2", z)))
    elif t == "arc":
        r, (x, y), a, s = d["r"], d["at"], d["ang"], d["span"]
        f = lambda u: cq.Vector(x + r * math.cos(u), y + r * math.sin(u), z)
        e = cq.Edge.makeThreePointArc(f(a), f(a + s / 2), f(a + s))
    elif t == "circle":
        e = cq.Edge.makeCircle(d["r"], cq.Vector(*d["at"], z), cq.Vector(0, 0, d["n"]), 0, 360)
        if d.get("turn"):
            e = e.rotate(cq.Vector(*d["at"], z), cq.Vector(*d["at"], z + 1), d["turn"])
    elif t == "spline":
        e = cq.Edge.makeSpline([cq.Vector(*p, z) for p in d["pts"]], periodic=d.get("periodic", False))
    elif t == "offset":
        w = cq.Wire.assembleEdges([cq.Edge.makeSpline([cq.Vector(*p, z) for p in d["pts"]], periodic=True)])
        es = [x for o in w.offset2D(d["off"], "arc") for x in ordered(o)]
        e = es[d.get("pick", 0) % len(es)]
    if d.get("rev"):
        e = cq.Edge(e.wrapped.Reversed())
    if d.get("loc"):
        e = e.moved(cq.Location(cq.Vector(*d["loc"])))
    return e


def check_edge(R, edge, cmds, end, feed, precision, a, b, whole=True):
    kind = edge.geomType()
    n = 16 if kind == "LINE" else 240
    curve = pts_of(edge, a, b, n)
    length = sum(math.dist(p, q) for p, q in zip(curve, curve[1:]))
    R.check(cmds, "nothing is cut")
    R.near(0, math.dist(trace.pt(cmds[0].start), curve[0]), "the cut starts at %s, the edge at %s" % (trace.pt(cmds[0].start), curve[0]), 2e-5)
    R.near(0, math.dist(trace.pt(cmds[-1].end), curve[-1]), "the cut ends at %s, the edge at %s" % (trace.pt(cmds[-1].end), curve[-1]), 2e-5)
    if end is not None:
        R.near(0, math.dist(end.toTuple(), curve[-1]), "the end returned is %s" % (end.toTuple(),), 2e-5)
    for p, q in zip(cmds, cmds[1:]):
        R.check(math.dist(trace.pt(p.end), trace.pt(q.start)) < 1e-9, "the motions are not connected")
    if feed is not None:
        R.check(all(isinstance(c, FeedRateCommand) and c.feed == feed for c in cmds), "a motion is not cut at the feed given")
    if kind == "LINE":
        R.check(len(cmds) == 1 and type(cmds[0]) is Cut, "a line is cut with %s", cmds)
        return
    if kind in ("CIRCLE", "ARC"):
        if length > 1e-4:
            R.check(all(isinstance(c, Circular) for c in cmds), "an arc is cut with %s", [type(c).__name__ for c in cmds])
            cc = edge.arcCenter().toTuple()
            for c in cmds:
                R.check(math.dist((c.center.x, c.center.y), cc[:2]) < 1e-6, "the centre of the arc is %s, written as %s", cc, trace.pt(c.center))
                R.near(0, min(math.dist(trace.pt(c.mid), p) for p in curve), "the middle of an arc is not on the edge", length / 100)
            if edge.IsClosed() and whole:
                R.check(len(cmds) == 2, "a full circle is cut in %d arcs", len(cmds))
        follows(R, cmds, curve, 5e-4 * max(.05, edge.radius()), kind)
        return
    R.check(all(type(c) is Cut for c in cmds), "chords are cut with %s", [type(c).__name__ for c in cmds])
    # chords of about the precision: the deviation is below it
    follows(R, cmds, curve, 1.5 * 10 ** -precision, kind)
    longest = max(math.dist(trace.pt(c.start), trace.pt(c.end)) for c in cmds)
    R.check(longest <= 3 * 10 ** -precision * max(1, 2 / max(1e-9, length * 10 ** precision)) or len(cmds) <= 2, "a chord of %s", longest)


def case_edge(R, edge, precision, feed, part, arrow):
    e = make_edge(edge)
    a, b = bounds(e)
    kw = {}
    if part[0] is not None:
        kw["start_p"] = a + (b - a) * part[0]
    if part[1] is not None:
        kw["end_p"] = a + (b - a) * part[1]
    before = (e.wrapped.Orientation(), e.startPoint().toTuple(), e.endPoint().toTuple(), e.Length())
    cmds, end = routers.route_edge(e, precision, arrow=arrow, feed=feed, **kw)
    R.check(before == (e.wrapped.Orientation(), e.startPoint().toTuple(), e.endPoint().toTuple(), e.Length()), "the edge was modified")
    if e.geomType() == "LINE":
        R.trivial_case()
    check_edge(R, e, cmds, end, feed, precision, kw.get("start_p", a), kw.get("end_p", b), whole=not kw)


def case_wire(R, wire, z, rev, precision, order, job):
    """a wire on its own: edge after edge"""
    jb, _ = ops.job(dict(job, plane=None, precision=precision))
    w = ops.closed_wire(wire, z) if wire["t"] != "open" else cq.Wire.assembleEdges(
        [cq.Edge.makeLine(cq.Vector(*p, z), cq.Vector(*q, z)) for p, q in zip(wire["pts"], wire["pts"][1:])])
    if rev:
        w = cq.Wire(w.wrapped.Reversed())
    edges = ordered(w)
    got = wire_to_ordered_edges(w)
    R.check([x.hashCode() for x in got] == [x.hashCode() for x in edges] and all(
        x.wrapped.Orientation() == y.wrapped.Orientation() for x, y in zip(got, edges)), "the edges are not those of the wire explorer")
    cmds = routers.route_wires(jb, [w])
    cuts = list(cmds)
    while cuts and not (isinstance(cuts[0], FeedRateCommand) and trace.moves(cuts[0], "xy")):
        cuts.pop(0)
    if wire["t"] == "circle" and not cuts:
        R.fail("nothing is cut")
    # group the cuts edge by edge: chords of an edge end at the edge's end
    i = 0
    for k, e in enumerate(edges):
        a, b = bounds(e)
        kind = e.geomType()
        if kind == "LINE":
            m = 1
        elif kind in ("CIRCLE", "ARC"):
            m = 2 if e.IsClosed() else 1
        else:
            m, endp = 0, pts_of(e, a, b, 1)[-1]
            L = 0.0
            while i + m < len(cuts) and (L < .9 * e.Length() or math.dist(trace.pt(cuts[i + m - 1].end), endp) > 1e-7):
                L += math.dist(trace.pt(cuts[i + m].start), trace.pt(cuts[i + m].end))
                m += 1
        part = cuts[i:i + m]
        R.check(len(part) == m, "edge %d of %d is not cut", k, len(edges))
        check_edge(R, e, part, None, jb.feed, precision, a, b)
        i += m
    R.check(i == len(cuts), "%d cuts of %d belong to no edge", len(cuts) - i, len(cuts))
    if len(edges) < 2:
        R.trivial_case()


def case_linked(R, **d):
    """wires entered midway: each is cut once around from its entry"""
    job, cmds, (before, after) = routed.route(d)
    R.check(before == after, "the wires or the position given were modified")
    ws = routed.wires_of(d)
    if len(ws) < 2:
        R.trivial_case()
    i = 0
    for k, w in enumerate(ws):
        L = w.Length()
        closed = w.IsClosed()
        lifted = False
        while i < len(cmds) and not (isinstance(cmds[i], FeedRateCommand) and trace.moves(cmds[i], "xy")):
            lifted |= not isinstance(cmds[i], FeedRateCommand)
            i += 1
        R.check(i < len(cmds), "wire %d is not cut", k)
        if not lifted:
            c = cmds[i]
            dd = math.dist(trace.pt(c.start), trace.pt(c.end))
            R.check(k > 0 and d["step"] is not None and dd <= d["step"] + 1e-6, "wire %d is entered through the material over %s (step-over %s)", k, dd, d["step"])
            R.check(closed, "an open wire is entered midway")
            entry = trace.pt(c.end)
            i += 1
        else:
            entry = trace.pt(cmds[i].start)
            e0 = w if isinstance(w, cq.Edge) else ordered(w)[0]
            R.near(0, math.dist(entry, pts_of(e0, *bounds(e0), 1)[0]), "wire %d is not entered at its start" % k, 1e-5)
        edges = [w] if isinstance(w, cq.Edge) else ordered(w)
        dense = [pts_of(e, *bounds(e), 1 if e.geomType() == "LINE" else 160) for e in edges]
        tol = 1.5 * 10 ** -job.precision + 1e-3
        s, pos = 0.0, entry
        seen = []
        while i < len(cmds) and isinstance(cmds[i], FeedRateCommand) and s < L - .02 * L - 1e-6 or (
                i < len(cmds) and isinstance(cmds[i], FeedRateCommand) and closed and math.dist(pos, entry) > 1e-6 and s < 1.05 * L):
            c = cmds[i]
            pp = sample(c, 24)
            for p in pp[1:]:
                dd = min(dist_seg3(p, a, b) for cu in dense for a, b in zip(cu, cu[1:])) if s == 0 or len(cmds) < 60 or i % 7 == 0 else 0
                R.check(dd < tol + .002 * L, "wire %d: the cut passes %s, %s away from it", k, p, dd)
            s += sum(math.dist(a, b) for a, b in zip(pp, pp[1:]))
            seen += pp
            pos = trace.pt(c.end)
            i += 1
        R.check(abs(s - L) < .01 * L + 1e-6, "wire %d is %s long, %s of it is cut", k, L, s)
        if closed:
            R.check(math.dist(pos, entry) < 1e-4, "wire %d is entered at %s and left at %s", k, entry, pos)
        for cu in dense:
            for q in (cu[0], cu[len(cu) // 2]):
                dd = min(dist_seg3(q, a, b) for a, b in zip(seen, seen[1:]))
                R.check(dd < tol + .003 * L, "wire %d: the point %s is not cut (%s away)", k, q, dd)
        while i < len(cmds) and isinstance(cmds[i], FeedRateCommand) and not trace.moves(cmds[i], "xyz", 1e-7):
            i += 1
    R.check(i == len(cmds), "motion %d belongs to no wire", i)


def redge(rng):
    q = lambda: round(rng.uniform(-20, 20), 3)
    t = rng.choice(["line", "arc", "arc", "circle", "spline", "offset", "line"])
    d = {"t": t, "z": rng.choice([0, -1, -2.5]), "rev": rng.random() < .5}
    if rng.random() < .3:
        d["loc"] = [q(), q(), rng.choice([0, -1])]
    if t == "line":
        d["a"], d["b"] = [q(), q()], [q(), q()]
        if rng.random() < .3:
            d["z2"] = rng.choice([0, -3])
        if rng.random() < .2:
            d["b"] = list(d["a"])
            d["z2"] = d["z"] - rng.choice([1, -1])
    elif t == "arc":
        d.update(r=rng.choice([1, .3, 5, round(rng.uniform(.1, 30), 3)]), at=[q(), q()], ang=rng.uniform(0, 6.28),
                 span=rng.choice([-1, 1]) * rng.choice([.01, .5, 1.5, 3.14159, 4.5, 6.2]))
    elif t == "circle":
        d.update(r=rng.choice([1, .5, 4, 12.5]), at=[q(), q()], n=rng.choice([1, -1]), turn=rng.choice([0, 37, 180]))
    elif t == "spline":
        d["periodic"] = rng.random() < .3
        if d["periodic"]:
            n = rng.randrange(4, 7)
            d["pts"] = [[round(5 * math.cos(6.283 * i / n) * rng.uniform(.7, 1), 3), round(5 * math.sin(6.283 * i / n) * rng.uniform(.7, 1), 3)] for i in range(n)]
        else:
            d["pts"] = [[2 * i, round(rng.uniform(-2, 2), 3)] for i in range(rng.randrange(3, 6))]
    else:
        n = rng.randrange(5, 7)
        d["pts"] = [[round(6 * math.cos(6.283 * i / n) * rng.uniform(.8, 1), 3), round(6 * math.sin(6.283 * i / n) * rng.uniform(.8, 1), 3)] for i in range(n)]
        d["off"] = rng.choice([.5, 1, -.3])
        d["pick"] = rng.randrange(4)
    return d


def generate(R):
    rng = R.rng("C12")
    n = 3 if R.thorough else 1
    for _ in range(420 * n):
        part = [None, None]
        if rng.random() < .5:
            a, b = sorted([round(rng.uniform(0, 1), 3), round(rng.uniform(0, 1), 3)])
            if b - a > .02:
                part = [rng.choice([a, None]), rng.choice([b, None])]
        yield "edge", {"edge": redge(rng), "precision": rng.choice([1, 2, 1]), "feed": rng.choice([100, 250.5]),
                       "part": part, "arrow": rng.random() < .3}
    for _ in range(150 * n):
        w = ops.rwire(rng, 12, ("rect", "rectf", "circle", "slot", "poly", "mixed", "spline"))
        if rng.random() < .15:
            w = {"t": "open", "pts": [[3 * i, round(rng.uniform(-3, 3), 2)] for i in range(rng.randrange(2, 6))]}
        yield "wire", {"wire": w, "z": rng.choice([0, -1.5]), "rev": rng.random() < .4, "precision": rng.choice([1, 1, 2]), "order": 0,
                       "job": ops.rjob(rng)}
    for _ in range(150 * n):
        yield "linked", routed.r_route(rng, ("wires",))


def from_model(case, model):
    import random
    rng = random.Random(5)

    class T:
        thorough = False

        @staticmethod
        def rng(*a):
            return rng
    for i, x in enumerate(generate(T)):
        yield x
