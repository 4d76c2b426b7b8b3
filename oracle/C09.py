"""C09: the tabs laid on edges and wires, and the heights of real profiles with tabs."""
import bisect
import math

import ops
import trace
from C08 import runs
from common import frac
from cq_cam.operations.tabs import EdgeTabs, Transition, WireTabs
from cq_cam.utils.utils import wire_to_ordered_edges

RULE = "random edge lengths, counts, widths and spacings, and real profiles with tabs; non-trivial: at least one tab is crossed"


class FakeEdge:
    def __init__(self, length, kind="LINE"):
        self._l, self._k = length, kind

    def Length(self):
        return self._l

    def geomType(self):
        return self._k


def intervals(R, tr):
    """the tabbed intervals of one edge from its transitions, and the order check"""
    ts = [float(t[0]) for t in tr]
    R.check(ts[0] == 0 and ts[-1] == 1, "the transitions %s do not span the edge", tr)
    R.check(all(a <= b + 1e-12 for a, b in zip(ts, ts[1:])), "the transitions %s are not in order", tr)
    out = []
    for (a, s), (b, _) in zip(tr, tr[1:]):
        R.check(s in (Transition.NORMAL, Transition.TAB), "unknown state in %s", tr)
        if s == Transition.TAB:
            if out and abs(out[-1][1] - a) < 1e-12:
                out[-1][1] = float(b)
            else:
                out.append([float(a), float(b)])
    return out


def case_edge(R, lengths, kinds, spacing, width, only):
    t = EdgeTabs(spacing=spacing, width=width, height=1, only=only)
    edges = [FakeEdge(l, k) for l, k in zip(lengths, kinds)]
    t.load_ordered_edges(edges)
    some = False
    for i, e in enumerate(edges):
        L = e.Length()
        tr = t.edge_tab_transitions(i)
        iv = [x for x in intervals(R, tr)]
        tabs = [(float(a[0]), float(b[0])) for a, b in zip(tr, tr[1:]) if a[1] == Transition.TAB]
        if only and e.geomType() != only:
            R.check(not tabs, "a %s edge has tabs although only %s edges are to have them", e.geomType(), only)
            continue
        asked = int(math.floor(L / spacing + 1e-12))
        if abs(L / spacing - round(L / spacing)) < 1e-9:
            asked = {round(L / spacing), round(L / spacing) - 1}
        else:
            asked = {asked}
        n = len(tabs)
        some |= n > 0
        R.check(n in asked or (n < max(asked) and L / (n + 2) <= width + 1e-9),
                "an edge of %s has %d tabs every %s (width %s)", L, n, spacing, width)
        for k, (a, b) in enumerate(tabs):
            R.near((b - a) * L, width, "tab width", 1e-9 * max(1, L))
            R.near((a + b) / 2, (k + 1) / (n + 1), "tab centre", 1e-9)
            R.check(a >= -1e-12 and b <= 1 + 1e-12, "tab %s..%s leaves the edge", a, b)
            if k:
                R.check(a >= tabs[k - 1][1] - 1e-12, "tabs %s and %s overlap", tabs[k - 1], tabs[k])
    if not some:
        R.trivial_case()


class FakeWire:
    def __init__(self, l):
        self.l = l

    def Length(self):
        return self.l


def wanted_wire(count, width, L):
    """tabbed intervals of the wire, as fractions, wrapped into 0..1"""
    out = []
    for k in range(count):
        a, b = k / count - width / 2 / L, k / count + width / 2 / L
        if a < 0:
            out += [(0, b), (a + 1, 1)]
        elif b > 1:
            out += [(a, 1), (0, b - 1)]
        else:
            out.append((a, b))
    return out


def case_wire(R, lengths, count, width):
    L = sum(lengths)
    t = WireTabs(count=count, width=width, height=1)
    t.load_wire(FakeWire(L))
    edges = [FakeEdge(l) for l in lengths]
    t.load_ordered_edges(edges)
    got, at = [], 0.0
    for i, e in enumerate(edges):
        for a, b in intervals(R, t.edge_tab_transitions(i)):
            got.append((at + a * e.Length(), at + b * e.Length()))
        at += e.Length()
    want = [(a * L, b * L) for a, b in wanted_wire(count, width, L)]
    eps = 1e-6 * L
    pts = {x + d for p in got + want for x in p for d in (-3 * eps, 3 * eps)} | {L * (k + .5) / 97 for k in range(97)}
    for s in sorted(pts):
        if s < 3 * eps or s > L - 3 * eps or any(abs(s - x) < eps for p in got + want for x in p):
            continue
        g, w = any(a <= s <= b for a, b in got), any(a <= s <= b for a, b in want)
        R.check(g == w, "at %s of %s the wire is %s, wanted %s (tabs %s)", s, L, "tab" if g else "cut", "tab" if w else "cut", want)
    got_total = sum(b - a for a, b in got)
    R.near(got_total, count * width, "total width of the tabs", 1e-6 * L)


def along(run, n=60):
    """[(length so far, x, y, z)] along a run of cuts"""
    out, s = [], 0.0
    for c in run:
        if hasattr(c, "center") and c.center is not None:
            pts = trace.arc_points(c, n)
        else:
            pts = [trace.pt(c.start), trace.pt(c.end)]
        for p in pts:
            if out:
                s += math.dist(out[-1][1:3], p[:2])
            out.append((s,) + tuple(p))
    return out


def at(path, s):
    """position at a length (the later one at a vertical step)"""
    i = bisect.bisect_right(path, s, key=lambda p: p[0])
    if i == len(path):
        return path[-1][1:]
    if i == 0:
        return path[0][1:]
    prev, p = path[i - 1], path[i]
    f = (s - prev[0]) / (p[0] - prev[0])
    return tuple(a + f * (b - a) for a, b in zip(prev[1:], p[1:]))


def case_profile(R, wire, z, stepdown, tabs, job, offset):
    jb, pl = ops.job(job)
    w = ops.closed_wire(wire, z)
    ref = jb.wire_profile([ops.to_world(w, pl)], offset=offset, stepdown=stepdown).operations[-1].commands
    cmds = jb.wire_profile([ops.to_world(w, pl)], offset=offset, stepdown=stepdown, tabs=ops.tabs(tabs)).operations[-1].commands
    # levels start again at each rapid
    a, b = runs(ref), runs(cmds)
    R.check(len(a) == len(b), "%d levels with tabs, %d without", len(b), len(a))
    edges = wire_to_ordered_edges(ops_offset(w, offset, jb))
    lens = [e.Length() for e in edges]
    L = sum(lens)
    if tabs["t"] == "wire":
        want = [(x * L, y * L) for x, y in wanted_wire(tabs["count"], tabs["width"], L)]
    else:
        want, o = [], 0.0
        for e, l in zip(edges, lens):
            if not tabs.get("only") or e.geomType() == tabs["only"]:
                n = int(l // tabs["spacing"])
                while n > 1 and l / (n + 1) <= tabs["width"]:
                    n -= 1
                want += [(o + l * k / (n + 1) - tabs["width"] / 2, o + l * k / (n + 1) + tabs["width"] / 2) for k in range(1, n + 1)]
            o += l
    top = z + tabs["height"]
    crossed = False
    for ra, rb in zip(a, b):
        pa, pb = along(ra), along(rb)
        lz = ra[0].end.z
        R.check(abs(pa[-1][0] - pb[-1][0]) < 5e-3 * L + .01, "the path with tabs is %s long, without %s", pb[-1][0], pa[-1][0])
        k = pa[-1][0] / L                    # chords are a little shorter than the curve
        m = 3e-3 * L + .02
        for i in range(160):
            s = L * (i + .5) / 160
            x, y, h = at(pb, s * pb[-1][0] / L)
            X, Y, H = at(pa, s * k)
            R.check(math.dist((x, y), (X, Y)) < .02 + 6e-3 * L, "at %s of %s the path with tabs is at %s, without at %s", s, L, (x, y), (X, Y))
            if any(abs(s - q) < m for p in want for q in p):
                continue
            t = any(p < s < q for p, q in want) and lz < top - 1e-9
            crossed |= t
            R.near(h, top if t else lz, "height at %s of %s (level %s, tabs %s)" % (s, L, lz, want[:4]), 1e-5)
        for c in rb:
            R.check(min(c.start.z, c.end.z) >= lz - 1e-6, "a cut below its level %s: %s", lz, c)
    if not crossed:
        R.trivial_case()


def ops_offset(w, offset, jb):
    from cq_cam.utils.geometry_op import offset_wire
    return offset_wire(w, offset * jb.tool_radius)[0]


def generate(R):
    rng = R.rng("C09")
    n = 3 if R.thorough else 1
    for _ in range(500 * n):
        k = rng.randrange(1, 6)
        width = rng.choice([1, .5, 2, round(rng.uniform(.1, 5), 3)])
        spacing = width * rng.choice([1.01, 1.1, 1.5, 2, 3, 7])
        yield "edge", {"lengths": [rng.choice([5, 10, 1, 20, spacing, 2 * spacing, 3 * spacing, round(rng.uniform(.2, 60), 3), width, 1.05 * spacing]) for _ in range(k)],
                       "kinds": [rng.choice(["LINE", "CIRCLE", "BSPLINE"]) for _ in range(k)],
                       "spacing": spacing, "width": width, "only": rng.choice([None, None, "LINE", "CIRCLE"])}
    for _ in range(600 * n):
        k = rng.randrange(1, 7)
        lengths = [rng.choice([5, 10, 20, 3, .8, round(rng.uniform(.2, 40), 3)]) for _ in range(k)]
        count = rng.randrange(1, 9)
        width = round(rng.uniform(.05, .9) * sum(lengths) / count, 4)
        yield "wire", {"lengths": lengths, "count": count, "width": width}
    for _ in range(10 * n):
        yield "edge", {"lengths": [round(rng.uniform(100, 900), 2) for _ in range(3)], "kinds": ["LINE", "CIRCLE", "LINE"], "spacing": rng.choice([2, 3.5]),
                       "width": rng.choice([.5, 1.9]), "only": rng.choice([None, "CIRCLE"])}
        lengths, count = [round(rng.uniform(.2, 40), 3) for _ in range(rng.randrange(1, 60))], rng.randrange(10, 60)
        yield "wire", {"lengths": lengths, "count": count, "width": round(rng.uniform(.05, .9) * sum(lengths) / count, 4)}
    # a tab begins exactly on a vertex of the wire (binary fractions, so that no rounding hides it)
    for _ in range(60 * n):
        L, count = rng.choice([16, 32, 64]), rng.choice([1, 2, 4])
        width = rng.choice([d for d in (.5, 1, 2, 4, 8) if d < L / count])
        at = sorted({(L * k / count + s * width / 2) % L for k in range(count) for s in (-1, 1) if rng.random() < .7} - {0})
        lengths = [b - a for a, b in zip([0] + at, at + [L])]
        yield "wire", {"lengths": lengths, "count": count, "width": width}
    for _ in range(150 * n):
        t = ops.rtabs(rng)
        if t["t"] == "edge" and rng.random() < .3:
            t["only"] = rng.choice(["LINE", "CIRCLE"])
        z = rng.choice([-3, -4, -2.5, -6])
        yield "profile", {"wire": ops.rwire(rng, 20, ("rect", "rectf", "circle", "slot", "poly", "mixed", "spline")), "z": z,
                          "stepdown": rng.choice([None, 1, 2, .75]), "tabs": t,
                          "job": dict(ops.rjob(rng), precision=2), "offset": rng.choice([0, 1, 0])}
    # a tab begins or ends on a vertex of the wire, or next to it
    for _ in range(60 * n):
        w = ops.rwire(rng, 20, ("rect", "slot", "mixed", "rect"))
        edges = wire_to_ordered_edges(ops.closed_wire(w, -4))
        lens = [e.Length() for e in edges]
        L, c = sum(lens), rng.randrange(1, 7)
        v = sum(lens[:rng.randrange(1, len(lens))]) / L
        k = min(range(c), key=lambda q: abs(q / c - v))
        h = abs(v - k / c)
        if not 5e-3 < h < .45 / c:
            continue
        yield "profile", {"wire": w, "z": -4, "stepdown": rng.choice([None, 2]), "offset": 0,
                          "tabs": {"t": "wire", "count": c, "height": 1,
                                   "width": 2 * h * L + rng.choice([0, 0, 1e-13, -1e-13, 1e-9, -1e-9, 1e-7, -1e-7, 1e-5, -1e-5])},
                          "job": dict(ops.rjob(rng), precision=2)}


def from_model(case, model):
    import random
    rng = random.Random(5)

    class T:
        thorough = False

        @staticmethod
        def rng(*a):
            return rng
    for i, x in enumerate(generate(T)):
        if x[0] == case:
            yield x
        if i > 1100:
            break
