"""C13: nearest-point queries against dense and exact (rational) search."""
from fractions import Fraction as F
from common import interesting, frac

RULE = ("random, axis-parallel, collinear, repeated and zero-length segments; polylines of 2 to 14 points incl. repeated "
        "points; non-trivial: the polyline has at least two distinct points")


def d2(a, b):
    return (F(a[0]) - F(b[0])) ** 2 + (F(a[1]) - F(b[1])) ** 2


def exact(p, v, w):
    l2 = d2(v, w)
    if l2 == 0:
        return d2(p, v), (F(v[0]), F(v[1]))
    t = ((F(p[0]) - F(v[0])) * (F(w[0]) - F(v[0])) + (F(p[1]) - F(v[1])) * (F(w[1]) - F(v[1]))) / l2
    t = max(F(0), min(F(1), t))
    c = (F(v[0]) + t * (F(w[0]) - F(v[0])), F(v[1]) + t * (F(w[1]) - F(v[1])))
    return d2(p, c), c


def tolerance(*pts):
    m = max(abs(F(x)) for p in pts for x in p) + 1
    return m * m / 10 ** 9


def case_segment(R, p, v, w):
    from cq_cam.utils.utils import dist_to_segment_squared
    p, v, w = tuple(p), tuple(v), tuple(w)
    d, c = dist_to_segment_squared(p, v, w)
    ed, ec = exact(p, v, w)
    tol = tolerance(p, v, w)
    if d2(v, w) != 0 and d2(v, w) < F(1, 10 ** 12):
        R.trivial_case()
    R.check(abs(F(d) - ed) <= tol, "squared distance %s, exact %s", d, float(ed))
    R.check(d2(c, ec) <= tol, "point %s, exact %s", c, (float(ec[0]), float(ec[1])))
    R.check(abs(d2(p, c) - F(d)) <= tol, "distance %s is not that of the returned point %s", d, c)


def case_polyline(R, p, path):
    from cq_cam.utils.geometry_op import distance_to_path
    path = [tuple(q) for q in path]
    p = tuple(p)
    before = list(path)
    d, c, (i, t) = distance_to_path(p, path)
    R.check(path == before, "the path was modified")
    R.check(isinstance(i, int) and 0 <= i < len(path) - 1, "segment index %r", i)
    tol = tolerance(p, *path)
    best = min(exact(p, a, b)[0] for a, b in zip(path, path[1:]))
    R.check(abs(F(d) - best) <= tol, "squared distance %s, the closest segment has %s", d, float(best))
    R.check(abs(d2(p, c) - F(d)) <= tol, "distance %s is not that of the returned point %s", d, c)
    a, b = path[i], path[i + 1]
    R.check(-1e-9 <= t <= 1 + 1e-6, "parameter %s", t)
    q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
    R.check(d2(q, c) <= tol, "segment %d parameter %s is %s, not the returned point %s", i, t, q, c)
    # the first of equally near segments (a deterministic answer)
    if len(set(path)) < 2:
        R.trivial_case()


def from_model(name, m):
    g = lambda k: frac(m.get(k, "0")) or 0.0
    if name == "segment":
        yield "segment", {"p": [g("px"), g("py")], "v": [g("vx"), g("vy")], "w": [g("wx"), g("wy")]}


def generate(R):
    rng = R.rng("C13")
    n = 6000 if R.thorough else 2000

    def pt(k):
        if k == 0:
            return [float(rng.randrange(-3, 4)), float(rng.randrange(-3, 4))]
        if k == 1:
            return [rng.uniform(-10, 10), rng.uniform(-10, 10)]
        return [interesting(rng, 100), interesting(rng, 100)]
    for i in range(n):
        k = rng.randrange(3)
        p, v, w = pt(k), pt(k), pt(k)
        if rng.random() < 0.1:
            w = list(v)
        if rng.random() < 0.1:
            p = list(rng.choice([v, w]))
        if rng.random() < 0.1:
            s = rng.uniform(-0.5, 1.5)
            p = [v[0] + s * (w[0] - v[0]), v[1] + s * (w[1] - v[1])]
        yield "segment", {"p": p, "v": v, "w": w}
    for i in range(n):
        k = rng.randrange(2)
        m = rng.randrange(2, 15)
        path = [pt(k) for _ in range(m)]
        if rng.random() < 0.3:
            path.append(list(path[0]))
        if rng.random() < 0.2:
            j = rng.randrange(len(path))
            path.insert(j, list(path[j]))
        p = pt(k)
        if rng.random() < 0.2:
            p = list(rng.choice(path))
        yield "polyline", {"p": p, "path": path}
    for i in range(n // 8):     # long paths, and near ties
        path = [pt(1) for _ in range(rng.choice([40, 150, 4, 6]))]
        p = pt(1)
        for _ in range(rng.randrange(3)):
            j, s, e = rng.randrange(len(path) - 1), rng.uniform(.2, .8), 10 ** -rng.uniform(1, 6)
            a, b = path[j], path[j + 1]
            m = [a[0] + s * (b[0] - a[0]) - e, a[1] + s * (b[1] - a[1]) + e]
            p = m if rng.random() < .8 else p
            k = rng.randrange(len(path) - 1)
            if abs(k - j) > 1:      # another segment that passes even nearer
                path[k], path[k + 1] = [m[0] - 3, m[1] - 2], [m[0] + 3, m[1] + 2 + e / 3]
        yield "polyline", {"p": p, "path": path}
