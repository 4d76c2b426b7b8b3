"""C10: random trees of contours, and the contours of real pocket fills."""
import random

import ops
import trace
from cq_cam.operations.pocket import fill_pocket_contour_shrink
from cq_cam.utils.geometry_op import PathFace
from cq_cam.utils.tree import Tree

RULE = "random trees (random branching order, locks), deep trees, random pocket fills and the routes of their sequences; non-trivial: at least three contours"


class Ob:
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"o{self.k}"


def check_sequences(R, nodes, parent, seqs):
    """nodes: objects, parent: id -> object or None"""
    count = {}
    for s in seqs:
        for o in s:
            count[id(o)] = count.get(id(o), 0) + 1
    for o in nodes:
        R.check(count.pop(id(o), 0) == 1, "%s is in %d sequences: %s", o, sum(o is x for s in seqs for x in s), seqs)
    R.check(not count, "sequences contain contours that are not in the tree")
    for s in seqs:
        for a, b in zip(s, s[1:]):
            R.check(parent[id(a)] is b, "%s is followed by %s, which is not the contour around it", a, b)


def case_tree(R, seed, n, mode):
    rng = random.Random(seed)
    root = Ob(0)
    t = Tree(root)
    objs, parent = [root], {id(root): None}
    steps = 0
    try:
        while len(objs) < n and steps < 4 * n:
            steps += 1
            node = t.next_unlocked
            R.check(not node.locked and not any(x.parent is node for x in t.nodes), "next_unlocked is not an open leaf")
            k = {"wide": rng.choice([0, 1, 2, 3, 4]), "deep": rng.choice([1, 1, 1, 2, 0] if len(objs) > 2 else [1]),
                 "any": rng.choice([0, 1, 1, 2])}[mode]
            if k == 0 and len(objs) > 1:
                node.lock()
                continue
            kids = [Ob(len(objs) + i) for i in range(max(k, 1))]
            out = node.branch(kids if len(kids) > 1 or rng.random() < .5 else kids[0]) if False else node.branch(kids)
            R.check([x.obj for x in out] == kids and all(x.parent is node for x in out), "branch does not hold its contours")
            for x in kids:
                parent[id(x)] = node.obj
            objs += kids
    except StopIteration:
        pass
    if len(objs) < 3:
        R.trivial_case()
    check_sequences(R, objs, parent, t.sequences)
    check_sequences(R, objs, parent, t.sequences)
    # all open leaves are offered before the fill ends
    left = [x for x in t.nodes if not x.locked and not any(y.parent is x for y in t.nodes)]
    offered = []
    try:
        while True:
            x = t.next_unlocked
            R.check(x in left, "a closed node is offered")
            offered.append(x)
            x.lock()
    except StopIteration:
        pass
    R.check(len(offered) == len(left) and len(set(map(id, offered))) == len(left), "%d of %d open contours were offered", len(offered), len(left))


def case_chain(R, depth, sides):
    """a deep fill: contours inside each other, some of which have another one beside them"""
    t = Tree(Ob(0))
    objs, parent = [t.root.obj], {id(t.root.obj): None}
    x = t.root
    for i in range(1, depth):
        kids = [Ob(len(objs) + k) for k in range(2 if i in sides else 1)]
        out = x.branch(kids)
        for k in kids:
            parent[id(k)] = x.obj
        objs += kids
        x = out[0]
    check_sequences(R, objs, parent, t.sequences)


def case_fill(R, shape, holes, step, precision):
    import math
    import shapely
    from cq_cam.utils import geometry_op as G
    from cq_cam.operations import pocket as P
    outer = [tuple(p) for p in shape]
    face = PathFace(outer, [[tuple(p) for p in h] for h in holes], -2.0)
    made = []
    real = P.offset_path

    seqs = fill_pocket_contour_shrink(face, step, precision)
    flat = [p for s in seqs for p in s]
    if len(flat) < 3:
        R.trivial_case()
    R.check(all(p.depth == -2.0 for p in flat), "a contour changed its depth")
    k = sum(list(map(tuple, p.outer)) == outer for p in flat)
    R.check(k == 1, "the outermost contour is in %d places", k)
    keys = [tuple(map(tuple, p.outer)) for p in flat]
    R.check(len(set(keys)) == len(keys), "a contour is routed twice")
    R.check(len(set(map(id, flat))) == len(flat), "a contour object is routed twice")
    # recompute the tree of contours independently, by the shrinking rule
    want = {tuple(outer): None}
    todo = [outer]
    while todo:
        o = todo.pop()
        nxt = G.offset_path(o, -step, precision)
        if nxt and holes:
            nxt = [f.outer for f in G.difference_poly_tree(nxt, face.inners, 0)]
        for q in nxt:
            R.check(tuple(map(tuple, q)) not in want, "equal contours")
            want[tuple(map(tuple, q))] = tuple(map(tuple, o))
            todo.append(q)
    got = [tuple(map(tuple, k)) for k in keys]
    R.check(sorted(got) == sorted(want), "%d contours routed, %d made by shrinking", len(got), len(want))
    for s in seqs:
        for a, b in zip(s, s[1:]):
            R.check(want[tuple(map(tuple, a.outer))] == tuple(map(tuple, b.outer)), "consecutive contours are not neighbours")


def case_route(R, shape, holes, step, precision):
    """every contour of a fill is cut all around by the route of its sequence, and only once"""
    import math
    job = plain_job(precision)
    face = PathFace([tuple(p) for p in shape], [[tuple(p) for p in h] for h in holes], -2.0)
    seqs = fill_pocket_contour_shrink(face, step, precision)
    if sum(map(len, seqs)) < 3:
        R.trivial_case()
    from cq_cam.routers import route_polyface_outers
    for s in seqs:
        cuts = []
        for c in route_polyface_outers(job, s, stepover=step):
            a, b = c.start, c.end
            if None not in (a.x, a.y, a.z, b.x, b.y, b.z) and type(c).__name__ == "Cut" and max(abs(a.z + 2), abs(b.z + 2)) < 1e-9:
                cuts.append((a.x, a.y, b.x, b.y))

        def times(x, y, cuts):
            n = 0
            for ax, ay, bx, by in cuts:
                l = math.hypot(bx - ax, by - ay)
                if l < 1e-9:
                    continue
                t = ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / l
                n += 0 <= t <= l and abs((x - ax) * (by - ay) - (y - ay) * (bx - ax)) / l < 1e-7
            return n
        # a contour may go there and back along the same line
        lines = [(*a, *b) for p in s for a, b in zip(p.outer, p.outer[1:])]
        for ax, ay, bx, by in lines:
            if math.hypot(bx - ax, by - ay) < 1e-3:
                continue
            for f in (.0371, .4637, .9729):
                x, y = ax + f * (bx - ax), ay + f * (by - ay)
                n, want = times(x, y, cuts), times(x, y, lines)
                R.check(n >= want, "the contours pass %d times between %s and %s, which is cut %d times", want, (ax, ay), (bx, by), n)
                R.check(n <= want or holes, "a contour is cut %d times between %s and %s", n, (ax, ay), (bx, by))


def plain_job(precision):
    import cadquery as cq
    from cq_cam import Job
    return Job(cq.Plane.XY(), 100, tool_diameter=2, precision=precision)


def case_pocket(R, **d):
    """each contour of the fill appears once in the program of a flat pocket"""
    job, cmds = ops.build(d)
    from C07 import levels_of
    runs = levels_of(cmds)
    segs = {}
    for c in cmds:
        if trace.paths([c]) and trace.moves(c, "xy"):
            k = tuple(sorted([(round(c.start.x, 5), round(c.start.y, 5)), (round(c.end.x, 5), round(c.end.y, 5))]))
            segs[k] = segs.get(k, 0) + 1
    if len(runs) < 2:
        R.trivial_case()
    twice = sum(v > 1 for v in segs.values())
    R.check(twice <= len(segs) * .1, "%d of %d segments are cut more than once", twice, len(segs))


def generate(R):
    rng = R.rng("C10")
    n = 3 if R.thorough else 1
    for i in range(500 * n):
        yield "tree", {"seed": rng.randrange(10 ** 6), "n": rng.randrange(1, 26), "mode": rng.choice(["wide", "deep", "any"])}
    yield "chain", {"depth": 1500, "sides": [3, 700, 1490]}
    yield "chain", {"depth": 300, "sides": [rng.randrange(1, 300) for _ in range(4)]}
    for i in range(120 * n):
        w, h = rng.choice([10, 20]), rng.choice([8, 14])
        k = rng.randrange(3)
        if k == 0:
            pts = [[0, 0], [w, 0], [w, h], [0, h], [0, 0]]
        elif k == 1:   # a dumbbell: the fill splits
            a = rng.choice([3, 4])
            pts = [[0, 0], [w, 0], [w, h * .4], [w + a, h * .4], [w + a, 0], [2 * w + a, 0], [2 * w + a, h], [w + a, h],
                   [w + a, h * .6], [w, h * .6], [w, h], [0, h], [0, 0]]
        else:
            m = rng.randrange(3, 9)
            import math
            pts = [[round(w * math.cos(2 * math.pi * j / m) * (1 if j % 2 else .5), 3), round(w * math.sin(2 * math.pi * j / m) * (1 if j % 2 else .5), 3)] for j in range(m)]
            pts.append(pts[0])
        holes = []
        if k < 2 and rng.random() < .6:
            for _ in range(rng.randrange(1, 3)):
                x, y = rng.uniform(2, w - 3), rng.uniform(2, h - 3)
                holes.append([[x, y], [x + 1, y], [x + 1, y + 1], [x, y + 1], [x, y]])
        d = {"shape": pts, "holes": holes, "step": rng.choice([.7, 1, 1.5, 2.2]), "precision": rng.choice([2, 3])}
        yield "fill", d
        yield "route", d
    for i in range(20 * n):
        # triangles, and shapes that become triangles
        x, y = rng.uniform(-3, 15), rng.uniform(6, 14)
        pts = [[0, 0], [12, 0], [x, y], [0, 0]] if i % 2 else [[0, 0], [12, 0], [x + 1, y], [x, y], [0, 0]]
        yield "route", {"shape": pts, "holes": [], "step": rng.choice([.5, .8, 1]), "precision": 3}
    for i in range(30 * n):
        d = ops.rop(rng, ("pocket",))
        d["areas"] = d["areas"][:1]
        d["avoid"] = None
        d["stepdown"] = None
        yield "pocket", d

    for i in range(10 * n):
        yield "tree", {"seed": rng.randrange(10 ** 6), "n": rng.randrange(40, 160), "mode": rng.choice(["wide", "deep", "any"])}


def from_model(case, model):
    rng = random.Random(11)
    if case == "route":
        for _ in range(20):
            y = rng.uniform(6, 14)
            pts = [[0, 0], [12, 0], [rng.uniform(-3, 15), y], [0, 0]] if rng.random() < .4 else [[0, 0], [12, 0], [12, y], [0, y], [0, 0]]
            yield "route", {"shape": pts, "holes": [], "step": rng.choice([.5, .8, 1]), "precision": 3}
        return
    for _ in range(60):
        yield "tree", {"seed": rng.randrange(10 ** 6), "n": rng.randrange(2, 20), "mode": rng.choice(["wide", "deep", "any"])}
