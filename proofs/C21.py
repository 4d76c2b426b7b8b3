"""C21: 3D surfacing splits paths by depth without losing or adding cuts."""
import z3
from pydv import values as V, runtime as R_
from pydv.stubs import reg
from .base import *
from .routes import IS, RS, BS, prove_list

UNITS = []
unit = units(UNITS)
MODS = ["cq_cam.address", "cq_cam.command", "cq_cam.utils.utils", "cq_cam.operations.strategy",
        "cq_cam.operations.base_operation", "cq_cam.operations.op3d"]


@reg
class Pt:
    """point q of path k"""
    z = None

    def __init__(self, k, q):
        self.k, self.q = k, q

    def __getitem__(self, i):
        return V.mk(Pt.z(z3.IntVal(term_of(i).as_long()), term_of(self.k), term_of(self.q)))


def ti(v):
    return V.term_of(v) if not isinstance(v, z3.ExprRef) else v


@unit("a level visits exactly the points that are not above the limit, in order, unbroken parts", MODS,
      must_cover=["parts"], replay="chop")
def chop(P):
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    e.split_ends = True
    M = P["cq_cam.operations.op3d"]
    n = e.fresh_int("paths").t
    e.assume(n >= 0)
    m = e.fresh_func("points", IS, IS)
    Pt.z = e.fresh_func("coordinate", IS, IS, IS, RS)
    rank = e.fresh_func("rank", IS, IS, IS)
    limit = R(e, "limit")

    def kept(k, q):
        return Pt.z(z3.IntVal(2), k, q) <= num(limit)
    e.axiom(rank(z3.IntVal(0), z3.IntVal(0)) == 0)

    def point(k, q):
        k, q = ti(k), ti(q)
        e.axiom(rank(k, q + 1) == rank(k, q) + z3.If(kept(k, q), 1, 0))
        return Pt(V.mk(k), V.mk(q))

    def path(k):
        e.axiom(z3.And(m(k) >= 0, rank(k + 1, z3.IntVal(0)) == rank(k, m(k))))
        s = fseq(m(k), lambda q: point(k, q))
        s.path = k
        return PList.of_seq(s)
    L = PList.of_seq(fseq(n, path))

    def rk(x):
        return rank(ti(x.k), ti(x.q))

    one = Pred("a point of a path that is not above the limit",
               lambda x: kept(ti(x.k), ti(x.q)) if isinstance(x, Pt) else z3.BoolVal(False))
    adj = AdjPred("the next such point", lambda a, b: rk(b) == rk(a) + 1
                  if isinstance(a, Pt) and isinstance(b, Pt) else z3.BoolVal(False))
    near = AdjPred("neighbours on the path", lambda a, b: z3.And(ti(a.k) == ti(b.k), ti(b.q) == ti(a.q) + 1)
                   if isinstance(a, Pt) and isinstance(b, Pt) else z3.BoolVal(False))
    unbroken = Pred("a part is not empty and unbroken",
                    lambda x: (lambda f: None if f is None else z3.And(f, x.len_term() >= 1))(x.adj_formula(near)))
    unbroken.whole = True
    e.preds += [one, unbroken]
    e.adjs += [adj, near]
    cnt = Measure("points", lambda x: z3.IntVal(1))
    e.measures += [cnt]

    def total(loop, i):
        """points kept before the current turn of the loop"""
        if not isinstance(loop.seq, PList) or len(loop.seq.chunks) != 1 or isinstance(loop.seq.chunks[0], list):
            return None, None
        k = getattr(loop.seq.chunks[0].seq, "path", None)
        return (rank(i, z3.IntVal(0)), None) if k is None else (rank(k, i), k)

    def hint(e2, loop, env, i):
        out = []
        if total(loop, i)[0] is None:
            return out
        ms = [p for p in env if p[-2:-1] == ("#m",) and "#first" not in p and "#last" not in p]

        def custom(name, fn, *ps):
            out.append(("custom", f"{name} {ps}", lambda en, i: None if any(p not in en for p in ps)
                        else fn(total(loop, i), i, *[en[p] for p in ps])))
        # lists that are only appended to are described by what this loop appended: count from its start
        def base(t):
            return z3.IntVal(0) if t[1] is None else rank(t[1], z3.IntVal(0))
        for p in ms:
            custom("count", lambda t, i, x: x + base(t) == t[0], p)
            for q in ms:
                if str(q) > str(p):
                    custom("counts", lambda t, i, x, y: x + y + base(t) == t[0], p, q)
        for p in env:
            if p[-1] != ".k":
                continue
            q = p[:-1] + (".q",)
            custom("last", lambda t, i, x, y: rank(x, y) + 1 == t[0], p, q)
            custom("first", lambda t, i, x, y: rank(x, y) == base(t), p, q)
            custom("near", lambda t, i, x, y: z3.And(x == t[1], y == i - 1) if t[1] is not None else None, p, q)
            for l in ms:
                # the first point of the part that is being collected follows the parts collected
                custom("next", lambda t, i, x, y, c: rank(x, y) == c + base(t), p, q, l)
                custom("from", lambda t, i, x, y, c: rank(x, y) + 1 == c + base(t), p, q, l)
        return out
    e.loop_hints.append(hint)
    r = to_plist(M.Surface3D._chop_sequences_by_depth(L, limit))
    e.prove("as many points as there are not above the limit", r.measure_term(cnt) == rank(n, z3.IntVal(0)))
    e.cover("parts")
    prove_list(e, "points", r, one, adj, unbroken)
    if e.decide(r.len_term() > 0):
        e.prove("the first part begins with the first such point", rk(r.flat_first()) == 0)


# ------------------------------------------------------------------ levels and motions
@reg
class Machine:
    """what has been cut: level, next part of the level, points cut of the current part, its next step"""

    def __init__(self):
        self.level, self.part, self.point, self.step, self.idx = 0, 0, 0, 0, 0


@reg
class Pos:
    def __init__(self):
        pass


@reg
class Mo:
    """motion idx"""

    def __init__(self, idx, end):
        self.idx, self.end = idx, end


@reg
class Spot:
    """point q of part p of level l"""
    c = None

    def __init__(self, l, p, q):
        self.l, self.p, self.q = l, p, q

    def __getitem__(self, i):
        if isinstance(i, slice):
            return tuple(self)[i]
        k = term_of(i).as_long()
        if not -3 <= k < 3:
            raise IndexError("list index out of range")
        return V.mk(Spot.c(z3.IntVal(k % 3), ti(self.l), ti(self.p), ti(self.q)))

    def __len__(self):
        return 3

    def __iter__(self):
        return iter([self[0], self[1], self[2]])


def put(obj, /, **kw):
    for k, v in kw.items():
        R_.setattr_(obj, k, V.mk(v) if isinstance(v, z3.ExprRef) else v)


class Solid:
    """what the CAD kernel says about the shape to be surfaced"""
    zmin = None

    def BoundingBox(self):
        return self

    def add(self, *a):
        return self

    def combine(self):
        return self

    @property
    def objects(self):
        return PList([self])

    def outerWire(self):
        return self

    def innerWires(self):
        return PList([])


class Ocl:
    def __getattr__(self, n):
        return lambda *a, **k: Ocl()


def surface(M, e, step):
    s = M.Surface3D.__new__(M.Surface3D)
    put(s, commands=PList([]), tool=Ocl(), interpolation_step=0.5, o=None, avoid=None, stepover=0.8,
        outer_boundary_offset=(-1, 0), inner_boundary_offset=(1, 0), boundary_final_pass_stepover=None,
        stepdown=step, top_height=R(e, "top_height"), clearance_height=20)

    class J:
        rapid_height, op_safe_height = R(e, "rapid_height"), R(e, "op_safe_height")
        feed, plunge_feed = R(e, "feed", gt=0), R(e, "plunge_feed", gt=0)

        class top:
            fG = None
    put(s, job=J)
    return s


def levels(stepped):
    @unit(f"levels and motions of a surface, {'with' if stepped else 'without'} step depth", MODS,
          must_cover=["done"], replay="surface",
          requires=["a step depth is negative (depths are heights)",
                    "the parts of a level are those of _chop_sequences_by_depth (own unit)"],
          trusts=["bounding boxes and boundaries of the faces (cadquery), drop cutter (opencamlib)"])
    def run(P):
        e = V.eng()
        e.on_exception = no_exception()
        e.use_templates = False
        e.split_ends = True
        M = P["cq_cam.operations.op3d"]
        sd = R(e, "stepdown", hi=None) if stepped else pick(e, "none", [None, 0])
        if stepped:
            e.assume(num(sd) < 0)
        s = surface(M, e, sd)
        solid = Solid()
        solid.zmin = R(e, "bottom")
        bottom, top = num(solid.zmin), num(s.top_height)
        M.cq.Workplane = lambda *a: solid
        M.cq.Compound = type("Compound", (), {})
        cls = M.Surface3D
        cls.transform_shapes_to_global = lambda self, f: PList([])
        cls._faces = PList([])
        cls.offset_boundary = lambda self, b: PList([solid])
        cls.shape_to_triangles = lambda self, c: PList([])
        cls._tool_diameter = 1
        M.ZigZagStrategy = type("Z", (), {"process": staticmethod(lambda *a: PList([]))})
        M.ocl = Ocl()
        M.ocl.BatchDropCutter = lambda: type("B", (), {"__getattr__": lambda self, n: (lambda *a: PList([]))})()
        g = Machine()
        np_ = e.fresh_func("parts", IS, IS)
        m = e.fresh_func("points", IS, IS, IS)
        Spot.c = e.fresh_func("coordinate", IS, IS, IS, IS, RS)

        def depth(l):
            if not stepped:
                return bottom
            d = top + num(sd) * z3.ToReal(l + 1)
            return z3.If(d > bottom, d, bottom)

        def t(v):
            return term_of(v)

        def spot(l, p, q):
            return [Spot.c(z3.IntVal(k), l, p, q) for k in range(3)]

        def complete():
            """no part is begun and not finished"""
            l = t(g.level) - 1
            return z3.And(t(g.step) == 0, z3.Or(t(g.part) == 0, t(g.point) == m(l, t(g.part) - 1)))

        def chop(self_or_seqs, *a):
            limit = a[-1]
            l = t(g.level)
            e.prove("a level is finished before the next one",
                    z3.And(complete(), z3.Or(l == 0, t(g.part) == np_(l - 1))))
            e.prove("a level skips what the level two before has cut (none: what is above the job plane)",
                    num(limit) == z3.If(l > 1, depth(l - 2), z3.RealVal(0)))
            if stepped:
                e.prove("no level below the floor", z3.Or(l == 0, depth(l - 1) > bottom))
            else:
                e.prove("one level", l == 0)
            e.axiom(np_(l) >= 0)
            put(g, level=l + 1, part=z3.IntVal(0), point=z3.IntVal(0))

            def part(p):
                e.axiom(m(l, p) >= 1)
                q = fseq(m(l, p), lambda q: Spot(V.mk(l), mkn(p), mkn(q)))
                return PList.of_seq(q)
            return PList.of_seq(fseq(np_(l), part))
        cls._chop_sequences_by_depth = staticmethod(chop)

        def step(want, label, x, y, z, goal, **kw):
            e.prove(f"{label}: in its turn", t(g.step) == want)
            e.prove(label, goal)
            idx = t(g.idx)
            put(g, idx=idx + 1, **kw)
            return Mo(V.mk(idx), Pos())

        class Rapid:
            @staticmethod
            def abs(x=None, y=None, z=None, start=None):
                l, p = t(g.level) - 1, t(g.part)
                w = spot(l, p, z3.IntVal(0))
                if z is None:
                    return step(1, "to the first point of the part", x, y, z,
                                z3.And(num(x) == w[0], num(y) == w[1]), step=z3.IntVal(2))
                if e.decide(t(g.step) == 0):
                    e.prove("a part is finished before the next one", complete())
                    e.prove("the next part of the level", p < np_(l))
                    return step(0, "the tool is lifted", x, y, z,
                                z3.And(num(z) == num(s.job.rapid_height), z3.BoolVal(x is None and y is None)), step=z3.IntVal(1))
                return step(2, "down to the safe height", x, y, z,
                            z3.And(num(z) == num(s.job.op_safe_height), z3.BoolVal(x is None and y is None)), step=z3.IntVal(3))

        def top_of(a, b):
            return z3.If(a > b, a, b)

        class PlungeCut:
            @staticmethod
            def abs(x=None, y=None, z=None, start=None, feed=None):
                l, p = t(g.level) - 1, t(g.part)
                return step(3, "to the height of the first point, not below the level", x, y, z,
                            z3.And(num(z) == top_of(depth(l), spot(l, p, z3.IntVal(0))[2]),
                                   z3.BoolVal(x is None and y is None)),
                            step=z3.IntVal(0), part=p + 1, point=z3.IntVal(1))

        class Cut:
            @staticmethod
            def abs(x=None, y=None, z=None, start=None, feed=None):
                l, p, q = t(g.level) - 1, t(g.part) - 1, t(g.point)
                w = spot(l, p, q)
                return step(0, "the next point of the part, at its height, not below the level", x, y, z,
                            z3.And(q >= 1, q < m(l, p), num(x) == w[0], num(y) == w[1], num(z) == top_of(depth(l), w[2])),
                            point=q + 1)
        M.Rapid, M.PlungeCut, M.Cut = Rapid, PlungeCut, Cut
        M.AddressVector = Pos
        adj = AdjPred("in the order they were made", lambda a, b: t(b.idx) == t(a.idx) + 1
                      if isinstance(a, Mo) and isinstance(b, Mo) else z3.BoolVal(False))
        e.adjs += [adj]

        def hint(e2, loop, env, i):
            out = []
            gs = sorted({p[:-1] for p in env if p[-1] == "point" and p[0] == "@"}, key=str)
            gs += [p[:-1] for p in env if p[-1] == "idx" and p[0] == "@" and p[:-1] not in gs]

            def c(name, fn):
                out.append(("custom", name, fn))
            for b in gs:
                def full(en, i, b=b):
                    l, p, q, st = [en.get(b + (k,), t(getattr(g, k))) for k in ("level", "part", "point", "step")]
                    return z3.And(st == 0, z3.Or(p == 0, q == m(l - 1, p - 1)))
                c("part finished", full)
                c("level finished", lambda en, i, b=b: None if b + ("part",) not in en or b + ("level",) not in en else
                  z3.Or(en[b + ("level",)] == 0, en[b + ("part",)] == np_(en[b + ("level",)] - 1)))
                for k in ("level", "part", "point"):
                    c(k, lambda en, i, b=b, k=k: None if b + (k,) not in en else en[b + (k,)] == i)
                    c(k + "+1", lambda en, i, b=b, k=k: None if b + (k,) not in en else en[b + (k,)] == i + 1)
                for p in env:
                    if p[-1] == ".idx" and "#last" in p:
                        c(f"last {p}", lambda en, i, b=b, p=p: None if p not in en or b + ("idx",) not in en
                          else en[p] + 1 == en[b + ("idx",)])
                    if p[-1] == ".idx" and "#first" in p:
                        c(f"first {p}", lambda en, i, b=b, p=p: None if p not in en else en[p] == 0)
                    if p[-1] == "#len":
                        c(f"len {p}", lambda en, i, b=b, p=p: None if p not in en or b + ("idx",) not in en
                          else en[p] == en[b + ("idx",)])
            return out
        e.loop_hints.append(hint)
        M.Surface3D.__post_init__(s)
        l = t(g.level)
        e.prove("all parts of all levels are cut", z3.And(complete(), t(g.part) == np_(l - 1)))
        e.prove("the last level is the floor", z3.And(l >= 1, depth(l - 1) == bottom))
        C = s.commands
        prove_list(e, "motions", C, adj)
        if e.decide(C.len_term() > 0):
            e.prove("the last motion comes last", t(C.at(z3.simplify(C.len_term() - 1)).idx) + 1 == t(g.idx))
            e.prove("the first motion comes first", t(C.at(z3.IntVal(0)).idx) == 0)
        else:
            e.prove("no motion is missing", t(g.idx) == 0)
        e.cover("done")
    return run


def mkn(v):
    return V.mk(ti(v))


for _s in (False, True):
    levels(_s)


@unit("every point of a path keeps its place and gets its own height", MODS, must_cover=["heights"], replay="surface",
      bounded="at most 2 paths of at most 3 corners, at most 2 points interpolated on each side",
      trusts=["opencamlib's drop cutter answers as many points as it is given, in order"])
def heights(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.operations.op3d"]
    s = surface(M, e, None)
    solid = Solid()
    solid.zmin = R(e, "bottom")
    M.cq.Workplane = lambda *a: solid
    M.cq.Compound = type("Compound", (), {})
    cls = M.Surface3D
    cls.transform_shapes_to_global = lambda self, f: PList([])
    cls._faces = PList([])
    cls.offset_boundary = lambda self, b: PList([solid])
    cls.shape_to_triangles = lambda self, c: PList([])
    cls._tool_diameter = 1
    shape = pick(e, "corners", [[2], [3], [2, 2], [2, 3]])
    paths = [[(R(e, f"x{k}{q}"), R(e, f"y{k}{q}")) for q in range(n)] for k, n in enumerate(shape)]
    M.ZigZagStrategy = type("Z", (), {"process": staticmethod(lambda *a: PList([PList([tuple(p) for p in q]) for q in paths]))})
    for p in paths:
        for a, b in zip(p, p[1:]):
            e.assume(z3.Or(num(a[0]) != num(b[0]), num(a[1]) != num(b[1])))
    # places along a side: from its start, within it
    sides = []

    def arange(lo, hi, st):
        e.prove("points along a side, from its start to its end, a step apart",
                z3.And(num(lo) == 0, num(st) == num(s.interpolation_step)))
        n = e.choose(3)
        ds = [V.mk(num(st) * j) for j in range(n)]
        for d in ds:
            e.assume(num(d) < num(hi))
        sides.append((hi, ds))
        return PList(ds)
    M.np.arange = arange
    given = []
    H = e.fresh_func("height", IS, RS)

    class CL:
        def __init__(self, x, y, z):
            self.x, self.y, self.z = x, y, z

    class Drop:
        def appendPoint(self, p):
            given.append(p)

        def getCLPoints(self):
            return PList([CL(p.x, p.y, V.mk(H(z3.IntVal(k)))) for k, p in enumerate(given)])

        def __getattr__(self, n):
            return lambda *a: None
    M.ocl = Ocl()
    M.ocl.BatchDropCutter, M.ocl.CLPoint = Drop, CL
    got = []

    def chop(*a):
        got.append(a[-2])
        return PList([])
    cls._chop_sequences_by_depth = staticmethod(chop)
    M.Surface3D.__post_init__(s)
    if len(got) != 1:
        e.fail("the paths are cut", f"{len(got)} times")
        return
    seqs = [x.items() if isinstance(x, PList) else list(x) for x in to_plist(got[0]).items()]
    e.prove("as many paths", mkbool(z3.BoolVal(len(seqs) == len(paths))))
    n = 0
    side = iter(sides)
    for seq, path in zip(seqs, paths):
        want = [path[0]]
        for a, b in zip(path, path[1:]):
            l, ds = next(side)
            for d in ds:
                want.append((a, b, l, d))
            want.append(b)
        e.prove("no point of a path is lost or added", mkbool(z3.BoolVal(len(seq) == len(want))))
        for pt, w in zip(seq, want):
            x, y, z = tuple(pt)
            if len(w) == 2:
                goal = z3.And(num(x) == num(w[0]), num(y) == num(w[1]))
            else:
                a, b, l, d = w
                goal = z3.And(*[(num(v) - num(a[c])) * num(l) == (num(b[c]) - num(a[c])) * num(d)
                                for c, v in ((0, x), (1, y))])
            e.prove("the corners of the path, and points between them", goal)
            e.prove("a point has its own height", num(z) == H(z3.IntVal(n)))
            e.prove("its height is measured at its place", z3.And(num(given[n].x) == num(x), num(given[n].y) == num(y)))
            n += 1
    e.cover("heights")
