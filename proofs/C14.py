"""C14: drilling visits every hole exactly once, in place, to depth."""
import z3
from pydv import values as V, runtime as R_
from pydv.stubs import reg
from pydv.lists import Win
from .base import *
from .routes import IS, RS, BS, prove_list, eqv

UNITS = []
unit = units(UNITS)
MODS = ["cq_cam.address", "cq_cam.command", "cq_cam.utils.utils", "cq_cam.operations.strategy",
        "cq_cam.operations.base_operation", "cq_cam.operations.drill"]


def ti(v):
    return V.term_of(v) if not isinstance(v, z3.ExprRef) else v


def mkn(v):
    return V.mk(ti(v))


class Holes:
    """the requested holes 0, 1, ...: place in the plane of the job, place in the world"""
    local = world = None


@reg
class Vec:
    """the place of hole h in world coordinates"""

    def __init__(self, h):
        self.h = h

    @property
    def x(self):
        return V.mk(Holes.world(z3.IntVal(0), ti(self.h)))

    @property
    def y(self):
        return V.mk(Holes.world(z3.IntVal(1), ti(self.h)))

    @property
    def z(self):
        return V.mk(Holes.world(z3.IntVal(2), ti(self.h)))


@reg
class WireStub:
    """the circle of hole h"""

    def __init__(self, h):
        self.h = h


@reg
class FaceStub:
    """face i: its holes are h, h + 1, ... (n of them), or itself, when it has none"""
    n = None

    def __init__(self, i, h):
        self.i, self.h = i, h

    def innerWires(self):
        h = ti(self.h)
        sq = fseq(FaceStub.n(ti(self.i)), lambda j: WireStub(mkn(z3.simplify(h + ti(j)))))
        sq.h0 = h
        return PList.of_seq(sq)

    def outerWire(self):
        return WireStub(self.h)

    @staticmethod
    def makeFromWires(w, *a):
        return Disc(w.h)


@reg
class Disc:
    def __init__(self, h):
        self.h = h

    def Center(self):
        return Vec(self.h)


@reg
class Hole:
    """the place of hole h in the plane of the job"""

    def __init__(self, h):
        self.h = h

    @property
    def x(self):
        return V.mk(Holes.local(z3.IntVal(0), ti(self.h)))

    @property
    def y(self):
        return V.mk(Holes.local(z3.IntVal(1), ti(self.h)))

    @property
    def z(self):
        return V.mk(Holes.local(z3.IntVal(2), ti(self.h)))


@unit("every requested hole is drilled once, in place, to depth, from above", MODS, must_cover=["drilled"],
      replay="drill",
      requires=["the objects are points, wires and faces"],
      trusts=["Plane.toLocalCoords, Face.Center (cadquery)"])
def drill(P):
    e = V.eng()
    e.on_exception = no_exception(allow=("OperationError",))
    e.use_templates = False
    e.split_ends = True
    M = P["cq_cam.operations.drill"]
    C = P["cq_cam.command"]
    n = e.fresh_int("objects").t
    e.assume(n >= 0)
    kind = e.fresh_func("kind", IS, IS)
    FaceStub.n = e.fresh_func("inner", IS, IS)
    base = e.fresh_func("holes_before", IS, IS)
    Holes.local, Holes.world = e.fresh_func("local", IS, IS, RS), e.fresh_func("world", IS, IS, RS)
    tx, ty = R(e, "target_x"), R(e, "target_y")
    cum = e.fresh_func("requested", IS, IS)
    e.axiom(z3.And(base(z3.IntVal(0)) == 0, cum(z3.IntVal(0)) == 0))

    def at(x, y):
        return z3.If(z3.And(num(x) == num(tx), num(y) == num(ty)), z3.IntVal(1), z3.IntVal(0))

    class Q:
        Vector, Wire, Face, Workplane = Vec, WireStub, FaceStub, type("Workplane", (), {})
    M.cq = Q
    P["cq_cam.operations.base_operation"].cq = Q

    def obj(i):
        i = ti(i)
        k, b = kind(i), base(i)
        e.axiom(FaceStub.n(i) >= 0)
        e.axiom(base(i + 1) == b + z3.If(z3.And(k >= 2, FaceStub.n(i) > 0), FaceStub.n(i), 1))
        e.axiom(b >= 0)
        if e.decide(k <= 0):
            return Vec(V.mk(b))
        if e.decide(k == 1):
            return WireStub(V.mk(b))
        return FaceStub(V.mk(i), V.mk(b))

    def local(v):
        if not isinstance(v, Vec):
            e.fail("places are taken to the plane of the job once", repr(v))
            return v
        h = ti(v.h)
        r = Hole(v.h)
        e.axiom(cum(h + 1) == cum(h) + at(r.x, r.y))
        return r

    class J:
        op_safe_height, rapid_height = R(e, "op_safe_height", gt=0), R(e, "rapid_height")
        feed, plunge_feed = R(e, "feed", gt=0), R(e, "plunge_feed", gt=0)

        class top:
            toLocalCoords = staticmethod(local)
    d = R(e, "depth")
    floor = z3.If(num(d) > 0, -num(d), num(d))

    def pick(last, options):
        L = to_plist(options)
        k = e.fresh_int("nearest").t
        e.prove("there is a hole to choose", L.len_term() >= 1)
        e.assume(z3.And(k >= 0, k < L.len_term()))
        return L.at(k)
    M.Strategy = type("S", (), {"_pick_nearest": staticmethod(pick)})
    s = M.Drill.__new__(M.Drill)
    for k, v in dict(job=J, o=PList.of_seq(fseq(n, obj)), depth=d, wp=None, commands=PList([]), clearance_height=20,
                     top_height=0).items():
        R_.setattr_(s, k, v)

    def hits(x):
        if isinstance(x, Hole):
            return at(x.x, x.y)
        if isinstance(x, tuple) and len(x) == 2 or isinstance(x, PList) and x.tup:
            return at(*tuple(x))
        if isinstance(x, C.PlungeCut):
            if any(v is None for v in (x.end.x, x.end.y)):
                return None
            return z3.If(num(x.end.z) == floor, at(x.end.x, x.end.y), z3.IntVal(0))
        if isinstance(x, C.MotionCommand):
            return z3.IntVal(0)
        return None
    hit = Measure("hits", hits)
    e.measures += [hit]

    def fine(c):
        if not isinstance(c, C.MotionCommand):
            return None
        s_, t = c.start, c.end
        same = z3.And(eqv(s_.x, t.x), eqv(s_.y, t.y))
        if isinstance(c, C.PlungeCut):
            return z3.And(same, z3.BoolVal(None not in (t.x, t.y)), num(t.z) == floor, eqr(c.feed, J.plunge_feed))
        if not isinstance(c, C.Rapid):
            return z3.BoolVal(False)
        safe = num(J.op_safe_height)
        over = z3.And(z3.BoolVal(s_.z is not None), num(s_.z) == safe if s_.z is not None else z3.BoolVal(True))
        return z3.And(z3.Or(num(t.z) == safe, num(t.z) == 0), z3.Or(same, z3.And(over, num(t.z) == safe)))
    ok = Pred("only over the part sideways, down to the surface rapidly, from there cutting, straight down", fine)
    adj = AdjPred("every motion begins where the one before it ended",
                  lambda a, b: z3.And(*[eqv(getattr(a.end, c), getattr(b.start, c)) for c in "xyz"])
                  if isinstance(a, C.MotionCommand) and isinstance(b, C.MotionCommand) else None)
    nxt = AdjPred("the next hole", lambda a, b: ti(b.h) == ti(a.h) + 1 if isinstance(a, Hole) and isinstance(b, Hole) else None)
    e.preds += [ok]
    e.adjs += [adj, nxt]

    def hint(e2, loop, env, i):
        out = []
        sq = loop.seq.chunks[0].seq if isinstance(loop.seq, PList) and len(loop.seq.chunks) == 1 \
            and not isinstance(loop.seq.chunks[0], list) else None

        def c(name, fn, *ps):
            out.append(("custom", f"{name} {ps}", lambda en, i: None if any(p not in en for p in ps)
                        else fn(i, *[en[p] for p in ps])))
        ms = [p for p in env if p[0] == "@" and p[2:] == ("#m", "hits")]
        if loop.seq is None and len(ms) == 2:
            c("kept", lambda i, x, y: x + y == cum(base(n)), *ms)
        if sq is not None and not isinstance(sq, FnSeq):
            def read(lp, en, i):
                q = lp.seq.chunks[0].seq
                q.elem(z3.simplify(i - 1))
                e2.window_measure(Win(q, z3.IntVal(0), i), hit)
                return z3.BoolVal(True)
            out.append(("customl", "what is known of the hole just drilled", read))
            for p in ms:
                out.append(("customl", f"one each {p}", lambda lp, en, i, p=p: None if p not in en else en[p] ==
                            e2.window_measure(Win(lp.seq.chunks[0].seq, z3.IntVal(0), i), hit)))
        for p in env:
            h0 = getattr(sq, "h0", None)
            if p[-2:] == ("#last", ".h"):
                c("last", lambda i, h: h + 1 == (base(i) if h0 is None else h0 + i), p)
            if p[-2:] == ("#first", ".h"):
                c("first", lambda i, h: h == (0 if h0 is None else h0), p)
            if p[-2:] == ("#m", "hits"):
                c("requested", lambda i, m: m == (cum(base(i)) if h0 is None else cum(h0 + i) - cum(h0)), p)
        return out
    e.loop_hints.append(hint)
    s.__post_init__()
    L = s.commands
    e.cover("drilled")
    e.prove("as many times as requested, for every place", L.measure_term(hit) == cum(base(n)))
    prove_list(e, "motions", L, ok, adj)


@reg
class Opt:
    def __init__(self, h):
        self.h = h


@unit("the nearest of several places is one of them, and none is nearer", ["cq_cam.operations.strategy"],
      must_cover=["chosen"], replay="drill", trusts=["cached_dist2 is a function of the two places"])
def nearest(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.operations.strategy"]
    n = e.fresh_int("options").t
    e.assume(n >= 1)
    dist = e.fresh_func("dist", IS, RS)
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < n))
    M.cached_dist2 = lambda p, o: V.mk(dist(ti(o.h)))

    def hint(e2, loop, env, i):
        out = []
        for p in env:
            if p[-1] == ".h":
                out.append(("custom", f"one of them {p}", lambda en, i, p=p: None if p not in en else
                            z3.And(en[p] >= 0, en[p] <= i)))
            for q in env:
                if p[-1] == ".h" and env[q].sort() == RS:
                    out.append(("custom", f"its distance {p} {q}", lambda en, i, p=p, q=q:
                                None if p not in en or q not in en else en[q] == dist(en[p])))
            if env[p].sort() == RS:
                out.append(("custom", f"none so far is nearer {p}", lambda en, i, p=p: None if p not in en else
                            z3.Implies(K <= i, en[p] <= dist(K))))
        return out
    e.loop_hints.append(hint)
    r = M.Strategy._pick_nearest((R(e, "x"), R(e, "y")), PList.of_seq(fseq(n, lambda j: Opt(mkn(j)))))
    e.cover("chosen")
    h = ti(r.h)
    e.prove("one of them", z3.And(h >= 0, h < n))
    e.prove("none is nearer", dist(h) <= dist(K))
