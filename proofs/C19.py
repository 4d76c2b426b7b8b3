"""C19: the shapes shown are the motions of the program."""
import z3
from pydv import values as V, runtime as R_
from pydv.stubs import reg
from .base import *
from .routes import IS, RS, BS, prove_list

UNITS = []
unit = units(UNITS)
CM = ["cq_cam.address", "cq_cam.command"]
VM = ["cq_cam.visualize"]
FM = ["cq_cam.address", "cq_cam.command", "cq_cam.visualize", "cq_cam.tool", "cq_cam.fluent"]
OCC = ["Edge.makeLine, Edge.makeThreePointArc and AIS_Line draw the line or arc through the points given (CAD kernel); "
       "equality of vectors is a tolerance that contains equality"]


def mki(i):
    return V.mk(V.term_of(i) if not isinstance(i, z3.ExprRef) else i)


class Drawn:
    def __init__(self, *pts):
        self.pts, self.arrow, self.color = pts, False, None
        self.wrapped = self

    def Attributes(self):
        return self

    def SetLineArrowDraw(self, on):
        self.arrow = on

    def SetColor(self, c):
        self.color = c


def tup(v):
    return [num(c) for c in v.toTuple()]


def same(v, want):
    return z3.And(*[a == b for a, b in zip(tup(v), want)])


def motion(kind, unknown):
    @unit(f"the shape of a {kind}{', coordinates unknown' if unknown else ''}", CM, must_cover=["shape"],
          replay="motion", trusts=OCC)
    def run(P):
        e = V.eng()
        e.on_exception = no_exception()
        A, C = P["cq_cam.address"], P["cq_cam.command"]
        C.AIS_Line = lambda a, b: Drawn(a.p, b.p)
        C.AIS_Shape = lambda w: w
        colors = []

        def color(c):
            colors.append(c)
            return ("color", c)
        C.cached_occ_color = color

        class Pt:
            def __init__(self, pnt):
                self.p = pnt.v if hasattr(pnt, "v") else pnt
        C.Geom_CartesianPoint = Pt

        def line(a, b):
            if kind == "arc" and B(e, "too short for a line"):
                raise RuntimeError("line")
            return Drawn(a, b)

        def arc(a, b, c):
            if B(e, "no arc through the points"):
                raise RuntimeError("arc")
            return Drawn(a, b, c)
        e.hooks["makeLine"], e.hooks["makeThreePointArc"] = line, arc

        def co(name):
            return (opt(e, name, lambda: R(e, name)) if unknown else R(e, name))
        s = A.AddressVector(*[co("s" + c) for c in "xyz"])
        if kind == "plunge":
            # a plunge moves along the tool axis
            t = A.AddressVector(None, None, co("ez"))
        else:
            t = A.AddressVector(*[co("e" + c) for c in "xyz"])
        sv, tv = [s.x, s.y, s.z], [t.x, t.y, t.z]
        if unknown and kind == "rapid" and B(e, "no start"):
            s, sv = None, [None] * 3
        start = [z3.RealVal(0) if v is None else num(v) for v in sv]
        # a coordinate that is not given does not change
        end = [start[k] if v is None else num(v) for k, v in enumerate(tv)]
        arrow = kind == "rapid" and not unknown and bool(e.choose(2))
        if kind == "rapid":
            c = C.Rapid(end=t, start=s, arrow=arrow)
        elif kind == "cut":
            c = C.Cut(end=t, start=s, feed=1)
        elif kind == "plunge":
            c = C.PlungeCut(end=t, start=s, feed=1)
        else:
            m = A.AddressVector(*[R(e, "m" + c) for c in "xyz"])
            mid = [num(m.x), num(m.y), num(m.z)]
            cls = pick(e, "direction", [C.CircularCW, C.CircularCCW])
            c = cls(end=t, start=s, mid=m, center=A.AddressVector(*[R(e, "c" + c) for c in "xyz"]), feed=1)
        edges = bool(e.choose(2))
        alt = False if edges else pick(e, "alt", [1, False] if unknown else [0, 1, False, True])
        mark = e.write_mark()
        r = c.to_ais_shape(as_edges=True) if edges else c.to_ais_shape(alt_color=alt)
        frame(e, mark, "the motion is not modified")
        moves = z3.Or(*[a != b for a, b in zip(start, end)])
        if r is None:
            eqv = z3.Function("vec_isequal", *([RS] * 6), BS)
            if kind == "arc":
                e.prove("a motion is left out only when the kernel can draw neither an arc nor a line",
                        mkbool(z3.BoolVal(e.inputs.get("no arc through the points") is not None
                                          and e.inputs.get("too short for a line") is not None)))
            else:
                e.prove("a motion is left out only when it does not move", Or(z3.Not(moves), eqv(*start, *end)))
            e.cover("none")
            return
        e.cover("shape")
        if not isinstance(r, Drawn):
            e.fail("a shape is drawn", repr(r))
            return
        e.prove("drawn from the start of the motion", same(r.pts[0], start))
        e.prove("drawn to the end of the motion", same(r.pts[-1], end))
        if kind == "arc":
            if len(r.pts) == 3:
                e.cover("arc")
                e.prove("drawn through the middle of the arc", same(r.pts[1], mid))
            else:
                e.prove("a line only where no arc can be drawn",
                        mkbool(z3.BoolVal(e.inputs.get("no arc through the points") is not None)))
        else:
            e.prove("drawn as a line", mkbool(z3.BoolVal(len(r.pts) == 2)))
            if not edges:
                e.prove("it moves", mkbool(moves))
        if not edges:
            want = c.ais_alt_color if alt else c.ais_color
            e.prove("in the colour of the motion", mkbool(z3.BoolVal(r.color == ("color", want))))
    return run


for _k in ("rapid", "cut", "plunge"):
    for _u in (False, True):
        motion(_k, _u)
motion("arc", False)


# ------------------------------------------------------------------ all motions of an operation
@reg
class Mot:
    """motion i of the operation"""
    drawn = None
    shown = None

    def __init__(self, i):
        self.i = i

    def to_ais_shape(self, as_edges=False, alt_color=False):
        e = V.eng()
        i = term_of(self.i)
        if bool(as_edges) != Mot.shown:
            e.fail("edges where edges are asked for, display objects otherwise", f"{as_edges}")
        if not as_edges:
            a = term_of(alt_color)
            if a is None:
                a = z3.If(bterm(alt_color), 1, 0)
            e.prove("colours alternate", a == i % 2)
        e.axiom(Shp.rank(i + 1) == Shp.rank(i) + z3.If(Mot.drawn(i), 1, 0))
        if e.decide(Mot.drawn(i)):
            return Shp(self.i)
        return None


@reg
class Shp:
    """the shape of motion i; at: the transformation applied to it"""
    rank = None

    def __init__(self, i, at=None):
        self.i, self.at = i, at

    def transformShape(self, m):
        if self.at is not None:
            V.eng().fail("a shape is placed once", "")
        return Shp(self.i, m)


class Mat:
    class wrapped:
        pass


class Group:
    def __init__(self):
        self.items, self.tr = PList([]), None

    def Connect(self, s):
        self.items.append(s)

    def SetLocalTransformation(self, t):
        self.tr = t


def scene(e, edges):
    n = e.fresh_int("motions").t
    e.assume(n >= 0)
    Mot.drawn, Shp.rank = e.fresh_func("drawn", IS, BS), e.fresh_func("rank", IS, IS)
    Mot.shown = edges
    e.axiom(Shp.rank(z3.IntVal(0)) == 0)
    e.use_templates = False
    e.split_ends = True
    rank = Shp.rank

    def ok(x):
        return z3.BoolVal(isinstance(x, Shp)) if not isinstance(x, Shp) else z3.And(
            Mot.drawn(term_of(x.i)), z3.BoolVal(x.at is (Mat if edges else None)))

    def follows(a, b):
        if not isinstance(a, Shp) or not isinstance(b, Shp):
            return z3.BoolVal(False)
        return z3.And(rank(term_of(b.i)) == rank(term_of(a.i)) + 1, term_of(b.i) > term_of(a.i))
    one, adj = Pred("a motion that is drawn, in the job plane", ok), AdjPred("in program order, none left out", follows)
    e.preds += [one]
    e.adjs += [adj]

    def hint(e2, loop, env, i):
        out = []
        for p in env:
            if p[-1] == "#len":
                out.append(("custom", f"n{p}", lambda en, i, p=p: None if p not in en else en[p] == rank(i)))
            if p[-1] == ".i" and "#first" not in p:
                out.append(("custom", f"l{p}", lambda en, i, p=p: None if p not in en else z3.And(
                    en[p] < i, rank(i) == rank(en[p]) + 1)))
            if p[-1] == ".i" and "#last" not in p:
                out.append(("custom", f"f{p}", lambda en, i, p=p: None if p not in en else rank(en[p]) == 0))
        return out
    e.loop_hints.append(hint)

    def check(L, label):
        L = to_plist(L)
        N = L.len_term()
        e.prove(f"{label}: as many shapes as motions that move", N == rank(n))
        prove_list(e, label, L, one, adj)
        if e.decide(N > 0):
            e.cover("drawn")
            e.prove(f"{label}: the first motion that moves comes first", rank(term_of(L.at(z3.IntVal(0)).i)) == 0)
    return n, PList.of_seq(fseq(n, lambda i: Mot(mki(i)))), check


class Top:
    """the job plane: anywhere, turned in any way"""
    rG = Mat
    fG = object()


def any_plane(e, P):
    v = P.mods["cadquery"].Vector
    for k in ("origin", "xDir", "yDir", "zDir"):
        setattr(Top, k, v(*[R(e, k + c) for c in "xyz"]))


@unit("the edges of an operation: one for each motion that moves, in order, in the job plane", VM, must_cover=["drawn"],
      replay="job", trusts=["transformShape places a shape (cadquery)"])
def as_edges(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.visualize"]
    any_plane(e, P)
    n, L, check = scene(e, True)
    r = M.visualize_job_as_edges(Top, L)
    check(r, "edges")


@unit("the display of an operation: one shape for each motion that moves, in order, in the job plane", VM,
      must_cover=["drawn"], replay="job", trusts=["SetLocalTransformation places a group of shapes (OCC)"])
def displayed(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.visualize"]
    any_plane(e, P)
    n, L, check = scene(e, False)
    groups = []

    def group():
        groups.append(Group())
        return groups[-1]
    M.AIS_MultipleConnectedInteractive = group
    axes = object()
    planes = []

    def plane(p, *a, **k):
        planes.append(p)
        return axes
    M.visualize_job_plane = plane
    tr = object()
    Mat.wrapped.Trsf = staticmethod(lambda: tr)
    r = M.visualize_job(Top, L)
    if r not in groups or len(groups) != 2:
        e.fail("one group of shapes is placed", repr(groups))
        return
    shapes = groups[1 - groups.index(r)]
    e.prove("the shapes are placed in the job plane, once", mkbool(z3.BoolVal(shapes.tr is tr and r.tr is None)))
    e.prove("the group shows the shapes (and the axes of the plane)",
            mkbool(z3.BoolVal([x is shapes or x is axes for x in r.items.items()] == [True, True]
                              and any(x is shapes for x in r.items.items()) and planes == [Top])))
    check(shapes.items, "shapes")


# ------------------------------------------------------------------ jobs
@reg
class Op:
    """operation i: its commands are (i, 0), (i, 1), ..."""
    m = None

    def __init__(self, i):
        self.i = i
        self.name = mki(i)

    @property
    def commands(self):
        k = Op.m(term_of(self.i))
        V.eng().axiom(k >= 0)
        return PList.of_seq(fseq(k, lambda q: Cmd(self.i, mki(q))))


@reg
class Cmd:
    def __init__(self, i, q):
        self.i, self.q = i, q


@reg
class Fig:
    """shape q of the ones drawn for operation i (all of them when q is None)"""

    def __init__(self, i, q=None):
        self.i, self.q = i, q


def job_unit(name, edges):
    @unit(name, FM, must_cover=["shapes"], replay="job",
          requires=["visualize_job and visualize_job_as_edges draw the motions given to them (own units)"])
    def run(P):
        e = V.eng()
        e.on_exception = no_exception()
        F = P["cq_cam.fluent"]
        job = F.Job(object(), feed=1, tool_diameter=1)
        n = e.fresh_int("operations").t
        e.assume(n >= 0)
        Op.m, s = e.fresh_func("motions", IS, IS), e.fresh_func("shapes", IS, IS)
        e.assume(Op.m(z3.IntVal(0)) >= 0)
        R_.setattr_(job, "operations", PList.of_seq(fseq(n, lambda i: Op(mki(i)))))

        def draw(top, commands, *a):
            L = to_plist(commands)
            k, m = e.fresh_int("K").t, L.len_term()
            e.prove("drawn in the plane of the job", mkbool(z3.BoolVal(top is job.top)))
            if not e.decide(m >= 1):
                return PList([]) if edges else Fig(-1)
            x, x0 = L.at(k), L.at(z3.IntVal(0))
            i = term_of(x0.i)
            e.prove("all motions but the first of one operation, in order",
                    z3.And(m == Op.m(i) - 1, z3.Implies(z3.And(k >= 0, k < m), z3.And(term_of(x.i) == i, term_of(x.q) == k + 1))))
            if not edges:
                return Fig(mki(i))
            e.axiom(s(i) >= 0)
            return PList.of_seq(fseq(s(i), lambda q: Fig(mki(i), mki(q))))
        if edges:
            F.visualize_job_as_edges, F.visualize_job = draw, None
        else:
            F.visualize_job, F.visualize_job_as_edges = draw, None
        mark = e.write_mark()
        r = to_plist(job.to_shapes(as_edges=True) if edges else job.to_shapes())
        N = r.len_term()
        K = e.fresh_int("K").t
        e.assume(z3.And(K >= 0, K < N))
        x = r.at(K)
        frame(e, mark, "the job is not modified")
        if not isinstance(x, Fig):
            e.fail("a shape of an operation", repr(x))
            return
        e.cover("shapes")
        if not edges:
            e.prove("one group for each operation", N == n)
            e.prove("operation K is shown by group K, if it has more than the initial motion",
                    z3.Or(term_of(x.i) == K, z3.And(Op.m(K) <= 1, term_of(x.i) == -1)))
            return
        e.prove("a shape of an operation of the job", z3.And(term_of(x.i) >= 0, term_of(x.i) < n,
                                                             term_of(x.q) >= 0, term_of(x.q) < s(term_of(x.i))))
        i0, q0 = term_of(x.i), term_of(x.q)
        if e.decide(K == 0):
            e.prove("the first shape drawn is the first shape", q0 == 0)
            return
        p = r.at(z3.simplify(K - 1))
        i1, q1 = term_of(p.i), term_of(p.q)
        J = e.fresh_int("J").t
        e.assume(z3.And(J >= 0, J < n, s(J) > 0, Op.m(J) >= 2))
        seq = r.chunks[0].seq if not isinstance(r.chunks[0], list) else None
        if hasattr(seq, "index_of"):
            y = r.at(seq.index_of(J, z3.IntVal(0)))
            e.prove("every operation that moves is shown", term_of(y.i) == J)
            e.cover("complete")
        e.prove("the shapes of an operation in order, one operation after the other",
                z3.Or(z3.And(i0 == i1, q0 == q1 + 1), z3.And(i0 > i1, q0 == 0, q1 == s(i1) - 1)))
    return run


job_unit("a job shows its operations, without their first motions, in order (display)", False)
job_unit("a job shows its operations, without their first motions, in order (edges)", True)


@reg
class Screen:
    """how many operations have been shown"""

    def __init__(self):
        self.shown = 0


class Show:
    __module__ = "ocp_vscode.show"
    f = None

    def __call__(self, *a, **k):
        return Show.f(*a, **k)


@unit("showing a job shows every operation once, in order, as edges or as display objects", FM,
      must_cover=["shown"], replay="job",
      requires=["visualize_job and visualize_job_as_edges draw the motions given to them (own units)"])
def show(P):
    e = V.eng()
    e.on_exception = no_exception()
    F = P["cq_cam.fluent"]
    where = pick(e, "viewer", ["ocp_vscode.show", "cq_editor.main", "something.else"])
    job = F.Job(object(), feed=1, tool_diameter=1)
    n = e.fresh_int("operations").t
    e.assume(n >= 0)
    Op.m = e.fresh_func("motions", IS, IS)
    R_.setattr_(job, "operations", PList.of_seq(fseq(n, lambda i: Op(mki(i)))))
    g = Screen()

    def drawer(kind):
        def draw(top, commands, *a):
            L = to_plist(commands)
            k, m = e.fresh_int("K").t, L.len_term()
            e.prove("drawn in the plane of the job", mkbool(z3.BoolVal(top is job.top)))
            e.prove("in the form the viewer takes", mkbool(z3.BoolVal((kind == "display") == (where == "cq_editor.main"))))
            if not e.decide(m >= 1):
                return ("nothing", None)
            x, x0 = L.at(k), L.at(z3.IntVal(0))
            i = term_of(x0.i)
            e.prove("all motions but the first of one operation, in order",
                    z3.And(m == Op.m(i) - 1, z3.Implies(z3.And(k >= 0, k < m), z3.And(term_of(x.i) == i, term_of(x.q) == k + 1))))
            return ("fig", i)
        return draw
    F.visualize_job, F.visualize_job_as_edges = drawer("display"), drawer("edges")

    def shown(fig, *a, **k):
        c = term_of(g.shown)
        if fig[0] == "fig":
            e.prove("the operations are shown in order", fig[1] == c)
        else:
            e.prove("an operation without motions shows nothing", Op.m(c) <= 1)
        R_.setattr_(g, "shown", V.mk(c + 1))
    Show.f = staticmethod(shown)
    so = Show()
    so.__module__ = where
    mark = e.write_mark()
    job.show(so)
    e.prove("every operation is shown", term_of(g.shown) == n)
    frame(e, mark, "the job is not modified", except_=(g,))
    e.cover("shown")
