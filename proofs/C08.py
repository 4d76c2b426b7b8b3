"""C08: profiling reaches full depth and never cuts deeper than one step per pass."""
import z3
from pydv import values as V, runtime as R_
from pydv.stubs import reg
from .base import *
from .routes import JobStub, IS, RS, BS

UNITS = []
unit = units(UNITS)
MODS = ["cq_cam.address", "cq_cam.command", "cq_cam.operations.profile"]


@reg
class Feat:
    """an offset wire of the profile: which one, how far above its own place, tabs applied"""

    def __init__(self, i, up, tab=False):
        self.i, self.up, self.tab = i, up, tab

    def BoundingBox(self):
        return Box(self)

    def moved(self, loc):
        x, y, z = loc.v.toTuple()
        V.eng().prove("levels are moved along the tool axis only", z3.And(num(x) == 0, num(y) == 0))
        return Feat(self.i, V.mk(z3.simplify(num(self.up) + num(z))), self.tab)

    def cut(self, face):
        return Cut(self)


@reg
class Box:
    floor = None

    def __init__(self, f):
        self.zmin = V.mk(z3.simplify(Box.floor(term_of(f.i)) + num(f.up)))


@reg
class Cut:
    def __init__(self, f):
        self.f = f


@reg
class Bit:
    """an edge of what remains of a wire when the job plane is cut out of it"""
    z = None

    def __init__(self, q):
        self.q = q

    def Center(self):
        return Mid(self.q)


@reg
class Mid:
    def __init__(self, q):
        self.z = V.SymNum(Bit.z(q))


def levels(step, tabs):
    @unit(f"levels {'with' if step else 'without'} step depth{', tabs' if tabs else ''}", MODS, must_cover=["done"],
          replay="profile_levels",
          trusts=["offset_wire answers any list of wires (cadquery)",
                  "a wire whose lowest point lies below the job plane has edges below it, which combine to wires"])
    def run(P):
        e = V.eng()
        M = P["cq_cam.operations.profile"]
        job = JobStub(e)
        job.max_stepdown_count = I(e, "max_stepdown_count", lo=0)
        job.top_plane_face = object()

        class Top:
            fG = object()
        job.top = Top
        Z = e.fresh_func("floor", IS, RS)
        Box.floor = lambda i: Z(i)
        Bit.z = e.fresh_func("bitz", IS, RS)
        n = e.fresh_int("features").t
        e.assume(n >= 0)
        h = R(e, "tab_height", gt=0)
        off = R(e, "offset")
        sd = R(e, "stepdown", gt=0) if step else pick(e, "none", [None, 0])
        d = num(sd) if step else z3.RealVal(0)
        low = V.const_term(-0.001)

        def pol(e2, ex):
            if type(ex).__name__ == "RuntimeError" and "max_stepdown_count" in str(ex):
                e2.cover("limit")
                return
            e2.fail("raises no error", f"{type(ex).__name__}: {ex}")
        e.on_exception = pol

        class W0:
            def transformShape(self, m):
                e.prove("the wire in the job plane", mkbool(z3.BoolVal(m is Top.fG)))
                return "local"
        seen = []

        def offset(w, amount):
            seen.append("offset")
            e.prove("the wire is offset by the multiple of the tool radius",
                    z3.And(z3.BoolVal(w == "local"), num(amount) == num(off) * num(job.tool_radius)))
            return PList.of_seq(fseq(n, lambda i: Feat(V.mk(i), V.mk(z3.RealVal(0)))))
        M.offset_wire = offset
        M.compound_to_edges = lambda c: PList.of_seq(fseq(bits(c), lambda i: Bit(i)))

        def bits(c):
            k = e.fresh_int("bits").t
            e.assume(k >= 0)
            return k

        def combine(edges):
            # trusted: see trusts
            k = e.fresh_int("wires").t
            e.assume(k >= 1)
            return PList.of_seq(fseq(k, lambda i: i))
        M.cq.Wire.combine = staticmethod(combine)

        class Tabs:
            height = h
        tab = Tabs() if tabs else None

        def apply(w, z, t):
            e.prove("tabs are as high as asked, above the floor of the profile",
                    z3.And(num(z) == Z(term_of(w.i)) + num(h), z3.BoolVal(t is tab)))
            return Feat(w.i, w.up, True)
        M.apply_tabs = apply

        def follows(a, b):
            if not isinstance(a, Feat) or not isinstance(b, Feat):
                return z3.BoolVal(False)
            ai, bi = term_of(a.i), term_of(b.i)
            down = num(a.up) - num(b.up)
            deeper = z3.And(ai == bi, down > 0, down <= d) if step else z3.BoolVal(False)
            return z3.Or(deeper, z3.And(bi == ai + 1, num(a.up) == 0, start(b)))

        def start(b):
            """nothing more than a step above it is left"""
            if not step:
                return num(b.up) == 0
            return z3.And(num(b.up) >= 0, Z(term_of(b.i)) + num(b.up) + d >= low)

        def fine(x):
            if not isinstance(x, Feat):
                return z3.BoolVal(False)
            up = num(x.up)
            return z3.Or(up == 0, z3.And(up > 0, Z(term_of(x.i)) + up < low))
        adj, one = AdjPred("level", follows), Pred("between the floor and the top", fine)
        tabbed = Pred("tabs where asked", lambda x: z3.BoolVal(isinstance(x, Feat) and x.tab is tabs))
        up = AdjPred("level upwards", lambda a, b: follows(b, a))
        adj.rev, up.rev = up, adj
        e.adjs += [adj, up]
        e.preds += [one, tabbed]

        def hint(e2, loop, env, i):
            out = []
            for p in env:
                if p[-2:] == ("#last", ".up"):
                    out.append(("custom", f"up{p}", lambda en, i, p=p: None if p not in en else
                                en[p] == d * z3.ToReal(i)))
                if p[-2:] == ("#first", ".up"):
                    def first(en, i, p=p):
                        k = p[:-1] + (".i",)
                        if p not in en or k not in en:
                            return None
                        return z3.And(en[k] == 0, en[p] >= 0, Z(z3.IntVal(0)) + en[p] + d >= low if step
                                      else en[p] == 0)
                    out.append(("custom", f"first{p}", first))
            if not out and 0:
                print(sorted(map(str, env)))
            return out
        e.loop_hints.append(hint)

        def route(j, paths):
            seen.append("route")
            paths = to_plist(paths)
            e.prove("for this job", mkbool(z3.BoolVal(j is job)))
            N = paths.len_term()
            e.prove("something is cut when there is something to cut", (N == 0) == (n == 0))
            prove_list(e, "levels", paths, one, tabbed, adj)
            if e.decide(N > 0):
                a, b = paths.at(z3.IntVal(0)), paths.at(z3.simplify(N - 1))
                e.prove("cutting begins at the top of the first path", z3.And(term_of(a.i) == 0, start(a)))
                e.prove("the last path cut is the last one at its own depth",
                        z3.And(term_of(b.i) == n - 1, num(b.up) == 0))
            return "commands"
        M.route_wires = route
        r = M.profile(job, W0(), off, sd, tab)
        e.prove("the routed commands are the result", mkbool(z3.BoolVal(r == "commands" and seen == ["offset", "route"])))
        e.cover("done")
    return run


from .routes import prove_list
for _t in (False, True):
    for _s in (False, True):
        levels(_s, _t)
