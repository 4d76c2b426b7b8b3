"""C16: offsets put the cutter on the intended side of the wire."""
import z3
from pydv import values as V, runtime as R_
from pydv.stubs import reg
from .base import *
from .routes import JobStub, IS, RS

UNITS = []
unit = units(UNITS)
MODS = ["cq_cam.address", "cq_cam.command", "cq_cam.operations.pocket"]


@unit("an offset is the radius times the multiple plus the extra; defaults only where none is given",
      ["cq_cam.utils.geometry_op"], must_cover=["none", "number", "pair"], replay="calculate_offset")
def offset(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.utils.geometry_op"]
    r = R(e, "radius", gt=0)
    default = pick(e, "default", ["no", None, -1, 1, 0.5, 0])
    kind = pick(e, "kind", ["none", "zero", "number", "pair"])
    a, b = R(e, "multiple"), R(e, "extra")
    given = {"none": None, "zero": 0, "number": a, "pair": (a, b)}[kind]
    got = M.calculate_offset(r, given) if default == "no" else M.calculate_offset(r, given, default)
    e.cover(kind)
    d = 0 if default in ("no", None) else default
    want = {"none": num(r) * z3.RealVal(str(d)), "zero": z3.RealVal(0), "number": num(r) * num(a),
            "pair": num(r) * num(a) + num(b)}[kind]
    e.prove(f"the offset ({kind})", num(got) == want)


@reg
class CqFace:
    """a face of the caller: which list it is from, its place in it, and what was done to it"""

    def __init__(self, src, i, by=None):
        self.src, self.i, self.by = src, i, by

    def transformShape(self, m):
        return CqFace(self.src, self.i, m)


@reg
class Flat:
    def __init__(self, face, precision):
        self.face, self.precision = face, precision


def pocket_unit(engine):
    @unit(f"pocket: faces in the job plane, offsets as asked or the defaults ({engine})", MODS,
          must_cover=["avoid", "no avoid"], trusts=["the transformation of a face by the plane's matrix (cadquery)"],
          replay="pocket_args")
    def run(P):
        e = V.eng()
        e.on_exception = no_exception()
        M = P["cq_cam.operations.pocket"]
        job = JobStub(e)
        matrix = object()

        class Top:
            fG = matrix
        job.top = Top
        n = e.fresh_int("n").t
        e.assume(n >= 1)
        faces = PList.of_seq(fseq(n, lambda i: CqFace("op", i)))
        av = pick(e, "avoid", ["none", "empty", "some"])
        k = e.fresh_int("k").t
        e.assume(k >= 1)
        avoid = {"none": None, "empty": PList([]),
                 "some": PList.of_seq(fseq(k, lambda i: CqFace("avoid", i)))}[av]
        forms = {}

        def given(name):
            kind = pick(e, name, ["none", "number", "pair"])
            a, b = R(e, name + "_multiple"), R(e, name + "_extra")
            forms[name] = (kind, a, b)
            return {"none": None, "number": a, "pair": (a, b)}[kind]
        # one parameter at a time takes each form (they are treated independently); the others stay open
        which = pick(e, "which", ["outer_offset", "inner_offset", "avoid_outer_offset", "avoid_inner_offset", "stepover"])
        kw = {}
        for name in ("outer_offset", "inner_offset", "avoid_outer_offset", "avoid_inner_offset", "stepover"):
            if name == which:
                kw[name] = given(name)
            else:
                forms[name] = ("none", None, None)
        sd = opt(e, "stepdown", lambda: R(e, "stepdown", gt=0))
        calls = []

        class PF:
            @staticmethod
            def from_cq_face(face, precision):
                return Flat(face, precision)
        M.PathFace = PF

        def rec(*a, **k2):
            calls.append((a, k2))
            return PList([])
        M.pocket_clipper = rec if engine == "clipper" else None
        M.pocket_cq = rec if engine == "cq" else None
        mark = e.write_mark()
        if engine == "clipper":
            M.pocket(job, faces, avoid_areas=avoid, stepdown=sd, **kw)
        else:
            M.pocket(job, faces, avoid_areas=avoid, stepdown=sd, engine="cq", **kw)
        frame(e, mark, "nothing given is modified")
        if len(calls) != 1:
            e.fail("the pocket is made once", repr(len(calls)))
            return
        a, k2 = calls[0]
        names = ["job", "op_areas", "avoid_areas", "outer_offset", "inner_offset", "avoid_outer_offset",
                 "avoid_inner_offset", "stepover", "stepdown"]
        got = dict(zip(names, a), **k2)
        e.cover("avoid" if av == "some" else "no avoid")
        e.prove("for the job", mkbool(z3.BoolVal(got["job"] is job)))
        some = av == "some"
        default = {"outer_offset": 0 if some else -1, "inner_offset": 1, "avoid_outer_offset": 1,
                   "avoid_inner_offset": -1, "stepover": 0.5}
        for name, (kind, x, y) in forms.items():
            want = {"none": lambda: num(job.tool_radius) * z3.RealVal(str(default[name])),
                    "number": lambda: num(job.tool_radius) * num(x),
                    "pair": lambda: num(job.tool_radius) * num(x) + num(y)}[kind]()
            e.prove(f"{name} ({kind})", num(got[name]) == want)
        for name, src, ln in (("op_areas", "op", n), ("avoid_areas", "avoid", k if some else z3.IntVal(0))):
            L = to_plist(got[name])
            e.prove(f"{name}: every face once", L.len_term() == ln)
            if src == "avoid" and not some:
                continue
            K = e.fresh_int("K").t
            e.assume(z3.And(K >= 0, K < ln))
            f = L.at(K)
            if engine == "clipper":
                ok = isinstance(f, Flat)
                e.prove(f"{name}: made plane at the job's precision",
                        mkbool(z3.BoolVal(ok and f.precision == job.precision)))
                f = f.face if ok else f
            ok = isinstance(f, CqFace) and f.src == src and f.by is matrix
            e.prove(f"{name}: the caller's faces in the job plane, in order", z3.And(z3.BoolVal(ok), f.i == K) if ok
                    else z3.BoolVal(False))
        if engine == "clipper":
            e.prove("the step depth is the one given", eqr(got["stepdown"], sd))
    return run


pocket_unit("clipper")
pocket_unit("cq")


@reg
class Part:
    """the q-th piece face i of a list became when it was offset"""

    def __init__(self, src, i, q):
        self.src, self.i, self.q = src, i, q
        self.depth = -1.0


@reg
class Asked:
    def __init__(self):
        self.op, self.avoid = 0, 0


@unit("pocket: every face is offset once with its own offsets; an avoided area with those of avoided areas", MODS,
      must_cover=["done"], replay="pocket_offsets",
      trusts=["offset_polyface meets its contract (proved here down to the clipper)"])
def clipper(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.operations.pocket"]
    job = JobStub(e)
    g = Asked()
    n, k = e.fresh_int("n").t, e.fresh_int("k").t
    e.assume(z3.And(n >= 0, k >= 0))
    pieces = {s: e.fresh_func("pieces_" + s, IS, IS) for s in ("op", "avoid")}
    offs = {nm: R(e, nm) for nm in ("outer", "inner", "avoid_outer", "avoid_inner")}
    step = R(e, "stepover", gt=0)

    def off(face, outer, inner, precision):
        src = face.src
        oo, ii = ("outer", "inner") if src == "op" else ("avoid_outer", "avoid_inner")
        e.prove(f"{src}: offset by its own offsets", z3.And(num(outer) == num(offs[oo]), num(inner) == num(offs[ii])))
        e.prove(f"{src}: at the job's precision", mkbool(z3.BoolVal(precision == job.precision)))
        e.prove(f"{src}: each face once, in order", face.i == term_of(getattr(g, src)))
        R_.setattr_(g, src, V.mk(z3.simplify(face.i + 1)))
        c = pieces[src](face.i)
        e.axiom(c >= 0)
        return PList.of_seq(fseq(c, lambda q, i=face.i: Part(src, i, q)))
    M.offset_polyface = off
    seen = []

    def build(ops, avoids):
        seen.append(1)
        for src, L, cnt in (("op", ops, n), ("avoid", avoids, k)):
            e.prove(f"{src}: every face is offset", term_of(getattr(g, src)) == cnt)
            K = e.fresh_int("K").t
            e.assume(z3.And(K >= 0, K < to_plist(L).len_term()))
            if e.check(z3.BoolVal(True)) == z3.unsat:
                continue
            p = to_plist(L).at(K)
            e.prove(f"{src}: areas keep to their side", mkbool(z3.BoolVal(isinstance(p, Part) and p.src == src)))
        return PList([])
    M.build_pocket_ops = build
    M.pocket_clipper(job, PList.of_seq(fseq(n, lambda i: CqFace("op", i))),
                     PList.of_seq(fseq(k, lambda i: CqFace("avoid", i))),
                     offs["outer"], offs["inner"], offs["avoid_outer"], offs["avoid_inner"], step, None)
    if len(seen) != 1:
        e.fail("the areas are made once", repr(seen))
    e.cover("done")


@reg
class Pth:
    def __init__(self, src, i, q=None):
        self.src, self.i, self.q = src, i, q


def poly_unit(inners):
    @unit(f"a face is offset: its outline by the outer offset, {'its holes by the inner one' if inners else 'no holes'}",
          ["cq_cam.utils.geometry_op"], must_cover=["done"], replay="offset_polyface",
          trusts=["pyclipper's offset of a closed path: outwards for positive amounts, by that distance"])
    def run(P):
        e = V.eng()
        e.on_exception = no_exception()
        M = P["cq_cam.utils.geometry_op"]
        oo, ii, depth = R(e, "outer"), R(e, "inner"), R(e, "depth")
        n = e.fresh_int("n").t
        e.assume(n >= 1)
        cnt = {s: e.fresh_func("pieces_" + s, IS, IS) for s in ("outer", "inner")}
        face = M.PathFace(Pth("outer", z3.IntVal(0)),
                          PList.of_seq(fseq(n, lambda i: Pth("inner", i))) if inners else PList([]), depth)

        def off(path, amount, precision):
            e.prove(f"the {path.src} offset", num(amount) == num(oo if path.src == "outer" else ii))
            e.prove("at the precision given", mkbool(z3.BoolVal(precision == 3)))
            c = cnt[path.src](path.i)
            e.axiom(c >= 0)
            return PList.of_seq(fseq(c, lambda q: Pth(path.src, path.i, q)))
        M.offset_path = off
        seen = []

        def make(outers, inns, d):
            seen.append(1)
            outers, inns = to_plist(outers), to_plist(inns)
            e.prove("the depth stays", num(d) == num(depth))
            e.prove("all pieces of the outline", outers.len_term() == cnt["outer"](z3.IntVal(0)))
            for src, L in (("outer", outers), ("inner", inns)):
                K = e.fresh_int("K").t
                if e.decide(z3.And(K >= 0, K < L.len_term())):
                    p = L.at(K)
                    e.prove(f"pieces of the {src} path", mkbool(z3.BoolVal(isinstance(p, Pth) and p.src == src
                                                                       and p.q is not None)))
            return PList([])
        M.make_polyfaces = make
        mark = e.write_mark()
        r = to_plist(M.offset_polyface(face, oo, ii, 3))
        frame(e, mark, "the face given is not modified")
        e.cover("done")
        if inners:
            e.prove("the pieces are put together once", mkbool(z3.BoolVal(len(seen) == 1)))
            return
        e.prove("no more than that", mkbool(z3.BoolVal(not seen)))
        e.prove("one area for each piece", r.len_term() == cnt["outer"](z3.IntVal(0)))
        K = e.fresh_int("K").t
        if e.decide(z3.And(K >= 0, K < r.len_term())):
            f = r.at(K)
            e.prove("the area of the piece, at the depth, without holes",
                    z3.And(num(f.depth) == num(depth), f.outer.q == K, to_plist(f.inners).len_term() == 0))
    return run


poly_unit(True)
poly_unit(False)
