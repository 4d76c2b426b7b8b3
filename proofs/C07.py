"""C07: pocketing reaches full depth and never cuts deeper than one step per pass."""
import z3
from pydv import values as V, runtime as R_
from pydv.stubs import reg
from .base import *
from .routes import JobStub, IS, RS, BS, prove_list

UNITS = []
unit = units(UNITS)
MODS = ["cq_cam.address", "cq_cam.command", "cq_cam.operations.pocket"]


@reg
class Contour:
    """contour q of sequence k (of pocket area o), at a depth"""

    def __init__(self, k, q, depth, o=0):
        self.k, self.q, self.depth, self.o = k, q, depth, o

    def clone_to_depth(self, depth):
        return Contour(self.k, self.q, depth, self.o)


def order(L, n, d):
    """all contours of a level in the order of the sequences, then those of the next level, d below"""
    def follows(a, b):
        if not isinstance(a, Contour) or not isinstance(b, Contour):
            return z3.BoolVal(False)
        ak, bk, aq, bq = term_of(a.k), term_of(b.k), term_of(a.q), term_of(b.q)
        da, db = num(a.depth), num(b.depth)
        end = aq == L(ak) - 1
        return z3.Or(z3.And(da == db, ak == bk, bq == aq + 1),
                     z3.And(da == db, bk == ak + 1, bq == 0, end),
                     z3.And(db == da - d, ak == n - 1, end, bk == 0, bq == 0))
    return AdjPred("order", follows)


@unit("levels of one pocket area", MODS, must_cover=["some", "none"], replay="apply_stepdown")
def stepdown(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.operations.pocket"]
    e.split_ends, e.use_templates = True, False
    n = e.fresh_int("sequences").t
    L = e.fresh_func("contours", IS, IS)
    e.assume(n >= 1)
    D = R(e, "floor", hi=0)
    d = R(e, "stepdown", gt=0)
    start = opt(e, "start_depth", lambda: R(e, "start_depth", hi=0))
    top = num(start) if start is not None else z3.RealVal(0)
    e.assume(num(D) <= top)
    adj = order(L, n, num(d))
    e.adjs.append(adj)

    def seq(k):
        e.axiom(L(k) >= 1)
        return PList.of_seq(fseq(L(k), lambda q: Contour(V.mk(k), V.mk(q), D), adj={"order": z3.BoolVal(True)}))
    seqs = PList.of_seq(fseq(n, seq))

    def fine(x):
        if not isinstance(x, Contour):
            return z3.BoolVal(False)
        k, q = term_of(x.k), term_of(x.q)
        return z3.And(k >= 0, k < n, q >= 0, q < L(k), num(x.depth) > num(D), num(x.depth) < top)
    one = Pred("between", fine)
    e.preds.append(one)

    def hint(e2, loop, env, i):
        out = []
        for p in env:
            if p[-2:] in (("#first", ".depth"), ("#last", ".depth")):
                b = p[:-1]

                if b[-1] == "#last":
                    out.append(("custom", f"whole{p}", lambda en, i, b=b: None if b + (".q",) not in en else
                                en[b + (".q",)] == L(en[b + (".k",)]) - 1))
                    out.append(("custom", f"all{p}", lambda en, i, b=b: None if b + (".k",) not in en else
                                en[b + (".k",)] == n - 1))
                    out.append(("custom", f"level{p}", lambda en, i, p=p: None if p not in en else
                                en[p] == top - z3.ToReal(i) * num(d)))
                    continue

                def at(en, i, b=b, p=p):
                    try:
                        k, q, z = en[b + (".k",)], en[b + (".q",)], en[p]
                    except KeyError:
                        return None
                    return z3.And(k == 0, q == 0, z == top - num(d))
                out.append(("custom", f"end{p}", at))
        return out
    e.loop_hints.append(hint)
    mark = e.write_mark()
    r = to_plist(M.apply_stepdown(seqs, start, d))
    frame(e, mark, "the sequences given are not modified")
    prove_list(e, "levels", r, one, adj)
    N = r.len_term()
    if e.decide(N > 0):
        e.cover("some")
        a, b = r.flat_first(), r.flat_last()
        e.prove("the first level is one step below the start", z3.And(num(a.depth) == top - num(d), term_of(a.k) == 0,
                                                                      term_of(a.q) == 0))
        k = n - 1
        e.prove("the last level is complete, within a step of the floor",
                z3.And(num(b.depth) - num(D) <= num(d), term_of(b.k) == k, term_of(b.q) == L(k) - 1))
    else:
        e.cover("none")
        e.prove("no level is needed above the floor", top - num(D) <= num(d))


GEO = ["cq_cam.utils.geometry_op"]


@unit("a contour is taken to another depth as it is", GEO, must_cover=["done"], replay="clone")
def clone(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.utils.geometry_op"]
    m, k = e.fresh_int("points").t, e.fresh_int("holes").t
    e.assume(z3.And(m >= 0, k >= 0))
    X = e.fresh_func("X", IS, RS)
    L, HX = e.fresh_func("L", IS, IS), e.fresh_func("HX", IS, IS, RS)

    def hole(h):
        e.axiom(L(h) >= 0)
        return PList.of_seq(fseq(L(h), lambda i: (V.SymNum(HX(h, i)), V.SymNum(-HX(h, i)))))
    face = M.PathFace(PList.of_seq(fseq(m, lambda i: (V.SymNum(X(i)), V.SymNum(-X(i))))),
                      PList.of_seq(fseq(k, hole)), R(e, "depth"))
    d = R(e, "new_depth")
    mark = e.write_mark()
    r = face.clone_to_depth(d)
    frame(e, mark, "the contour given is not modified")
    e.prove("at the depth asked", num(r.depth) == num(d))
    out, inn = to_plist(r.outer), to_plist(r.inners)
    e.prove("all points", z3.And(out.len_term() == m, inn.len_term() == k))
    e.cover("done")
    K = e.fresh_int("K").t
    if e.decide(z3.And(K >= 0, K < m)):
        p = out.at(K)
        e.prove("the same outline", z3.And(num(p[0]) == X(K), num(p[1]) == -X(K)))
    H, J = e.fresh_int("H").t, e.fresh_int("J").t
    if e.decide(z3.And(H >= 0, H < k)):
        h = to_plist(inn.at(H))
        e.prove("the same holes", h.len_term() == L(H))
        if e.decide(z3.And(J >= 0, J < L(H))):
            p = h.at(J)
            e.prove("with the same points", z3.And(num(p[0]) == HX(H, J), num(p[1]) == -HX(H, J)))


@unit("a face becomes a contour at its height, rounded to a millionth", GEO, must_cover=["flat"],
      replay="from_face", trusts=["the bounding box of a flat face (cadquery)", "wire_to_path meets its contract (C18)"])
def flat(P):
    e = V.eng()
    M = P["cq_cam.utils.geometry_op"]
    lo, hi = R(e, "zmin"), R(e, "zmax")
    e.assume(num(lo) <= num(hi))
    k = e.fresh_int("holes").t
    e.assume(k >= 0)

    class F:
        def BoundingBox(self):
            class BB:
                zmin, zmax = lo, hi
            return BB

        def outerWire(self):
            return ("outer", 0)

        def innerWires(self):
            return PList.of_seq(fseq(k, lambda i: ("inner", V.mk(i))))
    M.wire_to_path = lambda w, precision: ("path", w, precision)
    apart = num(hi) - num(lo)

    def pol(e2, ex):
        if type(ex).__name__ == "ValueError":
            e2.cover("not flat")
            e2.prove("only faces that are not flat are refused", apart > 0)
            return
        e2.fail("raises no error", f"{type(ex).__name__}: {ex}")
    e.on_exception = pol
    r = M.PathFace.from_cq_face(F(), 3)
    e.cover("flat")
    z = num(r.depth)
    e.prove("at its height, within half a millionth", z3.And(z - num(hi) <= V.const_term(0.0000005),
                                                             num(hi) - z <= V.const_term(0.0000005)))
    e.prove("in whole millionths", z * 1000000 == z3.ToReal(z3.ToInt(z * 1000000)))
    e.prove("a face that is accepted is flat within a thousandth", apart <= V.const_term(0.001))
    e.prove("its outline", mkbool(z3.BoolVal(r.outer == ("path", ("outer", 0), 3))))
    inn = to_plist(r.inners)
    e.prove("all its holes", inn.len_term() == k)
    K = e.fresh_int("K").t
    if e.decide(z3.And(K >= 0, K < k)):
        h = inn.at(K)
        e.prove("each hole in its place", term_of(h[1][1]) == K)


@reg
class Poly:
    """a pocket area; contains() is an unknown relation"""
    inside = None

    def __init__(self, i):
        self.i = i

    def contains(self, o):
        return mkbool(Poly.inside(term_of(self.i), term_of(o.i)))


@reg
class Op:
    Z = None

    def __init__(self, i):
        self.i = i
        self.polygon = Poly(i)
        self.depth = V.SymNum(Op.Z(term_of(i)))


@unit("the levels begin below the deepest area that contains the pocket", MODS, must_cover=["some", "none"],
      replay="start_depth", trusts=["shapely's contains"])
def start(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.operations.pocket"]
    n = e.fresh_int("areas").t
    e.assume(n >= 0)
    Op.Z = e.fresh_func("Z", IS, RS)
    Poly.inside = e.fresh_func("inside", IS, IS, BS)
    ops = PList.of_seq(fseq(n, lambda i: Op(V.mk(i))))
    me = Op(V.mk(n))
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < n))
    e.skolem_idx.append(K)
    mark = e.write_mark()
    r = M.determine_stepdown_start_depth(me, ops)
    locate(K)
    frame(e, mark, "the areas given are not modified")
    if r is None:
        e.cover("none")
        e.prove("none when no area contains it", z3.Not(Poly.inside(K, n)))
    else:
        e.cover("some")
        e.prove("no containing area is deeper", z3.Implies(Poly.inside(K, n), num(r) <= Op.Z(K)))
        k = z3.Int("k")
        e.prove("it is the depth of an area that contains it",
                z3.Exists([k], z3.And(k >= 0, k < n, Poly.inside(k, n), num(r) == Op.Z(k))))


@reg
class Tok:
    """contour sequence idx of area o: at a level above its floor (kind 0) or at the floor (kind 1)"""

    def __init__(self, o, kind, idx):
        self.o, self.kind, self.idx = o, kind, idx


@reg
class Mot:
    """motion i of the route of a sequence"""
    x = None

    def __init__(self, o, kind, idx, i):
        self.o, self.kind, self.idx, self.i = o, kind, idx, i

    @property
    def end(self):
        return Mot.x(*[term_of(v) for v in (self.o, self.kind, self.idx, self.i)])


@reg
class Op2:
    def __init__(self, o):
        self.o = o


@reg
class Routed:
    def __init__(self):
        self.n, self.o, self.kind, self.idx = 0, -1, 1, 0


def assembled(step):
    @unit(f"areas are filled {'level by level' if step else 'at their floor'}, routed in order without gaps", MODS,
          must_cover=["done"], replay="pocket", trusts=[
              "the areas, their fill, their levels and the routes meet their contracts (C17, C10, here, C11)"])
    def run(P):
        e = V.eng()
        e.on_exception = no_exception()
        e.split_ends = True
        M = P["cq_cam.operations.pocket"]
        job = JobStub(e)
        n = e.fresh_int("areas").t
        e.assume(n >= 0)
        F, S = e.fresh_func("fill", IS, IS), e.fresh_func("steps", IS, IS)
        C = e.fresh_func("count", IS, IS, IS, IS)
        E = e.fresh_func("end", IS, IS, IS, IS, RS)
        H = e.fresh_func("has_start", IS, BS)
        Z = e.fresh_func("start", IS, RS)
        Mot.x = lambda *a: V.SymNum(E(*a))
        d = R(e, "stepdown", gt=0) if step else pick(e, "none", [None, 0])
        over = R(e, "stepover", gt=0)
        g = Routed()

        def steps(o):
            e.axiom(S(o) >= 0)
            return S(o) if step else z3.IntVal(0)

        def fill(o):
            e.axiom(F(o) >= 1)
            return F(o)

        def first(k, i, o):
            return z3.And(i == 0, k == z3.If(steps(o) > 0, 0, 1))

        def succ(ao, ak, ai, bo, bk, bi):
            return z3.Or(z3.And(bo == ao, bk == ak, bi == ai + 1),
                         z3.And(bo == ao, ak == 0, bk == 1, ai == steps(ao) - 1, bi == 0),
                         z3.And(bo == ao + 1, ak == 1, ai == fill(ao) - 1, first(bk, bi, bo)))

        def leaves(x):
            return [term_of(v) for v in (x.o, x.kind, x.idx)]

        def follows(a, b):
            if not isinstance(a, Tok) or not isinstance(b, Tok):
                return z3.BoolVal(False)
            return succ(*leaves(a), *leaves(b))

        def motions(a, b):
            if not isinstance(a, Mot) or not isinstance(b, Mot):
                return z3.BoolVal(False)
            ai, bi = term_of(a.i), term_of(b.i)
            return z3.Or(z3.And(*[p == q for p, q in zip(leaves(a), leaves(b))], bi == ai + 1),
                         z3.And(succ(*leaves(a), *leaves(b)), ai == C(*leaves(a)) - 1, bi == 0))
        e.adjs += [AdjPred("sequences", follows), AdjPred("motions", motions)]
        true = {"sequences": z3.BoolVal(True)}
        M.offset_polyface = lambda *a: PList([])
        M.build_pocket_ops = lambda a, b: PList.of_seq(fseq(n, lambda o: Op2(V.mk(o))))

        def fills(op, by, precision):
            e.prove("filled with the step-over", z3.And(num(by) == num(over), z3.BoolVal(precision == job.precision)))
            o = term_of(op.o)
            return PList.of_seq(fseq(fill(o), lambda i: Tok(op.o, 1, V.mk(i)), adj=true))
        M.fill_pocket_contour_shrink = fills

        def start(op, above):
            o, above = term_of(op.o), to_plist(above)
            e.prove("looked for among the areas before", above.len_term() == o)
            K = e.fresh_int("K").t
            if e.decide(z3.And(K >= 0, K < o)):
                x = above.at(K)
                e.prove("the areas before", term_of(x.o) == K)
            return V.SymNum(Z(o)) if e.decide(H(o)) else None
        M.determine_stepdown_start_depth = start

        def stepped(seqs, z, by):
            seqs = to_plist(seqs)
            x = seqs.at(z3.IntVal(0))
            o = term_of(x.o)
            e.prove("levels of the whole area", z3.And(seqs.len_term() == fill(o), term_of(x.kind) == 1))
            e.prove("levels from where the area is open", z3.And(
                num(by) == num(d), z3.Not(H(o)) if z is None else z3.And(H(o), num(z) == Z(o))))
            if not e.decide(steps(o) > 0):
                return PList([])
            return PList.of_seq(fseq(steps(o), lambda i: Tok(V.mk(o), 0, V.mk(i)), adj=true))
        M.apply_stepdown = stepped

        def route(j, seq, stepover=None, previous_pos=None):
            a = leaves(g)
            b = leaves(seq)
            began = term_of(g.n) > 0
            e.prove("sequences are routed in order", z3.If(began, succ(*a, *b), z3.And(b[0] == 0, first(b[1], b[2], b[0]))))
            e.prove("for the job, linked within the step-over",
                    z3.And(z3.BoolVal(j is job), num(stepover) == num(over)))
            if isinstance(previous_pos, V.SymNum):
                e.prove("from where the previous route ended",
                        z3.And(began, previous_pos.t == E(*a, C(*a) - 1)))
            else:
                e.prove("from an unknown position at first", z3.Not(began))
            R_.setattr_(g, "n", g.n + 1)
            for k, v in zip(("o", "kind", "idx"), b):
                R_.setattr_(g, k, V.mk(v))
            c = C(*b)
            e.axiom(c >= 1)
            return PList.of_seq(fseq(c, lambda i: Mot(seq.o, seq.kind, seq.idx, V.mk(i)),
                                     adj={"motions": z3.BoolVal(True)}))
        M.route_polyface_outers = route

        def hint(e2, loop, env, i):
            out = []
            for p in env:
                if p[-1] != ".o" or len(p) < 2 or p[-2] not in ("#last", "#first"):
                    continue
                b = p[:-1]

                def end(en, i, b=b):
                    t = [en.get(b + (x,)) for x in (".o", ".kind", ".idx")]
                    if None in t:
                        return None
                    if b[-1] == "#first":
                        r = z3.And(t[0] == 0, first(t[1], t[2], t[0]))
                        if b + (".i",) in en:
                            r = z3.And(r, en[b + (".i",)] == 0)
                        return r
                    if b + (".i",) in en:
                        gt = [v for v in ("o", "kind", "idx")]
                        q = next((p for p in en if p[-1] == "o" and p[0] == "@"), None)
                        if q is None:
                            return None
                        gt = [en.get(q[:-1] + (x,)) for x in ("o", "kind", "idx")]
                        if None in gt:
                            return None
                        return z3.And(*[x == y for x, y in zip(t, gt)], en[b + (".i",)] == C(*t) - 1)
                    return z3.And(t[0] == i - 1, t[1] == 1, t[2] == fill(t[0]) - 1)
                out.append(("custom", f"end{b}", end))
            for p in env:
                if p[-1:] == ("previous_pos",) or p == ("previous_pos",):
                    def prev(en, i, p=p):
                        q = next((p for p in en if p[-1] == "o" and p[0] == "@"), None)
                        if q is None or p not in en:
                            return None
                        gt = [en.get(q[:-1] + (x,)) for x in ("o", "kind", "idx")]
                        return None if None in gt else en[p] == E(*gt, C(*gt) - 1)
                    out.append(("custom", "prev", prev))
            return out
        e.loop_hints.append(hint)
        r = to_plist(M.pocket_clipper(job, PList([]), PList([]), 0, 0, 0, 0, over, d))
        e.cover("done")
        if not e.decide(n > 0):
            e.prove("nothing is cut where there is nothing", r.len_term() == 0)
            return
        lo, hi = r.first_last("first"), r.first_last("last")
        e.prove("cutting begins with the first area's first level",
                z3.And(term_of(lo.o) == 0, first(term_of(lo.kind), term_of(lo.idx), term_of(lo.o)), term_of(lo.i) == 0))
        e.prove("cutting ends at the floor of the last area", z3.And(
            term_of(hi.o) == n - 1, term_of(hi.kind) == 1, term_of(hi.idx) == fill(n - 1) - 1,
            term_of(hi.i) == C(*leaves(hi)) - 1))
        prove_list(e, "all routes, in order", r, e.adjs[1])
    return run


assembled(True)
assembled(False)
