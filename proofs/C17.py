"""C17: stacked pockets are cleared from the top down inside their own region."""
import z3
from pydv import values as V, runtime as R_
from pydv.lists import PList as PL, FilterSeq
from pydv.stubs import reg
from .base import *
from .routes import JobStub, IS, RS, BS, prove_list

UNITS = []
unit = units(UNITS)
MODS = ["cq_cam.operations.pocket"]
SORT = ["list.sort orders, dict keys are the keys used, each once"]


def ti(v):
    return term_of(v)


@reg
class Face:
    """face q of level l"""

    def __init__(self, l, q, src='op'):
        self.l, self.q, self.src = l, q, src

    @property
    def depth(self):
        return V.SymNum(Reg.D[self.src == 'avoid'](ti(self.l)))

    @property
    def outer(self):
        return Out(self.l, self.q, self.src)

    @property
    def inners(self):
        e = V.eng()
        l, q = ti(self.l), ti(self.q)
        c = Reg.holes(l, q)
        e.axiom(c >= 0)
        K = Reg.K
        mine = z3.And(l == K[0], q == K[1], K[2] >= 0, K[2] < c)
        return PList.of_seq(fseq(c, lambda i: In(self.l, self.q, V.mk(i), self.src),
                                 meas={Reg.hole: z3.If(mine, z3.IntVal(1), z3.IntVal(0)) if self.src == 'op' else z3.IntVal(0),
                               Reg.face: z3.IntVal(0), Reg.avoid: z3.IntVal(0)}))


@reg
class Out:
    def __init__(self, l, q, src):
        self.l, self.q, self.src = l, q, src


@reg
class In:
    def __init__(self, l, q, i, src):
        self.l, self.q, self.i, self.src = l, q, i, src


@reg
class Area:
    """area i of the result at level l"""

    def __init__(self, l, i):
        self.l, self.i = l, i


class Reg:
    touch = D = holes = K = A = lv = n = faces = None


class DList(PL):
    """the list of the faces of a level: later readers of the map see what is added to it"""

    def extend(self, o):
        g, l = Reg.g, self.level
        R_.setattr_(g, "dirty", V.mk(z3.simplify(z3.If(l > ti(g.dirty), l, ti(g.dirty)))))
        super().extend(o)

    def append(self, o):
        self.extend(PList([o]))


DList.__module__ = PL.__module__


@reg
class Ghost:
    ghost = True

    def __init__(self):
        self.dirty, self.calls = -1, 0


@reg
class Levels:
    """what generate_depth_map returns: the faces of every depth"""

    def __init__(self, src):
        self.src = src

    def __getitem__(self, d):
        e, s = V.eng(), self.src
        if s == 1:
            Reg.touch()
        l = Reg.lv[s](num(d))
        e.prove("only depths that some face has", z3.And(l >= 0, l < Reg.n[s], Reg.D[s](l) == num(d)))
        if s == 0:
            e.prove("the faces of a depth are still as they were", l > ti(Reg.g.dirty))
        c = Reg.faces[s](l)
        e.axiom(c >= 1)
        T = Reg.K if s == 0 else Reg.A
        one = z3.If(z3.And(l == T[0], T[1] >= 0, T[1] < c), z3.IntVal(1), z3.IntVal(0))
        zero = z3.IntVal(0)
        k = z3.If(z3.And(l == T[0], T[1] >= 0, T[1] < c, T[2] >= 0, T[2] < Reg.holes(l, T[1])), z3.IntVal(1), zero)
        p = DList.of_seq(fseq(c, lambda q: Face(V.mk(l), V.mk(q), 'avoid' if s else 'op'), all_={p: z3.BoolVal(True) for p in Reg.kinds},
                              meas={Reg.face: one if s == 0 else zero, Reg.avoid: one if s == 1 else zero,
                                    Reg.hole: k if s == 0 else zero}))
        p.level = l
        return p


def areas(P, some):
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    e.split_ends = True
    M = P["cq_cam.operations.pocket"]
    Reg.D = [e.fresh_func("depth", IS, RS), e.fresh_func("avoid_depth", IS, RS)]
    Reg.lv = [e.fresh_func("level", RS, IS), e.fresh_func("avoid_level", RS, IS)]
    Reg.n = [e.fresh_int("levels").t, e.fresh_int("avoid_levels").t]
    Reg.faces = [e.fresh_func("faces", IS, IS), e.fresh_func("avoid_faces", IS, IS)]
    Reg.holes = e.fresh_func("holes", IS, IS, IS)
    Reg.g = Ghost()
    K = Reg.K = [e.fresh_int(n).t for n in ("L", "face", "hole")]
    A = Reg.A = [e.fresh_int(n).t for n in ("AL", "aface")] + [z3.IntVal(0)]
    e.assume(z3.And(Reg.n[0] >= 0, Reg.n[1] >= 0, K[0] >= 0, K[0] < Reg.n[0], A[0] >= 0, A[0] < Reg.n[1])
             if some else z3.And(Reg.n[0] >= 0, Reg.n[1] == 0, K[0] >= 0, K[0] < Reg.n[0], A[0] == -1))
    e.assume(z3.And(K[1] >= 0, K[1] < Reg.faces[0](K[0]), K[2] >= 0, K[2] < Reg.holes(K[0], K[1])))
    e.assume(z3.Implies(A[0] >= 0, z3.And(A[1] >= 0, A[1] < Reg.faces[1](A[0]))))
    e.skolem_idx += [K[0], A[0]]
    one, zero = z3.IntVal(1), z3.IntVal(0)

    def cnt(cls, src, T, n):
        def f(x):
            if not isinstance(x, cls):
                return None
            if x.src != src:
                return zero
            v = [ti(x.l), ti(x.q)] + ([ti(x.i)] if n == 3 else [])
            return z3.If(z3.And(*[a == b for a, b in zip(v, T)]), one, zero)
        return f

    def both(T, s):
        f, g = cnt(Face, s, T, 2), cnt(Out, s, T, 2)
        return lambda x: f(x) if isinstance(x, Face) else zero if isinstance(x, In) else g(x)

    def holes(x):
        if isinstance(x, In):
            return cnt(In, "op", K, 3)(x)
        if isinstance(x, Face):
            return z3.If(z3.And(ti(x.l) == K[0], ti(x.q) == K[1]), one, zero) if x.src == "op" else zero
        return zero if isinstance(x, Out) else None
    Reg.face, Reg.avoid, Reg.hole = (Measure("outline", both(K, "op")), Measure("avoided", both(A, "avoid")), Measure("hole", holes))
    for m in (Reg.face, Reg.avoid, Reg.hole):
        m.nonneg = True
    e.measures += [Reg.face, Reg.avoid, Reg.hole]
    calls = []

    def depths(s):
        N, D, lv = Reg.n[s], Reg.D[s], Reg.lv[s]

        def at(i):
            e.axiom(z3.Implies(z3.And(i >= 0, i < N), lv(D(i)) == i))
            for j in [K[0] if s == 0 else A[0]]:
                e.axiom(z3.Implies(z3.And(i >= 0, j >= 0, i < N, j < N), z3.And(z3.Implies(i < j, D(i) > D(j)), z3.Implies(j < i, D(j) > D(i)))))
            return V.SymNum(D(i))
        return PList.of_seq(fseq(N, at))

    def maps(faces):
        s = 0 if faces == "areas" else 1
        calls.append(faces)
        return (Levels(s), depths(s))
    M.generate_depth_map = maps

    def level(x):
        return ti(x.l)
    down = AdjPred("from the top down", lambda a, b: z3.Or(ti(b.l) == ti(a.l) + 1, z3.And(ti(a.l) == ti(b.l), ti(b.i) == ti(a.i) + 1))
                   if isinstance(a, Area) and isinstance(b, Area) else z3.BoolVal(False))
    e.adjs.append(down)
    Reg.kinds = []
    C = e.fresh_func("count", IS, IS)

    KO, KI = kind_pred("outlines", Out, None, "op"), kind_pred("holes and avoided outlines", In, Out, "avoid")

    e.preds += [KO, KI, kind_pred("faces", Face, None, "op"), kind_pred("avoided faces", Face, Face, "avoid")]

    def minus(outers, inners, depth):
        g = Reg.g
        l = ti(g.calls)
        touch()
        outers, inners = to_plist(outers), to_plist(inners)
        e.prove("levels in order, each once", num(depth) == Reg.D[0](l))
        e.prove("an outline is taken where its face is as deep", outers.measure_term(Reg.face) == z3.If(K[0] >= l, one, zero))
        e.prove("outlines alone are cleared", outers.measure_term(Reg.avoid) == 0)
        e.prove("its holes are left", inners.measure_term(Reg.hole) == z3.If(K[0] >= l, one, zero))
        e.prove("what is avoided at this depth or higher is left", inners.measure_term(Reg.avoid) ==
                z3.If(z3.And(A[0] >= 0, Reg.D[1](A[0]) >= Reg.D[0](l)), one, zero))
        e.prove("outlines are not left", inners.measure_term(Reg.face) == 0)
        prove_list(e, "cleared", outers, KO)
        prove_list(e, "left", inners, KI)
        R_.setattr_(g, "calls", V.mk(z3.simplify(l + 1)))
        c = C(l)
        e.axiom(c >= 1)
        return PList.of_seq(fseq(c, lambda i: Area(V.mk(l), V.mk(i)), adj={down: z3.BoolVal(True)}))
    M.difference_poly_tree = minus

    def touch():
        """the place of the tracked level among those chosen"""
        fs = next((c for c in reversed(e.computed) if isinstance(c, FilterSeq)), None)
        if fs is not None and not hasattr(fs, "mine"):
            fs.mine = fs.index_of(A[0])
            fs.elem(fs.mine[0])
    Reg.touch = touch

    def sofar(v, i):
        fs = next((c for c in reversed(e.computed) if isinstance(c, FilterSeq)), None)
        if not hasattr(fs, "mine"):
            return None
        p, c = fs.mine
        return v == z3.If(z3.And(c, p < i), one, zero)

    def hint(e2, loop, env, i):
        out = [("custom", "as high as the level", lambda en, i: z3.Implies(
            z3.And(A[0] >= 0, A[0] < i), Reg.D[1](A[0]) >= Reg.D[0](ti(Reg.g.calls))))] if some else []
        for p in env:
            if p[-1] == "dirty":
                out.append(("custom", f"dirty {p}", lambda en, i, p=p: None if p not in en else en[p] < i))
            if p[-1] == "calls":
                out.append(("custom", f"calls {p}", lambda en, i, p=p: None if p not in en else en[p] == i))
                out.append(("custom", f"deeper {p}", lambda en, i, p=p: None))
            if p[-2:] == ("#m", "outline") or p[-2:] == ("#m", "hole"):
                out.append(("custom", f"none {p}", lambda en, i, p=p: None if p not in en else en[p] == 0))
                out.append(("custom", f"so far {p}", lambda en, i, p=p: None if p not in en else en[p] == z3.If(
                    z3.And(K[0] > ti(Reg.g.calls), K[0] <= ti(Reg.g.calls) + i), one, zero)))
            if p[-2:] == ("#m", "avoided"):
                out.append(("custom", f"so far {p}", lambda en, i, p=p: None if p not in en else sofar(en[p], i)))
                out.append(("custom", f"none {p}", lambda en, i, p=p: None if p not in en else en[p] == 0))
        return out
    e.loop_hints.append(hint)
    mark = e.write_mark()
    r = to_plist(M.build_pocket_ops("areas", "avoid"))
    e.cover("done")
    e.prove("each kind is sorted by depth", z3.BoolVal(calls == ["areas", "avoid"]))
    e.prove("every level is made", ti(Reg.g.calls) == Reg.n[0])
    prove_list(e, "the areas", r, down)


for _some in (True, False):
    unit("the area of a level: everything as deep or deeper, less its holes" + (" and what is avoided there" if _some else ""), MODS,
         must_cover=["done"], replay="regions",
         trusts=["generate_depth_map meets its contract (here)", "difference_poly_tree meets its contract (here)"]
         )(lambda P, some=_some: areas(P, some))


def kind_pred(name, a, b, src):
    return Pred(name, lambda x: z3.BoolVal((isinstance(x, a) and x.src == "op") or (b is not None and isinstance(x, b) and x.src == src)))


@reg
class Flat:
    """face i"""
    Z = None

    def __init__(self, i):
        self.i = i

    @property
    def depth(self):
        return V.SymNum(Flat.Z(ti(self.i)))


@reg
class Rest:
    """the faces at other depths"""

    def append(self, f):
        V.eng().prove("a face is kept at its own depth", num(f.depth) != Table.d)

    def extend(self, fs):
        raise AssertionError


@reg
class Table:
    """a dictionary of lists, as far as depth d is concerned"""
    ghost = True
    d = times = None

    def __init__(self, factory):
        self.here, self.had = PList([]), False
        self.sort = 0

    def __getitem__(self, k):
        e = V.eng()
        if e.decide(num(k) == Table.d):
            R_.setattr_(self, "had", True)
            return self.here
        return Rest()

    def keys(self):
        e = V.eng()
        had = V.bterm(self.had)
        m, f, pos = e.fresh_int("keys").t, e.fresh_func("key", IS, RS), e.fresh_int("place").t
        e.assume(z3.And(m >= 0, z3.Implies(had, z3.And(pos >= 0, pos < m, f(pos) == Table.d))))
        seen = []

        def at(j):
            e.axiom(z3.Implies(f(j) == Table.d, z3.And(had, j == pos)))
            for k in seen:
                e.axiom(z3.Implies(k != j, f(j) != f(k)))
            seen.append(j)
            return V.SymNum(f(j))
        return PList.of_seq(fseq(m, at, meas={Table.times: z3.If(had, z3.IntVal(1), z3.IntVal(0))}))

    asloop = keys


@unit("the faces are sorted by depth: every face is at its own depth, every depth is listed once, the highest first", MODS,
      must_cover=["sorted", "above"], replay="regions", trusts=SORT)
def depths(P):
    e = V.eng()
    e.on_exception = no_exception(allow=("ValueError",))
    e.use_templates = False
    M = P["cq_cam.operations.pocket"]
    n, K = e.fresh_int("faces").t, e.fresh_int("K").t
    Flat.Z = e.fresh_func("depth", IS, RS)
    Table.d = d = e.fresh_real("d").t
    e.assume(z3.And(n >= 0, K >= 0, K < n))
    e.skolem_idx.append(K)
    count = Measure("face K", lambda x: z3.If(ti(x.i) == K, z3.IntVal(1), z3.IntVal(0)) if isinstance(x, Flat) else None)
    Table.times = times = Measure("depth d", lambda x: z3.If(num(x) == d, z3.IntVal(1), z3.IntVal(0))
                                  if isinstance(x, (V.SymNum, int, float)) else None)
    e.measures += [count, times]
    at_d = Pred("at depth d", lambda x: num(x.depth) == d if isinstance(x, Flat) else None)
    e.preds.append(at_d)
    M.defaultdict = Table

    def hint(e2, loop, env, i):
        out = []
        for p in env:
            if p[-1] == "had":
                j = z3.Int("j")
                out.append(("custom", f"had {p}", lambda en, i, p=p: None if p not in en else
                            z3.Implies(z3.And(K < i, Flat.Z(K) == d), V.bterm(en[p]))))
                out.append(("custom", f"had by {p}", lambda en, i, p=p: None if p not in en else
                            z3.Implies(V.bterm(en[p]), z3.Exists([j], z3.And(j >= 0, j < n, Flat.Z(j) == d)))))
            if p[-2:] == ("#m", "face K"):
                out.append(("custom", f"kept {p}", lambda en, i, p=p: None if p not in en else
                            en[p] == z3.If(z3.And(K < i, Flat.Z(K) == d), z3.IntVal(1), z3.IntVal(0))))
        out.append(("custom", "not above", lambda en, i: z3.Implies(K < i, Flat.Z(K) <= 0)))
        return out
    e.loop_hints.append(hint)
    mark = e.write_mark()
    faces = PList.of_seq(fseq(n, lambda i: Flat(V.mk(i))))
    try:
        table, L = M.generate_depth_map(faces)
    except ValueError:
        e.cover("above")
        return
    e.cover("sorted")
    L = to_plist(L)
    j = z3.Int("j")
    had = z3.Exists([j], z3.And(j >= 0, j < n, Flat.Z(j) == d))
    e.prove("no face is above the job's plane", Flat.Z(K) <= 0)
    e.prove("a depth of a face is listed, once", z3.Implies(Flat.Z(K) == d, L.measure_term(times) == 1))
    e.prove("no other depth is listed", z3.Implies(z3.Not(had), L.measure_term(times) == 0))
    e.prove("every face is kept once", to_plist(table.here).measure_term(count) == z3.If(Flat.Z(K) == d, z3.IntVal(1), z3.IntVal(0)))
    prove_list(e, "faces of a depth", to_plist(table.here), at_d)
    q = e.fresh_int("q").t
    if e.decide(z3.And(q >= 0, q + 1 < L.len_term())):
        e.prove("the highest first", num(L.at(q)) > num(L.at(q + 1)))


GEO = ["cq_cam.utils.geometry_op"]


@reg
class Con:
    """the contour of node x of a tree of polygons: in the clipper's units, or scaled back, closed, made of tuples"""

    def __init__(self, x, scaled=False, closed=False, tup=False):
        self.x, self.scaled, self.closed, self.tup = x, scaled, closed, tup


@reg
class Node:
    """node x: an outline (or the tree itself, a hole without contour) or a hole"""

    def __init__(self, x, outline):
        self.x, self.outline = x, outline

    @property
    def Contour(self):
        return Con(self.x)

    @property
    def Childs(self):
        e, x = V.eng(), ti(self.x)
        n = Tree.kids(x)
        e.axiom(n >= 0)
        outs = not self.outline
        P, tot = (Tree.po, Tree.out) if outs else (Tree.pi, Tree.inn)
        e.axiom(z3.And(P(x, 0) == 0, P(x, n) == tot(x)))

        def at(i):
            k = Tree.kid(x, i)
            v = z3.If(k == Tree.T, z3.IntVal(1), z3.IntVal(0)) + Tree.inn(k) if outs else Tree.out(k)
            e.axiom(z3.Implies(z3.And(i >= 0, i < n), P(x, i + 1) == P(x, i) + v))
            return Node(V.mk(k), outs)
        s = fseq(n, at)
        s.sofar = lambda i: P(x, i)
        return PList.of_seq(s)


class Tree:
    """how often outline T is found below a node x (out; inn: in the holes of outline x), and below its first i nodes (po, pi)"""
    kids = kid = out = inn = po = pi = T = made = None


@reg
class Made:
    """the area made of outline x"""

    def __init__(self, x):
        self.x = x


@unit("every outline of the clipper's result becomes one area at the depth, with the holes right inside it", GEO,
      must_cover=["done"], replay="regions",
      trusts=["the tree of the clipper is finite, outlines and holes alternate", "pyclipper scales its integers back"])
def tree(P):
    from pydv.lists import Win
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    M = P["cq_cam.utils.geometry_op"]
    Tree.kids, Tree.kid = e.fresh_func("kids", IS, IS), e.fresh_func("kid", IS, IS, IS)
    Tree.out, Tree.inn = e.fresh_func("out", IS, IS), e.fresh_func("inn", IS, IS)
    Tree.po, Tree.pi = e.fresh_func("out_sofar", IS, IS, IS), e.fresh_func("inn_sofar", IS, IS, IS)
    Tree.T = T = e.fresh_int("T").t
    depth = R(e, "depth")
    is_T = lambda x: z3.If(x == T, z3.IntVal(1), z3.IntVal(0))
    made = Tree.made = Measure("areas made of T", lambda x: is_T(ti(x.x)) if isinstance(x, Made) else None)
    e.measures += [made]
    kind = Pred("areas", lambda x: z3.BoolVal(isinstance(x, Made)))
    e.preds.append(kind)

    class PC:
        @staticmethod
        def scale_from_clipper(c):
            e.prove("scaled back once", z3.BoolVal(isinstance(c, Con) and not c.scaled))
            return Con(c.x, True, c.closed, c.tup)
    M.pc = PC
    M.close_path = lambda c: Con(c.x, c.scaled, True, c.tup)
    M.tuplify_path = lambda c: Con(c.x, c.scaled, c.closed, True)

    def ready(c, x):
        return z3.And(z3.BoolVal(isinstance(c, Con) and c.scaled and c.closed and c.tup), ti(c.x) == x if isinstance(c, Con) else False)

    def area(outer, inners, depth_=None, **kw):
        x = ti(outer.x)
        d = kw.get("depth", depth_)
        e.prove("the outline: scaled back, closed", ready(outer, x))
        e.prove("at the depth", num(d) == num(depth))
        inners = to_plist(inners)
        e.prove("as many holes as there are right inside", inners.len_term() == Tree.kids(x))
        K = e.fresh_int("K").t
        if e.decide(z3.And(K >= 0, K < inners.len_term())):
            e.prove("the hole: scaled back, closed", ready(inners.at(K), Tree.kid(x, K)))
        return Made(outer.x)
    M.PathFace = area
    real = M.poly_tree_to_poly_faces
    N = e.fresh_func("areas", IS, IS)
    F = e.fresh_func("area", IS, IS, IS)

    def below(node, d):
        e.prove("areas inside of holes are at the depth", num(d) == num(depth))
        e.prove("looked for inside of holes", z3.BoolVal(isinstance(node, Node) and not node.outline))
        x = ti(node.x)
        e.axiom(N(x) >= 0)
        return PList.of_seq(fseq(N(x), lambda i: Made(V.mk(F(x, i))), all_={kind: z3.BoolVal(True)}, meas={made: Tree.out(x)}))
    M.poly_tree_to_poly_faces = below

    def hint(e2, loop, env, i):
        out = []

        def so_far(lp, en, i, p):
            q = lp.seq.chunks[0].seq
            q.elem(z3.simplify(i - 1))
            return None if p not in en else en[p] == q.sofar(i)
        for p in env:
            if p[-2:] == ("#m", made.name):
                out.append(("customl", f"so far {p}", lambda lp, en, i, p=p: so_far(lp, en, i, p)))
        return out
    e.loop_hints.append(hint)
    root = e.fresh_int("root")
    r = to_plist(real(Node(root, False), depth))
    e.cover("done")
    e.prove("every outline once", r.measure_term(made) == Tree.out(ti(root)))
    prove_list(e, "result", r, kind)


@reg
class Ring:
    """closed path i of a list: scaled for the clipper or not, as it is or reversed"""
    ccw = None

    def __init__(self, src, i, scaled=False, back=False):
        self.src, self.i, self.scaled, self.back = src, i, scaled, back

    def __getitem__(self, s):
        if not (isinstance(s, slice) and s.step == -1 and s.start is None and s.stop is None):
            raise V.Unsupported("part of a path")
        return Ring(self.src, self.i, self.scaled, V.mkbool(z3.Not(V.bterm(self.back))))

    def positive(self):
        c = Ring.ccw(ti(self.i)) if self.src == "subject" else Ring.ccw(-1 - ti(self.i))
        return c != V.bterm(self.back)


def boolean(kind):
    @unit(f"areas are combined by {kind}: all paths, once each, oriented alike, filled whatever their number", GEO,
          must_cover=["done", "no clips", "clips"], replay="regions",
          trusts=["pyclipper: a boolean operation of paths of one orientation with the nonzero rule is that of the areas inside any of them"])
    def run(P):
        e = V.eng()
        e.on_exception = no_exception()
        e.use_templates = False
        M = P["cq_cam.utils.geometry_op"]
        n, k = e.fresh_int("subjects").t, e.fresh_int("clips").t
        e.assume(z3.And(n >= 0, k >= 0))
        Ring.ccw = e.fresh_func("ccw", IS, BS)
        depth = R(e, "depth")
        log = []
        K = e.fresh_int("K").t
        e.skolem_idx.append(K)
        itself = {w: Pred(f"the {w} itself, scaled", lambda x, w=w: z3.And(z3.BoolVal(x.src == w), V.bterm(x.scaled))
                          if isinstance(x, Ring) else z3.BoolVal(False)) for w in ("subject", "clip")}
        alike = Pred("oriented alike", lambda x: x.positive() if isinstance(x, Ring) else z3.BoolVal(False))
        the = {w: Measure(f"{w} K", lambda x, w=w: z3.If(ti(x.i) == K, z3.IntVal(1), z3.IntVal(0))
                          if isinstance(x, Ring) and x.src == w else z3.IntVal(0)) for w in ("subject", "clip")}
        for w in the.values():
            w.nonneg = True
        e.preds += [*itself.values(), alike]
        e.measures += list(the.values())

        class Clip:
            def __init__(self):
                log.append("new")

            def AddPaths(self, paths, what, closed=True):
                log.append(what)
                e.prove("the clipper is not given an empty list of clips", z3.BoolVal(True) if what == "PT_SUBJECT" else k > 0)
                name = "subject" if what == "PT_SUBJECT" else "clip"
                e.prove("subjects or clips", z3.BoolVal(what in ("PT_SUBJECT", "PT_CLIP") and closed is True))
                L = to_plist(paths)
                e.prove(f"all {name}s", L.len_term() == (n if name == "subject" else k))
                if all(not isinstance(c, list) and c.seq.kind in ("fn", "map") for c in L.chunks):
                    w = e.fresh_int("w").t
                    if e.decide(z3.And(w >= 0, w < L.len_term())):
                        x = L.at(w)
                        e.prove(f"{name}s: {itself[name].name}", itself[name].fn(x))
                        e.prove(f"{name}s: {alike.name}", alike.fn(x))
                        e.prove(f"every {name} once", ti(x.i) == w)
                    return
                prove_list(e, f"{name}s", L, itself[name], alike)
                e.prove(f"every {name} once", z3.Implies(z3.And(K >= 0, K < L.len_term()), L.measure_term(the[name]) == 1))

            def Execute2(self, ct, sf=None, cf=None):
                log.append(("tree", ct, sf, cf))
                return "tree"

            def Execute(self, ct, sf=None, cf=None):
                log.append(("list", ct, sf, cf))
                return PList([])

        class PC:
            PT_SUBJECT, PT_CLIP, PFT_NONZERO, PFT_EVENODD, PFT_POSITIVE, PFT_NEGATIVE = "PT_SUBJECT", "PT_CLIP", "nonzero", "evenodd", "positive", "negative"
            CT_UNION, CT_DIFFERENCE, CT_INTERSECTION, CT_XOR = "union", "difference", "intersection", "xor"
            Pyclipper = Clip

            @staticmethod
            def scale_to_clipper(r):
                e.prove("scaled once", z3.BoolVal(isinstance(r, Ring) and not r.scaled))
                return Ring(r.src, r.i, True, r.back)

            @staticmethod
            def Orientation(r):
                e.prove("the orientation of a scaled path", z3.BoolVal(r.scaled))
                return V.mkbool(r.positive())
        M.pc = PC

        def faces(t, d):
            e.prove("the areas of the result, at the depth", z3.And(z3.BoolVal(t == "tree"), num(d) == num(depth)))
            log.append("faces")
            return "areas"
        M.poly_tree_to_poly_faces = faces
        mark = e.write_mark()
        subjects, clips = (PList.of_seq(fseq(c, lambda i, s=s: Ring(s, V.mk(i)))) for c, s in ((n, "subject"), (k, "clip")))
        r = (M.union_poly_tree if kind == "union" else M.difference_poly_tree)(subjects, clips, depth)
        frame(e, mark, "the paths given are not modified")
        e.cover("done")
        e.cover("clips" if "PT_CLIP" in log else "no clips")
        if "PT_CLIP" not in log:
            e.prove("clips are left out only when there are none", k == 0)
        run_ = [x for x in log if isinstance(x, tuple)]
        e.prove("one run, with all paths", z3.BoolVal(log.count("new") == 1 and log.count("PT_SUBJECT") == 1 and log.count("PT_CLIP") <= 1
                                                      and len(run_) == 1 and log[-2:] == run_ + ["faces"]))
        ct, sf, cf = (run_ + [(None,) * 4])[0][1:]
        good = ("nonzero", "positive")
        e.prove("the operation, inside of any path", z3.BoolVal(ct == kind and sf in good and cf in good))
        e.prove("the result is returned", z3.BoolVal(r == "areas"))
    return run


for _k in ("union", "difference"):
    boolean(_k)


@unit("paths from the clipper are closed: their first point is repeated at the end, unless it is there", GEO,
      must_cover=["open", "closed"], replay="regions", requires=["paths have points"])
def closing(P):
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    M = P["cq_cam.utils.geometry_op"]
    n = e.fresh_int("points").t
    e.assume(n >= 1)
    X, Y = e.fresh_func("X", IS, RS), e.fresh_func("Y", IS, RS)
    pts = PList.of_seq(fseq(n, lambda i: PList([V.SymNum(X(i)), V.SymNum(Y(i))])))
    same = e.decide(z3.And(X(z3.IntVal(0)) == X(n - 1), Y(z3.IntVal(0)) == Y(n - 1)))
    r = to_plist(M.tuplify_path(M.close_path(pts)))
    e.cover("closed" if same else "open")
    e.prove("closed", r.len_term() == (n if same else n + 1))
    K = e.fresh_int("K").t
    if e.decide(z3.And(K >= 0, K < r.len_term())):
        p = to_plist(r.at(K))
        q = z3.If(K == n, 0, K)
        e.prove("the points as they were", z3.And(p.len_term() == 2, num(p.at(z3.IntVal(0))) == X(q), num(p.at(z3.IntVal(1))) == Y(q)))


def reuse(module, start, replay):
    """the same functions carry this property: their contracts are decided here, too"""
    import copy
    for u in module.UNITS:
        if u.name.startswith(start):
            v = copy.copy(u)
            v.replay = replay
            UNITS.append(v)


from . import C07, C10, C16  # noqa: E402
reuse(C10, "a pocket is filled", "pocket")
reuse(C07, "the levels begin", "regions")
reuse(C07, "areas are filled", "pocket")
reuse(C16, "pocket: every face is offset", "pocket")
reuse(C16, "a face is offset", "pocket")
