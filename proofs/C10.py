"""C10: every contour of a fill is routed exactly once."""
import z3
from pydv import values as V, runtime as R_
from pydv.stubs import reg
from pydv.lists import Win
from .base import *
from .routes import IS, RS, BS, prove_list
from . import C11

UNITS = []
unit = units(UNITS)
TREE = ["cq_cam.utils.tree"]
bterm = V.bterm
LISTS = ["the Python list operations do what they say"]


def ti(v):
    return V.term_of(v) if not isinstance(v, z3.ExprRef) else v


def mkn(v):
    return V.mk(z3.simplify(ti(v)))


class Nodes:
    """node i of the tree: its parent (-1: none), whether it is locked"""
    n = par = locked = childless = around = None


@reg
class Nd:
    """node i"""

    def __init__(self, i):
        self.i = i

    @property
    def parent(self):
        p = Nodes.par(ti(self.i))
        V.eng().axiom(p >= -1)
        if Nodes.around is not None and V.eng().decide(p < 0):
            return None
        return Nd(mkn(p))

    def __truth_formula__(self):
        return ti(self.i) >= 0

    def __bool__(self):
        return V.eng().decide(self.__truth_formula__())

    @property
    def locked(self):
        return V.mkbool(Nodes.locked(ti(self.i)))

    @property
    def obj(self):
        return Ob(self.i)

    @property
    def parents(self):
        """the contract of Node.parents: the nodes above, from the parent to the root"""
        i = ti(self.i)
        d = Nodes.depth(i)

        def at(j):
            j = ti(j)
            for k in (j, z3.simplify(j + 1)):
                V.eng().axiom(z3.Implies(z3.And(k >= 0, k < d), z3.And(
                    Nodes.up(i, k) >= 0, Nodes.up(i, k) == Nodes.par(z3.If(k == 0, i, Nodes.up(i, k - 1))))))
            return Nd(mkn(Nodes.up(i, j)))
        return PList.of_seq(fseq(d, at, adj={Nodes.around: True}))

    def __eq_formula__(self, o):
        return ti(self.i) == ti(o.i) if isinstance(o, Nd) else z3.BoolVal(False)

    def __eq__(self, o):
        return V.mkbool(ti(self.i) == ti(o.i)) if isinstance(o, Nd) else False

    def __ne__(self, o):
        return V.mkbool(ti(self.i) != ti(o.i)) if isinstance(o, Nd) else True

    __hash__ = None


@reg
class Ob:
    """the contour of node i"""

    def __init__(self, i):
        self.i = i


@unit("the way from a contour to the outermost one: each is followed by the one around it, to the end", TREE,
      must_cover=["below", "root"], replay="tree",
      requires=["the parent has a way to the outermost one (induction over the depth)"])
def chain(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.utils.tree"]
    e.use_templates = False
    Nodes.n, Nodes.par = e.fresh_int("nodes").t, e.fresh_func("parent", IS, IS)
    Nodes.depth, Nodes.up = e.fresh_func("depth", IS, IS), e.fresh_func("up", IS, IS, IS)
    Nodes.locked = e.fresh_func("locked", IS, BS)
    below = e.decide(e.fresh_bool("has_parent").t)
    p, c = e.fresh_int("the_parent").t, e.fresh_int("contour").t
    par, up, d = Nodes.par, Nodes.up, Nodes.depth(p)
    e.assume(z3.And(p >= 0, c >= 0, par(c) == (p if below else z3.IntVal(-1))))
    tree = type("T", (), {})()
    tree.nodes = PList([])
    what = Ob(V.mk(c))
    node = M.Node(tree, what, Nd(mkn(p)) if below else None)

    def no(x):
        return ti(x.obj.i if isinstance(x, M.Node) else x.i)

    def both(a, b):
        return isinstance(a, (Nd, M.Node)) and isinstance(b, Nd) or isinstance(a, Ob) and isinstance(b, Ob)
    around = AdjPred("each is followed by the one around it", lambda a, b: z3.And(no(b) >= 0, no(b) == par(no(a))) if both(a, b) else None)
    e.adjs.append(around)

    # the way from the parent to the outermost one
    e.axiom(d >= 0)

    def way(i):
        """up(p, i) is the parent of the one before"""
        i = ti(i)
        return z3.And(up(p, i) >= 0, up(p, i) == par(z3.If(i == 0, p, up(p, i - 1))))
    e.axiom(z3.Implies(d > 0, way(0)))
    e.axiom(z3.And((d > 0) == (par(p) >= 0), par(p) >= -1, z3.Implies(d > 0, par(up(p, d - 1)) == -1)))

    def hint(e2, loop, env, i):
        out = [("custom", "the parent is the outermost", lambda q, i: par(p) == -1)]
        for v in env:
            if v[-1] == ".i" and "#last" not in v and env[v].sort() == IS:
                out.append(("custom", f"around the parent {v}", lambda q, i, v=v: None if v not in q else q[v] == par(p)))
        for k in env:
            if k[-2:] != ("#last", ".i") or env[k].sort() != IS:
                continue
            out.append(("custom", f"the end {k}", lambda q, i, k=k: None if k not in q else par(q[k]) == -1))
            for v in env:
                if v[-1] == ".i" and "#last" not in v and env[v].sort() == IS:
                    out.append(("custom", f"around {k} {v}", lambda q, i, k=k, v=v: None if not (k in q and v in q) else q[v] == par(q[k])))
                    out.append(("custom", f"same {k} {v}", lambda q, i, k=k, v=v: None if not (k in q and v in q) else q[v] == q[k]))
        return out
    e.loop_hints.append(hint)
    Nodes.around = around
    try:
        tr = to_plist(node.traverse)
        objs = to_plist(node.traverse_and_unwrap)
    finally:
        Nodes.around = None
    e.cover("below" if below else "root")
    e.decide(d > 0)
    first = tr.at(z3.IntVal(0))
    if first is not node:
        e.fail("begins with the contour itself", "another")
    if objs.at(z3.IntVal(0)) is not what:
        e.fail("begins with the contour itself", "another contour")
    for L in (tr, objs):
        g = L.adj_formula(around)
        if g is None:
            # place by place
            w = e.fresh_int("place").t
            e.assume(z3.And(w >= 0, w <= L.len_term()))
            w = z3.IntVal(0) if e.decide(w == 0) else w
            if e.decide(w + 1 < L.len_term()):
                g = around.fn(L.at(w), L.at(z3.simplify(w + 1)))
            else:
                g = z3.BoolVal(True)
        e.prove("each is followed by the one around it", g)
        e.prove("to the outermost one", par(no(L.at(z3.simplify(L.len_term() - 1)))) == -1)


def filters(pl):
    """the conditions applied to make a list out of the nodes, first one first"""
    out = []
    while isinstance(pl, PList) and len(pl.chunks) == 1 and not isinstance(pl.chunks[0], list):
        q = pl.chunks[0].seq
        if q.kind == "filter":
            out.insert(0, q)
        pl = getattr(q, "src", None)
    return out


def base(pl):
    """the list that was filtered"""
    while isinstance(pl, PList) and len(pl.chunks) == 1 and getattr(pl.chunks[0], "seq", None) is not None \
            and isinstance(getattr(pl.chunks[0].seq, "src", None), PList):
        pl = pl.chunks[0].seq.src
    return pl


def counted(e, K, C):
    """how often node K is in a list, and that no node has C inside: for lists that are put together one by one"""
    m = Measure("node K", lambda x: z3.If(ti(x.i) == K, z3.IntVal(1), z3.IntVal(0)) if isinstance(x, Nd) else None)
    m.nonneg = True
    e.measures.append(m)
    e.preds.append(Pred("no contour is inside", lambda x: Nodes.par(C) != ti(x.i) if isinstance(x, Nd) else z3.BoolVal(True)))
    e.adjs.append(AdjPred("a later one", lambda a, b: ti(a.i) < ti(b.i) if isinstance(a, Nd) and isinstance(b, Nd) else None))
    e.skolem_idx.append(K)
    return m


def somewhere(e, L, K, m):
    """a place where node K is in the list, in which it is counted at least once"""
    e.prove("a contour with none inside is a leaf", L.measure_term(m) >= 1)
    p = e.fresh_int("place").t
    e.assume(z3.And(p >= 0, p < L.len_term()))
    e.assume(ti(L.at(p).i) == K)
    return p


def abstract(pl):
    return any(isinstance(c, list) or c.seq.kind not in ("filter", "fn", "map") for c in pl.chunks)


def membership(e, skolem):
    """x in a list of nodes: there is a place where it is, or it is at none (instantiated at the nodes in skolem)"""
    def f(e2, pl, x):
        if not isinstance(x, Nd):
            return None
        if e.decide(e.fresh_bool("is_in").t):
            w = e.fresh_int("where").t
            e.assume(z3.And(w >= 0, w < pl.len_term()))
            y = pl.at(w)
            if not isinstance(y, Nd):
                raise V.Unsupported("not a node")
            e.assume(ti(y.i) == ti(x.i))
            return True
        for k in skolem:
            c = z3.BoolVal(True)
            for q in filters(pl):
                k, a = q.index_of(k)
                c = z3.And(c, a)
            y = pl.at(k)
            if isinstance(y, Nd):
                e.axiom(z3.Implies(z3.And(c, k >= 0, k < pl.len_term()), ti(y.i) != ti(x.i)))
        return False
    e.hooks["list_contains"] = f


def tree_of_nodes(e, M):
    Nodes.childless = None
    n = Nodes.n = e.fresh_int("nodes").t
    Nodes.par, Nodes.locked = e.fresh_func("parent", IS, IS), e.fresh_func("locked", IS, BS)
    e.assume(n >= 1)

    def node(j):
        j = ti(j)
        e.axiom(z3.And(Nodes.par(j) >= -1, Nodes.par(j) < n))
        if Nodes.childless is not None:
            e.axiom(Nodes.par(j) != Nodes.childless)
        return Nd(mkn(j))
    t = M.Tree.__new__(M.Tree)
    R_.setattr_(t, "nodes", PList.of_seq(fseq(n, node)))
    return t


@unit("the leaves are the contours with none inside", TREE, must_cover=["leaf", "inner"], replay="tree", trusts=LISTS)
def leaves(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.utils.tree"]
    C, K = e.fresh_int("child").t, e.fresh_int("node").t
    t = tree_of_nodes(e, M)
    e.assume(z3.And(C >= 0, C < Nodes.n, K >= 0, K < Nodes.n))
    membership(e, [C])
    m = counted(e, K, C)
    if e.decide(e.fresh_bool("ask").t):
        L = to_plist(t.leaves)
        if abstract(base(L)):
            e.cover("leaf")
            prove_list(e, "leaves", L, e.preds[-1])
            e.prove("no leaf is listed twice", L.measure_term(m) <= 1)
            return
        w = e.fresh_int("w").t
        e.assume(z3.And(w >= 0, w < L.len_term()))
        x = L.at(w)
        e.cover("leaf")
        e.prove("no contour is inside a leaf", Nodes.par(C) != ti(x.i))
        v = e.fresh_int("v").t
        e.assume(z3.And(v > w, v < L.len_term()))
        e.prove("no leaf is listed twice", ti(L.at(v).i) != ti(x.i))
    else:
        # K has none inside
        Nodes.childless = K
        L = to_plist(t.leaves)
        if abstract(base(L)):
            e.cover("inner")
            e.prove("a contour with none inside is a leaf", L.measure_term(m) >= 1)
            return
        k, c = K, z3.BoolVal(True)
        for q in filters(L):
            k, a = q.index_of(k)
            c = z3.And(c, a)
        e.cover("inner")
        e.prove("a contour with none inside is a leaf", z3.And(c, k >= 0, k < L.len_term(), ti(L.at(k).i) == K))


@unit("the next open contour is one with none inside that was not closed; it ends when there is none", TREE,
      must_cover=["next", "none"], replay="tree", trusts=LISTS)
def open_leaf(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.utils.tree"]
    C, K = e.fresh_int("child").t, e.fresh_int("node").t
    t = tree_of_nodes(e, M)
    e.assume(z3.And(C >= 0, C < Nodes.n, K >= 0, K < Nodes.n))
    membership(e, [C])
    m = counted(e, K, C)
    some = e.decide(e.fresh_bool("some").t)
    if some:
        # K is open and has none inside
        Nodes.childless = K
        e.assume(z3.Not(Nodes.locked(K)))
    T, places = M.Tree, []
    found = T.__dict__.get("leaves_", T.__dict__["leaves"])

    def seen(self):
        L = to_plist(found.fget(self))
        if some and abstract(base(L)):
            places.append(somewhere(e, L, K, m))
        return L
    T.leaves_, T.leaves = found, property(seen)
    try:
        x = t.next_unlocked
    except StopIteration:
        e.cover("none")
        if some:
            src = getattr(e.computed[-1], "src", None)
            if places:
                if isinstance(src, PList) and abstract(base(src)):
                    e.computed[-1].index_of(places[0])
            else:
                k = K
                for q in filters(src) + [e.computed[-1]]:
                    k = q.index_of(k)[0]
        e.prove("it ends only when no open contour is left", z3.Not(z3.BoolVal(some)))
        return
    e.cover("next")
    e.prove("open", z3.Not(Nodes.locked(ti(x.i))))
    if not some:
        e.prove("no contour is inside it", Nodes.par(C) != ti(x.i))


@unit("contours made inside another one are all added to the tree, in it, open", TREE, must_cover=["several", "one"],
      replay="tree", trusts=LISTS)
def branch(P):
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    M = P["cq_cam.utils.tree"]
    t = tree_of_nodes(e, M)
    n, m, K = Nodes.n, e.fresh_int("contours").t, e.fresh_int("K").t
    old = t.nodes
    node = M.Node(type("T", (), {"nodes": PList([])})(), Ob(-1))
    node.tree = t
    several = e.decide(e.fresh_bool("several").t)
    if several:
        e.assume(m >= 0)
        what = PList.of_seq(fseq(m, lambda i: Ob(V.mk(z3.simplify(ti(i) + 1000)))))
    else:
        e.assume(m == 1)
        what = Ob(1000)
    e.assume(z3.And(K >= 0, K < m))

    def new(x):
        return not isinstance(x, Nd)

    def good(x):
        ok = isinstance(x, M.Node) and isinstance(x.obj, Ob) and x.parent is node and x.tree is t
        return z3.And(z3.BoolVal(ok), z3.Not(V.bterm(x.locked)), ti(x.obj.i) >= 1000, ti(x.obj.i) < 1000 + m) if ok else z3.BoolVal(False)
    kind = Pred("in it, open", lambda x: good(x) if new(x) else z3.BoolVal(True))
    made_here = Pred("made now", lambda x: z3.BoolVal(new(x)))
    count = Measure("contour K", lambda x: z3.If(ti(x.obj.i) == 1000 + K, z3.IntVal(1), z3.IntVal(0))
                    if new(x) and isinstance(x.obj, Ob) else z3.IntVal(0))
    count.nonneg = True
    e.preds += [kind, made_here]
    e.measures += [count]
    e.skolem_idx.append(K)
    made = to_plist(node.branch(what))
    e.cover("several" if several else "one")
    e.prove("all of them", z3.And(t.nodes.len_term() == n + m, made.len_term() == m))
    w = e.fresh_int("w").t
    e.assume(z3.And(w >= 0, w < n))
    x = t.nodes.at(w)
    e.prove("the others stay", z3.And(z3.BoolVal(isinstance(x, Nd)), ti(x.i) == w if isinstance(x, Nd) else z3.BoolVal(False)))
    added = t.nodes.window(n, t.nodes.len_term())
    for L in (added, made):
        prove_list(e, "contours", L, kind, made_here)
        e.prove("each once", L.measure_term(count) == 1)
    if node.locked is not False:
        e.fail("in it, open", "the contour itself is locked")
    node.lock()
    if node.locked is not True:
        e.fail("a closed contour is closed", str(node.locked))


class Fill:
    e = g = pocket = n = step = precision = None


@reg
class State:
    """the contour that was offered last and not yet dealt with, -1: none"""
    ghost = True

    def __init__(self):
        self.open, self.offered = 0, 0


@reg
class Loop:
    """outline k inside contour i, cut: after the islands were cut out"""

    def __init__(self, i, k, cut):
        self.i, self.k, self.cut = i, k, cut


class Nest:
    """the contract of Tree"""

    def __init__(self, root):
        if Fill.made:
            V.eng().fail("one tree", "made again")
        Fill.made = True
        e = V.eng()
        e.prove("the outermost contour is the outline of the pocket, at its depth", z3.And(
            z3.BoolVal(root.outer is Fill.outer), num(root.depth) == num(Fill.depth), to_plist(root.inners).len_term() == 0))

    @property
    def next_unlocked(self):
        e, g = V.eng(), Fill.g
        e.prove("every contour offered is dealt with", ti(g.open) == 0)
        if e.decide(e.fresh_bool("none_left").t):
            raise StopIteration
        R_.setattr_(g, "open", 1)
        i = e.fresh_int("contour").t
        return Inside(V.mk(i))

    @property
    def sequences(self):
        e = V.eng()
        e.prove("every contour offered is dealt with", ti(Fill.g.open) == 0)
        return "the sequences of the tree"


@reg
class Inside:
    """an open contour of the tree"""

    def __init__(self, i):
        self.i = i

    @property
    def obj(self):
        return Outline(self.i)

    def _done(self):
        e, g = V.eng(), Fill.g
        e.prove("a contour is dealt with once", ti(g.open) == 1)
        R_.setattr_(g, "open", 0)

    def lock(self):
        e = V.eng()
        self._done()
        e.prove("a contour is closed only when nothing is left inside it", Fill.count(ti(self.i), True) == 0)

    def branch(self, what):
        e = V.eng()
        self._done()
        L = to_plist(what)
        n = Fill.count(ti(self.i), True)
        k = e.fresh_int("k").t
        e.prove("all contours inside it are added", L.len_term() == n)
        if e.decide(z3.And(k >= 0, k < n)):
            f = L.at(k)
            e.prove("each as it was made, at the depth of the pocket", z3.And(
                ti(f.outer.i) == ti(self.i), ti(f.outer.k) == k, z3.BoolVal(f.outer.cut == Fill.islands),
                num(f.depth) == num(Fill.depth), to_plist(f.inners).len_term() == 0))


@reg
class Outline:
    def __init__(self, i):
        self.i = i

    @property
    def outer(self):
        return Loop(self.i, -1, True)


@reg
class FaceOf:
    def __init__(self, o):
        self.outer = o


@unit("a pocket is filled: every open contour is shrunk by the step-over, what is left of it is added, or it is closed",
      ["cq_cam.operations.pocket"], must_cover=["filled"], replay="fill",
      trusts=["pyclipper offsets outlines and cuts out islands"], requires=["Tree: its own units"])
def fill(P):
    e = V.eng()
    e.on_exception = no_exception()
    e.while_unroll = 0
    M = P["cq_cam.operations.pocket"]
    Fill.g, Fill.made = State(), False
    Fill.step, Fill.precision, Fill.depth = R(e, "step", gt=0), 3, R(e, "depth")
    shrunk, cut = e.fresh_func("shrunk", IS, IS), e.fresh_func("left", IS, IS)
    Fill.islands = e.decide(e.fresh_bool("islands").t)

    def count(i, done):
        n = shrunk(i)
        if done and Fill.islands:
            n = z3.If(n > 0, cut(i), 0)
        e.axiom(z3.And(shrunk(i) >= 0, cut(i) >= 0))
        return n
    Fill.count = count
    Fill.outer = PList([Loop(-1, -1, True)])
    inners = PList([])
    if Fill.islands:
        m = e.fresh_int("islands").t
        e.assume(m >= 1)
        inners = PList.of_seq(fseq(m, lambda j: Loop(-2, V.mk(j), False)))
    pocket = M.PathFace(Fill.outer, inners, Fill.depth)

    def offset(outer, by, precision):
        e.prove("shrunk by the step-over", z3.And(num(by) == -num(Fill.step), z3.BoolVal(precision == Fill.precision),
                                                   ti(outer.k) == -1))
        return PList.of_seq(fseq(count(ti(outer.i), False), lambda k: Loop(outer.i, V.mk(k), False)))

    def minus(outers, islands, depth):
        L = to_plist(outers)
        i = L.at(z3.IntVal(0)).i
        if not Fill.islands:
            e.fail("islands are cut out of it", "there are none")
        k = e.fresh_int("k").t
        e.prove("islands are cut out of all of it", L.len_term() == count(ti(i), False))
        if e.decide(z3.And(k >= 0, k < L.len_term())):
            x = L.at(k)
            e.prove("islands are cut out of it as it is", z3.And(ti(x.i) == ti(i), ti(x.k) == k))
        e.prove("all islands are cut out", z3.And(to_plist(islands).len_term() == m, ti(to_plist(islands).at(z3.IntVal(0)).i) == -2))
        return PList.of_seq(fseq(count(ti(i), True), lambda k: FaceOf(Loop(i, V.mk(k), True))))
    M.Tree, M.offset_path, M.difference_poly_tree = Nest, offset, minus
    mark = e.write_mark()
    r = M.fill_pocket_contour_shrink(pocket, Fill.step, Fill.precision)
    e.cover("filled")
    if r != "the sequences of the tree":
        e.fail("the sequences of the tree are returned", str(r)[:100])


class Ways:
    """node K, and P around it (-1: none); leaf w: the way from it has long(w) nodes, node t of it is anc(w, t);
    it passes K if on(w), at place(w)"""
    e = K = P = anc = long = on = place = par = None

    @classmethod
    def leaf(cls, w):
        """what is known of the way from leaf w"""
        e, p = cls.e, cls.place(w)
        if w.get_id() in cls.seen:
            return
        cls.seen[w.get_id()] = w
        e.axiom(z3.And(cls.long(w) >= 1, z3.Implies(cls.on(w), z3.And(
            p >= 0, p < cls.long(w), cls.anc(w, p) == cls.K, (cls.P == -1) == (p + 1 == cls.long(w)),
            z3.Implies(p + 1 < cls.long(w), cls.anc(w, p + 1) == cls.P)))))

    @classmethod
    def at(cls, w, t):
        """node t of the way from leaf w"""
        x = cls.anc(w, t)
        if x.get_id() in cls.seen:
            return x
        cls.seen[x.get_id()] = x
        cls.e.axiom(z3.Implies(z3.And(t >= 0, t < cls.long(w)), z3.And(
            x >= 0, (x == cls.K) == z3.And(cls.on(w), t == cls.place(w)),
            cls.par(x) == z3.If(t + 1 < cls.long(w), cls.anc(w, t + 1), -1))))
        return x


@reg
class Way:
    """the contours from leaf w outwards, the first n"""

    def __init__(self, w, n):
        self.w, self.n = w, n

    def __len_term__(self):
        return ti(self.n)

    def has(self, x):
        """whether K or P is among them"""
        w, n = ti(self.w), ti(self.n)
        Ways.leaf(w)
        return z3.And(Ways.on(w), Ways.place(w) < n) if x is Ways.K else z3.Or(
            z3.And(Ways.on(w), Ways.place(w) + 1 < n), z3.And(z3.Not(Ways.on(w)), Ways.onp(w, n)))

    def aslist(self):
        w, n = ti(self.w), ti(self.n)
        return PList.of_seq(fseq(n, lambda t: Ob(V.mk(Ways.at(w, ti(t)))), meas={
            Ways.mk: z3.If(self.has(Ways.K), 1, 0), Ways.mp: z3.If(self.has(Ways.P), 1, 0)}))

    def __extends__(self, used):
        e = V.eng()
        for q in e.computed:
            if q.kind == "perm":
                # what is counted in the candidates is counted in the first one or in the others
                for m in (Ways.mk, Ways.mp, Ways.mq):
                    PList(chunks=[Win(q, z3.IntVal(1), z3.simplify(q.n - 1))]).measure_term(m)
        for x, m in ((Ways.K, Ways.mk), (Ways.P, Ways.mp)):
            e.decide(z3.Or(self.has(x), used.measure_term(m) >= 1))
        return self.aslist()

    def __comp__(self, conds, f):
        e = V.eng()
        w, n = ti(self.w), ti(self.n)
        if len(conds) != 1:
            raise V.Unsupported("more than one condition")
        probe = Ob(V.mk(Ways.at(w, z3.IntVal(0))))
        if f(probe) is not probe:
            raise V.Unsupported("not the contours themselves")

        def keep(x):
            c = conds[0](Ob(V.mk(x)))
            return c.t if isinstance(c, V.SymBool) else z3.BoolVal(bool(c))
        t = e.fresh_int("t").t
        x, y = Ways.at(w, t), Ways.at(w, t + 1)
        e.prove("what is taken out of a way is its outer end", z3.Implies(z3.And(
            t >= 0, t + 1 < n, n <= Ways.long(w), z3.Not(keep(x))), z3.Not(keep(y))))
        m = e.fresh_int("kept").t
        z = Ways.at(w, m)
        Ways.leaf(w)
        e.axiom(z3.And(m >= 0, m <= n, z3.Implies(m < n, z3.Not(keep(z))),
                       z3.Implies(z3.And(Ways.on(w), Ways.place(w) < n), (Ways.place(w) < m) == keep(Ways.K))))
        return Way(self.w, V.mk(m))


@reg
class Leaf:
    def __init__(self, w):
        self.w = w

    @property
    def traverse_and_unwrap(self):
        Ways.leaf(ti(self.w))
        return Way(self.w, V.mk(Ways.long(ti(self.w))))


@unit("every contour is in exactly one sequence; a sequence goes from a contour outwards, to the next one around",
      TREE, must_cover=["sequences"], replay="tree", trusts=LISTS, requires=[
          "the way from a contour outwards, and the contours with none inside: own units",
          "every contour is on the way from one with none inside (the tree is finite)", "the contours differ"])
def sequences(P):
    e = V.eng()
    e.on_exception = no_exception()
    e.use_templates = False
    e.refresh = True
    e.while_unroll = 0
    M = P["cq_cam.utils.tree"]
    W = Ways
    W.seen = {}
    W.e, W.K, W.P = e, e.fresh_int("contour").t, e.fresh_int("around").t
    W.anc, W.long = e.fresh_func("anc", IS, IS, IS), e.fresh_func("long", IS, IS)
    W.on, W.place = e.fresh_func("on", IS, BS), e.fresh_func("place", IS, IS)
    W.onp = e.fresh_func("onp", IS, IS, BS)
    W.par = e.fresh_func("par", IS, IS)
    e.assume(z3.And(W.K >= 0, W.P >= -1, W.par(W.K) == W.P, W.P != W.K))
    nl, on_k = e.fresh_int("leaves").t, e.fresh_int("leaves_below").t
    e.assume(z3.And(nl >= 1, on_k >= 1))

    def count(name, of_way, of_node):
        def fn(x):
            if isinstance(x, Way):
                return z3.If(of_way(x), z3.IntVal(1), z3.IntVal(0))
            if isinstance(x, Leaf):
                return z3.If(of_way(x.traverse_and_unwrap), z3.IntVal(1), z3.IntVal(0))
            return z3.If(of_node(ti(x.i)), z3.IntVal(1), z3.IntVal(0)) if isinstance(x, Ob) else None
        m = Measure(name, fn)
        m.nonneg = True
        e.measures.append(m)
        return m
    no = z3.BoolVal(False)

    def ends(x):
        w, n = ti(x.w), ti(x.n)
        W.leaf(w)
        return z3.And(W.on(w), n == W.place(w) + 1, W.P >= 0)
    W.mk = count("K", lambda x: x.has(W.K), lambda i: i == W.K)
    W.mp = count("P", lambda x: x.has(W.P), lambda i: i == W.P)
    W.mq = count("ends at K", ends, lambda i: no)
    ok = Pred("ways", lambda x: z3.And(ti(x.n) >= 0, ti(x.n) <= W.long(ti(x.w))) if isinstance(x, Way) else None)
    e.preds.append(ok)

    def member(e2, pl, x):
        if not isinstance(x, Ob):
            return None
        i = ti(x.i)
        k, p = pl.measure_term(W.mk), pl.measure_term(W.mp)
        e.prove("around a contour that is done, all are done", z3.Implies(z3.And(k >= 1, W.P >= 0), p >= 1))
        key = tuple(id(c) if isinstance(c, list) else (id(c.seq), z3.simplify(c.lo).get_id(), z3.simplify(c.n).get_id()) for c in pl.chunks)
        if key not in W.members:
            W.members[key] = (e.fresh_func("done", IS, BS), list(pl.chunks))
            u = W.members[key][0]
            e.axiom(z3.And(u(W.K) == (k >= 1), z3.Implies(W.P >= 0, u(W.P) == (p >= 1)), z3.Not(u(-1))))
        u = W.members[key][0]
        e.axiom(z3.Implies(z3.And(u(i), W.par(i) >= 0), u(W.par(i))))
        return V.mkbool(u(i))
    W.members = {}
    e.hooks["list_contains"] = member

    def hint(e2, loop, env, i):
        out = []
        ms = {k: [p for p in env if p[-2:] == ("#m", k) and "#first" not in p and "#last" not in p] for k in ("K", "P", "ends at K")}

        def c(name, fn, *ps):
            out.append(("custom", f"{name} {ps}", lambda en, i: None if any(p not in en for p in ps) else fn(*[en[p] for p in ps])))
        for a in ms["K"]:
            c("once", lambda x: x <= 1, a)
            c("all of them", lambda x: x == 1, a)
            for b in ms["K"]:
                if a != b:
                    c("as often", lambda x, y: x == y, a, b)
                    c("done or to do", lambda x, y: z3.And(z3.Implies(x >= 1, y == 0), z3.Implies(x == 0, y >= 1)), a, b)
            for b in ms["P"]:
                c("all around", lambda x, y: z3.Implies(z3.And(x >= 1, W.P >= 0), y >= 1), a, b)
        for a in ms["ends at K"]:
            for b in ms["P"]:
                c("what is around the end", lambda x, y: z3.Implies(z3.And(x >= 1, W.P >= 0), y >= 1), a, b)
        return out
    e.loop_hints.append(hint)
    t = M.Tree.__new__(M.Tree)
    M.Tree.leaves = PList.of_seq(fseq(nl, lambda w: Leaf(mkn(w)), meas={W.mk: on_k, W.mq: z3.IntVal(0)}))
    r = to_plist(t.sequences)
    e.cover("sequences")
    e.prove("exactly once", r.measure_term(W.mk) == 1)
    prove_list(e, "sequences", r, ok)


for _l in (True, False):
    C11.follow(_l, False, unit=unit, links=False, what="the route of a sequence cuts each of its contours all around, once, in order",
               by="for C11", replay="route")
