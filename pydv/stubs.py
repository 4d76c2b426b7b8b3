"""Trusted models of the external libraries used by /repo (cadquery, OCP, numpy,
math, pyclipper, shapely, ...).  Everything not listed here is Opaque: touching it
during a proof makes the proof undecided."""
from __future__ import annotations

import math as _math
import types
import z3
from . import values as V
from .values import SymNum, SymBool, Unsupported, eng, mk, mkbool, term_of, concrete, to_real
from .lists import (PList, PDict, FnSeq, Seq, CountSeq, Infinite, to_plist, simp, wrapi, ZipSeq, Win)
from . import runtime as R

RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()


class Opaque:
    def __init__(self, name):
        object.__setattr__(self, "_name", name)

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        return Opaque(self._name + "." + a)

    def __call__(self, *a, **k):
        if eng().loading:
            return Opaque(self._name + "()")
        raise Unsupported(f"call of external {self._name}")

    def __mro_entries__(self, bases):
        return (OpaqueBase,)

    def __or__(self, o):
        return object

    __ror__ = __or__

    def __getitem__(self, k):
        if eng().loading:
            return self
        raise Unsupported(f"external {self._name}")

    def __instancecheck__(self, o):
        return False

    def __bool__(self):
        raise Unsupported(f"truth of external {self._name}")

    def __iter__(self):
        raise Unsupported(f"iteration of external {self._name}")

    def __repr__(self):
        return f"<external {self._name}>"


class OpaqueBase:
    pass


class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)
        self.__path__ = []

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        o = Opaque(f"{self.__name__}.{a}")
        self.__dict__[a] = o
        return o


def reg(cls):
    return R.regclass(cls)


def num(x):
    return x if isinstance(x, (SymNum, int, float)) else mk(term_of(x))


def uf(name, ret, *args):
    """value of a global uninterpreted function"""
    ts, sorts = [], []
    for a in args:
        t = a if isinstance(a, z3.ExprRef) else to_real(term_of(a))
        ts.append(t)
        sorts.append(t.sort())
    f = z3.Function(name, *sorts, ret)
    r = f(*ts)
    return r


# ------------------------------------------------------------------ cadquery
@reg
class Vector:
    def __init__(self, *a):
        if len(a) == 3:
            x, y, z = a
        elif len(a) == 2:
            (x, y), z = a, 0.0
        elif len(a) == 0:
            x = y = z = 0.0
        else:
            v = a[0]
            if isinstance(v, Vector):
                x, y, z = v.x, v.y, v.z
            elif isinstance(v, (tuple, PList)):
                t = tuple(v)
                if len(t) == 3:
                    x, y, z = t
                elif len(t) == 2:
                    (x, y), z = t, 0.0
                else:
                    raise ValueError("Incorrect number of elements")
            elif v is None:
                x = y = z = 0.0
            else:
                raise TypeError("Expected three floats, OCC gp_, or 3-tuple")
        for c in (x, y, z):
            if not V.is_num(c):
                raise TypeError("Expected three floats, OCC gp_, or 3-tuple")
        self.x, self.y, self.z = x, y, z

    @property
    def Length(self):
        return V.sym_sqrt(self.x * self.x + self.y * self.y + self.z * self.z)

    def toTuple(self):
        return (self.x, self.y, self.z)

    def sub(self, o):
        return Vector(self.x - o.x, self.y - o.y, self.z - o.z)

    __sub__ = sub

    def add(self, o):
        return Vector(self.x + o.x, self.y + o.y, self.z + o.z)

    __add__ = add

    def multiply(self, k):
        return Vector(self.x * k, self.y * k, self.z * k)

    __mul__ = multiply
    __rmul__ = multiply

    def __truediv__(self, k):
        return self.multiply(1.0 / k)

    def __neg__(self):
        return Vector(-self.x, -self.y, -self.z)

    def dot(self, o):
        return self.x * o.x + self.y * o.y + self.z * o.z

    def cross(self, o):
        return Vector(self.y * o.z - self.z * o.y, self.z * o.x - self.x * o.z, self.x * o.y - self.y * o.x)

    def normalized(self):
        l = self.Length
        return Vector(self.x / l, self.y / l, self.z / l)

    def __eq__(self, o):
        """IsEqual with a tolerance: a relation that contains equality"""
        if not isinstance(o, Vector):
            return False
        e = eng()
        ts = [to_real(term_of(c)) for c in (self.x, self.y, self.z, o.x, o.y, o.z)]
        same = z3.And(*[a == b for a, b in zip(ts[:3], ts[3:])])
        s = simp(same)
        if z3.is_true(s):
            return True
        r = z3.Function("vec_isequal", *([RS] * 6), BS)
        t = r(*ts)
        e.axiom(z3.Implies(same, t))
        e.axiom(t == r(*(ts[3:] + ts[:3])))
        return mkbool(t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(V.bterm(r)))

    def __hash__(self):
        raise Unsupported("hash of a vector")

    def __iter__(self):
        return iter((self.x, self.y, self.z))

    def toPnt(self):
        return Pnt(self)

    def toDir(self):
        return Pnt(self)

    def __repr__(self):
        return f"Vector({self.x}, {self.y}, {self.z})"


class Pnt:
    def __init__(self, v):
        self.v = Vector(v)


class SymText:
    """a text out of a finite set, coded by an integer"""
    CODES = {}

    def __init__(self, code):
        self.code = code

    @classmethod
    def code_of(cls, s):
        return cls.CODES.setdefault(s, len(cls.CODES))

    def __eq__(self, o):
        if isinstance(o, SymText):
            return mkbool(self.code == o.code)
        if isinstance(o, str):
            return mkbool(self.code == self.code_of(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(V.bterm(r)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic text")

    def __str__(self):
        return "?text"

    __repr__ = __str__


class Orientation:
    def __init__(self, rev):
        self.rev = rev

    def __eq__(self, o):
        if o is REVERSED:
            return mkbool(self.rev)
        if o is FORWARD:
            return mkbool(z3.Not(self.rev))
        if isinstance(o, Orientation):
            return mkbool(self.rev == o.rev)
        return False

    def __ne__(self, o):
        return mkbool(z3.Not(V.bterm(self == o)))

    __hash__ = None


class OrientConst:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        if isinstance(o, Orientation):
            return o == self
        return self is o

    def __hash__(self):
        return id(self)


REVERSED, FORWARD = OrientConst("REVERSED"), OrientConst("FORWARD")


class Shape:
    """a shape is known by an integer identity; every geometric query is an
    uninterpreted function of it"""

    def __init__(self, wrapped=None, key=None):
        self.key = key if key is not None else wrapped.key

    @classmethod
    def of(cls, key):
        o = cls.__new__(cls)
        o.key = key if isinstance(key, z3.ExprRef) else z3.IntVal(key)
        return o

    @property
    def wrapped(self):
        return Wrapped(self)

    def q(self, name, ret, *args):
        return simp(uf(f"{self.prefix}_{name}", ret, self.key, *args))

    def vec(self, name, *args):
        return Vector(*[mk(self.q(f"{name}_{c}", RS, *args)) for c in "xyz"])

    def __eq__(self, o):
        if not isinstance(o, Shape):
            return False
        if type(o) is not type(self):
            return False
        return mkbool(self.key == o.key)

    def __ne__(self, o):
        return mkbool(z3.Not(V.bterm(self == o)))

    def __hash__(self):
        raise Unsupported("hash of a shape")

    def __eq_formula__(self, o):
        if isinstance(o, Shape) and type(o) is type(self):
            return self.key == o.key
        return z3.BoolVal(False)

    def BoundingBox(self):
        return BBox(self)

    def isValid(self):
        return True

    def geomType(self):
        return SymText(self.q("geomtype", IS))

    def Center(self):
        return self.vec("center")

    def transformShape(self, m):
        if not isinstance(m, Matrix):
            raise Unsupported("transformShape")
        o = type(self).of(uf("transform", IS, self.key, m.key))
        tr = eng().hooks.get("transform")
        if tr:
            tr(self, m, o)
        return o

    def moved(self, loc):
        if not isinstance(loc, Location):
            raise Unsupported("moved")
        v = loc.v
        o = type(self).of(uf("moved", IS, self.key, v.x, v.y, v.z))
        tr = eng().hooks.get("moved")
        if tr:
            tr(self, v, o)
        return o

    prefix = "shape"


class BBox:
    def __init__(self, s):
        for n in ("xmin", "xmax", "ymin", "ymax", "zmin", "zmax"):
            setattr(self, n, mk(s.q("bb_" + n, RS)))
        e = eng()
        for c in "xyz":
            e.axiom(term_of(getattr(self, c + "min")) <= term_of(getattr(self, c + "max")))


class Wrapped:
    def __init__(self, s):
        self.shape = s
        self.key = s.key

    def Orientation(self, *a):
        if a:
            raise Unsupported("setting an orientation")
        return Orientation(self.shape.q("reversed", BS))

    def IsNull(self):
        return False


@reg
class Edge(Shape):
    prefix = "edge"

    def startPoint(self):
        return self.vec("start")

    def endPoint(self):
        return self.vec("end")

    def Length(self):
        l = self.q("length", RS)
        eng().axiom(l >= 0)
        return mk(l)

    def paramAt(self, d):
        return mk(self.q("param", RS, d))

    def positionAt(self, d, mode="length", planar=False):
        e = eng()
        if mode == "length":
            v = self.vec("atlen", d)
            t = to_real(term_of(d))
            for val, pt in ((0, self.startPoint()), (1, self.endPoint())):
                e.axiom(z3.Implies(t == val, same_vec(v, pt)))
            return v
        if mode == "parameter":
            v = self.vec("atparam", d)
            t = to_real(term_of(d))
            for val, pt in ((0, self.startPoint()), (1, self.endPoint())):
                p = self.q("param", RS, z3.RealVal(val))
                e.axiom(z3.Implies(t == p, same_vec(v, pt)))
            return v
        raise ValueError("mode")

    def positions(self, ds, mode="length", planar=False):
        return R.comp1(to_plist(ds), [], lambda d: self.positionAt(d, mode))

    def arcCenter(self):
        return self.vec("arccenter")

    def normal(self):
        return self.vec("normal")

    def Closed(self):
        # the flag stored on the shape, which says nothing about its geometry
        return mkbool(self.q("closed_flag", BS))

    def IsClosed(self):
        return mkbool(self.q("closed", BS))

    @staticmethod
    def makeLine(a, b):
        h = eng().hooks.get("makeLine")
        if h:
            return h(a, b)
        raise Unsupported("Edge.makeLine")

    @staticmethod
    def makeThreePointArc(a, b, c):
        h = eng().hooks.get("makeThreePointArc")
        if h:
            return h(a, b, c)
        raise Unsupported("Edge.makeThreePointArc")


def same_vec(a, b):
    return z3.And(*[to_real(term_of(x)) == to_real(term_of(y))
                    for x, y in zip(a.toTuple(), b.toTuple())])


@reg
class Vertex(Shape):
    prefix = "vertex"

    @classmethod
    def makeVertex(cls, x, y, z):
        return cls.of(uf("mkvertex", IS, x, y, z))

    def toTuple(self):
        return self.vec("pos").toTuple()

    def Center(self):
        return self.vec("pos")


@reg
class Wire(Shape):
    """a wire: its edges in the order of the wire explorer are wire_edge(w, i)"""
    prefix = "wire"

    def nedges(self):
        n = self.q("nedges", IS)
        eng().axiom(n >= 0)
        return n

    def edge_at(self, i):
        return Edge.of(simp(uf("wire_edge", IS, self.key, i)))

    def Edges(self):
        raise Unsupported("Wire.Edges (unordered)")

    def Length(self):
        l = self.q("length", RS)
        eng().axiom(l >= 0)
        return mk(l)

    def IsClosed(self):
        return mkbool(self.q("closed", BS))

    def startPoint(self):
        return self.vec("start")

    def endPoint(self):
        return self.vec("end")

    @staticmethod
    def assembleEdges(edges):
        h = eng().hooks.get("assembleEdges")
        if h:
            return h(edges)
        raise Unsupported("assembleEdges")

    @staticmethod
    def combine(edges, *a):
        h = eng().hooks.get("combine")
        if h:
            return h(edges)
        raise Unsupported("Wire.combine")

    def cut(self, *a):
        h = eng().hooks.get("cut")
        if h:
            return h(self, *a)
        raise Unsupported("Wire.cut")

    def offset2D(self, d, kind="arc"):
        h = eng().hooks.get("offset2D")
        if h:
            return h(self, d, kind)
        raise Unsupported("offset2D")


@reg
class Face(Shape):
    prefix = "face"

    def outerWire(self):
        return Wire.of(simp(uf("face_outer", IS, self.key)))

    def innerWires(self):
        n = self.q("ninner", IS)
        eng().axiom(n >= 0)
        k = self.key
        return PList.of_seq(FnSeq(n, lambda i: Wire.of(simp(uf("face_inner", IS, k, z3.IntVal(i) if isinstance(i, int) else i.t)))))

    def Area(self):
        return mk(self.q("area", RS))

    @classmethod
    def makeFromWires(cls, outer, inners=None):
        if inners is not None and not (isinstance(inners, PList) and inners.is_concrete() and not inners.items()):
            raise Unsupported("makeFromWires with inner wires")
        if not isinstance(outer, Wire):
            raise TypeError("makeFromWires")
        return cls.of(simp(uf("face_of", IS, outer.key)))

    @classmethod
    def makePlane(cls, *a, **k):
        return cls.of(z3.IntVal(-1))


@reg
class Compound(Shape):
    prefix = "compound"


@reg
class Workplane:
    def __init__(self, objects=None):
        self.objects = objects if objects is not None else PList()


class Matrix:
    def __init__(self, key):
        self.key = key


class Location:
    def __init__(self, v=None):
        if not isinstance(v, Vector):
            raise Unsupported("Location")
        self.v = v


@reg
class Plane:
    """a coordinate system: toLocalCoords / toWorldCoords are uninterpreted"""

    def __init__(self, *a, **k):
        self.key = eng().fresh_int("plane").t
        h = eng().hooks.get("plane")
        if h:
            h(self, a, k)

    @property
    def fG(self):
        return Matrix(simp(uf("plane_fG", IS, self.key)))

    @property
    def rG(self):
        return Matrix(simp(uf("plane_rG", IS, self.key)))

    def toLocalCoords(self, v):
        if isinstance(v, Vector):
            return Vector(*[mk(uf("tolocal_" + c, RS, self.key, v.x, v.y, v.z)) for c in "xyz"])
        if isinstance(v, Shape):
            return v.transformShape(self.fG)
        raise ValueError("toLocalCoords")

    def toWorldCoords(self, v):
        if isinstance(v, (tuple, PList)):
            v = Vector(v)
        return Vector(*[mk(uf("toworld_" + c, RS, self.key, v.x, v.y, v.z)) for c in "xyz"])

    def _vec(self, n):
        return Vector(*[mk(uf(f"plane_{n}_{c}", RS, self.key)) for c in "xyz"])

    @property
    def origin(self):
        return self._vec("origin")

    @property
    def xDir(self):
        return self._vec("xDir")

    @property
    def yDir(self):
        return self._vec("yDir")

    @property
    def zDir(self):
        return self._vec("zDir")

    def toPln(self):
        return self


# ------------------------------------------------------------------ OCP
@reg
class WireExplorer:
    def __init__(self, w):
        self.wire = w.shape
        self.pos = 0

    def Current(self):
        n = self.wire.nedges()
        p = term_of(self.pos)
        if eng().decide(p >= n):
            return NullShape()
        return Wrapped(self.wire.edge_at(simp(p)))

    def Next(self):
        R.setattr_(self, "pos", self.pos + 1)

    def More(self):
        return mkbool(term_of(self.pos) < self.wire.nedges())


class NullShape:
    def IsNull(self):
        return True


# ------------------------------------------------------------------ numpy
def linspace(a, b, n=50, endpoint=True, **k):
    a0, b0 = num(a), num(b)
    cn = concrete(n)
    if isinstance(n, SymNum) and not n.is_int or isinstance(n, float):
        raise TypeError("linspace count must be an integer")
    if isinstance(cn, int):
        if cn < 0:
            raise ValueError("Number of samples must be non-negative")
        div = cn - 1 if endpoint else cn
        out = []
        for i in range(cn):
            if endpoint and i == cn - 1 and cn > 1:
                out.append(b0)
            elif i == 0:
                out.append(a0)
            else:
                out.append(a0 + (b0 - a0) * i / div)
        return PList(out)
    e = eng()
    t = term_of(n)
    if e.decide(t < 0):
        raise ValueError("Number of samples must be non-negative")

    def f(i):
        it = to_real(term_of(i))
        ta, tb = to_real(term_of(a0)), to_real(term_of(b0))
        d = to_real(t) - (1 if endpoint else 0)
        q = uf("lin", RS, ta, tb, d, it)
        e.axiom(z3.Implies(d > 0, q * d == ta * d + (tb - ta) * it))
        e.axiom(z3.Implies(it == 0, q == ta))
        if endpoint:
            e.axiom(z3.Implies(z3.And(it == d, d > 0), q == tb))
        # monotone: between the end points
        e.axiom(z3.Implies(z3.And(d > 0, it >= 0, it <= d, ta <= tb), z3.And(q >= ta, q <= tb)))
        e.axiom(z3.Implies(z3.And(d > 0, it >= 0, it <= d, ta >= tb), z3.And(q <= ta, q >= tb)))
        return mk(q)
    return PList.of_seq(FnSeq(t, f))


def arange(*a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    e = eng()
    ts, tp, td = [simp(to_real(term_of(x))) for x in (start, stop, step)]
    if e.decide(td == 0):
        raise ZeroDivisionError("arange")
    n = e.fresh_int("nar").t
    pos = e.decide(td > 0)
    nr = z3.ToReal(n)
    span, d = (tp - ts, td) if pos else (ts - tp, -td)
    # n = max(0, ceil(span / d))
    e.assume(z3.And(n >= 0, z3.Implies(span <= 0, n == 0),
                    z3.Implies(span > 0, z3.And((nr - 1) * d < span, span <= nr * d))))

    def f(i):
        return mk(ts + to_real(term_of(i)) * td)
    return PList.of_seq(FnSeq(n, f))


def np_array(x, *a, **k):
    raise Unsupported("numpy array")


# ------------------------------------------------------------------ math
def m_floor(x):
    if isinstance(x, SymNum):
        return x if x.is_int else mk(z3.ToInt(x.t))
    return _math.floor(x)


def m_ceil(x):
    if isinstance(x, SymNum):
        return x if x.is_int else mk(-z3.ToInt(-x.t))
    return _math.ceil(x)


def m_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    ta, tb = V.pair(a, b)
    ta, tb = to_real(ta), to_real(tb)
    d = z3.If(ta >= tb, ta - tb, tb - ta)
    aa = z3.If(ta >= 0, ta, -ta)
    ab = z3.If(tb >= 0, tb, -tb)
    m = z3.If(aa >= ab, aa, ab)
    r, s = V.const_term(float(rel_tol)), V.const_term(float(abs_tol))
    return mkbool(z3.Or(d <= r * m, d <= s))


def m_uf(name):
    nat = getattr(_math, name)

    def f(*a):
        if all(not isinstance(x, SymNum) for x in a):
            return nat(*a)
        return mk(uf("math_" + name, RS, *a))
    return f


def m_hypot(*a):
    s = 0
    for x in a:
        s = s + x * x
    return V.sym_sqrt(s)


def m_dist(p, q):
    return m_hypot(*[a - b for a, b in zip(to_plist(p).items(), to_plist(q).items())])


# ------------------------------------------------------------------ itertools etc.
def it_count(start=0, step=1):
    return Infinite(CountSeq(start, step))


def it_pairwise(x):
    pl = R.snapshot(to_plist(x))
    n = pl.len_term()
    if pl.is_concrete():
        xs = pl.items()
        return PList(list(zip(xs, xs[1:])))
    m = simp(z3.If(n > 0, n - 1, z3.IntVal(0)))
    return PList.of_seq(PairSeq(pl, m))


class PairSeq(Seq):
    kind = "pairwise"

    def __init__(self, src, n):
        super().__init__(n)
        self.src = src

    def make(self, i):
        return (self.src.at(i), self.src.at(i + 1))


def it_chain(*xs):
    out = PList()
    for x in xs:
        out = out + PList(chunks=to_plist(x).copy_chunks())
    return out


def it_chain_from(xs):
    pl = to_plist(xs)
    return it_chain(*pl.items())


it_chain.from_iterable = it_chain_from


def cache(f=None, **k):
    if f is None or not callable(f):
        return lambda g: g
    return f


class cached_property(property):
    def __init__(self, f):
        super().__init__(f)
        self.__doc__ = f.__doc__


def partial(f, *a, **k):
    return lambda *b, **kk: f(*a, *b, **{**k, **kk})


def reduce(f, xs, *init):
    it = to_plist(xs).items()
    if init:
        acc = init[0]
    else:
        if not it:
            raise TypeError("reduce() of empty iterable")
        acc, it = it[0], it[1:]
    for x in it:
        acc = f(acc, x)
    return acc


def defaultdict(factory=None, *a):
    d = PDict()
    d.default = factory
    return d


def copy_copy(o):
    if isinstance(o, PList):
        return o.copy()
    if isinstance(o, (PDict,)):
        d = PDict()
        d.pairs, d.default = list(o.pairs), o.default
        return d
    if isinstance(o, (int, float, str, tuple, SymNum, SymBool, type(None))):
        return o
    if id(o) not in eng().objs:
        raise Unsupported(f"copy of {type(o).__name__}")
    from .loops import obj_attrs
    c = type(o).__new__(type(o))
    for k, v in obj_attrs(o).items():
        object.__setattr__(c, k, v)
    return c


class Logger:
    def __getattr__(self, a):
        return lambda *b, **k: None


class BytesIO:
    pass


def build_modules():
    cq = Mod("cadquery")
    cq.__dict__.update(Vector=Vector, Edge=Edge, Wire=Wire, Face=Face, Vertex=Vertex, Shape=Shape,
                       Compound=Compound, Workplane=Workplane, Plane=Plane, Location=Location, cq=cq)
    shapes = Mod("cadquery.occ_impl.shapes", TOLERANCE=1e-6)
    np = Mod("numpy", linspace=linspace, arange=arange, pi=_math.pi, array=np_array, ceil=m_ceil,
             floor=m_floor, sqrt=V.sym_sqrt, inf=float("inf"), isclose=m_isclose)
    mth = Mod("math", sqrt=V.sym_sqrt, floor=m_floor, ceil=m_ceil, isclose=m_isclose, pi=_math.pi,
              inf=float("inf"), hypot=m_hypot, dist=m_dist, fabs=lambda x: abs(x),
              **{n: m_uf(n) for n in ("sin", "cos", "tan", "atan", "atan2", "acos", "asin", "degrees", "radians")})
    topabs = Mod("OCP.TopAbs", TopAbs_REVERSED=REVERSED, TopAbs_FORWARD=FORWARD)
    brept = Mod("OCP.BRepTools", BRepTools_WireExplorer=WireExplorer)
    mods = {
        "cadquery": cq, "cadquery.cq": cq, "cadquery.occ_impl.shapes": shapes,
        "cadquery.occ_impl": Mod("cadquery.occ_impl", shapes=shapes),
        "numpy": np, "math": mth,
        "OCP": Mod("OCP"), "OCP.TopAbs": topabs, "OCP.BRepTools": brept,
        "itertools": Mod("itertools", count=it_count, pairwise=it_pairwise, chain=it_chain),
        "functools": Mod("functools", cache=cache, lru_cache=cache, cached_property=cached_property,
                         partial=partial, reduce=reduce, wraps=lambda f: (lambda g: g)),
        "collections": Mod("collections", defaultdict=defaultdict, OrderedDict=R.dict_),
        "copy": Mod("copy", copy=copy_copy),
        "logging": Mod("logging", getLogger=lambda *a: Logger(), warning=lambda *a, **k: None),
        "warnings": Mod("warnings", warn=lambda *a, **k: None),
        "operator": Mod("operator", itemgetter=lambda k: (lambda x: x[k]),
                        attrgetter=lambda k: (lambda x: getattr(x, k)),
                        add=lambda a, b: R.iadd(a, b)),
    }
    std = Mod("OCP.StdFail", StdFail_NotDone=type("StdFail_NotDone", (Exception,), {}))
    mods["OCP.StdFail"] = std
    return mods
