"""The runtime called by the mechanically transformed code (name `_pydv_`), and
the replacements of the builtins it sees."""
from __future__ import annotations

import builtins
import types
import z3
from . import values as V
from .values import (SymNum, SymBool, Unsupported, Poison, UNBOUND, eng, mk, mkbool, bterm,
                     term_of, concrete, is_num)
from .lists import (PList, PDict, PSet, PIter, Seq, MapSeq, FilterSeq, ZipSeq, EnumSeq, RangeSeq,
                    CountSeq, Infinite, Win, to_plist, contains, sorted_list, simp, wrapi, RevSeq)
from . import loops as L_
from . import lists as _lists


# ------------------------------------------------------------------ equality
def has_token(s):
    return "\ue000" in s


def text_equal(a, b):
    """two symbolic texts that are not written alike: equal or not, undetermined"""
    from .loops import split_tokens
    e, sig, args = V.eng(), [], []
    for s in sorted((a, b)):
        for p in split_tokens(s):
            if isinstance(p, str):
                sig.append(p)
                continue
            kind, av = e.tokens[p[0]][:2]
            sig.append(f"<{kind}>")
            for x in (av if isinstance(av, (tuple, list)) else (av,)):
                t = V.term_of(x) if not z3.is_expr(x) else x
                if t is None:
                    raise Unsupported("comparison of symbolic texts")
                args.append(t)
        sig.append("=")
    name = "textequal." + "".join(sig)
    if not args:
        return V.mkbool(z3.Bool(name))
    return V.mkbool(z3.Function(name, *[x.sort() for x in args], z3.BoolSort())(*args))


def eq(a, b):
    if isinstance(a, str) and isinstance(b, str) and (has_token(a) or has_token(b)):
        if a == b:
            return True
        if not a or not b:
            # a token stands for a nonempty text
            return False
        return text_equal(a, b)
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("comparison of an untracked value")
    if isinstance(a, tuple) and isinstance(b, PList) or isinstance(a, PList):
        return (a if isinstance(a, PList) else PList(a, tup=True)) == b
    return a == b


def ne(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return not eq(a, b)
    r = (a != b)
    return r


def eq_formula(a, b):
    """a == b as a z3 formula without forking, None if not expressible"""
    if is_num(a) and is_num(b):
        x, y = V.pair(a, b)
        return x == y
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        fs = [eq_formula(x, y) for x, y in zip(a, b)]
        return None if any(f is None for f in fs) else z3.And(*fs)
    if a is b:
        return z3.BoolVal(True)
    f = getattr(type(a), "__eq_formula__", None)
    if f is not None:
        return f(a, b)
    if a is None or b is None:
        return z3.BoolVal(a is b)
    if isinstance(a, str) and isinstance(b, str) and not has_token(a) and not has_token(b):
        return z3.BoolVal(a == b)
    if is_plain_object(a) and is_plain_object(b):
        return z3.BoolVal(False)  # identity: distinct objects
    return None


def is_plain_object(o):
    return type(o).__eq__ is object.__eq__ and not isinstance(o, (Seq,))


def in_(x, c):
    if isinstance(c, str):
        if isinstance(x, str) and (has_token(x) or has_token(c)):
            raise Unsupported("substring test of a symbolic text")
        return x in c
    if isinstance(c, (PList, PSet, PDict, tuple)):
        return contains(c, x)
    return x in c


def not_in(x, c):
    r = in_(x, c)
    return V.mkbool(z3.Not(r.t)) if isinstance(r, V.SymBool) else not r


# ------------------------------------------------------------------ displays
def L(*parts):
    """list display; parts are (star?, value)"""
    out = PList()
    for star, v in parts:
        if star:
            out.extend(v)
        else:
            out.append(v)
    out.marks = []
    return out


def D(*pairs):
    h = eng().hooks.get("new_dict")
    d = PDict() if h is None or pairs else h()
    for k, v in pairs:
        if k is DSTAR:
            for kk, vv in (v.pairs if isinstance(v, PDict) else v.items()):
                d[kk] = vv
        else:
            d[k] = v
    return d


DSTAR = object()


def S(*items):
    return PSet(PList(list(items)))


def snapshot(pl):
    if isinstance(pl, Infinite):
        return pl
    return PList(chunks=pl.copy_chunks(), tup=pl.tup)


def comp(kind, gens, f, site=None):
    """[f(x) for x in it if c ...]; gens = [(iterable thunk taking outer vars, [conds])]"""
    if len(gens) == 1:
        it, conds = gens[0]
        src = it()
        h = getattr(type(src), "__comp__", None)
        if h is not None:
            return h(src, conds, f)
        src = to_plist(src)
        out = comp1(src, conds, f, site if kind != "gen" else None)
    elif len(gens) == 2:
        it0, conds0 = gens[0]
        it1, conds1 = gens[1]
        src0 = to_plist(it0())
        if src0.is_concrete():
            out = PList()
            for x in src0.items():
                if all_true(conds0, (x,)):
                    inner = to_plist(it1(x))
                    out.extend(comp1(inner, [lambda y, c=c, x=x: c(x, y) for c in conds1],
                                     lambda y, x=x: f(x, y)))
        else:
            if conds0 or conds1:
                raise Unsupported("nested comprehension with a condition over a list of symbolic length")

            def inner(x):
                mark = eng().write_mark()
                L = to_plist(it1(x))
                eng().check_pure(mark, "comprehension")
                return PList.of_seq(MapSeq(L, lambda y, x=x: f(x, y)))
            q = _lists.NestSeq(src0, inner)
            out = PList(chunks=[Win(q, z3.IntVal(0), q.n)])
    else:
        raise Unsupported("comprehension with more than two for clauses")
    out.marks = []
    if kind == "set":
        return PSet(out)
    if kind == "gen":
        return GenList(out)
    return out


def all_true(conds, args):
    for c in conds:
        if not c(*args):
            return False
    return True


def comp_loop(src, conds, f, site):
    """a comprehension with side effects: the loop it stands for"""
    acc = PList()
    lp = L_.Loop(eng(), site, ("acc",), ("acc",), False, src)
    while True:
        (acc,) = lp.head((acc,))
        if not lp.more():
            return acc
        x = lp.item()
        if all_true(conds, (x,)):
            acc.append(f(x))


def comp1(src, conds, f, site=None):
    if isinstance(src, Infinite):
        raise Unsupported("comprehension over an infinite sequence")
    if src.is_concrete() or z3.is_int_value(src.len_term()) and src.len_term().as_long() <= 40:
        return PList([f(x) for x in src.items() if all_true(conds, (x,))])
    if site in eng().effects:
        return comp_loop(src, conds, f, site)
    out = []
    for c in src.copy_chunks():
        if isinstance(c, list):
            out.append([f(x) for x in c if all_true(conds, (x,))])
        else:
            sub = PList(chunks=[c])
            for cd in conds:
                # the condition may be the same for every element
                same = eng().same_for_all(sub, cd)
                if same is None:
                    sub = PList.of_seq(FilterSeq(sub, cd))
                elif not same:
                    sub = PList([])
            if sub.is_concrete():
                out.append([f(x) for x in sub.items()])
                continue
            q = MapSeq(sub, f)
            q.site = site
            if site is not None:
                eng().lazy.append(q)
                if site in eng().early:
                    q.evaluate_early()
            out.append(Win(q, z3.IntVal(0), q.n))
    return PList(chunks=PList.merge(out))


def dictcomp(gens, f):
    r = comp("list", gens, f)
    return D(*r.items())


class GenList:
    """a generator expression: evaluated (its bodies are pure), consumable once"""

    def __init__(self, pl):
        self.it = PIter(pl)

    def __iter__(self):
        if not self.it.pl.is_concrete():
            raise Unsupported("native iteration over a symbolic generator")
        while True:
            try:
                yield self.it.next()
            except StopIteration:
                return

    def __next__(self):
        return self.it.next()


_old_to_plist = _lists.to_plist


def _to_plist(o):
    if isinstance(o, GenList):
        o = o.it
    return _old_to_plist(o)


_lists.to_plist = _to_plist
to_plist = _to_plist


# ------------------------------------------------------------------ statements
def setattr_(o, name, v):
    e = eng()
    e.check_frozen(o)
    cls_attr = getattr(type(o), name, None)
    if isinstance(cls_attr, property):
        setattr(o, name, v)
        return
    if not isinstance(o, (type, types.ModuleType)):
        e.log_write(o, name)
    setattr(o, name, v)


def delattr_(o, name):
    raise Unsupported("del attribute")


def iadd(a, b):
    if isinstance(a, PList):
        return a.__iadd__(b)
    a += b
    return a


def lv(f):
    try:
        return f()
    except NameError:
        return UNBOUND


def raise_(ex):
    if isinstance(ex, type):
        ex = ex()
    try:
        ex.__pydv_raised__ = True
    except AttributeError:
        pass
    return ex


def assert_(c, msg):
    if not c:
        ex = AssertionError(msg)
        ex.__pydv_raised__ = True
        raise ex


def loop(site, names, live, isgen, it):
    if isinstance(it, GenList):
        it = it.it.pl if z3.is_int_value(it.it.pos) else it
    elif isinstance(it, (PList, PIter)):
        pass
    elif isinstance(it, PDict):
        it = PList([k for k, _ in it.pairs])
    elif isinstance(it, PSet):
        it = it.as_list()
    elif hasattr(type(it), "asloop"):
        it = it.asloop()
    return L_.Loop(eng(), site, names, live, isgen, it)


def While(site, names, live, isgen):
    return L_.Loop(eng(), site, names, live, isgen, is_while=True)


def join(sep, x):
    if not isinstance(sep, str):
        return sep.join(x)
    pl = to_plist(x)
    n = pl.len_term()
    if pl.is_concrete() or z3.is_int_value(n):
        its = pl.items()
        for y in its:
            if not isinstance(y, str):
                raise TypeError("sequence item: expected str instance")
        return sep.join(its)
    e = eng()
    e.tokens.append(("join", (sep, pl), ""))
    return f"\ue000{len(e.tokens) - 1}\ue001"


def regclass(cls):
    import enum
    if issubclass(cls, (enum.Enum, BaseException)):
        return cls
    base_new = cls.__new__
    if getattr(base_new, "_pydv_", False):
        return cls

    def __new__(c, *a, **k):
        if base_new is object.__new__:
            o = object.__new__(c)
        else:
            o = base_new(c, *a, **k)
        eng().register(o)
        return o
    __new__._pydv_ = True
    cls.__new__ = __new__
    return cls


# ------------------------------------------------------------------ builtins
class TypeMeta(type):
    def __call__(cls, *a, **k):
        return cls.conv(*a, **k)

    def __instancecheck__(cls, o):
        return cls.check(o)

    def __getitem__(cls, k):
        return types.GenericAlias(cls.native, k)

    def __or__(cls, o):
        return object

    def __ror__(cls, o):
        return object

    def __subclasscheck__(cls, o):
        return issubclass(o, cls.native)

    def __eq__(cls, o):
        return o is cls or o is cls.native

    def __hash__(cls):
        return hash(cls.native)


class list_(metaclass=TypeMeta):
    native = list

    @staticmethod
    def conv(x=()):
        if hasattr(type(x), "aslist"):
            return x.aslist()
        return PList(chunks=to_plist(x).copy_chunks())

    @staticmethod
    def check(o):
        return isinstance(o, list) or isinstance(o, PList) and not o.tup


class tuple_(metaclass=TypeMeta):
    native = tuple

    @staticmethod
    def conv(x=()):
        pl = to_plist(x)
        if pl.is_concrete():
            return tuple(pl.items())
        return PList(chunks=pl.copy_chunks(), tup=True)

    @staticmethod
    def check(o):
        return isinstance(o, tuple) or isinstance(o, PList) and o.tup


class set_(metaclass=TypeMeta):
    native = set

    @staticmethod
    def conv(x=()):
        return PSet(to_plist(x))

    @staticmethod
    def check(o):
        return isinstance(o, (set, PSet))


class dict_(metaclass=TypeMeta):
    native = dict

    @staticmethod
    def conv(*a, **k):
        d = PDict()
        for x in a:
            for kk, vv in (x.pairs if isinstance(x, PDict) else
                           [tuple(q) for q in to_plist(x).items()]):
                d[kk] = vv
        for kk, vv in k.items():
            d[kk] = vv
        return d

    @staticmethod
    def check(o):
        return isinstance(o, (dict, PDict))


class int_(metaclass=TypeMeta):
    native = int

    @staticmethod
    def conv(x=0, *a):
        if isinstance(x, (SymNum, SymBool)):
            return V.sym_int(x if isinstance(x, SymNum) else SymNum(term_of(x)))
        return int(x, *a)

    @staticmethod
    def check(o):
        if isinstance(o, SymNum):
            return o.is_int
        return isinstance(o, (int, SymBool))


class float_(metaclass=TypeMeta):
    native = float

    @staticmethod
    def conv(x=0.0):
        if isinstance(x, (SymNum, SymBool)):
            return mk(V.to_real(term_of(x)))
        if isinstance(x, int):
            return float(x)
        return float(x)

    @staticmethod
    def check(o):
        if isinstance(o, SymNum):
            return not o.is_int
        return isinstance(o, float)


class bool_(metaclass=TypeMeta):
    native = bool

    @staticmethod
    def conv(x=False):
        if isinstance(x, SymBool):
            return x
        return True if x else False

    @staticmethod
    def check(o):
        return isinstance(o, (bool, SymBool))


class str_(metaclass=TypeMeta):
    native = str

    @staticmethod
    def conv(x=""):
        return str(x)

    @staticmethod
    def check(o):
        return isinstance(o, str)


_ov = {list_: list, tuple_: tuple, set_: set, dict_: dict, int_: int, float_: float, bool_: bool, str_: str}


def isinstance_(o, c):
    if isinstance(o, Poison):
        raise Unsupported("isinstance of an untracked value")
    if type(c) is tuple:
        return any(isinstance_(o, x) for x in c)
    if isinstance(c, types.UnionType):
        return any(isinstance_(o, x) for x in c.__args__)
    return isinstance(o, c)


def type_(o, *a):
    if a:
        return type(o, *a)
    if isinstance(o, SymNum):
        return int_ if o.is_int else float_
    if isinstance(o, PList):
        return tuple_ if o.tup else list_
    t = type(o)
    for k, n in _ov.items():
        if t is n:
            return k
    return t


def len_(o):
    if isinstance(o, Infinite):
        raise Unsupported("len of an infinite sequence")
    if isinstance(o, (PList, PSet, PDict)):
        return o.length()
    f = getattr(type(o), "__len_term__", None)
    return len(o) if f is None else V.mk(f(o))


def _num_minmax(args, less):
    r = args[0]
    for x in args[1:]:
        if concrete(r) is not None and concrete(x) is not None:
            r = x if (x < r if less else x > r) else r
            continue
        a, b = V.pair(r, x)
        r = mk(z3.If(b < a, b, a)) if less else mk(z3.If(b > a, b, a))
    return r


_missing = object()


def _minmax(less, args, key, default):
    if len(args) == 1:
        pl = to_plist(args[0])
        n = pl.len_term()
        if not (pl.is_concrete() or z3.is_int_value(n)):
            if default is not _missing and eng().decide(n == 0):
                return default
            if default is _missing and eng().decide(n == 0):
                raise ValueError("min()/max() arg is an empty sequence")
            # sorting is stable, in both directions: the first of the smallest (greatest) ones
            return sorted_list(pl, key, not less).at(z3.IntVal(0))
        args = pl.items()
        if not args:
            if default is not _missing:
                return default
            raise ValueError("min()/max() arg is an empty sequence")
    if key is None and all(is_num(x) and not isinstance(x, float) or isinstance(x, float) and abs(x) != float("inf")
                           for x in args):
        return _num_minmax(args, less)
    best = args[0]
    kb = best if key is None else key(best)
    for x in args[1:]:
        kx = x if key is None else key(x)
        if (kx < kb) if less else (kx > kb):
            best, kb = x, kx
    return best


def min_(*a, key=None, default=_missing):
    return _minmax(True, a, key, default)


def max_(*a, key=None, default=_missing):
    return _minmax(False, a, key, default)


def sum_(x, start=0):
    pl = to_plist(x)
    n = pl.len_term()
    if not (pl.is_concrete() or z3.is_int_value(n)):
        h = eng().hooks.get("sum")
        if h:
            r = h(eng(), pl, start)
            if r is not None:
                return r
        raise Unsupported("sum of a list of symbolic length")
    r = start
    for y in pl.items():
        r = r + y
    return r


def sorted_(x, key=None, reverse=False):
    return sorted_list(to_plist(x), key, reverse)


def enumerate_(x, start=0):
    if is_native_iter(x):
        return enumerate(x, start)
    pl = snapshot(to_plist(x))
    if isinstance(pl, Infinite):
        return Infinite(EnumSeq(pl, start))
    if pl.is_concrete():
        return PList([(start + i, y) for i, y in enumerate(pl.items())])
    return PList.of_seq(EnumSeq(pl, start))


def is_native_iter(x):
    return isinstance(x, types.GeneratorType)


def zip_(*xs, strict=False):
    pls = [snapshot(to_plist(x)) for x in xs]
    if all(not isinstance(p, Infinite) and p.is_concrete() for p in pls):
        return PList(list(zip(*[p.items() for p in pls])))
    # one concrete list: its length bounds the result
    if any(not isinstance(p, Infinite) and p.is_concrete() and len(p.items()) <= 8 for p in pls):
        m = min(len(p.items()) for p in pls if not isinstance(p, Infinite) and p.is_concrete())
        out = []
        for k in range(m):
            for p in pls:
                n = p.len_term()
                if n is not None and eng().decide(n <= k):
                    return PList(out)
            out.append(tuple(p.at(z3.IntVal(k)) for p in pls))
        return PList(out)
    return PList.of_seq(ZipSeq(pls))


def range_(*a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    for v in (start, stop, step):
        if isinstance(v, SymNum) and not v.is_int or isinstance(v, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
    c = [concrete(v) for v in (start, stop, step)]
    if all(isinstance(v, int) for v in c):
        return PList(list(range(*c)))
    return PList.of_seq(RangeSeq(start, stop, step))


def reversed_(x):
    return snapshot(to_plist(x)).reversed()


def map_(f, *xs):
    if len(xs) == 1:
        return comp1(snapshot(to_plist(xs[0])), [], f)
    return comp1(zip_(*xs), [], lambda t: f(*t))


def filter_(f, x):
    c = (lambda y: y) if f is None else f
    return comp1(snapshot(to_plist(x)), [c], lambda y: y)


def all_(x):
    if is_native_iter(x):
        return all(x)
    pl = to_plist(x)
    if pl.is_concrete() or z3.is_int_value(pl.len_term()):
        for y in pl.items():
            if not y:
                return False
        return True
    return _quant(pl, True)


def any_(x):
    if is_native_iter(x):
        return any(x)
    pl = to_plist(x)
    if pl.is_concrete() or z3.is_int_value(pl.len_term()):
        for y in pl.items():
            if y:
                return True
        return False
    return _quant(pl, False)


def _quant(pl, want_all):
    """all()/any() over a list of symbolic length: decided by a free boolean;
    when it says that a deciding element exists, one is produced; the universal
    side is recorded and instantiated at every element read from the list"""
    e = eng()
    n = pl.len_term()
    b = e.fresh_bool("quant").t
    if e.decide(b):
        # an element falsifying (all) / satisfying (any)
        k = e.fresh_int("qidx").t
        e.assume(z3.And(k >= 0, k < n))
        v = pl.at(k)
        ok = bool(v)
        if ok == want_all:
            raise V.PathAbort()
        return not want_all
    h = e.hooks.get("quant_all")
    if h:
        h(e, pl, want_all)
    return want_all


def iter_(x, *a):
    if a:
        raise Unsupported("iter with sentinel")
    if is_native_iter(x) or isinstance(x, (GenList, PIter)):
        return x
    return PIter(snapshot(to_plist(x)))


def unpack(x, k):
    """the k values on the right of a, b, ... = x"""
    if not isinstance(x, PList) or x.is_concrete() or z3.is_int_value(x.len_term()):
        return x
    if not eng().decide(x.len_term() == k):
        raise ValueError("wrong number of values to unpack")
    return tuple(x.at(z3.IntVal(i)) for i in range(k))


def unpack_ex(x, before, after):
    """the values on the right of a, *b, c = x"""
    L = to_plist(x)
    n = L.len_term()
    if eng().decide(n < before + after):
        raise ValueError("not enough values to unpack")
    mid = L.window(z3.IntVal(before), simp(n - after))
    return (*(L.at(z3.IntVal(i)) for i in range(before)), PList(chunks=mid.copy_chunks()),
            *(L.at(simp(n - after + i)) for i in range(after)))


def next_(x, *d):
    if isinstance(x, GenList):
        return x.it.next(*d)
    if isinstance(x, PIter):
        return x.next(*d)
    return next(x, *d)


def abs_(x):
    return abs(x)


def round_(x, nd=None):
    if isinstance(x, SymNum) or isinstance(nd, SymNum):
        return V.sym_round(x, nd)
    return round(x) if nd is None else round(x, nd)


def pow_(a, b):
    return V.power(a, b) if isinstance(a, SymNum) or isinstance(b, SymNum) else pow(a, b)


def divmod_(a, b):
    return (a // b, a % b)


def print_(*a, **k):
    return None


def hash_(x):
    raise Unsupported("hash()")


class FileStub:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.writes = []
        self.closed = False

    def write(self, s):
        self.writes.append(s)
        return 0

    def writelines(self, xs):
        for x in to_plist(xs).items():
            self.write(x)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False


def open_(name, mode="r", *a, **k):
    f = FileStub(name, mode)
    eng().files.append(f)
    return f


def forbidden(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


def make_builtins(importer):
    b = dict(vars(builtins))
    b.update(
        list=list_, tuple=tuple_, set=set_, dict=dict_, int=int_, float=float_, frozenset=set_,
        len=len_, min=min_, max=max_, sum=sum_, sorted=sorted_, enumerate=enumerate_, zip=zip_,
        range=range_, reversed=reversed_, map=map_, filter=filter_, all=all_, any=any_, iter=iter_,
        next=next_, abs=abs_, round=round_, pow=pow_, divmod=divmod_, print=print_, open=open_,
        isinstance=isinstance_, type=type_, hash=hash_, bool=bool_, str=str_,
        id=forbidden("id()"), eval=forbidden("eval"), exec=forbidden("exec"),
        input=forbidden("input"), setattr=setattr_, delattr=delattr_,
        __import__=importer,
    )
    return b
def unsupported(msg):
    raise Unsupported(msg)
