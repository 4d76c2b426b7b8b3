"""Lists of concrete and of symbolic length.

A PList is a python list whose content is a sequence of chunks: concrete python
lists, and windows (lo, n) of a *sequence* - a mathematical function from
indices to values, of symbolic length.  Chunks are immutable; mutation replaces
the chunk list.
"""
from __future__ import annotations

import z3
from . import values as V
from .values import (SymNum, SymBool, Unsupported, eng, mk, mkbool, term_of,
                     concrete, bterm)


def simp(t):
    return z3.simplify(t)


def iterm(v):
    t = term_of(v)
    if t.sort() != z3.IntSort():
        raise TypeError("list indices must be integers or slices, not float")
    return t


# ------------------------------------------------------------------ sequences
class Seq:
    """A sequence: length (python int, z3 Int term) and elem(index term)."""

    kind = "seq"

    def __init__(self, n):
        self.n = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
        self.memo = {}
        self.uid = eng().serial()

    def elem(self, i):
        i = simp(i)
        k = i.get_id()
        e = eng()
        hit = self.memo.get(k)
        if hit is not None and e.memo_valid(hit[0]):
            return hit[2]
        v = self.make(i)
        # keep i alive so that its ast id stays valid
        self.memo[k] = (e.memo_stamp(), i, v)
        return v

    def make(self, i):
        raise NotImplementedError

    # list-level facts; None = unknown
    def all_flag(self, pred):
        return None

    def adj_flag(self, pred):
        return None

    def measure(self, m):
        return None


class FnSeq(Seq):
    """An input sequence or a pure function of the index."""

    kind = "fn"

    def __init__(self, n, f, all_=None, adj=None, meas=None, pure=True):
        super().__init__(n)
        self.f = f
        self._all = all_ or {}
        self._adj = adj or {}
        self._meas = meas or {}

    def make(self, i):
        return self.f(SymNum(i) if not z3.is_int_value(i) else i.as_long())

    def all_flag(self, pred):
        return self._all.get(pred)

    def adj_flag(self, pred):
        return self._adj.get(pred)

    def measure(self, m):
        return self._meas.get(m)


class MapSeq(Seq):
    """[f(x) for x in src], evaluated on demand at the index that is read."""

    kind = "map"
    site, made, early = None, False, None

    def __init__(self, src, f):
        super().__init__(src.len_term())
        self.src = src
        self.f = f
        self.mark = eng().write_mark()

    def make(self, i):
        e = eng()
        self.made = True
        for (o, w) in e.writes[self.mark[0]:]:
            if not isinstance(o, PList) and e.birth(o) < self.mark[1] and w != "birth" and not getattr(type(o), "ghost", False):
                if self.early is None:
                    e.suspects.add(self.site)
                    raise Unsupported("lazily evaluated comprehension after a heap write")
                changed = True
                break
        else:
            changed = False
        x = self.src.at(i)
        mark = e.write_mark()
        old, e.lazy_mark = e.lazy_mark, self.mark[1]
        try:
            v = self.f(x)
        finally:
            e.lazy_mark = old
        try:
            e.check_pure(mark, "comprehension")
        except Unsupported:
            e.impure.add(self.site)
            raise
        if changed:
            # it is what it was before
            t, j = self.early
            if not (isinstance(v, SymNum) and z3.simplify(v.t).eq(z3.simplify(z3.substitute(t, (j, i))))):
                e.suspects.add(self.site)
                raise Unsupported("lazily evaluated comprehension after a heap write")
        return v

    def evaluate_early(self):
        e = eng()
        got = []

        def run(j):
            e.assume(z3.And(j >= 0, j < self.n))
            v = self.make(j)
            if isinstance(v, SymNum):
                got.append((v.t, j))
        e.generic(run)
        self.early = got[0] if got else None

    def measure(self, m):
        c = self.__dict__.setdefault("_mc", {})
        if m.name not in c:
            c[m.name] = eng().generic_measure(self, m, lambda j: (self.src.at(j), self.elem(j)), self.src.len_term())
        if c[m.name] == "zero":
            return z3.IntVal(0)
        return self.src.measure_term(m) if c[m.name] else eng().point_measure(m, self, self.elem)


def truth(c):
    """a condition; a stub may say when it counts as true without deciding it"""
    f = getattr(type(c), "__truth_formula__", None)
    return c if f is None else SymBool(f(c))


class FilterSeq(Seq):
    """the elements of src accepted by cond, in order; index function unknown"""

    kind = "filter"

    def __init__(self, src, cond):
        e = eng()
        self.idx = e.fresh_func("fidx", z3.IntSort(), z3.IntSort())
        n = e.fresh_int("fn")
        super().__init__(n.t)
        e.axiom(z3.And(self.n >= 0, self.n <= src.len_term()))
        self.src = src
        self.cond = cond
        self.seen = []
        e.computed.append(self)

    def index_of(self, k):
        """the place of element k of the source, and the fact (z3) that it is among those accepted"""
        e = eng()
        if not hasattr(self, "inv"):
            self.inv = e.fresh_func("finv", z3.IntSort(), z3.IntSort())
        x = self.src.at(k)
        c = truth(self.cond(x))
        c = c.t if isinstance(c, SymBool) else z3.BoolVal(bool(c))
        c = z3.And(c, k >= 0, k < self.src.len_term())
        p = self.inv(k)
        e.axiom(z3.Implies(c, z3.And(p >= 0, p < self.n, self.idx(p) == k)))
        return p, c

    def make(self, i):
        e = eng()
        j = self.idx(i)
        e.axiom(z3.Implies(z3.And(i >= 0, i < self.n),
                           z3.And(j >= i, j < self.src.len_term())))
        for p in self.seen:
            jp = self.idx(p)
            e.axiom(z3.Implies(z3.And(p < i, p >= 0, i < self.n), jp < j))
            e.axiom(z3.Implies(z3.And(i < p, i >= 0, p < self.n), j < jp))
        self.seen.append(i)
        x = self.src.at(j)
        c = truth(self.cond(x))
        if isinstance(c, SymBool):
            e.assume(z3.Implies(z3.And(i >= 0, i < self.n), c.t))
        elif not c:
            e.assume(z3.Not(z3.And(i >= 0, i < self.n)))
        return x


class Opaque:
    """something of which nothing can be asked"""

    def _no(self, *a):
        raise Unsupported("asked of an opaque value")
    __getattr__ = __bool__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __len__ = __iter__ = _no
    __getitem__ = __call__ = __add__ = __radd__ = __neg__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _no
    __hash__ = object.__hash__


class NestSeq(Seq):
    """[f(x, y) for x in src for y in g(x)]: element i is the q(i)-th of the k(i)-th inner list;
    off(k) counts the elements of the lists before the k-th"""

    kind = "nest"

    def __init__(self, src, inner):
        e = eng()
        ii = (z3.IntSort(), z3.IntSort())
        self.k, self.off = e.fresh_func("nk", *ii), e.fresh_func("noff", *ii)
        self.src, self.inner = src, inner
        super().__init__(e.fresh_int("nn").t)
        self.lists = {}
        self.seen = []
        N = src.len_term()
        e.axiom(z3.And(self.n >= 0, self.off(z3.IntVal(0)) == 0, self.off(N) == self.n))
        e.axiom(z3.Implies(N == 0, self.n == 0))
        # the first and the last list
        for j, c in ((z3.IntVal(0), N >= 1), (simp(N - 1), N >= 1)):
            L = self.list_at(j, c)
            e.axiom(z3.Implies(c, z3.And(self.off(j + 1) == self.off(j) + L.len_term(), self.off(j) >= 0,
                                         self.off(j + 1) <= self.n)))

    def list_at(self, k, cond=None):
        key = simp(k).get_id()
        if key not in self.lists:
            L = to_plist(self.inner(self.src.at(simp(k))))
            self.lists[key] = (k, L)
        return self.lists[key][1]

    def place(self, i):
        """(k, q) of element i, with what is known about them"""
        e = eng()
        k = self.k(i)
        ok = z3.And(i >= 0, i < self.n)
        e.axiom(z3.Implies(ok, z3.And(k >= 0, k < self.src.len_term())))
        L = self.list_at(k)
        q = simp(i - self.off(k))
        e.axiom(z3.Implies(ok, z3.And(self.off(k) >= 0, q >= 0, q < L.len_term(),
                                      self.off(k + 1) == self.off(k) + L.len_term(), self.off(k + 1) <= self.n)))
        for p in self.seen:
            kp = self.k(p)
            okp = z3.And(p >= 0, p < self.n)
            e.axiom(z3.Implies(z3.And(ok, okp, p < i), z3.And(kp <= k, self.off(kp) <= self.off(k))))
            e.axiom(z3.Implies(z3.And(ok, okp, i < p), z3.And(k <= kp, self.off(k) <= self.off(kp))))
            e.axiom(z3.Implies(z3.And(ok, okp, kp < k), self.off(kp + 1) <= self.off(k)))
            e.axiom(z3.Implies(z3.And(ok, okp, k < kp), self.off(k + 1) <= self.off(kp)))
        self.seen.append(i)
        return k, q, L

    def make(self, i):
        k, q, L = self.place(i)
        return L.at(q)

    def measure(self, m):
        if self.flat():
            return self.src.measure_term(m)
        c = self.__dict__.setdefault("_mc", {})
        if m.name not in c:
            c[m.name] = eng().generic_measure(
                self, m, lambda j: (self.src.at(j), self.list_at(j)), self.src.len_term())
        if c[m.name] == "zero":
            return z3.IntVal(0)
        return self.src.measure_term(m) if c[m.name] else eng().point_measure(m, self, self.list_at)

    def flat(self):
        """the inner lists are the elements of the source, as they are: found on a list of which nothing can be
        asked but its elements, and of these nothing at all"""
        e = eng()

        def run(j):
            n = e.fresh_int("gen").t
            e.assume(n >= 0)
            x = PList.of_seq(FnSeq(n, lambda i: Opaque()))
            L = to_plist(self.inner(x))
            q = e.fresh_int("gen").t
            e.assume(z3.And(q >= 0, q < n))
            return e.valid(L.len_term() == n) and L.at(q) is x.at(q)
        if not hasattr(self, "_flat"):
            self._flat = bool(e.generic(run))
        return self._flat

    def all_flag(self, pred):
        return self.src.all_formula(pred) if self.flat() else None

    def adj_flag(self, pred):
        return self.src.adj_formula(pred) if self.flat() else None

    def index_of(self, k, q):
        """where the q-th element of the k-th list is"""
        e = eng()
        L = self.list_at(k)
        i = simp(self.off(k) + q)
        ok = z3.And(k >= 0, k < self.src.len_term(), q >= 0, q < L.len_term())
        e.axiom(z3.Implies(ok, z3.And(i >= 0, i < self.n, self.k(i) == k, self.off(k) >= 0)))
        return i


class RevSeq(Seq):
    kind = "rev"

    def __init__(self, src):
        super().__init__(src.len_term())
        self.src = src

    def make(self, i):
        return self.src.at(self.n - 1 - i)

    def all_flag(self, pred):
        return self.src.all_formula(pred, flag_only=True)

    def adj_flag(self, pred):
        rev = getattr(pred, "rev", None)
        return None if rev is None else self.src.adj_formula(rev)

    def measure(self, m):
        return self.src.measure_term(m)


class PermSeq(Seq):
    """src in some order (sorted(), list.sort())"""

    kind = "perm"

    def __init__(self, src, key=None, reverse=False):
        super().__init__(src.len_term())
        e = eng()
        self.perm = e.fresh_func("perm", z3.IntSort(), z3.IntSort())
        self.src = src
        self.key = key
        self.reverse = reverse
        self.seen = []
        e.computed.append(self)

    def index_of(self, k):
        """the place of element k of the source (it is somewhere)"""
        e = eng()
        if not hasattr(self, "inv"):
            self.inv = e.fresh_func("pinv", z3.IntSort(), z3.IntSort())
        c = z3.And(k >= 0, k < self.n)
        p = self.inv(k)
        e.axiom(z3.Implies(c, z3.And(p >= 0, p < self.n, self.perm(p) == k)))
        return p, c

    def make(self, i):
        e = eng()
        j = self.perm(i)
        rng = z3.And(i >= 0, i < self.n)
        e.axiom(z3.Implies(rng, z3.And(j >= 0, j < self.n)))
        v = self.src.at(j)
        kv = v if self.key is None else self.key(v)
        for (p, pk) in self.seen:
            jp = self.perm(p)
            e.axiom(z3.Implies(z3.And(rng, p >= 0, p < self.n, p != i), jp != j))
            if V.is_num(kv) and V.is_num(pk):
                a, b = V.pair(pk, kv)
                if self.reverse:
                    a, b = b, a
                e.axiom(z3.Implies(z3.And(rng, p >= 0, p < self.n, p <= i), a <= b))
                e.axiom(z3.Implies(z3.And(rng, p >= 0, p < self.n, i <= p), b <= a))
        self.seen.append((i, kv))
        return v

    def all_flag(self, pred):
        return self.src.all_formula(pred, flag_only=True)

    def measure(self, m):
        return self.src.measure_term(m)


class ZipSeq(Seq):
    kind = "zip"

    def __init__(self, srcs):
        n = None
        for s in srcs:
            t = s.len_term()
            if t is None:
                continue
            n = t if n is None else z3.If(n <= t, n, t)
        if n is None:
            raise Unsupported("zip of infinite sequences")
        super().__init__(simp(n))
        self.srcs = srcs

    def make(self, i):
        return tuple(s.at(i) for s in self.srcs)


class EnumSeq(Seq):
    kind = "enum"

    def __init__(self, src, start):
        n = src.len_term()
        super().__init__(n if n is not None else z3.IntVal(0))
        self.infinite = n is None
        self.src = src
        self.start = start

    def make(self, i):
        return (mk(i) + self.start if not _z(self.start) else wrapi(i), self.src.at(i))


def _z(v):
    return isinstance(v, int) and v == 0


def wrapi(t):
    t = simp(t)
    return t.as_long() if z3.is_int_value(t) else SymNum(t)


class FlatSeq:
    """chunk: concatenation of all lists of a sequence of lists"""


# ------------------------------------------------------------------ windows
class Win:
    __slots__ = ("seq", "lo", "n")

    def __init__(self, seq, lo, n):
        self.seq, self.lo, self.n = seq, simp(lo), simp(n)

    def whole(self):
        return z3.is_int_value(self.lo) and self.lo.as_long() == 0 and \
            z3.eq(self.n, simp(self.seq.n))

    def at(self, i):
        return self.seq.elem(simp(self.lo + i))


class PList:
    """python list (or, with tup=True, a tuple of symbolic length)"""

    def __init__(self, items=(), chunks=None, tup=False):
        if chunks is None:
            items = list(items)
            chunks = [items] if items else []
        self._chunks = chunks
        self.tup = tup
        self.marks = []
        self.last_write = 0
        self.serial = eng().reg_list(self)

    @property
    def chunks(self):
        e = V.ENGINE
        if e is not None and e.lazy_mark and self.last_write > e.lazy_mark >= self.serial:
            raise Unsupported("lazily evaluated comprehension reads a list modified later")
        return self._chunks

    @chunks.setter
    def chunks(self, v):
        self._chunks = v

    @classmethod
    def of_seq(cls, seq, tup=False):
        return cls(chunks=[Win(seq, z3.IntVal(0), seq.n)], tup=tup)

    # -------------------------------------------------------------- basics
    def is_concrete(self):
        return all(isinstance(c, list) for c in self.chunks)

    def items(self):
        if not self.is_concrete():
            n = self.len_term()
            if n is not None and z3.is_int_value(n) and n.as_long() <= 40:
                return [self.at(z3.IntVal(k)) for k in range(n.as_long())]
            raise Unsupported("concrete content of a symbolic list")
        return [x for c in self.chunks for x in c]

    def len_term(self):
        t = z3.IntVal(0)
        for c in self.chunks:
            t = t + (len(c) if isinstance(c, list) else c.n)
        return simp(t)

    def length(self):
        return wrapi(self.len_term())

    def __len__(self):
        l = self.length()
        if isinstance(l, int):
            return l
        raise Unsupported("native len() of a symbolic list")

    def __bool__(self):
        if any(isinstance(c, list) and c for c in self.chunks):
            return True
        t = self.len_term()
        return eng().decide(t > 0)

    def at(self, i):
        """element at index term i, 0 <= i < len known to the caller"""
        i = simp(i)
        off = z3.IntVal(0)
        live = [c for c in self.chunks if not (isinstance(c, list) and not c)]
        for k, c in enumerate(live):
            n = z3.IntVal(len(c)) if isinstance(c, list) else c.n
            last = k == len(live) - 1
            j = simp(i - off)
            if last or eng().decide(j < n):
                if isinstance(c, list):
                    if z3.is_int_value(j):
                        return c[j.as_long()]
                    for m in range(len(c) - 1):
                        if eng().decide(j == m):
                            return c[m]
                    return c[len(c) - 1]
                return c.at(j)
            off = off + n
        e = eng()
        if e.check(z3.BoolVal(True)) == z3.unsat:
            # such a path does not exist
            e.assume(z3.BoolVal(False))
        raise Unsupported("element of an empty list")

    def index_norm(self, i):
        """python index -> index term, forking on the sign and the bounds"""
        t = iterm(i)
        n = self.len_term()
        if z3.is_int_value(t):
            neg = t.as_long() < 0
        else:
            neg = eng().decide(t < 0)
        if neg:
            t = simp(t + n)
            if eng().decide(t < 0):
                raise IndexError("list index out of range")
        else:
            if eng().decide(t >= n):
                raise IndexError("list index out of range")
        return t

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        if isinstance(i, tuple):
            raise TypeError("list indices must be integers or slices, not tuple")
        if self.is_concrete():
            c = concrete(i)
            if isinstance(c, int):
                return self.items()[c]
        # fast paths: last of a trailing concrete chunk, first of a leading one
        c = concrete(i)
        if isinstance(c, int) and self.chunks:
            if c < 0 and isinstance(self.chunks[-1], list) and len(self.chunks[-1]) >= -c:
                return self.chunks[-1][c]
            if c >= 0 and isinstance(self.chunks[0], list) and len(self.chunks[0]) > c:
                return self.chunks[0][c]
        return self.at(self.index_norm(i))

    def slice(self, s):
        step = 1 if s.step is None else concrete(s.step)
        if step == -1 and s.start is None and s.stop is None:
            return self.reversed()
        if step != 1:
            if self.is_concrete():
                def cc(v):
                    if v is None:
                        return None
                    v = concrete(v)
                    if v is None:
                        raise Unsupported("symbolic slice with a step")
                    return v
                return PList(self.items()[cc(s.start):cc(s.stop):cc(s.step)], tup=self.tup)
            raise Unsupported("slice step")
        if self.is_concrete():
            a = None if s.start is None else concrete(s.start)
            b = None if s.stop is None else concrete(s.stop)
            if (s.start is None or isinstance(a, int)) and (s.stop is None or isinstance(b, int)):
                return PList(self.items()[a:b], tup=self.tup)
        n = self.len_term()

        def norm(v, default):
            if v is None:
                return default
            t = iterm(v)
            neg = t.as_long() < 0 if z3.is_int_value(t) else eng().decide(t < 0)
            if neg:
                t = simp(t + n)
                return z3.IntVal(0) if eng().decide(t < 0) else t
            return n if eng().decide(t > n) else t

        lo = norm(s.start, z3.IntVal(0))
        hi = norm(s.stop, n)
        if eng().decide(hi < lo):
            hi = lo
        return self.window(lo, hi)

    def window(self, lo, hi):
        """0 <= lo <= hi <= len"""
        lo, hi = simp(lo), simp(hi)
        out = []
        off = z3.IntVal(0)
        e = eng()
        for c in self.chunks:
            n = z3.IntVal(len(c)) if isinstance(c, list) else c.n
            a, b = simp(lo - off), simp(hi - off)  # relative
            off = simp(off + n)
            # clamp a, b to 0..n
            if e.decide(b <= 0):
                break
            if e.decide(a >= n):
                continue
            a = z3.IntVal(0) if e.decide(a <= 0) else a
            b = n if e.decide(b >= n) else b
            if isinstance(c, list):
                if z3.is_int_value(a) and z3.is_int_value(b):
                    ia, ib = a.as_long(), b.as_long()
                else:
                    ia = next((k for k in range(len(c)) if e.decide(a == k)), len(c))
                    ib = next((k for k in range(ia, len(c)) if e.decide(b == k)), len(c))
                if ia < ib:
                    out.append(c[ia:ib])
            else:
                out.append(Win(c.seq, c.lo + a, b - a))
        return PList(chunks=out, tup=self.tup)

    def __iter__(self):
        if not self.is_concrete():
            raise Unsupported("native iteration over a list of symbolic length")
        # live view, like python
        i = 0
        while True:
            it = self.items()
            if i >= len(it):
                return
            yield it[i]
            i += 1

    # -------------------------------------------------------------- build
    def copy_chunks(self):
        return [list(c) if isinstance(c, list) else c for c in self.chunks]

    @staticmethod
    def merge(chunks):
        out = []
        for c in chunks:
            if isinstance(c, list):
                if not c:
                    continue
                if out and isinstance(out[-1], list):
                    out[-1] = out[-1] + c
                else:
                    out.append(list(c))
            else:
                if z3.is_int_value(c.n) and c.n.as_long() == 0:
                    continue
                if out and not isinstance(out[-1], list) and out[-1].seq is c.seq and \
                        z3.eq(simp(out[-1].lo + out[-1].n), c.lo):
                    out[-1] = Win(c.seq, out[-1].lo, out[-1].n + c.n)
                else:
                    out.append(c)
        return out

    def __add__(self, o):
        o = as_plist_strict(o, self.tup)
        if o is None:
            return NotImplemented
        return PList(chunks=self.merge(self.copy_chunks() + o.copy_chunks()), tup=self.tup)

    def __radd__(self, o):
        o = as_plist_strict(o, self.tup)
        if o is None:
            return NotImplemented
        return PList(chunks=self.merge(o.copy_chunks() + self.copy_chunks()), tup=self.tup)

    def __iadd__(self, o):
        if self.tup:
            return self.__add__(o)
        self.extend(o)
        return self

    def __mul__(self, k):
        c = concrete(k)
        if not isinstance(c, int):
            raise Unsupported("list repetition")
        r = PList(tup=self.tup)
        for _ in range(max(c, 0)):
            r = r + self
        return r

    __rmul__ = __mul__

    def _wr(self, op):
        e = eng()
        e.check_frozen(self)
        e.log_write(self, op)
        self.last_write = e.serial()
        if op == "append":
            if e.epoch and (not self.marks or self.marks[-1][0] < e.epoch):
                self.marks = self.marks + [(e.epoch, len(self._chunks))]
        else:
            self.marks = []

    def _tail(self):
        return self.marks[-1][1] if self.marks else 0

    def append(self, x):
        if self.tup:
            raise AttributeError("append")
        self._wr("append")
        k = self._tail()
        self.chunks = self._chunks[:k] + self.merge(self._chunks[k:] + [[x]])

    def extend(self, o):
        h = getattr(type(o), "__extends__", None)
        if h is not None:
            o = h(o, self)
        o = to_plist(o)
        if o.len_term() is None:
            raise Unsupported("extend with an infinite sequence")
        ch = o.copy_chunks()
        self._wr("append")
        k = self._tail()
        self.chunks = self._chunks[:k] + self.merge(self._chunks[k:] + ch)

    def appended_since(self, epoch):
        for (ep, k) in self.marks:
            if ep >= epoch:
                return self._chunks[k:]
        return []

    def before_epoch(self, epoch):
        for (ep, k) in self.marks:
            if ep >= epoch:
                return self._chunks[:k]
        return list(self._chunks)

    def marks_after_havoc(self, epoch, before):
        self.marks = [m for m in self.marks if m[0] < epoch] + [(epoch, len(before))]
        self.last_write = eng().serial()

    def insert(self, i, x):
        c = concrete(i)
        self._wr("insert")
        if isinstance(c, int) and self.is_concrete():
            it = self.items()
            it.insert(c, x)
            self.chunks = [it]
            return
        if isinstance(c, int) and c == 0:
            self.chunks = self.merge([[x]] + self.copy_chunks())
            return
        n = self.len_term()
        t = iterm(i)
        if eng().decide(t < 0):
            t = simp(t + n)
            if eng().decide(t < 0):
                t = z3.IntVal(0)
        if eng().decide(t > n):
            t = n
        a, b = self.window(z3.IntVal(0), t), self.window(t, n)
        self.chunks = self.merge(a.chunks + [[x]] + b.chunks)

    def pop(self, i=-1):
        n = self.len_term()
        if eng().decide(n == 0):
            raise IndexError("pop from empty list")
        self._wr("pop")
        c = concrete(i)
        if isinstance(c, int) and self.is_concrete():
            it = self.items()
            r = it.pop(c)
            self.chunks = [it] if it else []
            return r
        t = self.index_norm(i)
        r = self.at(t)
        for m in eng().measures:
            for w in self.chunks:
                if not isinstance(w, list):
                    eng().window_measure(w, m)
        a, b = self.window(z3.IntVal(0), t), self.window(t + 1, n)
        self.chunks = self.merge(a.chunks + b.chunks)
        return r

    def __delitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("del slice")
        self.pop(i)

    def index(self, x, *a):
        if a:
            raise Unsupported("list.index with bounds")
        if self.is_concrete():
            for k, y in enumerate(self.items()):
                if py_eq(y, x):
                    return k
            raise ValueError("x is not in list")
        e = eng()
        return e.list_index(self, x)

    def remove(self, x):
        self.pop(self.index(x))

    def clear(self):
        self._wr("clear")
        self.chunks = []

    def copy(self):
        return PList(chunks=self.copy_chunks(), tup=self.tup)

    __copy__ = copy

    def count(self, x):
        if self.is_concrete():
            return sum(1 for y in self.items() if py_eq(y, x))
        raise Unsupported("count on a symbolic list")

    def __contains__(self, x):
        return bool(contains(self, x))

    def reversed(self):
        out = []
        for c in reversed(self.chunks):
            if isinstance(c, list):
                out.append(list(reversed(c)))
            else:
                sub = PList(chunks=[c])
                out.append(Win(RevSeq(sub), z3.IntVal(0), c.n))
        return PList(chunks=out, tup=self.tup)

    def reverse(self):
        self._wr("reverse")
        self.chunks = self.reversed().chunks

    def sort(self, key=None, reverse=False):
        r = sorted_list(PList(chunks=self.copy_chunks()), key, reverse)
        self._wr("sort")
        self.chunks = r.chunks

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i.start is None and i.stop is None:
                self._wr("assign")
                self.chunks = to_plist(v).copy_chunks()
                return
            raise Unsupported("slice assignment")
        self._wr("setitem")
        c = concrete(i)
        if isinstance(c, int) and self.is_concrete():
            it = self.items()
            it[c] = v
            self.chunks = [it]
            return
        n = self.len_term()
        t = self.index_norm(i)
        a, b = self.window(z3.IntVal(0), t), self.window(t + 1, n)
        self.chunks = self.merge(a.chunks + [[v]] + b.chunks)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, (list, tuple)) or isinstance(o, PList):
            if isinstance(o, tuple) != self.tup and not isinstance(o, PList):
                return False
            o = to_plist(o)
            if self.is_concrete() and o.is_concrete():
                a, b = self.items(), o.items()
                return len(a) == len(b) and all(py_eq(x, y) for x, y in zip(a, b))
            if len(self.chunks) == len(o.chunks) and all(
                    (isinstance(x, Win) and isinstance(y, Win) and x.seq is y.seq and
                     z3.eq(x.lo, y.lo) and z3.eq(x.n, y.n)) for x, y in zip(self.chunks, o.chunks)):
                return True
            raise Unsupported("equality of symbolic lists")
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __repr__(self):
        return "PList(" + ", ".join(
            f"{len(c)} items" if isinstance(c, list) else f"{c.seq.kind}{c.seq.uid}[{c.lo}:+{c.n}]"
            for c in self.chunks) + ")"

    # -------------------------------------------------------------- facts
    def first_last(self, which):
        """(value, nonempty term) of the first/last element if some chunk is
        known to be nonempty in that direction without forking, else None"""
        for c in (self.chunks if which == "first" else reversed(self.chunks)):
            if isinstance(c, list):
                if c:
                    return c[0] if which == "first" else c[-1]
                continue
            if eng().valid(c.n > 0):
                return c.at(z3.IntVal(0) if which == "first" else c.n - 1)
            return None
        return None

    def all_formula(self, pred, flag_only=False):
        """z3 formula implying that pred holds for every element (recursively
        through nested lists); None if unknown"""
        fs = []
        for c in self.chunks:
            if isinstance(c, list):
                for x in c:
                    fs.append(elem_formula(x, pred))
            else:
                f = c.seq.all_flag(pred)
                if f is None and not flag_only:
                    f = eng().generic_all(c, pred)
                fs.append(f)
        if any(f is None for f in fs):
            return None
        return z3.And(*[bterm(f) for f in fs]) if fs else z3.BoolVal(True)

    def flat_first(self):
        return _flat_end(self, "first")

    def flat_last(self):
        return _flat_end(self, "last")

    def adj_formula(self, pred):
        """pred(a, b) for consecutive elements of the flattened list"""
        fs = []
        prev = None  # last element so far (value) or None if nothing so far
        some = False
        for c in self.chunks:
            if isinstance(c, list):
                for x in c:
                    if isinstance(x, PList):
                        f = x.adj_formula(pred)
                        if f is None:
                            return None
                        fs.append(f)
                        ne = x.flat_first()
                        if ne is None:
                            if not x.chunks:
                                continue
                            return None
                        first, last = ne, x.flat_last()
                    else:
                        first = last = x
                    if some:
                        f = pred.fn(prev, first)
                        if f is None:
                            return None
                        fs.append(f)
                    prev, some = last, True
            else:
                f = c.seq.adj_flag(pred)
                if f is None:
                    f = eng().generic_adj(c, pred)
                if f is None:
                    if not eng().valid(c.n <= 1):
                        return None
                    f = True
                fs.append(f)
                if not [d for d in self.chunks if d is not c and d != []]:
                    break
                if not eng().valid(c.n > 0):
                    if eng().valid(c.n == 0):
                        continue
                    # possibly empty: only fine when it is the only symbolic bit at an end
                    others = [d for d in self.chunks if d is not c and d != []]
                    if others:
                        return None
                    return z3.And(*[bterm(f) for f in fs])
                first = c.at(z3.IntVal(0))
                last = c.at(c.n - 1)
                if isinstance(first, PList):
                    first, last = first.flat_first(), last.flat_last()
                    if first is None or last is None:
                        return None
                if some:
                    f = pred.fn(prev, first)
                    if f is None:
                        return None
                    fs.append(f)
                prev, some = last, True
        return z3.And(*[bterm(f) for f in fs]) if fs else z3.BoolVal(True)

    def measure_term(self, m):
        t = z3.IntVal(0)
        for c in self.chunks:
            if isinstance(c, list):
                for x in c:
                    if isinstance(x, PList):
                        v = x.measure_term(m)
                    else:
                        v = m.fn(x)
                    if v is None:
                        return None
                    t = t + v
            else:
                v = None
                if c.whole():
                    v = c.seq.measure(m)
                if v is None:
                    v = eng().window_measure(c, m)
                if v is None:
                    return None
                t = t + v
        return simp(t)


def _flat_end(pl, which):
    x = pl.first_last(which)
    if isinstance(x, PList):
        return _flat_end(x, which)
    return x


def elem_formula(x, pred):
    if isinstance(x, PList):
        if getattr(pred, "whole", False) and not isinstance(x.first_last("first"), PList):
            # said about an innermost list, not about its elements
            return pred.fn(x)
        return x.all_formula(pred)
    if getattr(pred, "whole", False):
        return None
    return pred.fn(x)


# ------------------------------------------------------------------ helpers
def as_plist_strict(o, tup):
    if isinstance(o, PList):
        return o
    if tup and isinstance(o, tuple):
        return PList(o, tup=True)
    if not tup and isinstance(o, list):
        return PList(o)
    return None


class RangeSeq(Seq):
    kind = "range"

    def __init__(self, start, stop, step):
        self.start, self.step = start, step
        st = concrete(step)
        if not isinstance(st, int) or st == 0:
            raise Unsupported("range step")
        a, b = iterm(start), iterm(stop)
        if st > 0:
            n = z3.If(b > a, (b - a + (st - 1)) / st, z3.IntVal(0))
        else:
            n = z3.If(a > b, (a - b + (-st - 1)) / (-st), z3.IntVal(0))
        super().__init__(simp(n))

    def make(self, i):
        return wrapi(iterm(self.start) + i * concrete(self.step))


class CountSeq(Seq):
    """itertools.count"""

    kind = "count"

    def __init__(self, start=0, step=1):
        super().__init__(0)
        self.start, self.step = start, step

    def make(self, i):
        v = SymNum(i) * self.step + self.start
        c = concrete(v)
        return c if c is not None else v


class Infinite(PList):
    """iteration source without an end"""

    def __init__(self, seq):
        super().__init__(chunks=[])
        self.seq = seq

    def is_concrete(self):
        return False

    def len_term(self):
        return None

    def at(self, i):
        return self.seq.elem(simp(i))


class PIter:
    """iter(list): explicit iterator object"""

    def __init__(self, pl):
        self.pl = pl
        self.pos = z3.IntVal(0)
        self.serial = eng().reg_list(self)

    def __iter__(self):
        return self

    def next(self, *default):
        n = self.pl.len_term()
        if n is not None and eng().decide(self.pos >= n):
            if default:
                return default[0]
            raise StopIteration
        v = self.pl.at(self.pos)
        eng().log_write(self, "iter")
        self.pos = simp(self.pos + 1)
        return v

    __next__ = next


def to_plist(o):
    """any iterable -> PList (shared content is copied)"""
    if isinstance(o, PList):
        return o
    if isinstance(o, (list, tuple)):
        return PList(o)
    if isinstance(o, PIter):
        if z3.is_int_value(o.pos) and o.pos.as_long() == 0:
            return o.pl
        n = o.pl.len_term()
        return o.pl.window(o.pos, n)
    if isinstance(o, PSet):
        return o.as_list()
    if isinstance(o, PDict):
        return PList([k for k, _ in o.pairs])
    if isinstance(o, (str, bytes, range, dict, set, frozenset)) or hasattr(type(o), "__next__"):
        return PList(list(o))
    if hasattr(type(o), "asloop"):
        return to_plist(o.asloop())
    if isinstance(o, type) or hasattr(type(o), "__iter__"):
        return PList(list(iter(o)))
    raise TypeError(f"'{type_name(o)}' object is not iterable")


def type_name(o):
    if isinstance(o, SymNum):
        return "int" if o.is_int else "float"
    return type(o).__name__


def py_eq(a, b):
    """a == b as a python bool (forks)"""
    from .runtime import eq
    return bool(eq(a, b))


def contains(c, x):
    if isinstance(c, PList):
        if c.is_concrete():
            for y in c.items():
                if y is x or py_eq(y, x):
                    return True
            return False
        return eng().list_contains(c, x)
    if isinstance(c, (PSet, PDict)):
        return x in c
    if isinstance(c, tuple):
        for y in c:
            if y is x or py_eq(y, x):
                return True
        return False
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    return x in c


def sorted_list(pl, key=None, reverse=False):
    rev = bool(reverse)
    if pl.is_concrete():
        items = pl.items()
        keyed = [(x if key is None else key(x), x) for x in items]
        out = []
        for kv, x in keyed:  # stable insertion sort; every comparison may fork
            pos = len(out)
            while pos > 0:
                pk = out[pos - 1][0]
                less = (pk < kv) if rev else (kv < pk)
                if bool(less):
                    pos -= 1
                else:
                    break
            out.insert(pos, (kv, x))
        return PList([x for _, x in out])
    if not rev and len(pl.chunks) == 2:
        # one element and a list in order: it is put where it belongs; the sort is stable
        one = [i for i, c in enumerate(pl.chunks) if isinstance(c, list) and len(c) == 1]
        kf = (lambda y: y) if key is None else key
        if len(one) == 1:
            L = PList(chunks=[pl.chunks[1 - one[0]]])
            if eng().in_order(L, kf):
                return put_in_order(L, pl.chunks[one[0]][0], kf, one[0] == 0)
    return PList.of_seq(PermSeq(pl, key, rev))


def put_in_order(L, x, key, first):
    e = eng()
    n = L.len_term()
    kx = key(x)
    if e.decide(n == 0):
        return PList([x])
    k = e.fresh_int("place").t
    e.assume(z3.And(k >= 0, k <= n))
    if e.decide(k > 0):
        a, b = V.pair(key(L.at(simp(k - 1))), kx)
        e.assume(a < b if first else a <= b)
    if e.decide(k < n):
        a, b = V.pair(kx, key(L.at(k)))
        e.assume(a <= b if first else a < b)
    a, b = L.window(z3.IntVal(0), k), L.window(k, n)
    return PList(chunks=L.merge(a.chunks + [[x]] + b.chunks))


class PSet:
    def __init__(self, items=()):
        self.items_ = []
        self.src = None
        self.serial = eng().reg_list(self)
        pl = to_plist(items)
        if pl.is_concrete():
            for x in pl.items():
                if not any(py_eq(x, y) for y in self.items_):
                    self.items_.append(x)
        else:
            self.src = pl
            e = eng()
            self.card = e.fresh_int("card").t
            n = pl.len_term()
            e.axiom(z3.And(self.card >= 0, self.card <= n, (self.card == 0) == (n == 0)))
            if e.valid(n > 0):
                from .engine import Pred
                from .runtime import eq_formula
                v = pl.at(z3.IntVal(0))
                g = pl.all_formula(Pred(f"same{e.serial()}", lambda x: eq_formula(x, v)))
                if g is not None:
                    e.axiom(z3.Implies(bterm(g), self.card == 1))

    def length(self):
        return len(self.items_) if self.src is None else wrapi(self.card)

    def __len__(self):
        l = self.length()
        if isinstance(l, int):
            return l
        raise Unsupported("native len() of a symbolic set")

    def __bool__(self):
        if self.src is None:
            return bool(self.items_)
        return eng().decide(self.card > 0)

    def __contains__(self, x):
        if self.src is None:
            return any(py_eq(x, y) for y in self.items_)
        return bool(eng().list_contains(self.src, x))

    def as_list(self):
        if self.src is None:
            return PList(self.items_)
        src = self.src
        if eng().decide(self.card == 1):
            # one distinct value: that of the first element; every element equals it
            v = src.at(z3.IntVal(0))
            eng().all_equal(src, v)
            return PList([v])
        raise Unsupported("content of a symbolic set")

    def __iter__(self):
        return iter(self.as_list().items())

    def add(self, x):
        if self.src is not None:
            raise Unsupported("set.add on a symbolic set")
        eng().log_write(self, "add")
        if not any(py_eq(x, y) for y in self.items_):
            self.items_.append(x)


_MISSING = object()


class PDict:
    def __init__(self, pairs=(), default=None):
        self.pairs = []
        self.default = default
        self.serial = eng().reg_list(self)
        for k, v in pairs:
            self[k] = v

    def _find(self, k):
        for i, (kk, _) in enumerate(self.pairs):
            if kk is k or py_eq(kk, k):
                return i
        return None

    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            if self.default is not None:
                v = self.default()
                eng().log_write(self, "set")
                self.pairs.append((k, v))
                return v
            raise KeyError(k)
        return self.pairs[i][1]

    def __setitem__(self, k, v):
        i = self._find(k)
        eng().log_write(self, "set")
        if i is None:
            self.pairs = self.pairs + [(k, v)]
        else:
            self.pairs = self.pairs[:i] + [(self.pairs[i][0], v)] + self.pairs[i + 1:]

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        i = self._find(k)
        return d if i is None else self.pairs[i][1]

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i is None:
            self[k] = d
            return d
        return self.pairs[i][1]

    def pop(self, k, *d):
        i = self._find(k)
        if i is None:
            if d:
                return d[0]
            raise KeyError(k)
        eng().log_write(self, "pop")
        v = self.pairs[i][1]
        self.pairs = self.pairs[:i] + self.pairs[i + 1:]
        return v

    def keys(self):
        return PList([k for k, _ in self.pairs])

    def values(self):
        return PList([v for _, v in self.pairs])

    def items(self):
        return PList([(k, v) for k, v in self.pairs])

    def __iter__(self):
        return iter([k for k, _ in self.pairs])

    def __len__(self):
        return len(self.pairs)

    def length(self):
        return len(self.pairs)

    def __bool__(self):
        return bool(self.pairs)

    def update(self, o):
        for k, v in (o.pairs if isinstance(o, PDict) else dict(o).items()):
            self[k] = v
