"""Symbolic values handled by the real (mechanically instrumented) code.

Floats are mathematical reals, ints are mathematical integers.  Every operation
that CPython would turn into a decision (bool(), index bounds, division by zero)
is turned into a decision of the exploration engine.
"""
from __future__ import annotations

from fractions import Fraction
import z3


class Control(BaseException):
    """Engine control flow; never caught by code under verification."""


class PathAbort(Control):
    pass


class Unsupported(Control):
    """The construct is outside the verifier's reach: the harness is undecided."""


class LoopCut(Control):
    pass


ENGINE = None  # the running engine


def eng():
    if ENGINE is None:
        raise Unsupported("symbolic value used outside of a verification run")
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


# ---------------------------------------------------------------- numbers
def const_term(v, want_int=None):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.IntVal(v) if want_int is not False else z3.RealVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("nan/inf")
        f = Fraction(v)
        # decimal literals of the source are meant as decimals: 0.001 is 1/1000
        g = Fraction(repr(v))
        return z3.RealVal(g)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise TypeError(f"not a number: {type(v)}")


def is_num(v):
    return isinstance(v, (int, float, SymNum, Fraction)) and not isinstance(v, bool) or isinstance(v, SymBool) or isinstance(v, bool)


def term_of(v):
    """z3 arithmetic term of a number."""
    if isinstance(v, SymNum):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return const_term(v)


def to_real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def pair(a, b):
    ta, tb = term_of(a), term_of(b)
    if ta.sort() != tb.sort():
        ta, tb = to_real(ta), to_real(tb)
    return ta, tb


def mk(t):
    """wrap a z3 arithmetic term, folding numerals to python numbers where exact"""
    t = z3.simplify(t)
    return SymNum(t)


class SymNum:
    __slots__ = ("t", "__weakref__")

    def __init__(self, t):
        self.t = t

    @property
    def is_int(self):
        return self.t.sort() == z3.IntSort()

    # arithmetic
    def _bin(self, o, f):
        if not is_num(o):
            return NotImplemented
        a, b = pair(self, o)
        return mk(f(a, b))

    def _rbin(self, o, f):
        if not is_num(o):
            return NotImplemented
        b, a = pair(self, o)
        return mk(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._rbin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._rbin(o, lambda a, b: a * b)

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o) if is_num(o) else NotImplemented

    def __rfloordiv__(self, o):
        return floordiv(o, self) if is_num(o) else NotImplemented

    def __mod__(self, o):
        return modulo(self, o) if is_num(o) else NotImplemented

    def __rmod__(self, o):
        return modulo(o, self) if is_num(o) else NotImplemented

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return mk(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.t >= 0, self.t, -self.t))

    def __round__(self, nd=None):
        return sym_round(self, nd)

    def __trunc__(self):
        return sym_int(self)

    # comparisons
    def _cmp(self, o, f):
        if not is_num(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return f(0.0, o)
        a, b = pair(self, o)
        return mkbool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if self is o:
            return True
        if not is_num(o):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if self is o:
            return False
        if not is_num(o):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return eng().decide(self.t != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic number")

    def __index__(self):
        v = concrete(self)
        if isinstance(v, int):
            return v
        raise Unsupported("symbolic index used natively")

    def __int__(self):
        v = concrete(self)
        if v is not None:
            return int(v)
        raise Unsupported("int() of a symbolic number used natively")

    def __float__(self):
        v = concrete(self)
        if v is not None:
            return float(v)
        raise Unsupported("float() of a symbolic number used natively")

    def is_integer(self):
        if self.is_int:
            return True
        return mkbool(z3.ToReal(z3.ToInt(self.t)) == self.t)

    def __str__(self):
        return eng().num_token(self, "")

    def __repr__(self):
        return eng().num_token(self, "") if ENGINE is not None else f"SymNum({self.t})"

    def __format__(self, spec):
        return eng().num_token(self, spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def concrete(v):
    """python number if v is concretely known, else None"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float, Fraction)):
        return v
    if isinstance(v, SymNum):
        t = v.t
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return float(f) if Fraction(repr(float(f))) == f else f
    return None


def divide(a, b):
    ta, tb = to_real(term_of(a)), to_real(term_of(b))
    tb = z3.simplify(tb)
    if z3.is_rational_value(tb):
        if tb.as_fraction() == 0:
            raise ZeroDivisionError("division by zero")
        return mk(ta / tb)
    if eng().decide(tb == 0):
        raise ZeroDivisionError("division by zero")
    return mk(ta / tb)


def floordiv(a, b):
    ta, tb = pair(a, b)
    tb = z3.simplify(tb)
    zero = tb == 0
    if eng().decide(zero):
        raise ZeroDivisionError("division by zero")
    if ta.sort() == z3.IntSort():
        if z3.is_int_value(tb) and tb.as_long() > 0:
            return mk(ta / tb)
        return mk(z3.ToInt(z3.ToReal(ta) / z3.ToReal(tb)))
    return mk(z3.ToReal(z3.ToInt(ta / tb)))


def modulo(a, b):
    ta, tb = pair(a, b)
    q = term_of(floordiv(a, b))
    if ta.sort() != q.sort():
        q = to_real(q)
    return mk(ta - tb * q)


def power(a, b):
    cb = concrete(b)
    if cb is not None:
        if isinstance(cb, int) or float(cb).is_integer():
            n = int(cb)
            if n >= 0:
                t = term_of(a)
                if not isinstance(cb, int):
                    t = to_real(t)
                r = None
                for _ in range(n):
                    r = t if r is None else r * t
                if r is None:
                    return 1
                return mk(r)
            return divide(1, power(a, -n))
        if float(cb) == 0.5:
            return sym_sqrt(a)
    ca = concrete(a)
    if ca is not None and ca == 10:
        return eng().pow10(b)
    raise Unsupported("symbolic power")


def sym_sqrt(x):
    c = concrete(x)
    if c is not None:
        import math

        return math.sqrt(c)
    t = to_real(term_of(x))
    if eng().decide(t < 0):
        raise ValueError("math domain error")
    f = eng().func("sqrt", z3.RealSort(), z3.RealSort())
    r = f(t)
    eng().axiom(z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
    return mk(r)


def trunc_term(t):
    if t.sort() == z3.IntSort():
        return t
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def sym_int(x):
    if isinstance(x, SymNum):
        return mk(trunc_term(x.t))
    return int(x)


def sym_round(x, nd=None):
    """round half even, as CPython does on the exact value; the result of
    round(x, n) is the real number, its nearest double is what is printed"""
    t = term_of(x)
    if nd is None:
        if t.sort() == z3.IntSort():
            return mk(t)
        return mk(round_int(t))
    if t.sort() == z3.IntSort():
        cn = concrete(nd)
        if cn is not None and cn >= 0:
            return mk(t)
        if eng().decide(term_of(nd) >= 0):
            return mk(t)
        raise Unsupported("round(int, negative)")
    cn = concrete(nd)
    if cn is not None:
        s = z3.RealVal(Fraction(10) ** cn)
        return mk(z3.ToReal(round_int(t * s)) / s)
    s = term_of(eng().pow10(nd))
    return mk(z3.ToReal(round_int(t * s)) / s)


def round_int(t):
    """integer nearest to the real t; on a tie either neighbour (binary floats
    make decimal ties meaningless), tied to t as a function"""
    f = eng().func("roundint", z3.RealSort(), z3.IntSort())
    r = f(t)
    eng().axiom(z3.And(z3.ToReal(r) - t <= z3.Q(1, 2), t - z3.ToReal(r) <= z3.Q(1, 2)))
    return r


# ---------------------------------------------------------------- booleans
def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(b):
    if isinstance(b, SymBool):
        return b.t
    if isinstance(b, z3.BoolRef):
        return b
    if isinstance(b, SymNum):
        return b.t != 0
    return z3.BoolVal(bool(b))


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().decide(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, bterm(o)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.t == bterm(o))
        if is_num(o):
            return SymNum(term_of(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(bterm(r)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __add__(self, o):
        return SymNum(term_of(self)) + o

    __radd__ = __add__

    def __str__(self):
        return "True" if bool(self) else "False"

    __repr__ = __str__


class Poison:
    """a variable whose value is not tracked across loop iterations"""

    __slots__ = ("why",)

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _bad(self, *a, **k):
        raise Unsupported("use of an untracked value: " + object.__getattribute__(self, "why"))

    __getattr__ = __setattr__ = __call__ = __bool__ = __iter__ = __getitem__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __eq__ = __ne__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __len__ = __str__ = __format__ = __iadd__ = _bad
    __contains__ = __hash__ = __setitem__ = __truediv__ = __rtruediv__ = __neg__ = _bad
    __index__ = __int__ = __float__ = __repr__ = _bad


UNBOUND = Poison("unbound variable")
