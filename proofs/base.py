"""Helpers shared by the proof units (contracts) of all properties."""
from __future__ import annotations

import z3
from pydv import values as V
from pydv.values import mk, mkbool, bterm, term_of
from pydv.engine import Pred, AdjPred, Measure
from pydv.loops import split_tokens
from pydv.lists import PList, PDict, to_plist, PSet, FnSeq


def fseq(n, f, **kw):
    """a sequence of symbolic length n whose i-th element is f(i), i a z3 Int"""
    return FnSeq(n, lambda i: f(V.term_of(i)), **kw)


class Unit:
    def __init__(self, fn, name, modules, requires=(), trusts=(), inputs=None, replay=None,
                 opts=None, bounded=None, must_cover=(), prove_ms=20000):
        self.fn, self.name, self.modules = fn, name, list(modules)
        self.requires, self.trusts, self.replay = list(requires), list(trusts), replay
        self.opts = dict(opts or {})
        self.bounded = bounded
        self.must_cover = list(must_cover)


def units(registry):
    def deco(name, modules, **kw):
        def d(fn):
            registry.append(Unit(fn, name, modules, **kw))
            return fn
        return d
    return deco


def R(e, name, lo=None, hi=None, gt=None):
    """a real-valued input"""
    x = e.fresh_real(name)
    e.inputs[name] = x
    if lo is not None:
        e.assume(x.t >= lo)
    if hi is not None:
        e.assume(x.t <= hi)
    if gt is not None:
        e.assume(x.t > gt)
    return x


def I(e, name, lo=None, hi=None):
    x = e.fresh_int(name)
    e.inputs[name] = x
    if lo is not None:
        e.assume(x.t >= lo)
    if hi is not None:
        e.assume(x.t <= hi)
    return x


def B(e, name):
    """a boolean input, decided here"""
    b = e.fresh_bool(name)
    e.inputs[name] = b
    return bool(b)


def opt(e, name, make):
    """None or a value"""
    b = e.fresh_bool(name + "_given")
    e.inputs[name + "_given"] = b
    return make() if bool(b) else None


def pick(e, name, options):
    """one of the options, decided here"""
    i = e.choose(len(options))
    e.inputs[name] = i
    return options[i]


def num(v):
    """z3 real term of a value"""
    t = term_of(v)
    if t is None:
        raise V.Unsupported(f"no term for {v!r}")
    return z3.ToReal(t) if z3.is_int(t) else t


def eqr(a, b):
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    return num(a) == num(b)


def And(*a):
    return z3.And(*[bterm(x) for x in a])


def Or(*a):
    return z3.Or(*[bterm(x) for x in a])


def Implies(a, b):
    return z3.Implies(bterm(a), bterm(b))


def no_exception(label="raises no error", allow=()):
    def pol(e, ex):
        nm = type(ex).__name__
        if nm in allow:
            return
        e.fail(label, f"{nm}: {ex}")
    return pol


def words(text):
    """splits emitted text in (literal, token...) pieces, by line and by blank"""
    e = V.eng()
    out = []
    for line in text.split("\n"):
        ws = []
        for w in line.split(" "):
            parts = split_tokens(w)
            ws.append(tuple(p if isinstance(p, str) else e.tokens[p[0]] for p in parts))
        out.append(ws)
    return out


def frame(e, mark, label, except_=()):
    """nothing that existed at the mark was written since"""
    bad = []
    for (o, w) in e.writes[mark[0]:]:
        if e.birth(o) < mark[1] and not any(o is x for x in except_):
            bad.append(f"{type(o).__name__}.{w}")
    if bad:
        e.fail(label, f"writes: {bad[:5]}")
    else:
        e.prove(label, mkbool(z3.BoolVal(True)))


def locate(k):
    """element k of a list that the code filtered or sorted is still somewhere in the result:
    instantiates that for every such list made so far"""
    e = V.eng()
    at = [z3.simplify(k)]
    for q in list(e.computed):
        for i in list(at):
            p, c = q.index_of(i)
            q.elem(p)
            at.append(p)
