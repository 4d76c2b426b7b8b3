"""Loop summaries.

A loop over a sequence of symbolic length (or with a symbolic condition) is run
exactly for its first iteration.  The states in which further iterations may
start are summarised by *shape cases* (which variables hold which kind of value,
with which sharing) and, per case, a conjunction of facts about the numbers in
the state.  Candidate facts are generated from the first arrival and filtered
until every one holds at the first arrival (initiation) and again after an
arbitrary iteration started from a summarised state (consecution); only then is
the summary used, and a round in which nothing was filtered is required before
any obligation is discharged.
"""
from __future__ import annotations

import enum
import itertools
import types
import z3
from . import values as V
from .values import (Control, Unsupported, LoopCut, PathAbort, Poison, UNBOUND, SymNum,
                     SymBool, mk, mkbool, bterm, term_of, concrete)
from .lists import (PList, Win, Seq, PDict, PSet, PIter, Infinite, simp, wrapi)

J = z3.Int("J!index")


class NotShaped(Exception):
    pass


class StaleRef(Control):
    pass


class NoFork(Control):
    pass


_const_registry = {}


def cref(o):
    _const_registry[id(o)] = o
    return ("c", id(o))


def sort_tag(t):
    s = t.sort()
    if s == z3.IntSort():
        return "I"
    if s == z3.RealSort():
        return "R"
    if s == z3.BoolSort():
        return "B"
    raise NotShaped(f"sort {s}")


class Shaper:
    """value -> (shape, leaves); shapes are hashable"""

    def __init__(self, eng, entry_serial, modset, entry_epoch):
        self.e = eng
        self.entry = entry_serial
        self.mod = modset
        self.epoch = entry_epoch
        self.leaves = {}
        self.alias = {}
        self.lists = {}  # path -> PList of summarised content
        self.depth = 0
        self.open_frozen = False  # objects that are never written are described by their content

    def leaf(self, path, term):
        self.leaves[path] = term
        return sort_tag(term)

    def sh(self, v, path):
        self.depth += 1
        if self.depth > 60:
            raise NotShaped("deep structure")
        try:
            return self._sh(v, path)
        finally:
            self.depth -= 1

    def _sh(self, v, path):
        e = self.e
        if v is None:
            return ("none",)
        if isinstance(v, Poison):
            raise NotShaped("poison")
        if isinstance(v, (bool, SymBool)):
            return ("num", self.leaf(path, bterm(v)))
        if isinstance(v, (int, float, SymNum)) or V.is_num(v):
            if isinstance(v, float) and v in (float("inf"), float("-inf")):
                return ("c", v)
            return ("num", self.leaf(path, term_of(v)))
        if isinstance(v, str):
            return self.sh_str(v, path)
        if isinstance(v, bytes):
            return ("c", v)
        if isinstance(v, z3.ExprRef):
            return ("term", self.leaf(path, v))
        if isinstance(v, enum.Enum) or isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType,
                                                      types.ModuleType, types.MethodType)):
            return cref(v)
        if type(v) is tuple:
            return ("tup", tuple(self.sh(x, path + (k,)) for k, x in enumerate(v)))
        if isinstance(v, (PList, PDict, PSet, PIter)):
            b = v.serial
            if b <= self.entry and b not in self.mod:
                return ("ref", b)
            if id(v) in self.alias:
                return ("alias", self.alias[id(v)])
            if b <= self.entry:
                return ("ref", b)  # modified object: content handled by the modset
            self.alias[id(v)] = len(self.alias)
            if isinstance(v, PList):
                if isinstance(v, Infinite):
                    raise NotShaped("infinite")
                return self.sh_list(v.chunks, path, "all", v.tup)
            if isinstance(v, PDict):
                if v.default is not None and not isinstance(v.default, (type, types.FunctionType)):
                    raise NotShaped("dict")
                return ("dict", v.default and cref(v.default),
                        tuple((self.sh(k, path + ("k", n)), self.sh(x, path + ("v", n)))
                              for n, (k, x) in enumerate(v.pairs)))
            raise NotShaped(type(v).__name__)
        if isinstance(v, Seq) or callable(v) and not hasattr(v, "__dict__"):
            raise NotShaped(type(v).__name__)
        reg = e.objs.get(id(v))
        if reg is None:
            # an object the engine did not create: treat as a constant if it is
            # not a plain mutable instance
            if isinstance(v, (types.GeneratorType, dict, list, set)):
                raise NotShaped(type(v).__name__)
            return cref(v)
        if reg[0] <= self.entry and not (self.open_frozen and id(v) in e.frozen):
            return ("ref", reg[0])
        if id(v) in self.alias:
            return ("alias", self.alias[id(v)])
        self.alias[id(v)] = len(self.alias)
        attrs = obj_attrs(v)
        return ("obj", cref(type(v)), tuple((k, self.sh(attrs[k], path + ("." + k,))) for k in sorted(attrs)))

    def sh_str(self, v, path):
        if "\ue000" not in v:
            return ("c", v)
        skel, k = [], 0
        for part in split_tokens(v):
            if isinstance(part, str):
                skel.append(part)
            else:
                kind, data, spec = self.e.tokens[part[0]]
                if kind == "num":
                    skel.append(("num", self.leaf(path + ("t", k), term_of(data)), spec))
                elif isinstance(data, tuple) and all(isinstance(x, (str, z3.ExprRef)) for x in data):
                    skel.append((kind, tuple(x if isinstance(x, str) else
                                             ("L", self.leaf(path + ("t", k, m), x))
                                             for m, x in enumerate(data)), spec))
                else:
                    raise NotShaped("token")
                k += 1
        return ("str", tuple(skel))

    def sh_list(self, chunks, path, mode, tup=False):
        """summary of a list content (the appended part for append-only lists)"""
        e = self.e
        pl = PList(chunks=[c for c in chunks if not (isinstance(c, list) and not c)])
        self.lists[path] = pl
        n = pl.len_term()
        self.leaves[path + ("#len",)] = n
        for m in e.measures:
            t = pl.measure_term(m)
            if t is not None:
                self.leaves[path + ("#m", m.name)] = t
        if not pl.chunks or e.valid(n == 0):
            return ("list", mode, "empty", None, None, tup)
        first = pl.first_last("first")
        last = pl.first_last("last")
        if first is None or last is None or not e.valid(n > 0):
            return ("list", mode, "maybe", None, None, tup)
        try:
            snap = dict(self.leaves), dict(self.alias), dict(self.lists)
            before = set(self.alias)
            fs = self.sh(first, path + ("#first",))
            if e.split_ends:
                # first and last element are described apart even when they are one object (both are
                # instantiated frozen; opt-in for code that never compares them by identity)
                for k in [k for k in self.alias if k not in before]:
                    self.alias[("first", k, len(self.alias))] = self.alias.pop(k)
            ls = self.sh(last, path + ("#last",))
        except NotShaped:
            self.leaves, self.alias, self.lists = snap
            return ("list", mode, "some", None, None, tup)
        return ("list", mode, "some", fs, ls, tup)


def obj_attrs(v):
    out = {}
    d = getattr(v, "__dict__", None)
    if d is not None:
        out.update(d)
    for c in type(v).__mro__:
        sl = c.__dict__.get("__slots__", ())
        if isinstance(sl, str):
            sl = (sl,)
        for s in sl:
            if s.startswith("__"):
                continue
            try:
                out[s] = getattr(v, s)
            except AttributeError:
                pass
    out.pop("serial", None)
    return out


def split_tokens(s):
    out, cur, i = [], "", 0
    while i < len(s):
        if s[i] == "\ue000":
            j = s.index("\ue001", i)
            if cur:
                out.append(cur)
                cur = ""
            out.append((int(s[i + 1:j]),))
            i = j + 1
        else:
            cur += s[i]
            i += 1
    if cur:
        out.append(cur)
    return out


def same_leaves(a, b):
    """two elements of the same shape agree in all leaves (None: not comparable)"""
    out = []
    for v in (a, b):
        sp = Shaper(V.eng(), 0, set(), 0)
        try:
            out.append((sp.sh(v, ()), sp.leaves))
        except NotShaped:
            return None
    (sa, la), (sb, lb) = out
    if sa != sb or set(la) != set(lb):
        return None
    if any("#len" in p or "#m" in p for p in la):
        return None
    return z3.And(*[la[p] == lb[p] for p in la]) if la else None


# ------------------------------------------------------------------ abstract sequences
class AbsSeq(Seq):
    """summarised list content: length, facts, first/last element, element cases"""

    kind = "abs"

    def __init__(self, n, key):
        super().__init__(n)
        self.key = key
        self.flags_all = set()
        self.flags_adj = set()
        self.meas = {}
        self.first = self.last = None
        self.elem_shapes = []
        self.elem_pos = {}
        self.templates = {}  # case index -> {leafpath: template term in J}
        self.inst = None
        self.hit = None
        self.seen = []

    def make(self, i):
        e = V.eng()
        if z3.is_int_value(i) and i.as_long() == 0 and self.first is not None:
            return self.first
        if self.last is not None and z3.eq(i, simp(self.n - 1)):
            return self.last
        if not self.elem_shapes:
            raise Unsupported(f"element of a summarised list {self.key} {i} n={self.n} flags={self.flags_all} hit={self.hit}")
        c = e.choose(len(self.elem_shapes)) if len(self.elem_shapes) > 1 else 0
        shape = self.elem_shapes[c]
        if c in self.elem_pos:
            e.assume(z3.Or(*[i == k for k in sorted(self.elem_pos[c])]))
        tm = self.templates.get(c, {})

        def leafval(path, tag):
            if path in tm:
                return simp(z3.substitute(tm[path], (J, i)))
            s = {"I": z3.IntSort(), "I?": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[tag]
            f = z3.Function(f"el!{self.key}!{c}!{path}", z3.IntSort(), s)
            e.sym_stamp[f.get_id()] = e.serial_stamp(self)
            e.keep.append(f)
            return f(i)

        x = Instantiator(e, leafval, frozen=True).inst(shape, ())
        for p in e.preds:
            if p.name in self.flags_all:
                f = p.fn(x)
                if f is not None:
                    e.assume(f)
        if len(self.elem_shapes) == 1:
            # the ends are elements too
            for end, at in ((self.first, z3.IntVal(0)), (self.last, simp(self.n - 1))):
                if end is not None:
                    g = same_leaves(x, end)
                    if g is not None:
                        e.assume(z3.Implies(i == at, g))
        if self.flags_adj:
            near = list(self.seen)
            for end, at in ((self.first, z3.IntVal(0)), (self.last, simp(self.n - 1))):
                if end is not None:
                    near.append((at, end))
            for j, y in near:
                for a, b, u, v in ((j, i, y, x), (i, j, x, y)):
                    for p in e.adjs:
                        if p.name in self.flags_adj:
                            f = p.fn(u, v)
                            if f is not None:
                                e.assume(z3.Implies(z3.And(a >= 0, b == a + 1, b < self.n), f))
            self.seen = near[:len(self.seen)][-6:] + [(i, x)]
        return x

    def all_flag(self, p):
        return True if p.name in self.flags_all else None

    def adj_flag(self, p):
        return True if p.name in self.flags_adj else None

    def measure(self, m):
        return self.meas.get(m.name)


class Instantiator:
    def __init__(self, eng, leafval, frozen=False, lists=None):
        self.e = eng
        self.leafval = leafval
        self.alias = []
        self.frozen = frozen
        self.lists = lists if lists is not None else {}

    def inst(self, s, path):
        e = self.e
        k = s[0]
        if k == "none":
            return None
        if k == "c":
            return _const_registry.get(s[1], s[1]) if isinstance(s[1], int) else s[1]
        if k == "num":
            t = simp(self.leafval(path, s[1]))
            if s[1] == "B":
                return mkbool(t)
            c = concrete(SymNum(t))
            return c if isinstance(c, int) and s[1] == "I" else SymNum(t)
        if k == "term":
            return simp(self.leafval(path, s[1]))
        if k == "tup":
            return tuple(self.inst(x, path + (n,)) for n, x in enumerate(s[1]))
        if k == "str":
            out, n = "", 0
            for part in s[1]:
                if isinstance(part, str):
                    out += part
                elif part[0] == "num":
                    out += e.num_token(SymNum(simp(self.leafval(path + ("t", n), part[1]))), part[2])
                    n += 1
                else:
                    data = tuple(x if isinstance(x, str) else simp(self.leafval(path + ("t", n, m), x[1]))
                                 for m, x in enumerate(part[1]))
                    out += e.opaque_token(part[0], data)
                    n += 1
            return out
        if k == "ref":
            try:
                return e.by_serial(s[1])
            except KeyError:
                # objects were made in another order than in an earlier round
                raise StaleRef()
        if k == "alias":
            return self.alias[s[1]]
        if k == "obj":
            cls = _const_registry[s[1][1]]
            o = cls.__new__(cls)
            if id(o) not in e.objs:
                e.register(o)
            self.alias.append(o)
            for a, sh in s[2]:
                object.__setattr__(o, a, self.inst(sh, path + ("." + a,)))
            if self.frozen:
                e.freeze(o)
            return o
        if k == "dict":
            d = PDict()
            d.default = None if s[1] is None else _const_registry[s[1][1]]
            self.alias.append(d)
            d.pairs = [(self.inst(a, path + ("k", n)), self.inst(b, path + ("v", n)))
                       for n, (a, b) in enumerate(s[2])]
            return d
        if k == "list":
            pl = PList(tup=s[5])
            self.alias.append(pl)
            pl.chunks = self.list_chunks(s, path)
            if self.frozen:
                e.freeze(pl)
            return pl
        raise Unsupported(f"shape {s}")

    def list_chunks(self, s, path):
        """chunks of a summarised list"""
        e = self.e
        if s[2] == "empty":
            return []
        n = simp(self.leafval(path + ("#len",), "I"))
        if s[2] == "maybe":
            e.assume(n >= 0)
        else:
            e.assume(n >= 1)
        q = AbsSeq(n, f"{self.listkey(path)}")
        e.seq_birth[q.uid] = e.counter
        info = self.lists.get(path)
        if info is not None:
            info(q)
        for m in e.measures:
            t = self.leafval(path + ("#m", m.name), "I?")
            if t is not None:
                q.meas[m.name] = t
        if s[3] is not None:
            fz = self.frozen
            self.frozen = True
            q.first = self.inst(s[3], path + ("#first",))
            q.last = self.inst(s[4], path + ("#last",))
            self.frozen = fz
            for x in (q.first, q.last):
                for p in e.preds:
                    if p.name in q.flags_all:
                        from .lists import elem_formula
                        f = None if isinstance(x, PList) else p.fn(x)
                        if f is not None:
                            e.assume(f)
        return [Win(q, z3.IntVal(0), n)]

    listkey_prefix = ""

    def listkey(self, path):
        return f"{self.listkey_prefix}{path}"


# ------------------------------------------------------------------ records
class Case:
    def __init__(self, shape, names, mods):
        self.shape = shape
        self.names = tuple(names)
        self.mods = tuple(mods)
        self.facts = None      # facts not yet refuted
        self.facts0 = None     # the candidates
        self.act_facts = []    # those used in this round


class LoopRec:
    def __init__(self, site, rid):
        self.site = site
        self.id = rid
        self.rep = None
        self.mods = []          # ordered list of (serial, what) with what = attr name or '#list'
        self.modset = set()
        self.arbitrary = set()  # serials of lists modified other than by appending
        self.clear()

    def clear(self):
        self.cases = []
        self.by_shape = {}
        self.elem_shapes = {}   # list path -> [shape]
        self.elem_unknown = set()
        self.templates = {}     # list path -> {case: {leafpath: [term]}}
        self.tmpl_dead = {}     # list path -> set((case, leafpath)) | "all"
        self._retry = {}
        self.elem_pos = {}      # (list path, case) -> set of positions it was seen at, None = any
        self.pos_dead = set()   # list paths whose elements move
        self.act_cases = []
        self.stale = False
        self.seen = self.rep_seen = False

    def begin_round(self):
        self.rep_seen = self.seen = False
        self.act_cases = list(self.cases)
        for c in self.cases:
            c.act_facts = list(c.facts or [])
        self.act_elem_shapes = {k: list(v) for k, v in self.elem_shapes.items()}
        self.act_elem_unknown = set(self.elem_unknown)
        self.act_elem_pos = {k: set(v) for k, v in self.elem_pos.items() if v is not None and k[0] not in self.pos_dead}
        self.act_templates = {p: {c: {l: list(t) for l, t in (d or {}).items()} for c, d in v.items()}
                              for p, v in self.templates.items()}

    def end_round(self, e):
        if self.stale:
            self.clear()
            e.changed = True
        elif self.seen and not self.rep_seen:
            self.rep = None
            e.changed = True


FACT_LIMIT = 400


class Loop:
    """one dynamic execution of a loop statement"""

    def __init__(self, eng, site, names, live, func, iterable=None, is_while=False):
        self.e = eng
        self.site = site
        self.names = names
        self.live = live
        self.is_while = is_while
        self.seq = iterable
        self.phase = "conc"
        self.cond_symbolic = False
        self.count = 0
        self.it = None
        self.func = func
        if not is_while:
            if isinstance(iterable, PList) and not iterable.is_concrete():
                n = iterable.len_term()
                if n is not None and z3.is_int_value(n) and n.as_long() <= 24:
                    ln = n.as_long()
                    self.it = (iterable.at(z3.IntVal(k)) for k in range(ln))
                else:
                    if func_is_generator(func):
                        raise Unsupported("symbolic loop inside a generator")
                    self.phase = "exact0"
                    self.seq = iterable if isinstance(iterable, Infinite) else \
                        PList(chunks=iterable.copy_chunks())
                    self.open()
            elif isinstance(iterable, PIter) and iterable.pl.len_term() is None or \
                    isinstance(iterable, PIter) and not iterable.pl.is_concrete():
                raise Unsupported("for loop over an explicit iterator of symbolic length")
            else:
                self.it = iter(iterable)
        else:
            self.open()
            self.phase = "while0"
        self._item = None

    # entry snapshot
    def open(self):
        e = self.e
        e.epoch += 1
        self.entry_epoch = e.epoch
        self.entry_serial = e.serial()
        self.entry_counter = e.counter
        self.entry_pc = len(e.pc)
        self.entry_writes = len(e.writes)
        self.entry_trace = tuple(e.trace)

    def rec(self):
        key = (self.entry_trace, self.site)
        r = self.e.loops.get(key)
        if r is None:
            r = LoopRec(self.site, len(self.e.loops))
            self.e.loops[key] = r
        return r

    # -------------------------------------------------------------- protocol
    def head(self, vals):
        if self.phase in ("conc", "exact0", "while0"):
            return vals
        if self.phase == "conc_while":
            return vals
        if self.phase == "exact1":
            return self.arrive(vals, z3.IntVal(1), first=True)
        if self.phase == "general":
            self.arrive(vals, simp(self.i + 1), first=False)
            raise LoopCut()
        raise AssertionError(self.phase)

    def more(self):
        e = self.e
        if self.phase == "conc":
            try:
                self._item = next(self.it)
                return True
            except StopIteration:
                return False
        n = self.seq.len_term()
        if self.phase == "exact0":
            if n is not None and not e.decide(n > 0):
                return False
            self.phase = "exact1"
            self._item = self.seq.at(z3.IntVal(0))
            return True
        if self.phase == "general":
            if n is not None:
                if not e.decide(self.i < n):
                    return False
            self._item = self.seq.at(self.i)
            return True
        raise AssertionError(self.phase)

    def item(self):
        self.e.items_now[self.site] = self._item
        return self._item

    def cond(self, f):
        """while condition"""
        e = self.e
        t0 = len(e.trace)
        r = bool(f())
        if len(e.trace) != t0:
            self.cond_symbolic = True
        if self.phase == "while0":
            if r:
                self.count += 1
                if self.cond_symbolic:
                    if func_is_generator(self.func):
                        raise Unsupported("symbolic loop inside a generator")
                    if self.count == 1:
                        self.phase = "exact1"
                    else:
                        # condition became symbolic later: generalise from here on
                        self.phase = "exact1"
                elif self.count > 400:
                    raise Unsupported("concrete while loop too long")
                elif len(e.trace) > len(self.entry_trace) and self.count > e.while_unroll:
                    # every iteration so far was left or continued on a symbolic test: generalise
                    if func_is_generator(self.func):
                        raise Unsupported("symbolic loop inside a generator")
                    self.phase = "exact1"
            return r
        return r

    # -------------------------------------------------------------- arrivals
    def collect_mods(self, rec):
        e = self.e
        for (o, what) in e.writes[self.entry_writes:]:
            b = e.birth(o)
            if b > self.entry_serial:
                continue
            if b == 0:
                raise Unsupported(f"loop modifies an untracked {type(o).__name__} object")
            if isinstance(o, PList):
                key = (b, "#list")
                if what != "append" and b not in rec.arbitrary:
                    rec.arbitrary.add(b)
                    rec.stale = e.changed = True
            elif isinstance(o, (PDict, PSet, PIter)):
                raise Unsupported(f"loop modifies a {type(o).__name__}")
            else:
                key = (b, what)
            if key not in rec.mods:
                rec.mods.append(key)
                rec.modset.add(b)
                rec.stale = e.changed = True

    def state(self, rec, vals):
        """shape and leaves of the current state"""
        e = self.e
        sp = Shaper(e, self.entry_serial, rec.modset, self.entry_epoch)
        shapes = []
        for name, v in zip(self.names, vals):
            if name not in self.live or isinstance(v, Poison):
                shapes.append(None)
                continue
            try:
                snap = dict(sp.leaves), dict(sp.alias), dict(sp.lists)
                shapes.append(sp.sh(v, (name,)))
            except NotShaped as ex:
                sp.leaves, sp.alias, sp.lists = snap
                shapes.append(("poison", str(ex)))
        mods = []
        for (b, what) in rec.mods:
            try:
                o = e.by_serial(b)
            except KeyError:
                o = None
            if not isinstance(o, PList) if what == "#list" else not hasattr(o, what):
                # objects were made in another order than in an earlier round
                rec.mods, rec.modset, rec.arbitrary = [], set(), set()
                rec.stale = e.changed = True
                raise LoopCut()
            if what == "#list":
                if b in rec.arbitrary:
                    mods.append(sp.sh_list(o.chunks, ("@", b), "all", o.tup))
                else:
                    mods.append(sp.sh_list(o.appended_since(self.entry_epoch), ("@", b), "app", o.tup))
            else:
                try:
                    mods.append(sp.sh(getattr(o, what), ("@", b, what)))
                except NotShaped as ex:
                    raise Unsupported(f"loop modifies {what}: {ex}")
        return (tuple(shapes), tuple(mods)), sp

    def arrive(self, vals, i, first):
        e = self.e
        if e.check(z3.BoolVal(True)) == z3.unsat:
            raise PathAbort()
        rec = self.rec()
        self.collect_mods(rec)
        if first:
            tr = tuple(e.trace)
            rec.seen = True
            if rec.rep is None:
                rec.rep = tr
            if rec.rep == tr:
                rec.rep_seen = True
        if rec.stale:
            raise LoopCut()
        shape, sp = self.state(rec, vals)
        self.arr_i = i
        case = rec.by_shape.get(shape)
        if case is None:
            if len(rec.cases) > 40:
                raise Unsupported("too many loop state shapes")
            case = Case(shape, self.names, rec.mods)
            rec.by_shape[shape] = case
            rec.cases.append(case)
            e.changed = True
        self.note_elements(rec, case, sp, i)
        if case.facts is None:
            case.facts = self.candidates(rec, case, sp, i)
            case.facts0 = list(case.facts)
        else:
            self.filter(rec, case, sp, i)
        if not first:
            return None
        if rec.rep != tr or not rec.act_cases:
            raise LoopCut()
        return self.generalise(rec, vals)

    # elements appended to summarised lists: shapes and templates
    def note_elements(self, rec, case, sp, i):
        e = self.e
        for path, pl in sp.lists.items():
            if "#first" in path or "#last" in path:
                continue
            known = rec.elem_shapes.setdefault(path, [])
            tm = rec.templates.setdefault(path, {})
            dead = rec.tmpl_dead.setdefault(path, set())
            off = z3.IntVal(0)
            for c in pl.chunks:
                if isinstance(c, list):
                    for k, x in enumerate(c):
                        self.note_elem(rec, path, known, tm, dead, x, simp(off + k), i)
                    off = simp(off + len(c))
                else:
                    q = c.seq
                    own = isinstance(q, AbsSeq) and q.key == f"L{rec.id}.{path}"
                    if own:
                        if not (z3.is_int_value(off) and off.as_long() == 0 and c.whole()):
                            self.kill_templates(rec, path)
                    elif isinstance(q, AbsSeq):
                        for s in q.elem_shapes:
                            if s not in known:
                                known.append(s)
                                e.changed = True
                        if not q.elem_shapes:
                            rec.elem_unknown.add(path)
                        self.kill_templates(rec, path)
                    else:
                        self.kill_templates(rec, path)
                        self.note_seq_elem(rec, path, known, c)
                    off = simp(off + c.n)

    def note_seq_elem(self, rec, path, known, c):
        e = self.e
        try:
            with e.no_fork():
                j = z3.Int(f"gen!{rec.id}!{len(known)}")
                e.sym_stamp[j.decl().get_id()] = e.counter + 1
                x = c.at(j)
                sp = Shaper(e, self.entry_serial, rec.modset, self.entry_epoch)
                s = sp.sh(x, ())
        except (NoFork, NotShaped):
            if path not in rec.elem_unknown:
                rec.elem_unknown.add(path)
                e.changed = True
            return
        if s not in known:
            known.append(s)
            e.changed = True
        self.note_pos(rec, path, known.index(s), None)

    def note_pos(self, rec, path, ci, off):
        if path in rec.pos_dead:
            return
        k = (path, ci)
        cur = rec.elem_pos.get(k, set())
        if cur is None:
            return
        p = off.as_long() if off is not None and z3.is_int_value(off) else None
        new = None if p is None else cur | {p}
        if new != cur or k not in rec.elem_pos:
            rec.elem_pos[k] = new
            self.e.changed = True

    def kill_templates(self, rec, path):
        if path not in rec.pos_dead:
            rec.pos_dead.add(path)
            self.e.changed = True
        if rec.tmpl_dead.get(path) != "all":
            rec.tmpl_dead[path] = "all"
            if rec.templates.get(path):
                rec.templates[path] = {}
            self.e.changed = True

    def note_elem(self, rec, path, known, tm, dead, x, off, i):
        e = self.e
        sp = Shaper(e, self.entry_serial, rec.modset, self.entry_epoch)
        try:
            s = sp.sh(x, ())
        except NotShaped:
            if path not in rec.elem_unknown:
                rec.elem_unknown.add(path)
                e.changed = True
            return
        if s not in known:
            known.append(s)
            e.changed = True
        ci = known.index(s)
        self.note_pos(rec, path, ci, off)
        dead = rec.tmpl_dead[path]
        if dead == "all" or not e.use_templates:
            return
        d = rec.templates.setdefault(path, {}).setdefault(ci, None)
        if d is None:
            # first sight of this element case: candidate templates
            d = {}
            for lp, t in sp.leaves.items():
                for c in self.template_candidates(t, off, i):
                    d.setdefault(lp, []).append(c)
            rec.templates[path][ci] = d
            e.changed = True
            return
        for lp in list(d):
            t = sp.leaves.get(lp)
            if t is None:
                del d[lp]
                e.changed = True
                continue
            keep = []
            for c in d[lp]:
                g = simp(z3.substitute(c, (J, off)))
                try:
                    ok = g.sort() == t.sort() and e.valid(g == t)
                except z3.Z3Exception:
                    ok = False
                if ok:
                    keep.append(c)
            if len(keep) != len(d[lp]):
                e.changed = True
            # a generalised arrival may offer a better (index dependent) candidate
            if not keep and not self.tmpl_retry(rec, path, ci, lp):
                for c in self.template_candidates(t, off, i):
                    keep.append(c)
                e.changed = True
                d[lp] = keep
            elif keep:
                d[lp] = keep
            else:
                del d[lp]

    def tmpl_retry(self, rec, path, ci, lp):
        """True if the leaf has used up its chances"""
        k = (path, ci, lp)
        r = rec._retry.setdefault(k, set())
        r.add(self.e.rounds)
        return len(r) > 4

    def template_candidates(self, t, off, i):
        """terms in J whose value at J=off is t and that only mention symbols
        that exist at loop entry"""
        e = self.e
        out = []
        t = simp(t)
        idx = getattr(self, "i", None)
        if z3.is_int_value(off):
            k = off.as_long()
        else:
            k = None
        # the element index as a function of the iteration index
        if k is None and idx is not None:
            d = simp(off - idx)
            if z3.is_int_value(d):
                c = simp(z3.substitute(t, (idx, J - d)))
                if not e.newer_than(c, self.entry_counter):
                    out.append(c)
            else:
                # off is its own symbol known to equal idx + const
                for dd in (0, 1, -1, 2):
                    if e.valid(off == idx + dd):
                        c = simp(z3.substitute(t, (off, J), (idx, J - dd)))
                        if not e.newer_than(c, self.entry_counter):
                            out.append(c)
                        break
        if not e.newer_than(t, self.entry_counter):
            out.append(t)
        # item leaves
        for sh in (0, -1, 1):
            lv = self.item_leaves(simp(J + sh))
            for lp, f in lv.items():
                try:
                    g = simp(z3.substitute(f, (J, off)))
                    if g.sort() == t.sort() and (z3.eq(g, t) or e.valid(g == t)):
                        out.append(f)
                except z3.Z3Exception:
                    pass
        seen, res = set(), []
        for c in out:
            if c.get_id() not in seen:
                seen.add(c.get_id())
                e.keep.append(c)
                res.append(c)
        return res

    def part_leaves(self, k, leaves):
        """the same for a list of several parts: the leaves of the part the item is in"""
        parts, off = [], z3.IntVal(0)
        for c in getattr(self.seq, "chunks", ()):
            for q in range(len(c)) if isinstance(c, list) else (None,):
                n = z3.IntVal(1) if q is not None else c.n
                try:
                    parts.append((simp(off + n), leaves((lambda c=c, q=q: c[q]) if q is not None else
                                                        lambda c=c, o=off: c.at(simp(k - o)))))
                except (NoFork, NotShaped, Unsupported):
                    return {}
                off = off + n
        if not 2 <= len(parts) <= 4:
            return {}
        out = {}
        for lp, t in parts[-1][1].items():
            for stop, lv in reversed(parts[:-1]):
                u = lv.get(lp)
                if u is None or u.sort() != t.sort():
                    break
                t = z3.If(k < stop, u, t)
            else:
                out[lp] = t
        return out

    def item_leaves(self, k):
        """numeric leaves of the k-th item of the iterated sequence"""
        e = self.e
        if self.is_while or self.seq is None:
            return {}
        if isinstance(self.seq, Infinite) and self.seq.seq.kind == "count":
            return {}
        def leaves(get):
            with e.no_fork():
                sp = Shaper(e, self.entry_serial, set(), self.entry_epoch)
                sp.open_frozen = True
                sp.sh(get(), ())
                return dict(sp.leaves)
        try:
            lv = leaves(lambda: self.seq.at(k))
        except NoFork:
            lv = self.part_leaves(k, leaves)
        except (NotShaped, Unsupported):
            return {}
        out = {}
        for lp, t in lv.items():
            if any(isinstance(q, str) and q.startswith("#m") for q in lp):
                continue
            out[lp] = t
        # components of numpy-like vectors etc. are already leaves
        return out

    # -------------------------------------------------------------- candidates
    def env(self, sp):
        return sp.leaves

    def candidates(self, rec, case, sp, i):
        e = self.e
        env = self.env(sp)
        facts = []
        closed = {}
        prev_items = self.item_leaves(simp(i - 1))
        for p, t in env.items():
            if not e.newer_than(t, self.entry_counter):
                facts.append(("eqt", p, simp(t)))
                closed[p] = t
            if t.sort() == z3.IntSort():
                # linear in the iteration counter
                for c1 in (1, 2, 3, 4, -1):
                    c0 = simp(t - c1 * i)
                    if not e.newer_than(c0, self.entry_counter):
                        facts.append(("lin", p, c0, z3.IntVal(c1)))
                for k0 in (-1, 0, 1):
                    facts.append(("lin", p, z3.IntVal(k0), z3.IntVal(1)))
                facts.append(("ge", p, z3.IntVal(0)))
                facts.append(("ge", p, z3.IntVal(1)))
                if p and p[-1] == "#len":
                    facts.append(("ge", p, z3.IntVal(2)))
                n = None if (self.is_while or self.seq is None) else self.seq.len_term()
                if n is not None:
                    facts.append(("le", p, n))
                for K in e.skolem_idx:
                    facts.append(("wit", p, K))
                    facts.append(("witeq", p, K))
                    if len(p) > 1 and p[-2] == "#m":
                        facts.append(("witle", p, K))
            if t.sort() == z3.BoolSort():
                for K in e.skolem_idx:
                    facts.append(("witb", p, K))
            for lp, f in prev_items.items():
                if f.sort() == t.sort():
                    facts.append(("item", p, lp, -1))
            if t.sort() == z3.RealSort():
                for lm in e.landmarks:
                    lmr = V.to_real(term_of(lm))
                    facts.append(("ge", p, lmr))
                    facts.append(("le", p, lmr))
        for h in e.loop_hints:
            facts.extend(h(e, self, env, i))
        paths = list(env)
        for a, b in itertools.combinations(paths, 2):
            if env[a].sort() == env[b].sort():
                facts.append(("eqp", a, b))
        mpaths = [p for p in paths if len(p) >= 2 and p[-2] == "#m" or p and p[-1] == "#len"]
        for a, b in itertools.combinations(mpaths, 2):
            if a[-1] == b[-1]:
                s = simp(env[a] + env[b])
                facts.append(("sum", a, b, s))
        for path in sp.lists:
            for p in e.preds:
                facts.append(("all", path, p.name))
            for p in e.adjs:
                facts.append(("adj", path, p.name))
        # the sum facts need the pre-loop value: use entry terms of modified lists
        out = []
        # cheap prefilter with one model
        mdl = e.some_model()
        for f in facts:
            if self.holds(f, env, sp, i, mdl):
                out.append(f)
        return out

    def holds(self, f, env, sp, i, mdl=None):
        e = self.e
        if f[0] == "all":
            pl = sp.lists.get(f[1])
            if pl is None:
                return False
            g = pl.all_formula(e.pred(f[2]))
        elif f[0] == "adj":
            pl = sp.lists.get(f[1])
            if pl is None:
                return False
            g = pl.adj_formula(e.adj(f[2]))
        else:
            g = self.formula(f, env, i)
        if g is None:
            return False
        g = bterm(g)
        if mdl is not None:
            try:
                if z3.is_false(mdl.eval(g, model_completion=True)):
                    return False
            except z3.Z3Exception:
                pass
        return e.valid(g)

    def formula(self, f, env, i):
        k = f[0]
        if k == "custom":
            return f[2](env, i)
        if k == "customl":
            return f[2](self, env, i)
        t = env.get(f[1])
        if t is None:
            return None
        if k == "eqt":
            return t == f[2] if t.sort() == f[2].sort() else None
        if k == "lin":
            return t == f[2] + f[3] * i
        if k == "ge":
            return t >= f[2]
        if k == "le":
            return t <= f[2]
        if k == "eqp":
            u = env.get(f[2])
            return None if u is None else t == u
        if k == "sum":
            u = env.get(f[2])
            if u is None or self.e.newer_than(f[3], self.entry_counter):
                return None
            return t + u == f[3]
        if k == "wit":
            return t >= z3.If(i > f[2], 1, 0)
        if k == "witle":
            return t <= z3.If(z3.And(f[2] >= 0, i > f[2]), 1, 0)
        if k == "witeq":
            return t == z3.If(z3.And(f[2] >= 0, i > f[2]), 1, 0)
        if k == "witb":
            return t == z3.And(f[2] >= 0, i > f[2])
        if k == "item":
            u = self.item_leaves(simp(i + f[3])).get(f[2])
            return None if u is None or u.sort() != t.sort() else t == u
        raise AssertionError(k)

    def filter(self, rec, case, sp, i):
        e = self.e
        env = self.env(sp)
        keep = []
        mdl = e.some_model() if len(case.facts) > 30 and not e.final else None
        for f in case.facts:
            if e.final:
                e.loop_vcs += 1
            if self.holds(f, env, sp, i, mdl):
                keep.append(f)
        if len(keep) != len(case.facts):
            if e.trace_facts:
                for f in case.facts:
                    if f not in keep:
                        print("DROP", self.site, f)
            case.facts = keep
            e.changed = True

    # -------------------------------------------------------------- generalise
    def generalise(self, rec, vals):
        try:
            return self.generalise_(rec, vals)
        except StaleRef:
            rec.mods, rec.modset, rec.arbitrary = [], set(), set()
            rec.stale = self.e.changed = True
            raise LoopCut()

    def generalise_(self, rec, vals):
        e = self.e
        ci = e.choose(len(rec.act_cases))
        if ci >= len(rec.act_cases):
            raise PathAbort()
        case = rec.act_cases[ci]
        # forget everything learnt since the loop was entered
        e.dead_epochs.append((self.entry_serial, e.serial()))
        e.pc = e.pc[: self.entry_pc]
        e.rebuild_solver()
        e.generalised = True
        it = z3.Int(f"i!{rec.id}")
        e.counter += 1
        e.stamp(it)
        self.i = it
        e.assume(it >= 1)
        n = None if (self.is_while or self.seq is None) else self.seq.len_term()
        if n is not None:
            e.assume(it <= n)
        facts = case.act_facts
        fixed, same = {}, {}
        for f in facts:
            if f[0] == "eqt":
                fixed.setdefault(f[1], f[2])
        for f in facts:
            if f[0] == "lin" and f[1] not in fixed:
                fixed[f[1]] = simp(f[2] + f[3] * it)
        for f in facts:
            if f[0] == "item" and f[1] not in fixed:
                u = self.item_leaves(simp(it + f[3])).get(f[2])
                if u is not None:
                    fixed[f[1]] = u
        for f in facts:
            if f[0] == "eqp":
                same.setdefault(f[2], f[1])
        cache = {}

        def leafval(path, tag):
            if tag == "I?":
                if path in fixed or path in env_paths:
                    tag = "I"
                else:
                    return None
            if path in cache:
                return cache[path]
            if path in fixed:
                v = fixed[path]
            elif path in same and same[path] != path:
                v = leafval(same[path], tag)
            else:
                nm = f"h{rec.id}.{ci}.{path}"
                v = {"I": z3.Int, "R": z3.Real, "B": z3.Bool}[tag](nm)
                e.counter += 1
                e.stamp(v)
            cache[path] = v
            return v

        env_paths = case_leaf_paths(case)

        class Info(dict):
            def get(_, path, d=None):
                def fill(q):
                    for f in facts:
                        if f[0] == "all" and f[1] == path:
                            q.flags_all.add(f[2])
                        if f[0] == "adj" and f[1] == path:
                            q.flags_adj.add(f[2])
                    if path not in rec.act_elem_unknown:
                        q.elem_shapes = list(rec.act_elem_shapes.get(path, []))
                        q.elem_pos = {c: v for (p, c), v in rec.act_elem_pos.items() if p == path}
                    for c, d in (rec.act_templates.get(path) or {}).items():
                        q.templates[c] = {lp: ts[0] for lp, ts in (d or {}).items() if ts}
                return fill

        ins = Instantiator(e, leafval, lists=Info())
        ins.listkey_prefix = f"L{rec.id}."
        out = []
        shapes, mods = case.shape
        for name, v, s in zip(self.names, vals, shapes):
            if s is None:
                out.append(v if isinstance(v, Poison) and v is UNBOUND else
                           Poison(f"{name} (not live across iterations)"))
            elif s[0] == "poison":
                out.append(Poison(f"{name}: {s[1]}"))
            else:
                out.append(ins.inst(s, (name,)))
        for (b, what), s in zip(rec.mods, mods):
            o = e.by_serial(b)
            if what == "#list":
                ch = ins.list_chunks(s, ("@", b))
                if b in rec.arbitrary:
                    o.chunks = ch
                    o.marks = []
                    o.last_write = e.serial()
                    e.log_write(o, "havoc")
                else:
                    before = o.before_epoch(self.entry_epoch)
                    o.chunks = before + ch
                    o.marks_after_havoc(self.entry_epoch, before)
                    e.log_write(o, "append")
            else:
                object.__setattr__(o, what, ins.inst(s, ("@", b, what)))
                e.log_write(o, what)
        env = dict(cache)
        for p in env_paths:
            if p not in env:
                try:
                    env[p] = leafval(p, env_paths[p])
                except Exception:
                    pass
        for f in facts:
            if f[0] in ("all", "adj"):
                continue
            g = self.formula(f, env, it)
            if g is not None:
                e.assume(g)
        self.phase = "general"
        return tuple(out)


def case_leaf_paths(case):
    """all leaf paths with their sort tags of a case"""
    out = {}

    def walk(s, path):
        if s is None:
            return
        k = s[0]
        if k in ("num", "term"):
            out[path] = s[1]
        elif k == "tup":
            for n, x in enumerate(s[1]):
                walk(x, path + (n,))
        elif k == "obj":
            for a, x in s[2]:
                walk(x, path + ("." + a,))
        elif k == "str":
            n = 0
            for part in s[1]:
                if isinstance(part, str):
                    continue
                if part[0] == "num":
                    out[path + ("t", n)] = part[1]
                else:
                    for m, x in enumerate(part[1]):
                        if not isinstance(x, str):
                            out[path + ("t", n, m)] = x[1]
                n += 1
        elif k == "dict":
            for n, (a, b) in enumerate(s[2]):
                walk(a, path + ("k", n))
                walk(b, path + ("v", n))
        elif k == "list":
            out[path + ("#len",)] = "I"
            for m in V.eng().measures:
                out[path + ("#m", m.name)] = "I"
            walk(s[3], path + ("#first",))
            walk(s[4], path + ("#last",))

    shapes, mods = case.shape
    rec = case
    for name, s in zip(case.names, shapes):
        if s is not None and s[0] != "poison":
            walk(s, (name,))
    for (b, what), s in zip(case.mods, mods):
        walk(s, ("@", b) if what == "#list" else ("@", b, what))
    return out


def func_is_generator(func):
    return bool(func)
