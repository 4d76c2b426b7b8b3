"""Path exploration by re-execution, obligations, loop summaries."""
from __future__ import annotations

import contextlib
import time
import z3
from . import values as V
from .values import (Control, PathAbort, Unsupported, LoopCut, SymNum, SymBool,
                     Poison, mk, mkbool, bterm, term_of, concrete)
from .lists import PList, Win, Seq, simp, wrapi, truth


class Pred:
    """elementwise fact P(x) -> z3 Bool | None (must not fork)"""

    odd = False

    def __init__(self, name, fn):
        self.name, self.fn_ = name, fn

    def fn(self, *x):
        """None when x is of a kind it is not about"""
        try:
            return self.fn_(*x)
        except (TypeError, AttributeError, IndexError):
            if isinstance(self, Measure):
                raise
            self.odd = True
            return None

    def __repr__(self):
        return self.name


class AdjPred(Pred):
    """fact R(x, y) about consecutive elements"""


class Measure(Pred):
    """additive integer measure m(x) -> z3 Int | None; nonneg: never negative"""
    nonneg = False


class Budget(Exception):
    pass


class Obligation:
    def __init__(self, label, status, info=None, exact=True, model=None):
        self.label, self.status, self.info, self.exact, self.model = label, status, info, exact, model


def measure_of(x, m):
    return x.measure_term(m) if isinstance(x, PList) else m.fn(x)


class Engine:
    def __init__(self, name, budget_s=300, prove_ms=20000, feas_ms=4000, max_paths=4000, log=None):
        self.name = name
        self.deadline = time.time() + budget_s
        self.prove_ms, self.feas_ms, self.max_paths = prove_ms, feas_ms, max_paths
        self.cache = {}
        self.keep = []
        self.loops = {}
        self.preds, self.adjs, self.measures = [], [], []
        self.landmarks = []
        self.solver_time = 0.0
        self.queries = 0
        self.rounds = 0
        self.paths = 0
        self.notes = []
        self.log = log
        self.final = False
        self.obligations = []
        self.exits = 0
        self.exc_exits = {}
        self.reached = set()
        self.loop_vcs = 0
        self.trace_facts = False
        self.refresh = False
        self.while_unroll = 24
        self.unknowns = 0

    # ----------------------------------------------------------- per run
    def reset_run(self, prefix):
        self.use_templates = True
        self.split_ends = False
        self.computed = []
        self.lazy = []
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.pc_stack_len = 0
        self.axioms = []
        self.axiom_ids = set()
        self.solver = None
        self.pending = []
        self.keyhash = ()
        self.counter = 0
        self.serial_counter = 0
        self.tokens = []
        self.writes = []
        self.objs = {}
        self.sym_stamp = {}
        self.epoch = 0
        self.memo_floor = 0
        self.dead_epochs = []
        self.new_alts = []
        self.generalised = False
        self.frames_loops = []
        self.covers = set()
        self.path_notes = []
        self.inputs = {}
        self.univ = []
        self.preds, self.adjs, self.measures = [], [], []
        self.landmarks = []
        self.skolem_idx = []
        self.loop_hints = []
        self.byserial = {}
        self.frozen = {}
        self.seq_birth = {}
        self.lazy_mark = 0
        self.nofork = 0
        self.loading = False
        self.files = []
        self.hooks = {}
        self.items_now = {}
        self.on_exception = None
        self._model = None

    # ----------------------------------------------------------- symbols
    def serial(self):
        self.serial_counter += 1
        return self.serial_counter

    def _name(self, hint):
        self.counter += 1
        return f"{hint}!{self.counter}"

    def stamp(self, t):
        d = t.decl() if not isinstance(t, z3.FuncDeclRef) else t
        self.sym_stamp[d.get_id()] = self.counter
        self.keep.append(d)

    def fresh_int(self, hint="n"):
        t = z3.Int(self._name(hint))
        self.stamp(t)
        return SymNum(t)

    def fresh_real(self, hint="x"):
        t = z3.Real(self._name(hint))
        self.stamp(t)
        return SymNum(t)

    def fresh_bool(self, hint="b"):
        t = z3.Bool(self._name(hint))
        self.stamp(t)
        return SymBool(t)

    def fresh_func(self, hint, *sorts):
        f = z3.Function(self._name(hint), *sorts)
        self.stamp(f)
        return f

    def func(self, name, *sorts):
        """global uninterpreted function"""
        return z3.Function(name, *sorts)

    def pow10(self, b):
        f = self.func("pow10", z3.IntSort(), z3.RealSort())
        t = term_of(b)
        if t.sort() != z3.IntSort():
            raise Unsupported("10 ** real")
        r = f(t)
        nr = f(simp(-t))
        self.axiom(z3.And(r > 0, nr > 0, r * nr == 1, z3.Implies(t >= 0, r >= 1), z3.Implies(t >= 1, r >= 10),
                          z3.Implies(t <= 0, r <= 1)))
        return SymNum(r)

    def free_symbols(self, t, acc=None):
        seen, out, st = set(), set(), [t]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().get_id())
            st.extend(x.children())
        return out

    def newer_than(self, t, stamp):
        """does t mention a symbol created after `stamp`?"""
        for d in self.free_symbols(t):
            if self.sym_stamp.get(d, 0) > stamp:
                return True
        return False

    # ----------------------------------------------------------- solver
    def axiom(self, t):
        t = simp(t)
        if z3.is_true(t):
            return
        if t.get_id() in self.axiom_ids:
            return
        self.axiom_ids.add(t.get_id())
        self.keep.append(t)
        self.axioms.append(t)
        self.pending.append(t)
        self.keyhash = (self.keyhash, t.get_id())
        self.keyhash = hash(self.keyhash)

    def assume(self, t):
        t = bterm(t)
        t = simp(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathAbort()
        self.keep.append(t)
        self.pc.append(t)
        self.pending.append(t)
        self.keyhash = hash((self.keyhash, t.get_id()))

    def rebuild_solver(self):
        self.solver = None
        self.keyhash = 0
        self.pending = self.axioms + self.pc
        for t in self.pending:
            self.keyhash = hash((self.keyhash, t.get_id()))

    def sync(self):
        """the solver is only filled when it is asked something"""
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", self.feas_ms)
        ctx, s = self.solver.ctx.ref(), self.solver.solver
        for t in self.pending:
            z3.Z3_solver_assert(ctx, s, t.as_ast())
        self.pending = []

    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time budget exceeded")

    def check(self, t, ms=None):
        """sat / unsat / unknown of pc & axioms & t"""
        t = simp(t)
        if z3.is_false(t):
            return z3.unsat
        k = (self.keyhash, t.get_id(), ms)
        r = self.cache.get(k)
        if r is not None:
            return r
        self.tick()
        self.keep.append(t)
        t0 = time.time()
        self.sync()
        if ms is not None:
            self.solver.set("timeout", ms)
        r = self.solver.check(t)
        if r == z3.unknown:
            s = z3.SolverFor("QF_UFNRA") if False else z3.Solver()
            s.set("timeout", ms or self.feas_ms)
            for a in self.axioms + self.pc:
                s.add(a)
            s.add(t)
            r = s.check()
        if ms is not None:
            self.solver.set("timeout", self.feas_ms)
        self.solver_time += time.time() - t0
        self.queries += 1
        if r == z3.unknown:
            self.unknowns += 1
        self.cache[k] = r
        return r

    def valid(self, t):
        """cheap test: is t implied by the path? (no decision recorded)"""
        t = simp(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return self.check(z3.Not(t)) == z3.unsat

    def decide(self, t):
        t = simp(bterm(t))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.nofork:
            if self.check(z3.Not(t)) == z3.unsat:
                return True
            if self.check(t) == z3.unsat:
                return False
            from .loops import NoFork
            raise NoFork()
        pos = len(self.trace)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.trace.append(c)
            self.assume(t if c else z3.Not(t))
            return bool(c)
        if pos > 3000:
            raise Unsupported("path too long")
        yes = self.check(t) != z3.unsat
        no = self.check(z3.Not(t)) != z3.unsat
        if yes and no:
            self.new_alts.append(tuple(self.trace) + (0,))
            c = 1
        elif yes:
            c = 1
        elif no:
            c = 0
        else:
            raise PathAbort()
        self.trace.append(c)
        if (yes and no):
            self.assume(t if c else z3.Not(t))
        else:
            # implied: keep it as a cheap lemma
            self.assume(t if c else z3.Not(t))
        return bool(c)

    def choose(self, n, skip=0):
        """n-way decision (recorded as ints)"""
        if self.nofork:
            if n == 1:
                return 0
            from .loops import NoFork
            raise NoFork()
        pos = len(self.trace)
        if pos < len(self.prefix):
            c = self.prefix[pos]
        else:
            c = skip
            for k in range(skip + 1, n):
                self.new_alts.append(tuple(self.trace) + (k,))
        self.trace.append(c)
        return c

    # ----------------------------------------------------------- memo epochs
    def memo_stamp(self):
        return len(self.dead_epochs), self.serial()

    def memo_valid(self, stamp):
        for (lo, hi) in self.dead_epochs:
            if lo < stamp[1] < hi:
                return False
        return True

    # ----------------------------------------------------------- write log
    def log_write(self, obj, what):
        self.writes.append((obj, what))

    def write_mark(self):
        return len(self.writes), self.serial()

    def check_pure(self, mark, what):
        for (o, w) in self.writes[mark[0]:]:
            if self.birth(o) < mark[1]:
                raise Unsupported(f"{what} with side effects")

    def birth(self, o):
        if type(o).__module__ == "pydv.lists":
            return o.serial
        r = self.objs.get(id(o))
        return r[0] if r is not None else 0

    def register(self, o):
        s = self.serial()
        self.objs[id(o)] = (s, o)
        self.byserial[s] = o

    def reg_list(self, o):
        s = self.serial()
        self.byserial[s] = o
        return s

    def by_serial(self, s):
        return self.byserial[s]

    def freeze(self, o):
        self.frozen[id(o)] = o

    def check_frozen(self, o):
        if id(o) in self.frozen:
            raise Unsupported("write to an element of a summarised list")

    @contextlib.contextmanager
    def no_fork(self):
        self.nofork += 1
        try:
            yield
        finally:
            self.nofork -= 1

    def some_model(self):
        if self._model is not None and self._model[0] == self.keyhash:
            return self._model[1]
        m = None
        self.sync()
        if self.solver.check() == z3.sat:
            m = self.solver.model()
        self._model = (self.keyhash, m)
        return m

    def pred(self, name):
        return next(p for p in self.preds if p.name == name)

    def adj(self, name):
        return next(p for p in self.adjs if p.name == name)

    def serial_stamp(self, q):
        return self.seq_birth.get(q.uid, 0)

    # ----------------------------------------------------------- tokens in text
    def num_token(self, v, spec):
        c = concrete(v)
        if c is not None:
            return format(c, spec)
        self.tokens.append(("num", v, spec))
        return f"\ue000{len(self.tokens) - 1}\ue001"

    def opaque_token(self, kind, data):
        self.tokens.append((kind, data, ""))
        return f"\ue000{len(self.tokens) - 1}\ue001"

    # ----------------------------------------------------------- goals
    def model_inputs(self, m):
        out = {}
        for k, v in self.inputs.items():
            try:
                if isinstance(v, (SymNum, SymBool)):
                    r = m.eval(v.t, model_completion=True)
                    out[k] = str(r)
                else:
                    out[k] = repr(v)
            except Exception as ex:  # noqa
                out[k] = f"?{ex}"
        return out

    def prove(self, label, goal, info=None):
        """an obligation"""
        if not self.final:
            return
        try:
            g = bterm(goal) if goal is not None else None
        except z3.Z3Exception:
            g = None
        if g is None:
            self.obligations.append(Obligation(label, "undecided", "no formula for the goal"))
            return
        g = simp(g)
        if z3.is_true(g):
            self.obligations.append(Obligation(label, "discharged"))
            return
        r = self.check(z3.Not(g), self.prove_ms)
        if r == z3.unsat:
            self.obligations.append(Obligation(label, "discharged"))
        elif r == z3.sat:
            mod, info2 = {}, info
            try:
                s = z3.Solver()
                s.set("timeout", self.prove_ms)
                for a in self.axioms + self.pc:
                    s.add(a)
                s.add(z3.Not(g))
                if s.check() == z3.sat:
                    mod = self.model_inputs(s.model())
            except z3.Z3Exception:
                pass
            self.obligations.append(Obligation(
                label, "failed", {"goal": str(g)[:2000], "info": info2,
                                  "path": [str(p)[:300] for p in self.pc[-25:]]},
                exact=not self.generalised, model=mod))
        else:
            self.obligations.append(Obligation(label, "undecided", {"goal": str(g)[:500]}))

    def fail(self, label, info):
        """the obligation is falsified on this (feasible) path"""
        if not self.final:
            return
        r = self.check(z3.BoolVal(True), self.prove_ms)
        if r == z3.unsat:
            self.obligations.append(Obligation(label, "discharged"))
        elif r == z3.sat:
            s = z3.Solver()
            s.set("timeout", self.prove_ms)
            for a in self.axioms + self.pc:
                s.add(a)
            mod = self.model_inputs(s.model()) if s.check() == z3.sat else {}
            self.obligations.append(Obligation(
                label, "failed", {"goal": "false", "info": info, "path": [str(p)[:300] for p in self.pc[-25:]]},
                exact=not self.generalised, model=mod))
        else:
            self.obligations.append(Obligation(label, "undecided", {"info": info}))

    def cover(self, label):
        self.covers.add(label)

    # ----------------------------------------------------------- generic list reasoning
    def generic_all(self, win, pred):
        """P for a generic element of a window (map/zip/... of something)"""
        seq = win.seq
        if getattr(seq, "kind", "") == "abs":
            return None
        key = (id(seq), pred.name)
        from .loops import NoFork
        from .lists import elem_formula
        s0 = self.serial()
        j = self.fresh_int("gen").t
        npc = len(self.pc)
        try:
            with self.no_fork():
                self.assume(z3.And(j >= 0, j < simp(seq.n)))
                x = seq.elem(j)
                f = elem_formula(x, pred)
                ok = f is not None and self.valid(bterm(f))
        except (NoFork, Unsupported):
            ok = None
        except PathAbort:
            ok = True
        finally:
            if len(self.pc) != npc:
                # facts about the generic element are dropped again
                self.dead_epochs.append((s0, self.serial()))
                self.pc = self.pc[:npc]
                self.rebuild_solver()
        return z3.BoolVal(True) if ok else None

    def same_for_all(self, pl, cond):
        """True / False when cond holds of every / of no element of the list, else None"""
        from .loops import NoFork
        s0 = self.serial()
        j = self.fresh_int("gen").t
        npc = len(self.pc)
        try:
            with self.no_fork():
                self.assume(z3.And(j >= 0, j < pl.len_term()))
                c = truth(cond(pl.at(j)))
                return self.decide(c.t) if isinstance(c, SymBool) else bool(c)
        except (NoFork, Control, Exception):
            return None
        finally:
            if len(self.pc) != npc:
                self.dead_epochs.append((s0, self.serial()))
                self.pc = self.pc[:npc]
                self.rebuild_solver()

    def in_order(self, pl, key):
        """the keys of the elements do not decrease"""
        n = pl.len_term()

        def run(j):
            self.assume(z3.And(j >= 0, j + 1 < n))
            a, b = key(pl.at(j)), key(pl.at(simp(j + 1)))
            if not (V.is_num(a) and V.is_num(b)):
                return False
            a, b = V.pair(a, b)
            return self.valid(a <= b)
        return bool(self.generic(run))

    def generic_adj(self, win, pred):
        """R(x, y) for a generic pair of neighbours of a window of a computed sequence"""
        seq = win.seq
        if getattr(seq, "kind", "") == "abs":
            return None
        from .loops import NoFork
        s0 = self.serial()
        j = self.fresh_int("gen").t
        npc = len(self.pc)
        try:
            with self.no_fork():
                self.assume(z3.And(j >= 0, j + 1 < simp(seq.n)))
                a, b = seq.elem(j), seq.elem(simp(j + 1))
                f = pred.fn(a, b)
                ok = f is not None and self.valid(bterm(f))
        except (NoFork, Unsupported):
            ok = None
        except PathAbort:
            ok = True
        finally:
            if len(self.pc) != npc:
                self.dead_epochs.append((s0, self.serial()))
                self.pc = self.pc[:npc]
                self.rebuild_solver()
        return z3.BoolVal(True) if ok else None

    def window_measure(self, win, m):
        """measure of a part of a sequence, by the (unknown) measure of its beginnings; what is known of
        elements that were read is instantiated"""
        fn = getattr(win.seq, "window_measure", None)
        if fn is not None:
            return fn(win, m)
        seq = win.seq
        pm = seq.__dict__.setdefault("_pm", {})
        if m.name not in pm:
            F = self.fresh_func("pm", z3.IntSort(), z3.IntSort())
            total = seq.measure(m)
            self.axiom(F(z3.IntVal(0)) == 0)
            if total is not None:
                self.axiom(F(simp(seq.n)) == total)
            pm[m.name] = (F, set())
        F, done = pm[m.name]
        if m.nonneg:
            a, b, n = F(simp(win.lo)), F(simp(win.lo + win.n)), F(simp(seq.n))
            self.axiom(z3.And(a >= 0, z3.Implies(z3.And(win.lo >= 0, win.n >= 0, win.lo + win.n <= seq.n), z3.And(b >= a, b <= n))))
        for (st, i, y) in list(seq.memo.values()):
            if i.get_id() in done or not self.memo_valid(st):
                continue
            v = measure_of(y, m)
            if v is not None:
                self.axiom(z3.Implies(z3.And(i >= 0, i < seq.n), F(simp(i + 1)) == F(i) + v))
                if m.nonneg:
                    self.axiom(z3.Implies(z3.And(i >= 0, i < seq.n), z3.And(F(i) >= 0, F(simp(i + 1)) <= F(simp(seq.n)))))
        return simp(F(simp(win.lo + win.n)) - F(simp(win.lo)))

    def point_measure(self, m, seq, elem):
        """the measure of a sequence, of which only one element (its place is a chosen one) counts; else None"""
        from .loops import NoFork
        src = seq.src
        known = seq.__dict__.setdefault("_pm", {})
        n = src.len_term()
        lo = z3.IntVal(0)
        if len(src.chunks) == 1 and not isinstance(src.chunks[0], list):
            lo = src.chunks[0].lo
        for K in self.skolem_idx:
            k = simp(K - lo)

            def run(j):
                self.assume(z3.And(j >= 0, j < n, j != k))
                g = measure_of(elem(j), m)
                return g is not None and self.valid(g == 0)
            key = (m.name, k.get_id())
            if key not in known:
                known[key] = (bool(self.generic(run)), k)
            if known[key][0]:
                try:
                    if not self.decide(z3.And(k >= 0, k < n)):
                        return z3.IntVal(0)
                except NoFork:
                    return None
                return measure_of(elem(k), m)
        return None

    def generic_measure(self, seq, m, pair, n):
        """the same measure for a generic pair of elements (one of a computed sequence, one of its source)"""
        def run(j):
            self.assume(z3.And(j >= 0, j < n))
            a, b = pair(j)
            f, g = measure_of(a, m), measure_of(b, m)
            if f is not None and g is not None and self.valid(f == g):
                return True
            return "zero" if g is not None and m.nonneg and self.valid(g == 0) else False
        return self.generic(run)

    def generic(self, run):
        """run(j) for a generic index j, whatever is learned of it is dropped again; None if it depends on j"""
        from .loops import NoFork
        s0 = self.serial()
        j = self.fresh_int("gen").t
        npc = len(self.pc)
        try:
            with self.no_fork():
                ok = run(j)
        except (NoFork, Unsupported):
            ok = None
        except PathAbort:
            ok = True
        finally:
            if len(self.pc) != npc:
                self.dead_epochs.append((s0, self.serial()))
                self.pc = self.pc[:npc]
                self.rebuild_solver()
        return ok

    def probe_lazy(self):
        """a comprehension, no element of which was looked at, may have side effects all the same"""
        from .loops import NoFork
        for q in self.lazy:
            if q.site in self.impure - self.effects:
                raise Unsupported("comprehension with side effects")
            if q.made or q.site in self.probed:
                continue
            npc = len(self.pc)
            try:
                with self.no_fork():
                    j = self.fresh_int("gen").t
                    self.assume(z3.And(j >= 0, j < q.n))
                    if self.check(z3.BoolVal(True)) == z3.unsat:
                        continue
                    q.make(j)
                self.probed.add(q.site)
            except Unsupported:
                if q.site in self.impure:
                    raise
            except (NoFork, PathAbort, Exception):
                pass
            finally:
                self.pc = self.pc[:npc]
                self.rebuild_solver()

    def all_equal(self, pl, v):
        """assume every element of pl equals v (instantiated where read)"""
        for c in pl.chunks:
            if isinstance(c, list):
                for x in c:
                    self.assume(term_of(x) == term_of(v))
            else:
                if not hasattr(c.seq, "_alleq"):
                    c.seq._alleq = []
                old = c.seq.make
                tv = term_of(v)
                me = self

                def make(i, old=old):
                    x = old(i)
                    a, b = V.pair(x, v)
                    me.assume(a == b)
                    return x
                c.seq.make = make
                c.seq.memo.clear()

    def list_index(self, pl, x):
        fn = self.hooks.get("list_index")
        if fn:
            r = fn(self, pl, x)
            if r is not None:
                return r
        # x is in the list or ValueError; the index is some position whose element equals x
        from .runtime import eq_formula
        n = pl.len_term()
        j = self.fresh_int("idx")
        if len(pl.chunks) == 1 and not isinstance(pl.chunks[0], list):
            found = self.fresh_bool("found")
            if self.decide(found.t):
                self.assume(z3.And(j.t >= 0, j.t < n))
                y = pl.at(j.t)
                f = eq_formula(y, x)
                if f is None:
                    raise Unsupported("list.index on a symbolic list")
                self.assume(f)
                self.not_before(pl, j.t, x)
                return j
            # not in the list: no element equals x
            self.absent(pl, x)
            raise ValueError("not in list")
        from .lists import PList, py_eq
        off = z3.IntVal(0)
        for c in pl.chunks:
            if isinstance(c, list):
                for y in c:
                    if py_eq(y, x):
                        return mk(simp(off))
                    off = off + 1
                continue
            part = PList(chunks=[c])
            if self.decide(part.len_term() > 0):
                try:
                    return mk(simp(off + term_of(self.list_index(part, x))))
                except ValueError:
                    pass
            off = off + part.len_term()
        raise ValueError("not in list")

    def not_before(self, pl, j, x):
        pass

    def absent(self, pl, x):
        """x is not an element: refute with elements already known to be members"""
        from .runtime import eq_formula
        for c in pl.chunks:
            if isinstance(c, list):
                for y in c:
                    f = eq_formula(y, x)
                    if f is not None:
                        self.assume(z3.Not(f))
            else:
                for (st, i, y) in list(c.seq.memo.values()):
                    f = eq_formula(y, x)
                    if f is not None:
                        self.assume(z3.Implies(z3.And(i >= c.lo, i < c.lo + c.n), z3.Not(f)))

    def list_contains(self, pl, x):
        fn = self.hooks.get("list_contains")
        if fn:
            r = fn(self, pl, x)
            if r is not None:
                return r
        from .runtime import eq_formula

        def same(y):
            f = eq_formula(y, x)
            if f is None:
                raise Unsupported("membership")
            return SymBool(f) if z3.is_expr(f) else bool(f)
        if self.same_for_all(pl, same) is False:
            return False
        raise Unsupported("membership test on a symbolic list")

    # ----------------------------------------------------------- exploration
    def explore(self, harness, load):
        """harness(ctx) is re-executed along every feasible decision path.
        Rounds are repeated until the loop summaries are stable; the last round
        discharges the obligations."""
        V.set_engine(self)
        self.harness = harness
        self.suspects, self.impure, self.effects, self.early, self.probed = set(), set(), set(), set(), set()
        stable_rounds = 0
        try:
            while True:
                self.rounds += 1
                if self.rounds > 60:
                    raise Budget("loop summaries do not stabilise")
                self.changed = False
                self.final = stable_rounds >= 1
                if self.final:
                    self.obligations = []
                    self.exits = 0
                    self.exc_exits = {}
                    self.reached = set()
                    self.loop_vcs = 0
                for rec in self.loops.values():
                    rec.begin_round()
                try:
                    self._round(harness, load)
                except Unsupported:
                    late = self.suspects - self.early - self.impure - {None}
                    new = (self.impure if late else self.suspects | self.impure) - self.effects - {None}
                    if not new and not late:
                        raise
                    # comprehensions with side effects are loops; so are those whose elements change afterwards
                    self.early |= late
                    self.effects |= new
                    self.suspects.clear()
                    self.loops.clear()
                    stable_rounds = 0
                    continue
                again = self.refresh and any(rec.stale for rec in self.loops.values())
                for rec in list(self.loops.values()):
                    rec.end_round(self)
                    if again:
                        # what was refuted while less was known of the loops inside is a candidate again
                        for c in rec.cases:
                            c.facts = c.facts0 and list(c.facts0)
                if self.log:
                    self.log(f"  round {self.rounds}: paths={self.paths} loops={len(self.loops)} changed={self.changed}")
                if self.changed:
                    stable_rounds = 0
                    continue
                if self.final:
                    return
                stable_rounds = 1
        finally:
            V.set_engine(None)

    def _round(self, harness, load):
        stack = [()]
        n = 0
        while stack:
            self.tick()
            prefix = stack.pop()
            n += 1
            self.paths += 1
            if n > self.max_paths:
                raise Budget("too many paths")
            self.reset_run(prefix)
            try:
                try:
                    harness(load(self))
                    self._normal_exit()
                finally:
                    self.probe_lazy()
            except PathAbort:
                pass
            except LoopCut:
                pass
            except Control:
                raise
            except (z3.Z3Exception, AssertionError) as ex:
                if isinstance(ex, AssertionError) and getattr(ex, "__pydv_raised__", False):
                    self._exc_exit(ex)
                else:
                    import traceback
                    raise Unsupported("engine: " + traceback.format_exc()[-1500:])
            except RecursionError:
                raise Unsupported("recursion")
            except Exception as ex:
                self._exc_exit(ex)
            stack.extend(self.new_alts)

    def _normal_exit(self):
        if self.final:
            self.exits += 1
            self.reached |= self.covers

    def _exc_exit(self, ex):
        if getattr(ex, "__pydv_raised__", False) or isinstance(
                ex, (ZeroDivisionError, AssertionError, IndexError, ValueError, KeyError, StopIteration)):
            if self.final:
                k = f"{type(ex).__name__}: {str(ex)[:80]}"
                self.exc_exits[k] = self.exc_exits.get(k, 0) + 1
                if self.on_exception is not None:
                    self.on_exception(self, ex)
            return
        import traceback
        tb = "".join(traceback.format_exception(ex)[-6:])
        raise Unsupported(f"native {type(ex).__name__}: {ex}\n{tb}")


