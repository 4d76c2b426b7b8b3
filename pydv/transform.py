"""Mechanical source-to-source transformation of a module of /repo so that it can
run on symbolic values.  What it drops: annotations (and docstrings stay); what
it changes: list/dict/set displays and comprehensions build the verifier's
containers, for/while statements in functions go through the loop protocol,
attribute stores are logged, `in`/`==`/str.join are routed through the runtime,
and a bare `except:` becomes `except Exception:`."""
from __future__ import annotations

import ast


def names_stored(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators[:1]:
                self.visit(g.iter)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                nm = (a.asname or a.name).split(".")[0]
                if nm not in out:
                    out.append(nm)

        visit_ImportFrom = visit_Import

        def visit_MatchAs(self, n):
            if n.name and n.name not in out:
                out.append(n.name)
            self.generic_visit(n)

    for n in nodes:
        V().visit(n)
    return out


def names_loaded(nodes):
    s = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                s.add(x.id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                s.add(x.target.id)
    return s


def first_use_is_store(name, body):
    """conservatively: the first statement mentioning the name assigns it without reading"""
    for st in body:
        loads = name in names_loaded([st])
        stores = name in names_stored([st])
        if not loads and not stores:
            # nested function definitions may read it later
            continue
        if isinstance(st, ast.Assign):
            if name in names_loaded([st.value]):
                return False
            if any(name in names_loaded([t]) for t in st.targets):
                return False
            return stores
        if isinstance(st, ast.AnnAssign) and st.value is not None:
            return stores and name not in names_loaded([st.value])
        if isinstance(st, (ast.For,)):
            # the loop may run zero times
            if name in names_loaded([st.iter]):
                return False
            return False
        if isinstance(st, ast.If):
            if name in names_loaded([st.test]):
                return False
            a = first_use_is_store(name, st.body)
            b = first_use_is_store(name, st.orelse)
            if a and b:
                return True
            if not loads and False:
                return False
            # every load is preceded by a store in the same branch?
            la, lb = name in names_loaded(st.body), name in names_loaded(st.orelse)
            if (a or not la and name not in names_stored(st.body)) and \
                    (b or not lb and name not in names_stored(st.orelse)):
                # stored in one branch only: continue looking for a load later
                continue
            return False
        return False
    return None


class FuncInfo:
    def __init__(self, node):
        self.node = node
        self.locals = set()
        self.globals = set()
        self.isgen = False
        if node is not None:
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
                if x is not None:
                    self.locals.add(x.arg)
            if not isinstance(node, ast.Lambda):
                self.locals |= set(names_stored(node.body))
                st = list(node.body)
                while st:
                    x = st.pop()
                    if isinstance(x, (ast.Global, ast.Nonlocal)):
                        self.globals |= set(x.names)
                    if isinstance(x, (ast.Yield, ast.YieldFrom)):
                        self.isgen = True
                    if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                        continue
                    st.extend(ast.iter_child_nodes(x))
            self.locals -= self.globals


def call(name, *args):
    return ast.Call(ast.Attribute(ast.Name("_pydv_", ast.Load()), name, ast.Load()), list(args), [])


def const(v):
    return ast.Constant(v)


def lam(params, body, bound=()):
    """lambda params, *, b1=b1...: body"""
    return ast.Lambda(ast.arguments(
        posonlyargs=[], args=[ast.arg(p) for p in params], kwonlyargs=[ast.arg(b) for b in bound],
        kw_defaults=[call("lv", simple_lam(ast.Name(b, ast.Load()))) for b in bound], defaults=[]), body)


def simple_lam(body):
    return ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body)


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.funcs = [FuncInfo(None)]
        self.cls = []
        self.n = 0
        self.loopstack = []   # bodies of the enclosing loops (original nodes)
        self.path = []

    # ------------------------------------------------------------ annotations
    def visit_AnnAssign(self, n):
        in_class = self.cls and self.cls[-1] == len(self.funcs)
        if in_class:
            v = self.visit(n.value) if n.value is not None else None
            ann = ast.unparse(n.annotation)
            return ast.AnnAssign(n.target, const("ClassVar[object]" if "ClassVar" in ann else "object"), v, n.simple)
        if n.value is None:
            return ast.Pass()
        ann = ast.unparse(n.annotation)
        if "TypeAlias" in ann:
            return ast.Assign([n.target], ast.Name("object", ast.Load()))
        return self.visit(ast.Assign([n.target], n.value))

    def visit_arguments(self, n):
        for a in n.posonlyargs + n.args + n.kwonlyargs + [x for x in (n.vararg, n.kwarg) if x]:
            a.annotation = None
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [self.visit(d) if d is not None else None for d in n.kw_defaults]
        return n

    # ------------------------------------------------------------ scopes
    def visit_FunctionDef(self, n):
        n.returns = None
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.funcs.append(FuncInfo(n))
        saved, self.loopstack = self.loopstack, []
        self.path.append(n.name)
        orig = n.body
        self.funcs[-1].body = [ast.parse(ast.unparse(b)) for b in orig]
        n.body = self.block(orig)
        self.path.pop()
        self.loopstack = saved
        self.funcs.pop()
        n.type_params = []
        return n

    def visit_AsyncFunctionDef(self, n):
        return ast.Raise(call("raise_", ast.Name("NotImplementedError", ast.Load())), None)

    def visit_Lambda(self, n):
        n.args = self.visit(n.args)
        self.funcs.append(FuncInfo(n))
        n.body = self.visit(n.body)
        self.funcs.pop()
        return n

    def visit_ClassDef(self, n):
        self.path.append(n.name)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(d) for d in n.bases]
        self.cls.append(len(self.funcs))
        n.body = self.block(n.body)
        self.cls.pop()
        self.path.pop()
        n.decorator_list = [ast.Attribute(ast.Name("_pydv_", ast.Load()), "regclass", ast.Load())] + n.decorator_list
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def infunc(self):
        return self.funcs[-1].node is not None and not isinstance(self.funcs[-1].node, ast.Lambda)

    # ------------------------------------------------------------ loops
    def loop_vars(self, n, body_nodes, target):
        f = self.funcs[-1]
        names = [x for x in names_stored(body_nodes + ([target] if target is not None else []))
                 if not x.startswith("_pydv_")]
        if set(names) & f.globals:
            bad = sorted(set(names) & f.globals)
            return None, f"loop assigns global/nonlocal {bad}"
        tnames = set(names_stored([target])) if target is not None else set()
        # loads outside of this loop
        live = set()
        me = ast.dump(n)
        loads_out = self.loads_outside(n)
        for x in names:
            exposed = x in loads_out
            if not exposed:
                if x in tnames:
                    exposed = False
                else:
                    r = first_use_is_store(x, n.body)
                    cond_loads = isinstance(n, ast.While) and x in names_loaded([n.test])
                    exposed = not (r is True) or cond_loads
                    if x not in names_loaded(n.body) and not cond_loads:
                        exposed = False
            if exposed:
                live.add(x)
        return (names, sorted(live)), None

    def loads_outside(self, n):
        """names read in the function outside of the loop body, lexically after
        it, or anywhere in an enclosing loop"""
        f = self.funcs[-1].node
        out = set()
        scope = self.loopstack[0] if self.loopstack else f
        end = getattr(n, "end_lineno", 10 ** 9)
        inside = set()
        for x in ast.walk(n):
            inside.add(id(x))

        def walk(x):
            if id(x) in inside:
                return
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
            for c in ast.iter_child_nodes(x):
                walk(c)
        walk(scope)
        if self.loopstack:
            # loads after the outermost loop, too
            for x in ast.walk(f):
                if id(x) in inside:
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.lineno >= end:
                    out.add(x.id)
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.lineno >= end:
                    out.add(x.target.id)
        for e in n.orelse:
            out |= names_loaded([e])
        # closures defined in the function may read anything
        for x in ast.walk(f):
            if x is not f and isinstance(x, (ast.FunctionDef,)):
                out |= names_loaded([x])
        return out

    def visit_For(self, n):
        if not self.infunc() or self.cls and self.cls[-1] == len(self.funcs):
            self.generic_visit(n)
            return n
        return self.mkloop(n, n.target)

    def visit_While(self, n):
        if not self.infunc() or self.cls and self.cls[-1] == len(self.funcs):
            self.generic_visit(n)
            return n
        return self.mkloop(n, None)

    def mkloop(self, n, target):
        self.n += 1
        var = f"_pydv_L{self.n}"
        site = f"{self.mod}:{'.'.join(self.path)}:loop{self.n}"
        f = self.funcs[-1]
        lv, err = self.loop_vars(n, n.body, target)
        if err:
            return [ast.Expr(call("unsupported", const(err)))]
        names, live = lv
        it = self.visit(n.iter) if target is not None else None
        test = self.visit(n.test) if target is None else None
        self.loopstack.append(n)
        # keep the original subtree for the liveness of nested loops
        orig_body = n.body
        body = self.block_copy(orig_body)
        orelse = self.block_copy(n.orelse) if n.orelse else []
        self.loopstack.pop()
        args = [const(site), ast.Tuple([const(x) for x in names], ast.Load()),
                ast.Tuple([const(x) for x in live], ast.Load()), const(f.isgen)]
        if target is not None:
            init = ast.Assign([ast.Name(var, ast.Store())], call("loop", *args, it))
        else:
            init = ast.Assign([ast.Name(var, ast.Store())], call("While", *args))
        L = lambda a: ast.Attribute(ast.Name(var, ast.Load()), a, ast.Load())  # noqa
        stm = []
        cur = ast.Tuple([call("lv", simple_lam(ast.Name(x, ast.Load()))) for x in names], ast.Load())
        head = ast.Call(L("head"), [cur], [])
        if names:
            stm.append(ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], head))
        else:
            stm.append(ast.Expr(head))
        if target is not None:
            t = ast.Call(L("more"), [], [])
        else:
            t = ast.Call(L("cond"), [simple_lam(test)], [])
        stm.append(ast.If(ast.UnaryOp(ast.Not(), t), orelse + [ast.Break()], []))
        if target is not None:
            stm.append(self.visit(ast.Assign([target], ast.Call(L("item"), [], []))))
        stm += body
        return [init, ast.While(const(True), stm, [])]

    def block_copy(self, stmts):
        import copy
        # nested loops need identity of the original nodes for liveness: transform
        # copies, but keep a map from copies to originals
        return self.block(stmts)

    # ------------------------------------------------------------ stores
    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            return ast.Expr(call("setattr_", self.visit(t.value), const(self.mangle(t.attr)), n.value))
        if any(self.has_attr_store(t) for t in n.targets):
            # evaluate once, then store one by one
            self.n += 1
            tmp = f"_pydv_t{self.n}"
            out = [ast.Assign([ast.Name(tmp, ast.Store())], n.value)]
            for t in n.targets:
                out += self.store(t, ast.Name(tmp, ast.Load()))
            return out
        n.targets = [self.visit(t) for t in n.targets]
        t = n.targets[0]
        if len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)):
            stars = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if len(stars) == 1:
                k = stars[0]
                n.value = call("unpack_ex", n.value, const(k), const(len(t.elts) - k - 1))
                t.elts[k] = t.elts[k].value
            elif not stars and not isinstance(n.value, ast.Tuple):
                n.value = call("unpack", n.value, const(len(t.elts)))
        return n

    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__") and self.cls:
            return attr
        return attr

    def has_attr_store(self, t):
        return any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) for x in ast.walk(t))

    def store(self, t, value):
        if isinstance(t, ast.Attribute):
            return [ast.Expr(call("setattr_", self.visit(t.value), const(t.attr), value))]
        if isinstance(t, (ast.Tuple, ast.List)) and self.has_attr_store(t):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                return [ast.Expr(call("unsupported", const("starred store")))]
            names = []
            for _ in t.elts:
                self.n += 1
                names.append(f"_pydv_t{self.n}")
            out = [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], value)]
            for x, nm in zip(t.elts, names):
                out += self.store(x, ast.Name(nm, ast.Load()))
            return out
        return [ast.Assign([self.visit(t)], value)]

    def visit_AugAssign(self, n):
        import copy
        t = n.target
        v = self.visit(n.value)
        isadd = isinstance(n.op, ast.Add)

        def op(cur):
            return call("iadd", cur, v) if isadd else ast.BinOp(cur, n.op, v)
        if isinstance(t, ast.Name):
            return ast.Assign([t], op(ast.Name(t.id, ast.Load())))
        self.n += 1
        tmp = f"_pydv_t{self.n}"
        if isinstance(t, ast.Attribute):
            return [ast.Assign([ast.Name(tmp, ast.Store())], self.visit(t.value)),
                    ast.Expr(call("setattr_", ast.Name(tmp, ast.Load()), const(t.attr),
                                  op(ast.Attribute(ast.Name(tmp, ast.Load()), t.attr, ast.Load()))))]
        if isinstance(t, ast.Subscript):
            k = tmp + "k"
            return [ast.Assign([ast.Name(tmp, ast.Store())], self.visit(t.value)),
                    ast.Assign([ast.Name(k, ast.Store())], self.visit(t.slice)),
                    ast.Assign([ast.Subscript(ast.Name(tmp, ast.Load()), ast.Name(k, ast.Load()), ast.Store())],
                               op(ast.Subscript(ast.Name(tmp, ast.Load()), ast.Name(k, ast.Load()), ast.Load())))]
        return n

    # ------------------------------------------------------------ expressions
    def visit_List(self, n):
        if isinstance(n.ctx, ast.Store):
            self.generic_visit(n)
            return n
        return call("L", *[ast.Tuple([const(isinstance(x, ast.Starred)),
                                      self.visit(x.value if isinstance(x, ast.Starred) else x)], ast.Load())
                           for x in n.elts])

    def visit_Tuple(self, n):
        if isinstance(n.ctx, ast.Load) and any(isinstance(x, ast.Starred) for x in n.elts):
            lst = self.visit_List(ast.List(n.elts, ast.Load()))
            return call("tuple_", lst)
        self.generic_visit(n)
        return n

    def visit_Dict(self, n):
        return call("D", *[ast.Tuple([self.visit(k) if k is not None else
                                      ast.Attribute(ast.Name("_pydv_", ast.Load()), "DSTAR", ast.Load()),
                                      self.visit(v)], ast.Load()) for k, v in zip(n.keys, n.values)])

    def visit_Set(self, n):
        return call("S", *[self.visit(x) for x in n.elts])

    def comp(self, kind, n, elt):
        gens = []
        params = []
        bound_names = []
        for g in n.generators:
            bound_names += names_stored([g.target])
        outer = set()
        for f in self.funcs[1:]:
            outer |= f.locals
        used = names_loaded([n])
        caps = sorted(x for x in used if x in outer and x not in bound_names and x != "self_"
                      and not x.startswith("_pydv_"))
        # a comprehension variable shadowing is handled by the parameters
        tnames = []
        for g in n.generators:
            it = self.visit(g.iter)
            gens.append((list(params), it, g))
            self.n += 1
            p = f"_pydv_c{self.n}"
            params.append(p)
            tnames.append((p, g.target))

        def wrap(body, k):
            """bind the targets of the first k generators"""
            e = body
            for p, t in reversed(tnames[:k]):
                e = self.bind(t, ast.Name(p, ast.Load()), e)
            return e

        items = []
        for k, (ps, it, g) in enumerate(gens):
            itl = lam(ps, wrap(it, k), caps if k else ())
            conds = [lam(params[:k + 1], wrap(self.visit(c), k + 1), caps) for c in g.ifs]
            items.append(ast.Tuple([itl, ast.List(conds, ast.Load())], ast.Load()))
        f = lam(params, wrap(elt, len(tnames)), caps)
        gl = ast.List(items, ast.Load())
        if kind == "dict":
            return call("dictcomp", gl, f)
        self.n += 1
        return call("comp", const(kind), gl, f, const(f"{self.mod}:{'.'.join(self.path)}:comp{self.n}"))

    def bind(self, target, value, body):
        """(lambda names...: body)(*unpacked value)"""
        if isinstance(target, ast.Name):
            return ast.Call(lam([target.id], body), [value], [])
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in target.elts):
            return ast.Call(lam([x.id for x in target.elts], body), [ast.Starred(value, ast.Load())], [])
        if isinstance(target, (ast.Tuple, ast.List)):
            self.n += 1
            ps = [f"_pydv_b{self.n}_{i}" for i in range(len(target.elts))]
            e = body
            for p, t in reversed(list(zip(ps, target.elts))):
                e = self.bind(t, ast.Name(p, ast.Load()), e)
            return ast.Call(lam(ps, e), [ast.Starred(value, ast.Load())], [])
        raise SyntaxError("comprehension target")

    def visit_ListComp(self, n):
        return self.comp("list", n, self.visit(n.elt))

    def visit_SetComp(self, n):
        return self.comp("set", n, self.visit(n.elt))

    def visit_GeneratorExp(self, n):
        return self.comp("gen", n, self.visit(n.elt))

    def visit_DictComp(self, n):
        return self.comp("dict", n, ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load()))

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op, a, b = n.ops[0], n.left, n.comparators[0]
            m = {ast.Eq: "eq", ast.NotEq: "ne", ast.In: "in_", ast.NotIn: "not_in"}.get(type(op))
            if m:
                return call(m, a, b)
        elif any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            return call("unsupported", const("chained membership test"))
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1 and not n.keywords:
            return call("join", self.visit(n.func.value), self.visit(n.args[0]))
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars", "eval", "exec"):
            if not self.infunc():
                return n
            return call("unsupported", const(n.func.id))
        self.generic_visit(n)
        return n

    def visit_NamedExpr(self, n):
        self.generic_visit(n)
        return n

    # ------------------------------------------------------------ exceptions
    def visit_ExceptHandler(self, n):
        if n.type is None:
            n.type = ast.Name("Exception", ast.Load())
        else:
            n.type = self.visit(n.type)
        n.body = self.block(n.body)
        return n

    def visit_Raise(self, n):
        if n.exc is not None:
            n.exc = call("raise_", self.visit(n.exc))
        if n.cause is not None:
            n.cause = self.visit(n.cause)
        return n

    def visit_Assert(self, n):
        return ast.Expr(call("assert_", self.visit(n.test), self.visit(n.msg) if n.msg else const(None)))

    def visit_Delete(self, n):
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                return ast.Expr(call("unsupported", const("del attribute")))
        self.generic_visit(n)
        return n

    def visit_Import(self, n):
        return n

    def visit_Global(self, n):
        return n


def transform(source, modname, filename):
    tree = ast.parse(source, filename)
    # loops are transformed in place; liveness looks at the original nodes, so
    # work on a deep copy and keep the originals for the analysis
    t = Transform2(modname)
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Transform2(Transform):
    """computes the loop variables of every loop before anything is rewritten"""

    def visit_Module(self, n):
        self.pre = {}
        self.collect(n, [], None)
        n.body = self.block(n.body)
        return n

    def collect(self, node, loops, func):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.collect(c, [], c)
            elif isinstance(c, ast.ClassDef):
                self.collect(c, [], None)
            elif isinstance(c, (ast.For, ast.While)) and func is not None:
                self.loopstack = loops
                self.funcs.append(FuncInfo(func))
                self.pre[id(c)] = Transform.loop_vars(
                    self, c, c.body, c.target if isinstance(c, ast.For) else None)
                self.funcs.pop()
                self.loopstack = []
                self.keep = getattr(self, "keep", [])
                self.keep.append(c)
                self.collect(c, loops + [c], func)
            else:
                self.collect(c, loops, func)

    def loop_vars(self, n, body, target):
        return self.pre[id(n)]
