"""Loads the modules of /repo/src through the transformation."""
from __future__ import annotations

import builtins
import os
import sys
import types
from . import values as V
from .values import Unsupported
from .lists import PList, PDict, PSet, to_plist
from . import runtime, stubs, transform

REAL = {"typing", "dataclasses", "abc", "enum", "__future__", "fractions", "types", "typing_extensions"}
_code = {}


class Program:
    def __init__(self, src):
        self.src = src
        self.mods = {}
        self.builtins = runtime.make_builtins(self.importer)
        self.snap = None
        self.functions = set()
        self.files = {}

    # ---------------------------------------------------------------- import
    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            name = pkg + ("." + name if name else "")
        if fromlist:
            m = self.load(name)
            for a in fromlist:
                if a == "*":
                    raise Unsupported("import *")
                if not hasattr(m, a) and name.split(".")[0] == "cq_cam":
                    setattr(m, a, self.load(f"{name}.{a}"))
            return m
        self.load(name)
        return self.load(name.split(".")[0])

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        root = name.split(".")[0]
        if root == "cq_cam":
            return self.load_repo(name)
        if name in self.ext:
            m = self.ext[name]
        elif root in REAL:
            m = builtins.__import__(name, fromlist=["x"])
        elif root in ("OCP", "cadquery", "numpy", "pyclipper", "shapely", "opencamlib", "cq_editor",
                      "itertools", "functools", "collections", "copy", "operator", "random", "re",
                      "string", "decimal", "heapq", "bisect", "statistics"):
            m = stubs.Mod(name)
        else:
            raise Unsupported(f"import of {name}")
        self.mods[name] = m
        if "." in name:
            p, c = name.rsplit(".", 1)
            setattr(self.load(p), c, m)
        return m

    def load_repo(self, name):
        path = os.path.join(self.src, *name.split("."))
        pkg = os.path.isdir(path)
        f = os.path.join(path, "__init__.py") if pkg else path + ".py"
        if not os.path.exists(f):
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__file__ = f
        m.__package__ = name if pkg else name.rsplit(".", 1)[0]
        if pkg:
            m.__path__ = [path]
        self.mods[name] = m
        sys.modules[name] = m       # dataclasses look the defining module up there
        if "." in name:
            p, c = name.rsplit(".", 1)
            setattr(self.load(p), c, m)
        d = m.__dict__
        d["__builtins__"] = self.builtins
        d["_pydv_"] = runtime
        src = open(f).read()
        self.files[name] = f
        if pkg and name == "cq_cam":
            # the package re-exports: loaded lazily, submodule by submodule
            d["__all__"] = []
            return m
        key = (f, src)
        code = _code.get(key)
        if code is None:
            code = _code[key] = transform.transform(src, name, f)
        exec(code, d)
        return m

    # ---------------------------------------------------------------- state
    def containers(self):
        seen = {}

        def visit(v):
            if isinstance(v, (PList, PDict, PSet)) and id(v) not in seen:
                seen[id(v)] = v

        def defaults(f):
            if isinstance(f, (staticmethod, classmethod)):
                f = f.__func__
            if isinstance(f, property):
                for g in (f.fget, f.fset):
                    defaults(g)
                return
            if isinstance(f, types.FunctionType):
                for dd in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
                    visit(dd)
        for n, m in self.mods.items():
            if not n.startswith("cq_cam"):
                continue
            for v in list(m.__dict__.values()):
                visit(v)
                defaults(v)
                if isinstance(v, type) and v.__module__ == n:
                    for w in list(v.__dict__.values()):
                        visit(w)
                        defaults(w)
        return list(seen.values())

    def snapshot(self):
        self.snap = [(c, dict(c.__dict__)) for c in self.containers()]
        self.gl = {n: dict(m.__dict__) for n, m in self.mods.items() if n.startswith("cq_cam")}

    def restore(self):
        e = V.eng()
        for n, d in self.gl.items():
            md = self.mods[n].__dict__
            for k in list(md):
                if k not in d:
                    del md[k]
            md.update(d)
        for c, d in self.snap:
            c.__dict__.clear()
            c.__dict__.update(d)
            c.serial = e.reg_list(c)

    def start(self, modules):
        e = V.eng()
        e.loading = True
        try:
            self.ext = stubs.build_modules()
            for m in modules:
                self.load(m)
        finally:
            e.loading = False
        self.snapshot()

    def __getitem__(self, name):
        return self.mods[name]


def loader(src, modules):
    prog = Program(src)

    def load(e):
        if prog.snap is None:
            prog.start(modules)
            # run-time state starts after loading
            e.reset_run(e.prefix)
        e.loading = False
        prog.restore()
        return prog
    return load
