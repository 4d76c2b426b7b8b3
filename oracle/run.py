"""Run-time contract checker: executes the real code of /repo/src.

  run.py Cxx --tier quick --seed 1 --shard 0/3 --deadline 150 --out out.json
  run.py Cxx --case '{"case": "name", "params": {...}}'      (replay)
  run.py Cxx --model '{"case": "name", "model": {...}}'      (verifier model)
"""
import argparse
import importlib
import json
import os
import random
import re
import sys
import time
import traceback
import warnings
import zlib

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


GAP = re.compile(r"^module '[\w.]*' has no attribute|^type object '\w+' has no attribute|unexpected keyword argument"
                 r"|required (keyword-only|positional) argument|positional arguments? but|cannot import name")


class Fail(Exception):
    pass


class Run:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.thorough = tier == "thorough"
        self.violations = []
        self.evaluations = 0
        self.gaps = []
        self.trivial = 0
        self.distinct = set()
        self.samples = []
        self.cur = None

    def rng(self, *key):
        return random.Random(repr((self.seed, key)))

    def fail(self, msg, key=None):
        raise Fail(msg)

    def check(self, cond, msg, *args):
        if not cond:
            raise Fail(msg % args if args else msg)

    def near(self, a, b, msg, tol=1e-6):
        if not (abs(a - b) <= tol):
            raise Fail(f"{msg}: {a} vs {b}")

    def trivial_case(self):
        self.trivial += 1
        self.cur_trivial = True

    def run_case(self, mod, name, params):
        self.cur = (name, params)
        self.cur_trivial = False
        self.evaluations += 1
        try:
            getattr(mod, "case_" + name)(self, **params)
        except Fail as f:
            self.report(name, params, str(f))
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            if "cq_cam" not in tb[-1].filename and GAP.search(str(ex)):
                # the function this case calls directly was renamed or takes other arguments:
                # the case says nothing about this source
                self.gaps.append(f"{name}: {ex}")
                self.trivial_case()
                return
            where = [f"{os.path.basename(t.filename)}:{t.lineno} {t.name}" for t in tb if "cq_cam" in t.filename][-3:]
            self.report(name, params, f"{type(ex).__name__}: {ex} at {where or [str(t) for t in tb[-2:]]}")
        if not self.cur_trivial:
            k = zlib.crc32(repr((name, sorted(params.items(), key=str))).encode())
            self.distinct.add(k)
            if len(self.samples) < 3:
                self.samples.append({"case": name, "params": params})

    def report(self, name, params, msg):
        key = f"{name}:{zlib.crc32(repr((name, sorted(params.items(), key=str))).encode()):08x}"
        self.violations.append({"case": name, "params": params, "message": msg[:1500], "key": key})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--deadline", type=float, default=1e9)
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--model")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    r = Run(a.tier, a.seed)
    res = {"status": "ok", "detail": ""}
    skipped = 0
    try:
        mod = importlib.import_module(a.prop)
        if a.case:
            c = json.loads(a.case)
            r.run_case(mod, c["case"], c["params"])
        elif a.model:
            c = json.loads(a.model)
            for name, params in getattr(mod, "from_model")(c["case"], c["model"]) or []:
                r.run_case(mod, name, params)
        else:
            k, n = map(int, a.shard.split("/"))
            times = {}
            for i, (name, params) in enumerate(mod.generate(r)):
                if i % n != k:
                    continue
                if time.time() - t0 > a.deadline:
                    skipped += 1
                    continue
                t = time.time()
                nv = len(r.violations)
                r.run_case(mod, name, params)
                times.setdefault(name, [0, 0.0])
                times[name][0] += 1
                times[name][1] += time.time() - t
                if a.v and len(r.violations) > nv:
                    print("FAIL", r.violations[-1])
                if len(r.violations) >= 8:
                    break
            res["times"] = times
        res["rule"] = getattr(mod, "RULE", "")
    except Exception:
        res["status"] = "error"
        res["detail"] = traceback.format_exc()[-2500:]
    res.update(violations=r.violations, evaluations=r.evaluations, distinct=len(r.distinct), samples=r.samples,
               skipped=skipped, gaps=r.gaps[:20], wall_s=round(time.time() - t0, 2))
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f, default=str)
    else:
        print(json.dumps(res, indent=1, default=str)[:6000])
    sys.exit(1 if r.violations else 0)


if __name__ == "__main__":
    main()
