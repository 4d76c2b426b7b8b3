"""C06: building on a job leaves it alone."""
import z3
from pydv import values as V
from .base import *
from .C04 import make_job
from .C05 import sym_job, op_contracts, MODS

UNITS = []
unit = units(UNITS)
M = MODS + ["cq_cam.operations.drill", "cq_cam.operations.op3d"]


def prefix(e, job, new, n, label):
    ops, old = new.operations, job.operations
    e.prove(f"{label}: the list of operations is the new job's own", mkbool(z3.BoolVal(ops is not old)))
    e.prove(f"{label}: the previous job keeps its operations", old.len_term() == n)
    ln = ops.len_term()
    e.prove(f"{label}: the new job starts with the same operations", ln >= n)
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < n))
    if e.check(z3.BoolVal(True)) == z3.unsat:
        return
    a = ops.at(K)
    e.prove(f"{label}: in the same order", a.i == K if hasattr(a, "i") else z3.BoolVal(False))


ATTRS = ["feed", "speed", "tool_diameter", "tool_number", "name", "plunge_feed", "rapid_height", "op_safe_height",
         "precision", "unit", "plane", "coordinate", "distance", "arc_distance", "controller_motion", "coolant", "top"]


@unit("adding operations: the previous job, its settings and operations stay", M,
      must_cover=["pocket", "profile", "drill", "wire_profile", "surface3d"],
      requires=["the tool path functions return motions and do not write to the job (checked by the units of the "
                "other properties and at run time)"])
def adding(P):
    e = V.eng()
    e.on_exception = no_exception(allow=("ValueError",))
    F, T = P["cq_cam.fluent"], P["cq_cam.tool"]
    run, calls = op_contracts(P)

    class D:
        def __init__(self, job, *a, **k):
            self.commands = run(job)
    P["cq_cam.operations.drill"].Drill = D
    P["cq_cam.operations.op3d"].Surface3D = D
    job, n = sym_job(e, P, None)
    inner = pick(e, "inner wires", [0, 1])
    F.extract_wires = lambda s: (PList([1]), PList([2] * inner))
    kind = pick(e, "kind", ["pocket", "profile", "drill", "wire_profile", "surface3d"])
    with_tool = kind != "surface3d" and e.choose(2)
    kw = {}
    if with_tool:
        kw["tool"] = T.Tool(tool_number=opt(e, "t_number", lambda: I(e, "t_number", lo=0)),
                            speed=opt(e, "t_speed", lambda: R(e, "t_speed", gt=0)),
                            feed=R(e, "t_feed", gt=0), tool_diameter=R(e, "t_diameter", gt=0))
    before = {a: getattr(job, a) for a in ATTRS}
    areas = PList([1])
    mark = e.write_mark()
    new = {"pocket": lambda: job.pocket(areas, **kw), "profile": lambda: job.profile(areas, **kw),
           "drill": lambda: job.drill(areas, **kw), "wire_profile": lambda: job.wire_profile(areas, **kw),
           "surface3d": lambda: job.surface3d(areas)}[kind]()
    e.cover(kind)
    frame(e, mark, f"{kind}: nothing the caller has is modified")
    e.prove(f"{kind}: a new job is returned", mkbool(z3.BoolVal(new is not job)))
    prefix(e, job, new, n, kind)
    for a in ATTRS:
        if a in ("tool_number", "speed", "tool_diameter", "feed") and with_tool:
            continue
        x, y = getattr(new, a), before[a]
        e.prove(f"{kind}: the new job keeps the settings", x is y or eq_val(x, y))
    # the operation belongs to its own branch
    last = new.operations.at(z3.simplify(new.operations.len_term() - 1))
    second = job.pocket(areas)
    prefix(e, job, second, n, "second branch")
    e.prove("branches do not share their lists", mkbool(z3.BoolVal(second.operations is not new.operations)))
    again = new.operations.at(z3.simplify(new.operations.len_term() - 1))
    e.prove("a later branch leaves the first one's last operation in place", mkbool(z3.BoolVal(again is last)))


def eq_val(x, y):
    tx, ty = V.term_of(x) if not isinstance(x, str) else None, V.term_of(y) if not isinstance(y, str) else None
    if tx is not None and ty is not None:
        return num(x) == num(y)
    return mkbool(z3.BoolVal(type(x) is type(y) and (x is y or x == y)))


@unit("changing the tool by itself leaves the job alone", M)
def tool(P):
    e = V.eng()
    e.on_exception = no_exception()
    T = P["cq_cam.tool"]
    job, n = sym_job(e, P, pick(e, "coolant", [None, "FLOOD"]))
    t = T.Tool(tool_number=opt(e, "t_number", lambda: I(e, "t_number", lo=0)),
               speed=opt(e, "t_speed", lambda: R(e, "t_speed", gt=0)),
               feed=opt(e, "t_feed", lambda: R(e, "t_feed", gt=0)),
               tool_diameter=opt(e, "t_diameter", lambda: R(e, "t_diameter", gt=0)))
    mark = e.write_mark()
    new = job.update_tool(t)
    frame(e, mark, "nothing the caller has is modified")
    e.prove("a new job is returned", mkbool(z3.BoolVal(new is not job)))
    # changing the new one further does not reach the old one
    newer = new.update_tool(t)
    e.prove("the previous job keeps its operations", job.operations.len_term() == n)
    mark = e.write_mark()
    new.update_tool(t)
    frame(e, mark, "nor by a second change")


@unit("rendering changes nothing", M)
def render(P):
    e = V.eng()
    e.on_exception = no_exception()
    F = P["cq_cam.fluent"]
    job, n = sym_job(e, P, None)

    class Op:
        def __init__(self, i):
            self.i = i

        def to_gcode(self):
            return e.opaque_token("op", (self.i,))
    job.operations = PList.of_seq(fseq(n, Op))
    mark = e.write_mark()
    job.to_gcode()
    frame(e, mark, "nothing is modified by rendering")
