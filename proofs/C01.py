"""C01: rapid moves only travel at a safe height."""
import z3
from pydv import values as V
from .base import *
from .routes import *

UNITS = []
unit = units(UNITS)


@unit("the transition between two tool paths", MODS, replay="rapid_to", must_cover=["moved", "in place"])
def transition(P):
    e = V.eng()
    e.on_exception = no_exception()
    M, A = P["cq_cam.routers"], P["cq_cam.address"]
    cq = P.mods["cadquery"]
    job = JobStub(e)
    known = B(e, "known")
    s = A.AddressVector(*[R(e, "s" + c) for c in "xyz"]) if known else A.AddressVector()
    end = cq.Vector(R(e, "ex"), R(e, "ey"), R(e, "ez"))
    safe = opt(e, "safe", lambda: job.op_safe_height)
    pf = opt(e, "plunge", lambda: job.plunge_feed)
    mark = e.write_mark()
    cmds = M.rapid_to(s, end, job.rapid_height, safe, pf)
    frame(e, mark, "positions given are not modified")
    sp, ch = safe_pred(P, job), chain_pred(P)
    its = cmds.items()
    e.cover("moved" if any(type(c).__name__ == "Rapid" for c in its) else "in place")
    prove_list(e, "transition", cmds, sp, ch)
    first = its[0]
    C = P["cq_cam.command"]
    e.prove("it begins with a vertical rapid to the rapid height",
            z3.And(z3.BoolVal(isinstance(first, C.RapidCommand)), num(first.end.z) == num(job.rapid_height),
                   z3.Not(diff(first.start.x, first.end.x)), z3.Not(diff(first.start.y, first.end.y))))
    last = its[-1]
    e.prove("it ends on the start of the path", z3.And(*[eqv(a, b) for a, b in zip(xyz(last.end), xyz(end))]))
    e.prove("it starts where the tool is", z3.And(*[eqv(a, b) for a, b in zip(xyz(first.start), xyz(s))]))
    # a descent below the safe height is a cut
    for c in its:
        if isinstance(c, C.RapidCommand) and safe is not None:
            e.prove("rapids stop at the safe height", z3.Or(num(c.end.z) >= num(safe),
                                                            num(c.end.z) >= num(job.rapid_height)))
        if isinstance(c, C.RapidCommand):
            e.prove("rapids never go below the target",
                    z3.Or(num(c.end.z) >= num(end.z), num(c.end.z) >= num(job.rapid_height)))


def first_ok(e, P, cmds, job, label):
    C = P["cq_cam.command"]
    c = cmds.at(z3.IntVal(0))
    e.prove(f"{label}: the first move is a vertical rapid to the rapid height",
            z3.And(z3.BoolVal(isinstance(c, C.RapidCommand)), z3.BoolVal(c.end.z is not None) if c.end.z is None else
                   num(c.end.z) == num(job.rapid_height),
                   z3.Not(diff(c.start.x, c.end.x)), z3.Not(diff(c.start.y, c.end.y))))


PRE = (lambda P, job: [safe_pred(P, job)]), (lambda P: [chain_pred(P)]), first_ok
cases(unit, polyfaces_run, "contour milling", POLY_TRUST, *PRE)
cases(unit, wires_run, "wire milling", WIRE_TRUST, *PRE)
