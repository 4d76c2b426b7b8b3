"""C15: material is only entered and cut at the configured feeds."""
import z3
from pydv import values as V
from .base import *
from .routes import *

UNITS = []
unit = units(UNITS)
FD = (lambda P, job: [feed_pred(P, job), plunge_pred(P, job)]), (lambda P: [])


@unit("the transition between two tool paths", MODS, replay="rapid_to")
def transition(P):
    e = V.eng()
    e.on_exception = no_exception()
    C = P["cq_cam.command"]
    job, s, end, safe, cmds = transition_run_pf(e, P)
    prove_list(e, "transition", cmds, feed_pred(P, job), plunge_pred(P, job))
    for c in cmds.items():
        if isinstance(c, C.FeedRateCommand):
            e.prove("a descent is a plunge at the plunge feed",
                    z3.And(z3.BoolVal(isinstance(c, C.PlungeCut)), eqv(c.feed, job.plunge_feed)))


def transition_run_pf(e, P):
    M, A = P["cq_cam.routers"], P["cq_cam.address"]
    cq = P.mods["cadquery"]
    job = JobStub(e)
    s = A.AddressVector(*[R(e, "s" + c) for c in "xyz"]) if B(e, "known") else A.AddressVector()
    end = cq.Vector(R(e, "ex"), R(e, "ey"), R(e, "ez"))
    safe = opt(e, "safe", lambda: job.op_safe_height)
    if B(e, "named"):
        cmds = M.rapid_to(s, end, job.rapid_height, safe, plunge_feed=job.plunge_feed)
    else:
        cmds = M.rapid_to(s, end, job.rapid_height, safe, job.plunge_feed)
    return job, s, end, safe, cmds


cases(unit, polyfaces_run, "contour milling", POLY_TRUST, *FD, None)
cases(unit, wires_run, "wire milling", WIRE_TRUST, *FD, None)
