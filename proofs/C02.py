"""C02: motions form one continuous tool path."""
import z3
from pydv import values as V
from .base import *
from .routes import *

UNITS = []
unit = units(UNITS)
CH = (lambda P, job: []), (lambda P: [chain_pred(P)])


@unit("the transition between two tool paths", MODS, replay="rapid_to")
def transition(P):
    e = V.eng()
    e.on_exception = no_exception()
    job, s, end, safe, cmds = transition_run(e, P)
    prove_list(e, "transition", cmds, chain_pred(P))
    its = cmds.items()
    e.prove("it has a lift and a descent", mkbool(z3.BoolVal(len(its) >= 2)))
    e.prove("it starts where the tool is", z3.And(*[eqv(a, b) for a, b in zip(xyz(its[0].start), xyz(s))]))
    e.prove("it ends on the start of the path", z3.And(*[eqv(a, b) for a, b in zip(xyz(its[-1].end), xyz(end))]))


def classes(C):
    return {"Rapid": (C.Rapid, False, False), "Cut": (C.Cut, True, False), "Retract": (C.Retract, False, True),
            "PlungeRapid": (C.PlungeRapid, False, True), "PlungeCut": (C.PlungeCut, True, True)}


@unit("a motion keeps the coordinates it does not mention", MODS, must_cover=["made"])
def partial_motion(P):
    e = V.eng()
    e.on_exception = no_exception()
    C, A = P["cq_cam.command"], P["cq_cam.address"]
    kind = pick(e, "kind", ["Rapid", "Cut", "Retract", "PlungeRapid", "PlungeCut"])
    cls, fed, vertical = classes(C)[kind]
    s = A.AddressVector(*[opt(e, "s" + c, lambda c=c: R(e, "s" + c)) for c in "xyz"])
    before = xyz(s)
    given = {c: opt(e, "t" + c, lambda c=c: R(e, "t" + c)) for c in ("z" if vertical else "xyz")}
    mark = e.write_mark()
    c = cls.abs(**given, start=s)
    frame(e, mark, "the start given is not modified")
    e.cover("made")
    for k, b in zip("xyz", before):
        want = given.get(k)
        got = getattr(c.end, k)
        e.prove("a coordinate that is given is the target", eqv(got, want) if want is not None else z3.BoolVal(True))
        e.prove("a coordinate that is not given keeps its value", eqv(got, b) if want is None else z3.BoolVal(True))
        e.prove("the motion starts where it was told to", eqv(getattr(c.start, k), b))


cases(unit, polyfaces_run, "contour milling", POLY_TRUST, *CH, None)
cases(unit, wires_run, "wire milling", WIRE_TRUST, *CH, None)
