"""C02: positions tracked through random real operations, from the motions and from the text."""
import copy
import ops
import trace
import routed

RULE = "random real operations, transitions and routed wires/contours; non-trivial: at least three motions"


def case_op(R, **d):
    job, cmds = ops.build(d)
    if len(cmds) < 3:
        R.trivial_case()
    trace.continuous(R, cmds)


def case_rapid_to(R, **kw):
    job, cmds = routed.rapid_to(**kw)
    pos = trace.continuous(R, cmds, kw["start"])
    for a, b in zip(pos, kw["end"]):
        R.near(a, b, "the transition does not end on the target", 1e-9)


def case_route(R, **kw):
    job, cmds, inputs = routed.route(kw)
    trace.continuous(R, cmds, kw.get("prev"))
    before, after = inputs
    R.check(before == after, "routing modified what it was given: %s -> %s", before, after)
    R.check(cmds, "no motions")


def generate(R):
    rng = R.rng("C02")
    n = 3 if R.thorough else 1
    for _ in range(200 * n):
        yield "rapid_to", routed.r_rapid_to(rng)
    for _ in range(260 * n):
        yield "route", routed.r_route(rng)
    for _ in range(220 * n):
        yield "op", ops.rop(rng)


def from_model(case, model):
    yield from routed.from_model(case, model)
