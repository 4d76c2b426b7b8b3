"""C01: every rapid of random real operations, of the transition function and of the routers."""
import ops
import trace
import routed

RULE = "random real operations, transitions and routed wires/contours; non-trivial: at least one rapid in X or Y"


def case_op(R, **d):
    job, cmds = ops.build(d)
    from cq_cam.command import RapidCommand
    if not any(isinstance(c, RapidCommand) and trace.moves(c, "xy") for c in cmds):
        R.trivial_case()
    trace.safe(R, cmds, job, d["op"])


def case_two(R, first, second):
    """an operation added after another one starts safely too"""
    job, _ = ops.build(first)
    second = dict(second, job=first["job"])
    new, cmds = ops.build(second, job)
    trace.safe(R, cmds, new, second["op"])


def case_rapid_to(R, **kw):
    job, cmds = routed.rapid_to(**kw)
    safe = kw["safe"]

    class J:
        op_safe_height = 1e9 if safe is None else safe
        rapid_height = kw["rapid"]
    trace.safe(R, cmds, J, "routed")
    routed.descends(R, cmds, kw)


def case_route(R, **kw):
    job, cmds, _ = routed.route(kw)
    trace.safe(R, cmds, job, "routed")


def generate(R):
    rng = R.rng("C01")
    n = 3 if R.thorough else 1
    for _ in range(300 * n):
        yield "rapid_to", routed.r_rapid_to(rng)
    for _ in range(160 * n):
        yield "route", routed.r_route(rng)
    for _ in range(220 * n):
        yield "op", ops.rop(rng)
    for _ in range(40 * n):
        j = dict(ops.rjob(rng), precision=1, tool_diameter=rng.choice([1, 2]))
        kinds = ("profile", "wires", "pocket", "drill")
        yield "two", {"first": ops.rop(rng, kinds, dict(j)), "second": ops.rop(rng, kinds, dict(j))}


def from_model(case, model):
    yield from routed.from_model(case, model)
