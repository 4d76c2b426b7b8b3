"""C15: the feed of every motion of random real operations."""
import ops
import trace
import routed

RULE = "random real operations (feeds changed by tools), transitions and routed wires; non-trivial: at least one cutting motion"


def case_op(R, tool, **d):
    jb, pl = ops.job(d["job"])
    feed, plunge = jb.feed, jb.plunge_feed
    if tool is not None and d["op"] != "surface":
        jb = jb.update_tool(ops.Tool(feed=tool))
        R.check(jb.feed == tool, "the tool's feed is not used")
        R.check(jb.plunge_feed == plunge, "the tool's feed changed the plunge feed")
    job, cmds = ops.build(d, jb)
    want = d["job"].get("plunge_feed", d["job"]["feed"])
    R.check(jb.plunge_feed == want, "plunge feed %s, wanted %s", jb.plunge_feed, want)
    if not trace.paths(cmds):
        R.trivial_case()

    class J:
        plunge_feed = want
    J.feed = tool if tool is not None and d["op"] != "surface" else d["job"]["feed"]
    trace.feeds(R, cmds, J)


def case_rapid_to(R, **kw):
    job, cmds = routed.rapid_to(**kw)
    from cq_cam.command import FeedRateCommand
    for c in cmds:
        if isinstance(c, FeedRateCommand):
            R.check(c.feed == kw["plunge"], "the descent is cut at %s, the plunge feed is %s", c.feed, kw["plunge"])


def case_route(R, **kw):
    job, cmds, _ = routed.route(kw)
    trace.feeds(R, cmds, job)


def generate(R):
    rng = R.rng("C15")
    n = 3 if R.thorough else 1
    for _ in range(150 * n):
        yield "rapid_to", routed.r_rapid_to(rng)
    for _ in range(160 * n):
        yield "route", routed.r_route(rng)
    for _ in range(260 * n):
        yield "op", dict(ops.rop(rng), tool=rng.choice([None, None, 111, 222.5]))


def from_model(case, model):
    yield from routed.from_model(case, model)
