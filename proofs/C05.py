"""C05: tool, spindle and coolant state of each operation."""
import z3
from pydv import values as V
from .base import *
from .C04 import COOL, make_job

UNITS = []
unit = units(UNITS)
MODS = ["cq_cam.groups", "cq_cam.command", "cq_cam.tool", "cq_cam.fluent"]


class Machine:
    """reads blocks as a controller does: spindle, speed, coolant, tool, position"""

    def __init__(self, tool=None, speed=None, coolant=None, on=True):
        self.tool, self.speed, self.coolant, self.on = tool, speed, coolant, on
        self.called = None
        self.home = self.paused = False
        self.bad = []
        self.changes = 0

    def run(self, text):
        for ws in words(text):
            ws = [w for w in ws if w]
            if any(w[0].startswith("G") and w[0] in ("G0", "G1", "G2", "G3") for w in ws):
                self.home = self.paused = False
            names = [w[0] for w in ws]
            for w in ws:
                if w[0] == "S":
                    self.speed = w[1][1]
                elif w[0].startswith("S") and len(w) == 1:
                    self.speed = float(w[0][1:])
                elif w[0] == "T":
                    self.called = w[1][1]
                elif w[0].startswith("T") and len(w) == 1:
                    self.called = int(w[0][1:])
            for w in ws:
                n = "".join(x if isinstance(x, str) else "#" for x in w)
                if n == "M5":
                    self.on = False
                elif n == "M3":
                    self.on = True
                elif n == "M4":
                    self.bad.append("turns backwards")
                elif n in ("M7", "M8"):
                    self.coolant = n
                elif n == "M9":
                    self.coolant = None
                elif n in ("G28", "G30"):
                    self.home = True
                elif n in ("M0", "M1"):
                    self.paused = True
                elif n == "M6":
                    self.changes += 1
                    if self.on:
                        self.bad.append("tool change while the spindle turns")
                    if not self.home:
                        self.bad.append("tool change away from home")
                    if not self.paused:
                        self.bad.append("tool change without pause")
                    if self.coolant is not None:
                        self.bad.append("tool change with coolant on")
                    self.tool = self.called
            # tool length offset goes with the tool
            h = [w for w in ws if w[0].startswith("H")]
            if "M6" in names:
                if len(h) != 1 or "G43" not in names:
                    self.bad.append("no tool length offset")
                elif len(h[0]) == 2:
                    if not z3.is_true(z3.simplify(num(h[0][1][1]) == num(self.tool))):
                        self.bad.append("tool length offset of another tool")


def same(e, label, a, b):
    if a is None or b is None:
        e.prove(label, mkbool(z3.BoolVal(a is None and b is None)))
    elif isinstance(a, str) or isinstance(b, str):
        e.prove(label, mkbool(z3.BoolVal(a == b)))
    else:
        e.prove(label, num(a) == num(b))


def sym_job(e, P, co):
    F, Gr = P["cq_cam.fluent"], P["cq_cam.groups"]
    n = e.fresh_int("n").t
    e.assume(n >= 0)
    job = make_job(P, feed=R(e, "feed", gt=0), speed=opt(e, "speed", lambda: R(e, "speed", gt=0)),
                   tool_number=opt(e, "tool", lambda: I(e, "tool", lo=0)),
                   tool_diameter=opt(e, "diameter", lambda: R(e, "diameter", gt=0)),
                   coolant=None if co is None else getattr(Gr.CoolantState, co))

    nc = e.fresh_func("motions", z3.IntSort(), z3.IntSort())

    class Op:
        def __init__(self, i):
            self.i = i
            self.job = job
            self.name = e.opaque_token("opname", (i,))
            e.axiom(nc(i) >= 0)
            self.commands = PList.of_seq(fseq(nc(i), lambda k: ("motion", i, k)))
    job.operations = PList.of_seq(fseq(n, Op))
    return job, n


@unit("the program starts with the first operation's spindle speed and coolant", MODS)
def start(P):
    e = V.eng()
    e.on_exception = no_exception()
    C, Gr = P["cq_cam.command"], P["cq_cam.groups"]
    co = pick(e, "coolant", [None, "MIST", "FLOOD"])
    speed = opt(e, "speed", lambda: R(e, "speed", gt=0))
    m = Machine(on=False)
    m.run(str(C.StartSequence(speed=speed, coolant=None if co is None else getattr(Gr.CoolantState, co))))
    e.prove("the spindle turns", mkbool(z3.BoolVal(m.on and not m.bad)))
    same(e, "at the speed", m.speed, speed)
    same(e, "with the coolant", m.coolant, COOL.get(co))
    m.run(str(C.StopSequence(None if co is None else getattr(Gr.CoolantState, co))))
    e.prove("stopping stops spindle and coolant", mkbool(z3.BoolVal(not m.on and m.coolant is None)))


@unit("changing the tool: the machine state becomes the new job's state", MODS,
      must_cover=["tool change", "speed change", "neither"],
      requires=["before the change the machine has the job's tool, speed and coolant (induction hypothesis; "
                "established by the header for a new job)"])
def update(P):
    e = V.eng()
    e.on_exception = no_exception()
    T = P["cq_cam.tool"]
    co = pick(e, "coolant", [None, "MIST", "FLOOD"])
    job, n = sym_job(e, P, co)
    old = dict(tool=job.tool_number, speed=job.speed, diameter=job.tool_diameter, feed=job.feed)
    tool = T.Tool(tool_diameter=opt(e, "t_diameter", lambda: R(e, "t_diameter", gt=0)),
                  tool_number=opt(e, "t_number", lambda: I(e, "t_number", lo=0)),
                  feed=opt(e, "t_feed", lambda: R(e, "t_feed", gt=0)),
                  speed=opt(e, "t_speed", lambda: R(e, "t_speed", gt=0)))
    mark = e.write_mark()
    new = job.update_tool(tool)
    frame(e, mark, "the job it is called on is unchanged")
    # the machine: previous state, then the commands of the added operations
    m = Machine(tool=old["tool"], speed=old["speed"], coolant=COOL.get(co))
    ops = new.operations
    added = PList(chunks=ops.copy_chunks())
    ln = ops.len_term()
    e.prove("previous operations are kept", ln >= n)
    cnt = z3.simplify(ln - n)
    if not z3.is_int_value(cnt):
        e.fail("a definite number of operations is added", str(cnt))
        return
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < n))
    if e.check(z3.BoolVal(True)) != z3.unsat:
        a, b = ops.at(K), job.operations.at(K)
        e.prove("previous operations stay in place", mkbool(z3.BoolVal(hasattr(a, "i") and hasattr(b, "i"))))
        if hasattr(a, "i"):
            e.prove("previous operations stay in order", a.i == b.i)
    for k in range(cnt.as_long()):
        op = ops.at(z3.simplify(n + k))
        for c in op.commands.items():
            m.run(str(c))
    e.cover("tool change" if m.changes else "speed change" if cnt.as_long() else "neither")
    if m.bad:
        e.fail("a tool change is made with stopped spindle, at home, paused, with its length offset", repr(m.bad))
    else:
        e.prove("a tool change is made with stopped spindle, at home, paused, with its length offset",
                mkbool(z3.BoolVal(True)))
    want = {"tool": tool.tool_number if tool.tool_number is not None else old["tool"],
            "speed": tool.speed if tool.speed is not None else old["speed"],
            "diameter": tool.tool_diameter if tool.tool_diameter is not None else old["diameter"],
            "feed": tool.feed if tool.feed is not None else old["feed"]}
    same(e, "the job has the requested tool number", new.tool_number, want["tool"])
    same(e, "the job has the requested speed", new.speed, want["speed"])
    same(e, "the job has the requested diameter", new.tool_diameter, want["diameter"])
    same(e, "the job has the requested feed", new.feed, want["feed"])
    same(e, "the machine has the tool", m.tool, want["tool"])
    same(e, "the machine has the speed", m.speed, want["speed"])
    same(e, "the machine has the coolant", m.coolant, COOL.get(co))
    e.prove("the spindle turns", mkbool(z3.BoolVal(m.on)))
    # only when it differs
    if m.changes:
        e.prove("one tool change", mkbool(z3.BoolVal(m.changes == 1)))
        if old["tool"] is not None:
            e.prove("only when the tool differs", num(want["tool"]) != num(old["tool"]))
    # the header is not affected by later changes
    same(e, "the start speed of the program is kept", getattr(new, "start_speed", new.speed),
         getattr(job, "start_speed", job.speed))


@unit("no tool given: the job and its machine state stay", MODS)
def no_tool(P):
    e = V.eng()
    e.on_exception = no_exception()
    job, n = sym_job(e, P, None)
    mark = e.write_mark()
    new = job.update_tool(None)
    frame(e, mark, "the job it is called on is unchanged")
    e.prove("no operation is added", new.operations.len_term() == n)
    for a in ("tool_number", "speed", "tool_diameter", "feed"):
        same(e, a + " is kept", getattr(new, a), getattr(job, a))


def op_contracts(P):
    """operations are represented by their contract: they return motions and leave the job alone"""
    e = V.eng()
    F = P["cq_cam.fluent"]
    calls = []

    def run(job, *a, **k):
        if not isinstance(job, F.Job):
            job = k.get("job", job)
        calls.append((job.tool_number, job.speed, job.coolant, job.tool_diameter, job.feed))
        m = e.fresh_int("m").t
        e.assume(m >= 0)
        f = e.fresh_int("cmds").t

        class Motion:
            def __init__(self, i):
                self.i, self.f = i, f
        return PList.of_seq(fseq(m, Motion))
    F.profile = lambda **k: run(k["job"])
    F.pocket = lambda job, *a, **k: run(job)
    return run, calls


@unit("each operation is added after the change to its own tool", MODS + ["cq_cam.operations.drill", "cq_cam.operations.op3d"],
      must_cover=["pocket", "profile", "drill", "wire_profile"])
def ops(P):
    e = V.eng()
    e.on_exception = no_exception(allow=("ValueError",))
    F, T = P["cq_cam.fluent"], P["cq_cam.tool"]
    run, calls = op_contracts(P)
    cq = P.mods["cadquery"]

    class D:
        def __init__(self, job, **k):
            self.commands = run(job)
    P["cq_cam.operations.drill"].Drill = D
    job, n = sym_job(e, P, None)
    job.tool_diameter = R(e, "dia", gt=0)
    tool = T.Tool(tool_number=opt(e, "t_number", lambda: I(e, "t_number", lo=0)),
                  speed=opt(e, "t_speed", lambda: R(e, "t_speed", gt=0)))
    kind = pick(e, "kind", ["pocket", "profile", "drill", "wire_profile"])
    F.extract_wires = lambda s: (PList([1]), PList([]))
    if kind == "pocket":
        new = job.pocket(PList([1]), tool=tool)
    elif kind == "profile":
        new = job.profile(PList([1]), tool=tool)
    elif kind == "drill":
        new = job.drill(PList([1]), tool=tool)
    else:
        new = job.wire_profile(PList([1]), tool=tool)
    e.cover(kind)
    want_t = tool.tool_number if tool.tool_number is not None else job.tool_number
    want_s = tool.speed if tool.speed is not None else job.speed
    e.prove("the operation is computed once", mkbool(z3.BoolVal(len(calls) == 1)))
    same(e, "the operation is computed for its own tool", calls[0][0], want_t)
    same(e, "the operation is computed for its own speed", calls[0][1], want_s)
    m = Machine(tool=job.tool_number, speed=job.speed)
    ops_ = new.operations
    cnt = z3.simplify(ops_.len_term() - n)
    if not z3.is_int_value(cnt) or cnt.as_long() < 1:
        e.fail("the operation is added", str(cnt))
        return
    c = cnt.as_long()
    for k in range(c - 1):
        for cm in ops_.at(z3.simplify(n + k)).commands.items():
            m.run(str(cm))
    last = ops_.at(z3.simplify(n + c - 1))
    e.prove("the operation's motions come last", mkbool(z3.BoolVal(not last.commands.is_concrete())))
    same(e, "the machine has the operation's tool", m.tool, want_t)
    same(e, "the machine has the operation's speed", m.speed, want_s)
    e.prove("the change is safe", mkbool(z3.BoolVal(not m.bad)))
