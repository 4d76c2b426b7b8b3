"""C04: program assembly."""
import z3
from pydv import values as V
from .base import *

UNITS = []
unit = units(UNITS)
MODS = ["cq_cam.groups", "cq_cam.command", "cq_cam.fluent"]
TRUE = mkbool(z3.BoolVal(True))

UNIT = {"METRIC": "G21", "IMPERIAL": "G20"}
OFFSET = {"OFFSET_1": "G54", "OFFSET_2": "G55", "OFFSET_3": "G56", "OFFSET_4": "G57", "OFFSET_5": "G58", "OFFSET_6": "G59"}
PATHM = {"EXACT_PATH": "G61", "EXACT_STOP": "G61.1", "CONTINUOUS": "G64"}
COOL = {"MIST": "M7", "FLOOD": "M8"}


def make_job(P, **kw):
    cq = P.mods["cadquery"]
    return P["cq_cam.fluent"].Job(cq.Plane(), kw.pop("feed", 100.0), **kw)


def list_parts(text):
    """(text, number of the join token or None)"""
    return split_tokens(text)


@unit("an operation's text: its name, then every motion once, in order", MODS, must_cover=["many"])
def operation(P):
    e = V.eng()
    e.on_exception = no_exception()
    F = P["cq_cam.fluent"]
    m = e.fresh_int("m").t
    e.assume(m >= 0)

    class Cmd:
        def __init__(self, i):
            self.i = i

        def __str__(self):
            return e.opaque_token("cmd", (self.i,))
    job = make_job(P, name=e.opaque_token("jobname", (z3.IntVal(0),)))
    op = F.Operation(job, e.opaque_token("opname", (z3.IntVal(0),)), PList.of_seq(fseq(m, Cmd)))
    text = op.to_gcode()
    parts = split_tokens(text)
    toks = [e.tokens[p[0]] if isinstance(p, tuple) else p for p in parts]
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < m))
    # m >= 1 from here on: the text is the join of a list, or a concrete one
    e.cover("many")
    if len(toks) != 1 or toks[0][0] != "join" or toks[0][1][0] != "\n":
        e.fail("one line for each motion", repr(toks)[:500])
        return
    L = toks[0][1][1]
    e.prove("as many lines as motions, and the name", L.len_term() == m + 1)
    first = [t[0] if isinstance(t, tuple) else t for t in
             [e.tokens[p[0]] if isinstance(p, tuple) else p for p in split_tokens(L.at(z3.IntVal(0)))]]
    e.prove("the name line is a comment with the operation's name",
            mkbool(z3.BoolVal(isinstance(first[0], str) and first[0].startswith("(") and str(first[-1]).endswith(")")
                              and "opname" in first)))
    el = split_tokens(L.at(K + 1))
    tok = e.tokens[el[0][0]] if len(el) == 1 and isinstance(el[0], tuple) else None
    if tok is None or tok[0] != "cmd":
        e.fail("line K+1 is the text of motion K", repr(el)[:300])
        return
    e.prove("line K+1 is the text of motion K", tok[1][0] == K)


def machine_words(lines):
    return [w for ws in lines for w in ws]


@unit("a program: header, settings, start, operations once in order, stop, end", MODS, must_cover=["many"])
def program(P):
    e = V.eng()
    e.on_exception = no_exception()
    F, Gr = P["cq_cam.fluent"], P["cq_cam.groups"]
    n = e.fresh_int("n").t
    e.assume(n >= 1)
    u = pick(e, "unit", list(UNIT))
    o = pick(e, "offset", list(OFFSET))
    pm = pick(e, "path", list(PATHM))
    co = pick(e, "coolant", [None] + list(COOL))
    speed = opt(e, "speed", lambda: R(e, "speed", gt=0))
    job = make_job(P, unit=getattr(Gr.Unit, u), coordinate=getattr(Gr.WorkOffset, o),
                   controller_motion=getattr(Gr.PlannerControlMode, pm), speed=speed,
                   coolant=None if co is None else getattr(Gr.CoolantState, co),
                   name=e.opaque_token("jobname", (z3.IntVal(0),)))

    class Op:
        def __init__(self, i):
            self.i = i

        def to_gcode(self):
            return e.opaque_token("op", (self.i,))
    job.operations = PList.of_seq(fseq(n, Op))
    mark = e.write_mark()
    text = job.to_gcode()
    frame(e, mark, "rendering changes nothing")
    parts = [e.tokens[p[0]] if isinstance(p, tuple) else p for p in split_tokens(text)]
    idx = [k for k, t in enumerate(parts) if isinstance(t, tuple) and t[0] == "join"]
    if len(idx) != 1:
        e.fail("the operations appear once", repr(parts)[:600])
        return
    sep, L = parts[idx[0]][1]
    e.cover("many")
    e.prove("operations are separated by line breaks", mkbool(z3.BoolVal("\n" in sep and not sep.strip())))
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < n))
    e.prove("as many operation texts as operations", L.len_term() == n)
    el = split_tokens(L.at(K))
    tok = e.tokens[el[0][0]] if len(el) == 1 and isinstance(el[0], tuple) else None
    if tok is None or tok[0] != "op":
        e.fail("text K is that of operation K", repr(el)[:300])
        return
    e.prove("text K is that of operation K", tok[1][0] == K)
    # around the operations
    t0 = text.index("\ue000" + str(next(k for k, t in enumerate(e.tokens) if t is parts[idx[0]])) + "\ue001")
    pre, post = text[:t0], text[t0:].split("\ue001", 1)[1]
    e.prove("operations stand on lines of their own", mkbool(z3.BoolVal(pre.endswith("\n") and post.startswith("\n"))))
    pl, ql = [ws for ws in words(pre)], [ws for ws in words(post)]
    header = pre.split("\n")[0]
    e.prove("a header comment", mkbool(z3.BoolVal(header.startswith("(") and header.endswith(")"))))
    pw = ["".join(x if isinstance(x, str) else "#" for x in w) for ws in pl[1:] for w in ws if w]
    qw = ["".join(x if isinstance(x, str) else "#" for x in w) for ws in ql for w in ws if w]

    def has(ws, word, group, label):
        e.prove(label, mkbool(z3.BoolVal(word in ws and not any(g in ws for g in group if g != word))))
    for name, ws in (("before", pw), ("after", qw)):
        has(ws, UNIT[u], UNIT.values(), f"the job's unit {name} the operations")
        has(ws, OFFSET[o], OFFSET.values(), f"the job's work offset {name} the operations")
        has(ws, PATHM[pm], PATHM.values(), f"the job's path mode {name} the operations")
        has(ws, "G90", ["G91"], f"absolute distances {name} the operations")
        has(ws, "G94", ["G93", "G95"], f"feed per minute {name} the operations")
        has(ws, "G17", ["G18", "G19"], f"XY plane {name} the operations")
    has(pw, "M3", ["M4", "M5", "M2", "M30", "M0"], "the spindle is started before the operations")
    has(qw, "M5", ["M3", "M4"], "the spindle is stopped after the operations")
    e.prove("the program end comes last, once", mkbool(z3.BoolVal(qw[-1:] == ["M30"] and qw.count("M30") == 1
                                                           and "M30" not in pw)))
    e.prove("settings precede the start", mkbool(z3.BoolVal("M3" in pw and all(
        w in pw and pw.index(w) < pw.index("M3") for w in (UNIT[u], OFFSET[o], PATHM[pm])))))
    if co is None:
        e.prove("no coolant unless asked", mkbool(z3.BoolVal(not any(w in pw for w in COOL.values()))))
    else:
        has(pw, COOL[co], list(COOL.values()) + ["M9"], "the job's coolant is started")
        has(qw, "M9", COOL.values(), "coolant is stopped at the end")
    sp = [w for ws in pl[1:] for w in ws if w and w[0].startswith("S")]
    if speed is None:
        e.prove("no speed word without a speed", mkbool(z3.BoolVal(not sp)))
    elif len(sp) == 1 and len(sp[0]) == 2:
        e.prove("the spindle speed is the job's", num(sp[0][1][1]) == speed.t)
    else:
        e.fail("the spindle speed is the job's", repr(sp))


@unit("a job without operations is a complete program", MODS)
def empty(P):
    e = V.eng()
    e.on_exception = no_exception()
    text = make_job(P).to_gcode()
    ws = [w for line in text.split("\n")[1:] for w in line.split()]
    e.prove("complete", mkbool(z3.BoolVal("M3" in ws and "M5" in ws and ws[-1] == "M30" and "G21" in ws
                                          and "G54" in ws and "G64" in ws)))


@unit("saving writes exactly the program", MODS)
def save(P):
    e = V.eng()
    e.on_exception = no_exception()
    F = P["cq_cam.fluent"]

    class J(F.Job):
        def to_gcode(self):
            return e.opaque_token("program", (z3.IntVal(1),))
    cq = P.mods["cadquery"]
    job = J(cq.Plane(), 100.0)
    job.save_gcode("/x/y.nc")
    if len(e.files) != 1:
        e.fail("one file is written", repr(e.files))
        return
    f = e.files[0]
    got = "".join(f.writes)
    toks = [e.tokens[p[0]] if isinstance(p, tuple) else p for p in split_tokens(got)]
    e.prove("the named file, opened for writing and closed",
            mkbool(z3.BoolVal(f.name == "/x/y.nc" and f.mode.startswith("w") and f.closed)))
    e.prove("the program's text and nothing else",
            mkbool(z3.BoolVal(len(toks) == 1 and toks[0][0] == "program")))
