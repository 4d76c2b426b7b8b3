"""C04: whole programs against an independent reading."""
import os
import shutil
import tempfile
import history
import parts
from common import parse_words

RULE = "jobs with random settings and 0 to 6 real or synthetic operations; non-trivial: at least one operation with motions"
UNIT = {"METRIC": "G21", "IMPERIAL": "G20"}
OFFSET = {"OFFSET_1": "G54", "OFFSET_2": "G55", "OFFSET_3": "G56", "OFFSET_4": "G57", "OFFSET_5": "G58", "OFFSET_6": "G59"}
PATHM = {"EXACT_PATH": "G61", "EXACT_STOP": "G61.1", "CONTINUOUS": "G64"}
COOL = {"MIST": "M7", "FLOOD": "M8"}


def check_program(R, job, p, text):
    lines = [l.strip() for l in text.split("\n")]
    R.check(lines[0].startswith("(") and lines[0].endswith(")") and p["name"] in lines[0], "header %r", lines[0])
    # split in sections by comments
    sections, cur = [], []
    for l in lines[1:]:
        if l.startswith("("):
            sections.append(cur)
            cur = [l]
        elif l:
            cur.append(l)
    sections.append(cur)
    pre, body = sections[0], sections[1:]
    R.check(len(body) == len(job.operations), "%d operation texts for %d operations", len(body), len(job.operations))
    post = None
    for k, op in enumerate(job.operations):
        want = [l for c in op.commands for l in str(c).split("\n") if l.strip()]
        sec = body[k]
        R.check(sec[0] == f"({p['name']} - {op.name})", "operation comment %r for %r", sec[0], op.name)
        got = sec[1:]
        if k == len(job.operations) - 1:
            post, got = got[len(want):], got[:len(want)]
        R.check(got == want, "operation %d: motions are not written once in order: %s... for %s...", k, got[:4], want[:4])
    if post is None:
        cut = next((i for i, l in enumerate(pre) if l.split()[0] == "M3"), None)
        R.check(cut is not None, "no start sequence")
        pre, post = pre[:cut + 1], pre[cut + 1:]
    pw, qw = [w for l in pre for w in l.split()], [w for l in post for w in l.split()]
    for ws, when in ((pw, "before"), (qw, "after")):
        for table, key, what in ((UNIT, "unit", "unit"), (OFFSET, "coordinate", "work offset"),
                                 (PATHM, "controller_motion", "path mode")):
            want = table[p[key]]
            R.check([w for w in ws if w in table.values()] == [want], "%s %s the operations: %s, wanted %s", what, when,
                    [w for w in ws if w in table.values()], want)
        for w, other in (("G90", ["G91"]), ("G94", ["G93", "G95"]), ("G17", ["G18", "G19"]), ("G40", ["G41", "G42"]),
                         ("G80", ["G81"])):
            R.check(w in ws and not any(o in ws for o in other), "%s %s the operations missing in %s", w, when, ws)
    R.check("M3" in pw and "M4" not in pw and "M5" not in pw, "start sequence in %s", pw)
    R.check(pw.index(UNIT[p["unit"]]) < pw.index("M3"), "settings after the start")
    R.check([w for w in pw if w[0] == "S"] == ([] if p["speed"] is None else [f"S{p['speed']}"]), "speed in %s", pw)
    R.check([w for w in pw if w in ("M7", "M8", "M9")] == ([COOL[p["coolant"]]] if p["coolant"] else []), "coolant in %s", pw)
    R.check("M5" in qw and "M3" not in qw, "stop sequence in %s", qw)
    R.check(("M9" in qw) == (p["coolant"] is not None), "coolant off in %s", qw)
    R.check(qw[-1] == "M30" and qw.count("M30") == 1 and "M30" not in pw, "program end in %s", qw[-3:])
    allw = [l for s in body for l in s[1:]]
    R.check(sum("M30" in l.split() for l in lines) == 1, "several program ends")


def make(p):
    from cq_cam.groups import PlannerControlMode, Unit, WorkOffset
    q = {k: p[k] for k in ("feed", "speed", "tool_number", "tool_diameter", "name")}
    return parts.job(unit=Unit[p["unit"]], coordinate=WorkOffset[p["coordinate"]],
                     controller_motion=PlannerControlMode[p["controller_motion"]],
                     coolant=parts.COOLANT[p["coolant"]], **q)


def case_program(R, params, steps):
    job = make(params)
    for s in steps:
        job = history.apply(job, s)
    if not job.operations:
        R.trivial_case()
    text = job.to_gcode()
    R.check(text == job.to_gcode(), "the text changes when asked again")
    check_program(R, job, params, text)
    d = tempfile.mkdtemp(prefix="cqcam")
    try:
        f = os.path.join(d, "a.nc")
        job.save_gcode(f)
        R.check(open(f).read() == text, "the saved program differs")
        R.check(os.listdir(d) == ["a.nc"], "other files written")
    finally:
        shutil.rmtree(d)


def case_synthetic(R, params, counts, seed):
    """operations with many motions of every kind"""
    from cq_cam.address import AddressVector as AV
    import cq_cam.command as C
    from cq_cam.fluent import Operation
    rng = R.rng("syn", seed)
    job = make(params)
    ops = []
    for k, n in enumerate(counts):
        cmds, at = [], AV(0.0, 0.0, 5.0)
        for _ in range(n):
            g = lambda: round(rng.uniform(-20, 20), 4) if rng.random() < 0.7 else None
            kind = rng.randrange(5)
            x, y, z = rng.uniform(-9, 9), g(), g()
            if kind == 0:
                c = C.Rapid.abs(x, y, z, start=at)
            elif kind == 1:
                c = C.Cut.abs(x, y, z, start=at, feed=rng.choice([None, 100]))
            elif kind == 2:
                c = C.PlungeCut.abs(z=rng.uniform(-3, 3), start=at, feed=50)
            elif kind == 3:
                c = C.Retract.abs(z=rng.uniform(-3, 3), start=at)
            else:
                c = rng.choice([C.CircularCW, C.CircularCCW])(end=AV(x, y, z), start=at, center=AV(0, 0), mid=AV(1, 1))
            cmds.append(c)
            if rng.random() < .15:
                # the same motion again (a spring pass), or one that reads the same
                cmds.append(c)
            at = c.end
        ops.append(Operation(job, rng.choice(["Pocket", "Profile", "X"]), cmds))
    job.operations = ops
    check_program(R, job, params, job.to_gcode())


def generate(R):
    rng = R.rng("C04")

    def par():
        return {"feed": rng.choice([500, 250.5]), "speed": rng.choice([None, 1000, 18000]), "tool_number": rng.choice([None, 1]),
                "tool_diameter": 3, "name": rng.choice(["Job", "My part 2"]), "unit": rng.choice(list(UNIT)),
                "coordinate": rng.choice(list(OFFSET)), "controller_motion": rng.choice(list(PATHM)),
                "coolant": rng.choice([None, "MIST", "FLOOD"])}
    for u in UNIT:
        for o in OFFSET:
            for m in PATHM:
                yield "synthetic", {"params": {**par(), "unit": u, "coordinate": o, "controller_motion": m},
                                    "counts": [3, 0, 5], "seed": rng.randrange(999)}
    for i in range(400 if R.thorough else 120):
        yield "synthetic", {"params": par(), "counts": [rng.choice([0, 1, 2, 7, 40]) for _ in range(rng.randrange(0, 7))],
                            "seed": i}
    for _ in range(300 if R.thorough else 80):
        steps = [history.ops(rng) for _ in range(rng.randrange(0, 5))]
        for s in steps:
            if s[1] is not None:
                s[1]["tool_diameter"] = None
        yield "program", {"params": par(), "steps": steps}
