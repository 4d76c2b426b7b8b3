"""C05: a machine reads whole programs of random histories; its state is compared at each operation."""
import history

RULE = "random histories of 1 to 8 job-building steps with tool, speed and feed changes; non-trivial: at least two operations"


def case_history(R, params, steps):
    job = history.make(params)
    tool, speed, dia, feed = (params[k] for k in ("tool_number", "speed", "tool_diameter", "feed"))
    want = []
    changes = 0
    for s in steps:
        new = history.apply(job, s)
        t = s[1] or {}
        nt = t.get("tool_number") if t.get("tool_number") is not None else tool
        if nt is not None and nt != tool:
            changes += 1
        tool = nt
        speed = t.get("speed") if t.get("speed") is not None else speed
        dia = t.get("tool_diameter") if t.get("tool_diameter") is not None else dia
        feed = t.get("feed") if t.get("feed") is not None else feed
        R.check(new.tool_number == tool and new.speed == speed and new.tool_diameter == dia and new.feed == feed,
                "after %s the job has tool %s, speed %s, diameter %s, feed %s; wanted %s", s, new.tool_number, new.speed,
                new.tool_diameter, new.feed, (tool, speed, dia, feed))
        if s[0] != "update_tool":
            want.append((s, tool, speed, dia, feed))
        job = new
    if len(want) < 2:
        R.trivial_case()
    names = {"drill": "Drill", "wire_profile": "Wire Profile", "profile": "Profile", "pocket": "Pocket"}
    m = history.Machine(R)
    m.tool = params["tool_number"]
    k, pending = 0, None
    seen_cut = False
    for line in job.to_gcode().split("\n"):
        line = line.strip()
        if not line:
            continue
        if line.startswith("("):
            n = line[1:-1].rsplit(" - ", 1)[-1]
            pending = n if n in names.values() else None
            continue
        m.block(line)
        if pending and line.split()[0] in ("G0", "G1", "G2", "G3"):
            R.check(k < len(want), "more operations than were added")
            s, t, sp, d, f = want[k]
            R.check(names[s[0]] == pending, "operation %d is %s, added was %s", k, pending, s[0])
            R.check(m.on, "%s starts with the spindle stopped", s)
            R.check(m.tool == t, "%s runs with tool %s, wanted %s", s, m.tool, t)
            R.check(m.speed == (None if sp is None else float(sp)), "%s runs at speed %s, wanted %s", s, m.speed, sp)
            R.check(m.coolant == params["coolant"], "%s runs with coolant %s, wanted %s", s, m.coolant, params["coolant"])
            k += 1
            pending = None
    R.check(k == len(want), "%d operations in the program, %d added", k, len(want))
    R.check(m.changes == changes, "%d tool changes, %d needed", m.changes, changes)
    R.check(not m.on and m.coolant is None and m.ended, "the program does not end stopped")


def case_toolchange(R, number, speed, coolant, before):
    """the text of one tool change from a running machine"""
    import parts
    from cq_cam.command import ToolChange
    m = history.Machine(R)
    m.on, m.tool, m.coolant, m.speed = True, before, coolant, 1.0
    for line in str(ToolChange(number, speed, parts.COOLANT[coolant])).split("\n"):
        m.block(line)
    R.check(m.tool == number and m.on and m.coolant == coolant, "state after the change: %s %s %s", m.tool, m.on, m.coolant)
    R.check(m.speed == (1.0 if speed is None else float(speed)), "speed after the change %s", m.speed)


def generate(R):
    rng = R.rng("C05")
    for n in (0, 1, 2, 17):
        for sp in (None, 1000, 24000):
            for co in (None, "MIST", "FLOOD"):
                yield "toolchange", {"number": n, "speed": sp, "coolant": co, "before": rng.choice([None, 1, 5])}
    for _ in range(900 if R.thorough else 260):
        yield "history", {"params": history.job_params(rng),
                          "steps": [history.ops(rng) for _ in range(rng.randrange(1, 9))]}
