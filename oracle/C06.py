"""C06: trees of jobs; every job is compared with what it was when it was made."""
import history
import parts

RULE = "random trees of 3 to 9 job-building calls with branches; non-trivial: some job is built on twice"


def case_tree(R, params, steps):
    jobs = [history.make(params)]
    snaps = [parts.snapshot(jobs[0])]
    parents = []
    for parent, s in steps:
        parent %= len(jobs)
        base = jobs[parent]
        new = history.apply(base, s)
        R.check(new is not base, "%s returned the job it was called on", s)
        a, b = new.operations, base.operations
        R.check(list(a[:len(b)]) == list(b), "%s does not start with the operations of the job it was called on", s)
        extra = len(a) - len(b)
        R.check(0 <= extra <= 2 and (s[0] == "update_tool" or extra >= 1), "%s added %d operations", s, extra)
        jobs.append(new)
        snaps.append(parts.snapshot(new))
        parents.append(parent)
        for k, (j, sn) in enumerate(zip(jobs, snaps)):
            now = parts.snapshot(j)
            if now != sn:
                what = "settings" if now[0] != sn[0] else "operations" if now[1] != sn[1] else "program"
                R.fail(f"the {what} of job {k} changed when job {len(jobs) - 1} was built by {s}: "
                       f"{[ (x, y) for x, y in zip(sn, now) if x != y][0]}"[:600])
    if len(set(parents)) == len(parents):
        R.trivial_case()


def case_rebuild(R, params, steps):
    """the same steps on an untouched base give the same program as on one that has branched"""
    base = history.make(params)
    side = base
    for s in steps[:3]:
        side = history.apply(side, s)
    a, b = base, history.make(params)
    for s in steps:
        a, b = history.apply(a, s), history.apply(b, s)
    R.check(a.to_gcode() == b.to_gcode(), "the program depends on another branch")


def generate(R):
    rng = R.rng("C06")
    for _ in range(400 if R.thorough else 110):
        yield "tree", {"params": history.job_params(rng),
                       "steps": [[rng.randrange(12), history.ops(rng)] for _ in range(rng.randrange(3, 10))]}
    # operations without motions, and the same step twice
    for _ in range(200 if R.thorough else 60):
        steps = []
        for k in range(rng.randrange(3, 7)):
            s = rng.choice([["empty", None, 0], ["update_tool", {"tool_number": rng.choice([None, 0, 1, 2, 3]), "speed": rng.choice([None, 1000, 2500]),
                             "feed": None, "tool_diameter": None}, 0], history.ops(rng)])
            steps.append([rng.randrange(12) if rng.random() < .4 else k, s])
            if rng.random() < .3:
                steps.append([k, s])
        yield "tree", {"params": history.job_params(rng), "steps": steps}
    for _ in range(100 if R.thorough else 30):
        yield "rebuild", {"params": history.job_params(rng), "steps": [history.ops(rng) for _ in range(5)]}
