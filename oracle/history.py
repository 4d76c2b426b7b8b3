"""Random histories of job-building calls and an independent machine."""
import re
import parts
from parts import cq, Tool


def ops(rng):
    """a random job-building step: (name, kwargs)"""
    k = rng.choice(["drill", "drill", "wire_profile", "profile", "pocket", "update_tool", "update_tool"])
    tool = None
    if k == "update_tool" or rng.random() < 0.45:
        tool = {"tool_number": rng.choice([None, None, 0, 1, 2, 3]), "speed": rng.choice([None, None, 1000, 2500, 12000]),
                "feed": rng.choice([None, None, 300, 450.5]), "tool_diameter": rng.choice([None, None, 2, 3])}
    return [k, tool, rng.randrange(1000)]


def apply(job, step):
    k, tool, s = step
    t = None if tool is None else Tool(**tool)
    x = s % 7 - 3.0
    if k == "empty":
        return job.wire_profile([], tool=t)
    if k == "drill":
        return job.drill(parts.drill_points([(x, 1.0), (x + 2, -1.0)]), depth=1.0 + s % 3, tool=t)
    if k == "wire_profile":
        return job.wire_profile(parts.square_wire(10 + s % 3, (x, 0), -1.0), tool=t)
    if k == "profile":
        return job.profile(parts.square_face(12, (x, 0), -1.5), tool=t)
    if k == "pocket":
        return job.pocket(parts.square_face(9, (x, 0), -1.0), tool=t)
    return job.update_tool(t)


def job_params(rng):
    return {"feed": rng.choice([500, 321.5]), "speed": rng.choice([None, 1000, 8000]),
            "tool_number": rng.choice([None, 0, 1, 2]), "tool_diameter": rng.choice([2, 3]),
            "coolant": rng.choice([None, "MIST", "FLOOD"]),
            "plunge_feed": rng.choice([None, 120]), "name": rng.choice(["Job", "A part"])}


def make(p):
    p = dict(p)
    p["coolant"] = parts.COOLANT[p["coolant"]]
    return parts.job(**p)


class Machine:
    """state of a controller that reads blocks; counts what a tool change must guarantee"""

    def __init__(self, R):
        self.R = R
        self.tool, self.speed, self.coolant, self.on = None, None, None, False
        self.home = self.paused = False
        self.changes = 0
        self.called = None
        self.length = None
        self.ended = False

    def block(self, line):
        R = self.R
        R.check(not self.ended, "block after the program end: %r", line)
        ws = line.split()
        for w in ws:
            R.check(re.match(r"^[A-Z]-?\d+(\.\d+)?$", w), "not a word: %r in %r", w, line)
            if w[0] == "S":
                self.speed = float(w[1:])
            if w[0] == "T":
                self.called = int(w[1:])
            if w[0] == "H":
                self.length = int(w[1:])
        if any(w in ("G0", "G1", "G2", "G3") for w in ws):
            self.home = self.paused = False
        for w in ws:
            if w == "M3":
                self.on = True
            elif w == "M4":
                R.fail("spindle turns backwards")
            elif w == "M5":
                self.on = False
            elif w == "M7":
                self.coolant = "MIST"
            elif w == "M8":
                self.coolant = "FLOOD"
            elif w == "M9":
                self.coolant = None
            elif w in ("G28", "G30"):
                self.home = True
            elif w in ("M0", "M1"):
                self.paused = True
            elif w == "M30":
                self.ended = True
            elif w == "M6":
                self.changes += 1
                R.check(not self.on, "tool change while the spindle turns")
                R.check(self.home, "tool change away from the home position")
                R.check(self.paused, "tool change without a pause")
                R.check(self.coolant is None, "tool change with coolant on")
                R.check(self.called is not None, "tool change without a tool")
                R.check(self.length == self.called, "length offset H%s for tool T%s", self.length, self.called)
                self.tool = self.called
