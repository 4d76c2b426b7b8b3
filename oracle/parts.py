"""Small real parts and jobs used by several run-time checkers."""
import cadquery as cq
from cq_cam.fluent import Job
from cq_cam.tool import Tool
from cq_cam.groups import CoolantState, PlannerControlMode, Unit, WorkOffset

COOLANT = {None: None, "MIST": CoolantState.MIST, "FLOOD": CoolantState.FLOOD}
_cache = {}


def plate(w=40, h=30, d=10):
    """plate with a pocket with an island, two holes and a blind step"""
    k = ("plate", w, h, d)
    if k not in _cache:
        wp = cq.Workplane().box(w, h, d, centered=(True, True, False)).translate((0, 0, -d))
        wp = wp.faces(">Z").workplane(origin=(0, 0, 0)).rect(w * 0.6, h * 0.6).cutBlind(-d * 0.4)
        wp = wp.faces(">Z").workplane(origin=(0, 0, 0)).pushPoints([(-w * 0.4, 0), (w * 0.4, 0)]).hole(2, d)
        _cache[k] = wp
    return _cache[k]


def job(**kw):
    kw.setdefault("feed", 500)
    kw.setdefault("tool_diameter", 3)
    plane = kw.pop("plane", None) or cq.Plane((0, 0, 0))
    return Job(plane, **kw)


def square(s=10.0, at=(0, 0), z=0.0):
    x, y = at
    return cq.Workplane(origin=(0, 0, z)).center(x, y).rect(s, s)


def square_wire(s=10.0, at=(0, 0), z=0.0):
    return square(s, at, z).objects[0]


def square_face(s=10.0, at=(0, 0), z=0.0, hole=None):
    w = square_wire(s, at, z)
    inner = [] if hole is None else [square_wire(hole, at, z)]
    return cq.Face.makeFromWires(w, inner)


def drill_points(pts):
    return cq.Workplane().pushPoints(pts)


def nums(op):
    """comparable record of an operation's motions"""
    out = []
    for c in op.commands:
        d = {"cls": type(c).__name__, "text": str(c)}
        for a in ("start", "end", "center", "mid"):
            v = getattr(c, a, None)
            if v is not None:
                d[a] = (v.x, v.y, v.z)
        d["feed"] = getattr(c, "feed", None)
        out.append(d)
    return out


def snapshot(job):
    """everything observable about a job"""
    from cq_cam.fluent import Job as J
    attrs = {k: v for k, v in vars(job).items() if k not in ("operations", "top", "top_plane_face")}
    return (repr(sorted((k, repr(v)) for k, v in attrs.items())),
            [(op.name, id(op), nums(op)) for op in job.operations], job.to_gcode())
