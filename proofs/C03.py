"""C03: the text of a motion says what the motion is."""
import z3
from pydv import values as V
from .base import *

UNITS = []
unit = units(UNITS)
ADDR = ["cq_cam.address"]
CMD = ["cq_cam.address", "cq_cam.command"]


def rounded(x, p):
    """value of round(x, p): a multiple of 10**-p at distance at most half of it"""
    return round(x, p)


def prove_word(e, label, w, letter, v, p, CHECK_INT=False):
    """w is the word `letter` + v rounded to p decimals, nothing else"""
    if v is None:
        e.prove(label, mkbool(z3.BoolVal(w is None)))
        return
    ok = w is not None and len(w) == 2 and w[0] == letter and not isinstance(w[1], str) and w[1][0] == "num" \
        and w[1][2] == ""
    if ok:
        val = w[1][1]
    else:
        # a constant
        ok = w is not None and len(w) == 1 and w[0][:len(letter)] == letter
        try:
            val = float(w[0][len(letter):]) if ok else 0
        except ValueError:
            ok = False
    if not ok:
        e.fail(label, f"word {w!r} is not {letter} and a number")
        return
    half = z3.Q(1, 2 * 10 ** p)
    t = num(val)
    k = t * (10 ** p)
    d = t - num(v)
    e.prove(label, z3.And(d <= half, -d <= half, z3.IsInt(k)))
    # written without a fraction when it is integral
    if CHECK_INT and isinstance(val, V.SymNum) and not z3.is_int(val.t):
        e.prove(label + " (plain integer when integral)", z3.Not(z3.IsInt(t)))


WORDS = [("XAxis", "X"), ("YAxis", "Y"), ("ZAxis", "Z"), ("ArcXAxis", "I"), ("ArcYAxis", "J"), ("ArcZAxis", "K")]


@unit("one axis word, every letter, precision 0 to 4", ADDR, replay="axis")
def axis_word(P):
    e = V.eng()
    e.on_exception = no_exception()
    A = P["cq_cam.address"]
    cls, letter = pick(e, "letter", WORDS)
    p = pick(e, "precision", [3, 0, 1, 2, 4])
    x = opt(e, "x", lambda: R(e, "x"))
    s = str(getattr(A, cls)(x, p))
    ws = words(s)
    if x is None:
        e.prove("an omitted coordinate is not written", mkbool(z3.BoolVal(s == "")))
        return
    if len(ws) != 1 or len(ws[0]) != 1:
        e.fail("a single word", s)
        return
    prove_word(e, "the written number is the coordinate to the precision", ws[0][0], letter, x, p, True)
    e.cover("given")


@unit("axis word with the default precision", ADDR)
def axis_word_default(P):
    e = V.eng()
    e.on_exception = no_exception()
    A = P["cq_cam.address"]
    cls, letter = pick(e, "letter", WORDS)
    x = R(e, "x")
    s = str(getattr(A, cls)(x))
    ws = words(s)
    prove_word(e, "three decimals by default", ws[0][0] if ws and ws[0] else None, letter, x, 3, True)


@unit("axis groups: the given axes, in order, with their own values", ADDR)
def axis_group(P):
    e = V.eng()
    e.on_exception = no_exception()
    A = P["cq_cam.address"]
    x = opt(e, "x", lambda: R(e, "x"))
    y = opt(e, "y", lambda: R(e, "y"))
    z = opt(e, "z", lambda: R(e, "z"))
    number_contract(P)
    grp, letters = pick(e, "group", [("XYZ", "XYZ"), ("IJK", "IJK")])
    s = str(getattr(A, grp)(A.AddressVector(x, y, z)))
    check_words(e, words(s)[0], zip(letters, (x, y, z)))


def check_words(e, ws, expect, extra=0):
    ws = [w for w in ws if w]
    exp = [(l, v) for l, v in expect if v is not None]
    if len(ws) != len(exp):
        e.fail("exactly the words of the given axes", f"{ws} for {[l for l, v in exp]}")
        return
    e.prove("exactly the words of the given axes", mkbool(z3.BoolVal(True)))
    for w, (l, v) in zip(ws, exp):
        prove_word(e, f"{l} word", w, l, v, 3)


def vec(e, A, name, full=False):
    return [R(e, f"{name}{c}") if full else opt(e, f"{name}{c}", lambda c=c: R(e, f"{name}{c}")) for c in "xyz"]


def number_contract(P):
    """callers are checked against the contract proved by `optimize_contract`"""
    A = P["cq_cam.address"]
    if hasattr(A, "optimize_float"):
        A.optimize_float = lambda v: v


@unit("dropping a zero fraction keeps the value", ADDR)
def optimize_contract(P):
    e = V.eng()
    e.on_exception = no_exception()
    U = P["cq_cam.address"]
    x = R(e, "x")
    r = U.optimize_float(x)
    e.prove("same value", num(r) == x.t)
    if not z3.is_int(term_of(r)):
        e.prove("an integral value becomes an integer", z3.Not(z3.IsInt(num(r))))


@unit("rapid and straight cut blocks", CMD, must_cover=["rapid", "cut"])
def straight(P):
    e = V.eng()
    e.on_exception = no_exception()
    C, A = P["cq_cam.command"], P["cq_cam.address"]
    number_contract(P)
    kind = pick(e, "kind", ["Rapid", "Cut", "PlungeRapid", "Retract", "PlungeCut"])
    start = A.AddressVector(*vec(e, A, "s", full=True))
    code = {"Rapid": "G0", "PlungeRapid": "G0", "Retract": "G0", "Cut": "G1", "PlungeCut": "G1"}[kind]
    if kind in ("Rapid", "Cut"):
        v = vec(e, A, "e")
        end = A.AddressVector(*v)
    else:
        v = [None, None, R(e, "ez")]
        end = A.AddressVector(None, None, v[2])
    full = [b if b is not None else a for a, b in zip((start.x, start.y, start.z), v)]
    feed = None
    if code == "G1":
        feed = opt(e, "feed", lambda: R(e, "feed", gt=0))
        c = getattr(C, kind)(end=end, start=start, feed=feed)
        e.cover("cut")
    else:
        c = getattr(C, kind)(end=end, start=start)
        e.cover("rapid")
    block(e, words(str(c)), code, zip("XYZ", full), feed)


def block(e, lines, code, expect, feed):
    if len(lines) != 1 or not lines[0] or lines[0][0] != (code,):
        e.fail("the block starts with its motion code", repr(lines))
        return
    e.prove("the block starts with its motion code", mkbool(z3.BoolVal(True)))
    ws = [w for w in lines[0][1:] if w]
    fw = [w for w in ws if w[0].startswith("F")] if ws else []
    rest = [w for w in ws if not (w[0].startswith("F"))]
    if feed is None:
        e.prove("no feed word without a feed", mkbool(z3.BoolVal(not fw)))
    else:
        ok = len(fw) == 1 and len(fw[0]) == 2 and fw[0][0] == "F" and fw[0][1][0] == "num"
        if ok:
            e.prove("the feed word is the feed", num(fw[0][1][1]) == num(feed))
        else:
            e.fail("the feed word is the feed", repr(fw))
    check_words(e, rest, expect)


@unit("arc blocks: end point, centre relative to the start, direction", CMD, must_cover=["arc"])
def arcs(P):
    e = V.eng()
    e.on_exception = no_exception()
    C, A = P["cq_cam.command"], P["cq_cam.address"]
    number_contract(P)
    cls, code = pick(e, "kind", [("CircularCW", "G2"), ("CircularCCW", "G3")])
    s = vec(e, A, "s", full=True)
    en = vec(e, A, "e")
    c = vec(e, A, "c")
    m = vec(e, A, "m", full=True)
    feed = opt(e, "feed", lambda: R(e, "feed", gt=0))
    cmd = getattr(C, cls)(center=A.AddressVector(*c), mid=A.AddressVector(*m), end=A.AddressVector(*en),
                          start=A.AddressVector(*s), feed=feed)
    full = [b if b is not None else a for a, b in zip(s, en)]
    rel = [0 if b is None else b - a for a, b in zip(s, c)]
    e.cover("arc")
    block(e, words(str(cmd)), code, list(zip("XYZ", full)) + list(zip("IJK", rel)), feed)
