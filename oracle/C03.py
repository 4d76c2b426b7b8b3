"""C03: words and blocks of motions, against an independent reading of the text."""
from fractions import Fraction
from common import parse_words, interesting, frac

RULE = ("random and boundary coordinates (ties, tiny, huge, integral, omitted) for every axis letter, precision and "
        "motion kind; non-trivial: at least one coordinate given")
LETTERS = {"XAxis": "X", "YAxis": "Y", "ZAxis": "Z", "ArcXAxis": "I", "ArcYAxis": "J", "ArcZAxis": "K"}


def word_ok(R, what, got, letter, v, p):
    R.check(got[0] == letter, "%s: letter %s instead of %s", what, got[0], letter)
    half = Fraction(1, 2 * 10 ** p)
    slack = Fraction(1, 10 ** 9) + abs(Fraction(v)) / 10 ** 14
    R.check(abs(got[1] - Fraction(v)) <= half + slack, "%s: %s written for %r", what, got[2], v)
    txt = got[2]
    if "." in txt:
        R.check(len(txt.split(".")[1]) <= p, "%s: %s has more than %d decimals", what, txt, p)
        R.check(not txt.endswith(".0"), "%s: %s carries a zero fraction", what, txt)
    R.check(txt != "-0", "%s: negative zero", what)


def case_axis(R, cls, x, p):
    import cq_cam.address as A
    s = str(getattr(A, cls)(x, p) if p is not None else getattr(A, cls)(x))
    if x is None:
        R.trivial_case()
        R.check(s == "", "omitted coordinate written as %r", s)
        return
    ws = parse_words(R, s)
    R.check(len(ws) == 1, "one word expected: %r", s)
    word_ok(R, cls, ws[0], LETTERS[cls], x, 3 if p is None else p)


def case_group(R, grp, v, p):
    import cq_cam.address as A
    a = A.AddressVector(*v)
    s = str(getattr(A, grp)(a, p) if p is not None else getattr(A, grp)(a))
    exp = [(l, x) for l, x in zip(grp, v) if x is not None]
    ws = parse_words(R, s)
    R.check([w[0] for w in ws] == [l for l, _ in exp], "%r for %r", s, v)
    for w, (l, x) in zip(ws, exp):
        word_ok(R, grp, w, l, x, 3 if p is None else p)
    R.check((a.x, a.y, a.z) == tuple(v), "coordinates modified")


def case_motion(R, kind, start, end, center, mid, feed):
    import cq_cam.command as C
    import cq_cam.address as A
    st, en = A.AddressVector(*start), A.AddressVector(*end)
    full = [b if b is not None else a for a, b in zip(start, end)]
    code = {"Rapid": 0, "PlungeRapid": 0, "Retract": 0, "Cut": 1, "PlungeCut": 1, "CircularCW": 2, "CircularCCW": 3}[kind]
    exp = list(zip("XYZ", full))
    if code >= 2:
        c = getattr(C, kind)(center=A.AddressVector(*center), mid=A.AddressVector(*mid), end=en, start=st, feed=feed)
        exp += [(l, 0.0 if b is None else b - a) for l, a, b in zip("IJK", start, center)]
    elif code == 1:
        c = getattr(C, kind)(end=en, start=st, feed=feed)
    else:
        c = getattr(C, kind)(end=en, start=st)
    s = str(c)
    R.check(s == str(c), "the text changes when written again")
    ws = parse_words(R, s)
    R.check(ws and ws[0][0] == "G" and ws[0][1] == code, "motion code %s for %s", s, kind)
    body = ws[1:]
    if code and feed is not None:
        R.check(body and body[-1][0] == "F" and float(body[-1][1]) == feed, "feed word in %s, feed %s", s, feed)
        body = body[:-1]
    R.check([w[0] for w in body] == [l for l, _ in exp], "words of %r, expected %s", s, exp)
    for w, (l, x) in zip(body, exp):
        word_ok(R, kind, w, l, x, 3)
    # the motion's own record is unchanged by writing it
    R.check((c.start.x, c.start.y, c.start.z) == tuple(start), "start modified")
    R.check((c.end.x, c.end.y, c.end.z) == tuple(full), "end modified")


def case_roundtrip(R, seed):
    """a chain of motions, read back by a machine that only sees the text"""
    import cq_cam.command as C
    import cq_cam.address as A
    rng = R.rng("rt", seed)
    pos = [interesting(rng, 200) for _ in range(3)]
    text, want = [], []
    cur = A.AddressVector(*pos)
    for _ in range(rng.randrange(2, 12)):
        e = [interesting(rng, 200) if rng.random() < 0.6 else None for _ in range(3)]
        if e == [None] * 3:
            e[2] = 1.0
        cls = rng.choice([C.Rapid, C.Cut])
        c = cls.abs(*e, start=cur)
        text.append(str(c))
        pos = [b if b is not None else a for a, b in zip(pos, e)]
        want.append(list(pos))
        cur = c.end
    at = {}
    for line, w in zip(text, want):
        for l, v, _ in parse_words(R, line):
            at[l] = v
        for l, x in zip("XYZ", w):
            if l in at:
                R.check(abs(at[l] - Fraction(x)) <= Fraction(51, 100000), "after %r %s is %s, wanted %s", line, l,
                        float(at[l]), x)


def from_model(name, m):
    if name == "axis":
        x = frac(m.get("x", "0")) if m.get("x_given", "True") != "False" else None
        for cls in LETTERS:
            for p in (0, 1, 2, 3, 4, None):
                yield "axis", {"cls": cls, "x": x, "p": p}


def generate(R):
    rng = R.rng("C03")
    n = 4000 if R.thorough else 1200
    for cls in LETTERS:
        yield "axis", {"cls": cls, "x": None, "p": 3}
        for p in (None, 0, 1, 2, 3, 4):
            for x in (0.0, -0.0, 1, -1, 0.0004, -0.0004, 0.05, 1.9996, 999.9996, 1e-9, 12345678.0, 0.125, 2.5, -7.0001):
                yield "axis", {"cls": cls, "x": x, "p": p}
    for _ in range(n):
        yield "axis", {"cls": rng.choice(list(LETTERS)), "x": interesting(rng), "p": rng.choice([None, 0, 1, 2, 3, 4])}
    o = lambda q=0.6: interesting(rng) if rng.random() < q else None
    for _ in range(n // 3):
        yield "group", {"grp": rng.choice(["XYZ", "IJK"]), "v": [o(), o(), o()], "p": rng.choice([None, 2, 3, 4])}
    for _ in range(n):
        kind = rng.choice(["Rapid", "Cut", "PlungeRapid", "Retract", "PlungeCut", "CircularCW", "CircularCCW"])
        end = [o(), o(), o()]
        if kind in ("PlungeRapid", "Retract", "PlungeCut"):
            end = [None, None, interesting(rng)]
        yield "motion", {"kind": kind, "start": [interesting(rng) for _ in range(3)], "end": end,
                         "center": [o(0.9), o(0.9), o(0.3)], "mid": [interesting(rng) for _ in range(3)],
                         "feed": rng.choice([None, 100.0, 250.5, 1.0, 333.25])}
    for i in range(n // 6):
        yield "roundtrip", {"seed": i}
