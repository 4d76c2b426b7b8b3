"""Shared parts of the run-time contract checkers (run with the repository's own Python)."""
import math
import re
from decimal import Decimal
from fractions import Fraction

WORD = re.compile(r"^([A-Z])(-?\d+(?:\.\d+)?)$")


def parse_words(R, line):
    """the words of one block as (letter, Fraction); fails on anything else"""
    out = []
    for w in line.split():
        m = WORD.match(w)
        R.check(m, "not a plain decimal word: %r in %r", w, line)
        out.append((m.group(1), Fraction(m.group(2)), m.group(2)))
    return out


def frac(s):
    """value of a z3 model string"""
    s = str(s).strip()
    if s in ("True", "False"):
        return s == "True"
    if s.endswith("?"):
        s = s[:-1]
    try:
        return float(Fraction(s))
    except (ValueError, ZeroDivisionError):
        return None


def interesting(rng, scale=1000.0):
    """a number with many digits, a tie, a tiny or a huge one"""
    k = rng.randrange(9)
    if k == 0:
        return float(rng.randrange(-50, 50))
    if k == 1:
        return rng.randrange(-5000, 5000) / 1000.0
    if k == 2:
        return rng.uniform(-1, 1) * 10 ** rng.randrange(-9, 0)
    if k == 3:
        return rng.randrange(-5000, 5000) / 1000.0 + rng.choice([0.0005, -0.0005, 0.0004999, 1e-10])
    if k == 4:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.001, -0.001, 0.0001, 99999.9996, 1e6, -1e-7, 0.9995, 0.99951])
    if k == 5:
        return rng.randrange(-10, 10) + rng.choice([-1, 1]) * 10.0 ** -rng.randrange(3, 12)
    return rng.uniform(-scale, scale)
