"""C11: contour milling follows each whole contour and only moves along safe links."""
import z3
from pydv import values as V, runtime as R_
from .base import *
from .routes import *

UNITS = []
unit = units(UNITS)


@reg
class Ghost:
    """which contour is being cut, how many of its points were reached, whether (1) or not (0) it
    was entered through a link, at which segment and point"""

    def __init__(self):
        self.k, self.cnt, self.li, self.j = -1, 0, 0, 0
        self.cx = self.cy = self.lx = self.ly = 0.5
        self.fd, self.fx, self.fy, self.fj, self.fk = 0.5, 0.5, 0.5, 0, -1


def put(o, **kw):
    for k, v in kw.items():
        R_.setattr_(o, k, V.mk(z3.simplify(v)) if isinstance(v, z3.ExprRef) else v)


@unit("a closed contour is entered at another point", MODS, must_cover=["shifted"], replay="shift_polygon")
def shifted(P):
    e = V.eng()
    e.on_exception = no_exception()
    M = P["cq_cam.routers"]
    m = e.fresh_int("m").t
    e.assume(m >= 2)
    X, Y = e.fresh_func("X", IS, RS), e.fresh_func("Y", IS, RS)
    e.assume(z3.And(X(z3.IntVal(0)) == X(m - 1), Y(z3.IntVal(0)) == Y(m - 1)))
    poly = PList.of_seq(fseq(m, lambda i: (V.SymNum(X(i)), V.SymNum(Y(i)))))
    j = e.fresh_int("j").t
    e.assume(z3.And(j >= 0, j < m - 1))
    mark = e.write_mark()
    r = M.shift_polygon(poly, V.SymNum(j))
    frame(e, mark, "the contour given is not modified")
    e.prove("no point is lost or added", r.len_term() == m)
    K = e.fresh_int("K").t
    e.assume(z3.And(K >= 0, K < m))
    p = r.at(K)
    idx = z3.If(K + j < m - 1, K + j, K + j - (m - 1))
    e.prove("the points follow in their cyclic order", z3.And(num(p[0]) == X(idx), num(p[1]) == Y(idx)))
    a, b = r.at(z3.IntVal(0)), r.at(m - 1)
    e.prove("it is closed", z3.And(num(a[0]) == num(b[0]), num(a[1]) == num(b[1])))
    e.cover("shifted")


def follow(linked, known, unit=unit, links=True, what="contours are followed", by="here", **kw):
    """links: how long links are and the depth of the motions as well"""
    @unit(f"{what}, {'with' if linked else 'without'} step-over, "
          f"{'from a known position' if known else 'first tool path'}", MODS, must_cover=["done"],
          trusts=POLY_TRUST + [f"shift_polygon meets its contract (proved {by})"], **kw)
    def run(P):
        e = V.eng()
        e.on_exception = no_exception()
        e.use_templates = False
        M, A, C = P["cq_cam.routers"], P["cq_cam.address"], P["cq_cam.command"]
        job = JobStub(e)
        faces, n, m, X, Y, Z = contours(e, P)
        g = Ghost()
        stepover = R(e, "stepover", gt=0) if linked else None
        prev = A.AddressVector(*[R(e, "p" + c) for c in "xyz"]) if known else A.AddressVector()
        job_prec = 10 ** -job.precision

        def it(v):
            return term_of(v)

        def deep(z, k):
            return num(z) == Z(k) if links else z3.BoolVal(True)
        its = ", at its depth" if links else ""

        def complete():
            return z3.Or(it(g.k) == -1, it(g.cnt) == m(it(g.k)) - 1 + it(g.li))

        def hint(e2, loop, env, i):
            out = []
            ks = [p[:-1] for p in env if p[-1] == "cnt" and p[0] == "@"]
            for b in ks:
                def f(lp, v, idx, b=b):
                    if any(b + (x,) not in v for x in ("cnt", "k", "li")):
                        return None
                    return v[b + ("cnt",)] == m(v[b + ("k",)]) - 1 + v[b + ("li",)]
                out.append(("customl", "contour complete", f))
            return out
        e.loop_hints.append(hint)

        # entry without a link
        rapid_contract(e, P, job, [], [], heights=links)
        base = M.rapid_to

        def rapid(start, end, *a, **kw):
            r = base(start, end, *a, **kw)
            e.prove("a contour is finished before the next one is begun", complete())
            k = z3.simplify(it(g.k) + 1)
            e.prove("every contour is cut, in order", k < n)
            e.axiom(m(k) >= 2)
            e.prove("a contour is entered at its first point" + (its and ", at its own depth"),
                    z3.And(num(end.x) == X(k, z3.IntVal(0)), num(end.y) == Y(k, z3.IntVal(0)), deep(end.z, k)))
            put(g, k=k, cnt=0, li=0, j=0)
            return r
        M.rapid_to = rapid

        def found(point, path, d, c, j):
            k = z3.simplify(it(g.k) + 1)
            K = e.fresh_int("K").t
            pt = path.at(K)
            e.prove("the link is measured to the next contour",
                    z3.And(path.len_term() == m(k), z3.Implies(z3.And(K >= 0, K < m(k)),
                           z3.And(num(pt[0]) == X(k, K), num(pt[1]) == Y(k, K)))))
            if links:
                e.prove("the link is measured from where the previous contour ended",
                        z3.And(complete(), num(point[0]) == num(g.lx), num(point[1]) == num(g.ly)))
            put(g, fd=d, fx=c[0], fy=c[1], fj=j, fk=k)
        distance_contract(e, P, found, exact=False)

        def shift(poly, i):
            j, L = it(i), poly.len_term()
            e.prove("a contour is entered on the segment that was found", z3.And(j == it(g.fj), it(g.fk) == it(g.k) + 1))
            return PList.of_seq(fseq(L, lambda q: poly.at(z3.simplify(z3.If(q + j < L - 1, q + j, q + j - (L - 1))))))
        M.shift_polygon = shift
        Real = M.Cut

        def cut(x=None, y=None, z=None, start=None, **kw):
            if e.decide(complete()):
                k = z3.simplify(it(g.k) + 1)
                if not links:
                    pass
                elif stepover is None:
                    e.fail("without a step-over no link is cut", "link")
                else:
                    lim = num(stepover) + num(job_prec)
                    e.prove("a link is no longer than the step-over (and rounding)",
                            z3.And(it(g.fk) == k, num(g.fd) <= lim * lim))
                e.prove("every contour is cut, in order", k < n)
                e.prove("a link ends on the contour" + its, z3.And(num(x) == num(g.fx), num(y) == num(g.fy), deep(z, k)))
                e.axiom(m(k) >= 2)
                put(g, k=k, cnt=0, li=1, j=it(g.fj), cx=num(g.fx), cy=num(g.fy))
            else:
                k, cnt, L = it(g.k), it(g.cnt), m(it(g.k))
                q = cnt + 1 + it(g.j)
                idx = z3.If(it(g.li) == 1, z3.If(q < L - 1, q, q - (L - 1)), cnt + 1)
                tx = z3.If(cnt < L - 1, X(k, idx), num(g.cx))
                ty = z3.If(cnt < L - 1, Y(k, idx), num(g.cy))
                e.prove("the next point of the contour is cut" + its, z3.And(num(x) == tx, num(y) == ty, deep(z, k)))
                put(g, cnt=cnt + 1, lx=num(x), ly=num(y))
            return Real.abs(x, y, z, start=start, **kw)

        class Rec:
            abs = staticmethod(cut)

            def __new__(cls, end=None, start=None, **kw):
                xs = [getattr(end, c) if getattr(end, c) is not None else getattr(start, c) for c in "xyz"]
                return cut(*xs, start=start, **kw)
        M.Cut = Rec
        M.route_polyface_outers(job, faces, stepover=stepover, previous_pos=prev)
        e.cover("done")
        e.prove("all contours are cut", z3.And(complete(), it(g.k) == n - 1))
    return run


for _l in (True, False):
    for _k in (True, False):
        follow(_l, _k)
