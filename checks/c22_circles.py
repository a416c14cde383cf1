"""C22: circle fits."""
import itertools
import numpy as np
from scipy import optimize
import mc
from mc import snapshot, maxabs
from desimeter.circles import fit_circle, robust_fit_circle

PROPERTY = "C22"
LEVEL = "exploration"
RULE = ("every combination of centre, radius, number of points, arc coverage and point order (all permutations for few points): exact "
        "recovery, also with repeated points; every noise pattern of the lattice against an independent minimisation; every "
        "subset of one to three outliers among the points for the robust fit. Non-trivial: distinct configurations.")
ASSUMPTIONS = ["arcs of at least 60 deg with noise, 30 deg without", "radii between 1 and 5 (others are refused)"]


def circ(xc, yc, r, ang):
    t = np.radians(np.asarray(ang, float))
    return xc+r*np.cos(t), yc+r*np.sin(t)


def angles(n, arc, start):
    if arc == 360:
        return start+np.arange(n)*360./n+3.*np.sin(np.arange(n)*2.1)
    return start+np.linspace(0, arc, n)


def run(ex, cases, tag):
    """cases: (description, x, y, (xc, yc, r), tol)"""
    def one(c):
        d, x, y, want, tol = c
        b = snapshot((x, y))
        try:
            got = fit_circle(x, y)
            if snapshot((x, y)) != b:
                return "arguments modified"
            if want is None:
                return "accepted, with radius %g" % got[2]
            if maxabs(np.array(got, float)-np.array(want)) > tol:
                return "fitted %s instead of %s" % (np.round(got, 6), want)
        except ValueError as e:
            if not mc.under_test(e):
                raise
            if want is not None:
                return "refused: %s" % e
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e)
        return None
    for c, e in zip(cases, mc.pmap(one, cases)):
        ex.ran(1, sample=dict(case=str(c[0])))
        ex.state(str(c[0]))
        if e:
            ex.fail(tag, "%s: %s" % (c[0], e), case=str(c[0]), x=c[1], y=c[2])


def exact(ex):
    """noise free circles of every position, radius, coverage and number of points"""
    cs = []
    C = ((0., 0.), (12., -24.), (-380., 150.)) if not ex.thorough else ((0., 0.), (12., -24.), (-380., 150.), (0.3, 400.), (3., 3.))
    for (xc, yc), r, n, arc, st in itertools.product(C, (1.05, 1.8, 3., 4.9), (3, 4, 5, 6, 7, 8, 12, 13, 24, 30), (360, 270, 180, 120, 60), (0., 45., 117., 200., 300.)):
        x, y = circ(xc, yc, r, angles(n, arc, st))
        cs.append((("exact", xc, yc, r, n, arc, st), x, y, (xc, yc, r), 2e-5))
    run(ex, cs, "exact")


def orders(ex):
    """every order of the points"""
    cs = []
    for n in (3, 4, 5, 6) + ((7,) if ex.thorough else ()):
        for perm in itertools.permutations(range(n)):
            for arc in (360, 150):
                a = angles(n, arc, 20.)[list(perm)]
                x, y = circ(7., -3., 3., a)
                cs.append((("order", perm, arc), x, y, (7., -3., 3.), 2e-5))
    run(ex, cs, "orders")


def repeated(ex):
    """two points measured twice"""
    cs = []
    n = 8
    base = angles(n, 360, 11.)
    for i, j in itertools.combinations(range(n), 2):
        a = np.r_[base, base[i], base[j]]
        x, y = circ(1., 2., 3., a)
        cs.append((("repeated", i, j), x, y, (1., 2., 3.), 2e-5))
    run(ex, cs, "repeated")


def refused(ex):
    """circles that no positioner can make"""
    cs = []
    for r, n in itertools.product((0.05, 0.5, 0.9, 5.2, 8., 50.), (5, 8, 12)):
        x, y = circ(10., 20., r, angles(n, 360, 5.))
        cs.append((("refused", r, n), x, y, None, 0))
    run(ex, cs, "refused")


def optimum(x, y, x0):
    f = lambda c: np.hypot(x-c[0], y-c[1])-np.mean(np.hypot(x-c[0], y-c[1]))
    s = optimize.least_squares(f, x0, xtol=1e-15, ftol=1e-15, gtol=1e-15)
    return s.x[0], s.x[1], float(np.mean(np.hypot(x-s.x[0], y-s.x[1])))


def noisy(ex):
    """every pattern of radial errors: the fit is the least squares optimum"""
    cs = []
    for n, arc in itertools.product((5, 6, 8) if not ex.thorough else (5, 6, 8, 9), (360, 200, 120)):
        for pat in itertools.product((-1, 0, 1), repeat=n) if (n < 7 or ex.thorough) else itertools.product((-1, 1), repeat=n):
            if n == 9 and 0 in pat:
                continue
            a = angles(n, arc, 33.)
            r = 3.+0.01*np.array(pat)
            x, y = circ(-5., 9., r, a)
            cs.append((n, arc, pat, x, y))

    def one(c):
        n, arc, pat, x, y = c
        try:
            got = fit_circle(x, y)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e)
        w = optimum(x, y, (-5., 9.))
        if maxabs(np.array(got)-np.array(w)) > 2e-5:
            return "fitted %s, the optimum is %s" % (got, w)
        return None
    for c, e in zip(cs, mc.pmap(one, cs)):
        ex.ran(1, sample=dict(n=c[0], arc=c[1], pattern=c[2]))
        ex.state((c[0], c[1], c[2]))
        if e:
            ex.fail("noisy", "n=%d arc=%s errors %s: %s" % (c[0], c[1], c[2], e), x=c[3], y=c[4])


def robust(ex):
    """every subset of outliers is recognised and leaves the fit exact"""
    cs = []
    for n in (8, 9, 12, 16, 24):
        for k in (0, 1) + ((2,) if n in (16, 24) else ()) + ((3,) if ex.thorough and n == 24 else ()):
            for out in itertools.combinations(range(n), k):
                for size, direction in itertools.product((0.6, 1.5, 3.), (0., 70., 140., 200., 300.) if k < 2 else (0., 140.)):
                    cs.append((n, out, size, direction))

    def one(c):
        n, out, size, direction = c
        x, y = circ(12., 24., 3., angles(n, 360, 7.))
        radial = False
        for i in out:
            dx, dy = size*np.cos(np.radians(direction+50*i)), size*np.sin(np.radians(direction+50*i))
            x[i] += dx; y[i] += dy
        off = np.abs(np.hypot(x-12., y-24.)-3.)
        if any(off[i] < 0.25 for i in out):
            return "skip", None   # displaced along the circle: not an outlier
        b = snapshot((x, y))
        try:
            xc, yc, r, ok = robust_fit_circle(x, y)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e), None
        if snapshot((x, y)) != b:
            return "arguments modified", None
        return None, (xc, yc, r, [int(v) for v in np.flatnonzero(~np.asarray(ok))])
    for c, (e, s) in zip(cs, mc.pmap(one, cs)):
        if e == "skip":
            continue
        ex.ran(1, sample=dict(n=c[0], outliers=c[1], size=c[2]))
        ex.state(c)
        if e:
            ex.fail("robust", "%s: %s" % (c, e))
            continue
        if maxabs(np.array(s[:3])-np.array([12., 24., 3.])) > 1e-4:
            ex.fail("robust", "n=%d outliers %s of %.1f: fitted %s, discarded %s" % (c[0], c[1], c[2], np.round(s[:3], 4), s[3]), case=c)
        elif not set(c[1]) <= set(s[3]):
            ex.fail("robust", "n=%d outliers %s: only %s discarded" % (c[0], c[1], s[3]), case=c)


def few(ex):
    """short arcs, with few or many points, and radii near the limits"""
    cs = []
    for (xc, yc), r, n, arc, st in itertools.product(((0., 0.), (-380., 150.), (3., -399.)), (1.005, 1.05, 3., 4.97, 4.995), (3, 4, 5, 8, 13, 30, 100, 400),
                                                     (360, 90, 45, 30, 20, 10), (0., 45., 200.)):
        x, y = circ(xc, yc, r, angles(n, arc, st))
        cs.append((("few", xc, yc, r, n, arc, st), x, y, (xc, yc, r), 2e-5))
    for r, n, arc in itertools.product((0.01, 0.3, 0.95, 0.995, 5.005, 5.1, 6., 1000.), (3, 5, 8, 100), (360, 90)):
        x, y = circ(-100., 20., r, angles(n, arc, 5.))
        cs.append((("limit", r, n, arc), x, y, None, 0))
    run(ex, cs, "few")


def limits(ex):
    """large errors: what is accepted is the least squares optimum and an allowed radius"""
    cs = []
    for n, arc, r, size in itertools.product((5, 6, 8) if ex.thorough else (5, 7), (360, 200, 120), (1., 1.1, 3., 4.8, 5.), (0.03, 0.1)):
        for pat in itertools.product((-1, 0, 1) if n < 7 else (-1, 1), repeat=n):
            x, y = circ(-5., 9., 0*n+r+size*np.array(pat), angles(n, arc, 33.))
            cs.append((n, arc, r, size, pat, x, y))

    def one(c):
        n, arc, r, size, pat, x, y = c
        w = optimum(x, y, (-5., 9.))
        try:
            got = fit_circle(x, y)
        except ValueError as e:
            if not mc.under_test(e):
                raise
            return "refused although the optimum is a radius of %.3f" % w[2] if 1.4 < w[2] < 4. and size < 0.05 and arc > 150 else None
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e)
        if not 1-1e-3 <= got[2] <= 5+1e-3:
            return "accepted with a radius of %.4f" % got[2]
        if maxabs(np.array(got)-np.array(w)) > 1e-4*(1 if arc > 150 else 3):
            return "fitted %s, the optimum is %s" % (got, w)
        return None
    for c, e in zip(cs, mc.pmap(one, cs)):
        ex.ran(1, sample=dict(n=c[0], arc=c[1], radius=c[2], size=c[3], pattern=c[4]))
        ex.state(c[:5])
        if e:
            ex.fail("limits", "n=%d arc=%s radius %s errors %s x %s: %s" % (c[0], c[1], c[2], c[3], c[4], e), x=c[5], y=c[6])


def many(ex):
    """up to a dozen outliers among many points, wherever they are"""
    cs = []
    for n, k in ((7, 1), (30, 3), (40, 4), (40, 5), (60, 6), (60, 7), (80, 8), (100, 10), (100, 11)):
        for first, spread, size, direction, noise, (r, xc, yc) in itertools.product((0, 1, 5), ("together", "spread", "opposite"), (0.6, 1.5, 3., 20.), (0., 70., 140.), (0., 0.02),
                                                                      ((3., 12., 24.), (1.2, -390., 8.), (4.6, 3., 390.))):
            step = dict(together=np.arange(k), spread=np.arange(k)*n//k, opposite=np.arange(k)*(n//2-1))[spread]
            out = sorted(set(int(v) for v in (first+step) % n))
            if len(out) == k:
                cs.append((n, out, size, direction, noise, r, xc, yc))

    def one(c):
        n, out, size, direction, noise, r, xc, yc = c
        x, y = circ(xc, yc, r+noise*np.array([1, -1, -1, 1, 0, -1, 1, 1, -1, 0])[np.arange(n) % 10], 7.+np.arange(n)*360./n)
        for i in out:
            x[i] += size*np.cos(np.radians(direction+50*i)); y[i] += size*np.sin(np.radians(direction+50*i))
        off = np.abs(np.hypot(x-xc, y-yc)-r)
        if any(off[i] < 0.3 for i in out):
            return "skip", None
        good = np.setdiff1d(np.arange(n), out)
        try:
            gx, gy, gr, ok = robust_fit_circle(x, y)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e), None
        ok = np.asarray(ok)
        if np.any(ok[out]):
            return "outliers %s kept" % np.flatnonzero(ok[out]), None
        if noise == 0. and not ok[good].all():
            return "points on the circle discarded", None
        want = optimum(x[ok], y[ok], (xc, yc))
        if maxabs(np.array([gx, gy, gr])-np.array(want)) > 1e-4 or maxabs(np.array([gx, gy, gr])-np.array([xc, yc, r])) > (1e-4 if noise == 0 else 0.03):
            return "fitted %s instead of %s" % (np.round((gx, gy, gr), 4), np.round(want, 4)), None
        return None, None
    for c, (e, _) in zip(cs, mc.pmap(one, cs)):
        if e == "skip":
            continue
        ex.ran(1, sample=dict(n=c[0], outliers=c[1], size=c[2]))
        ex.state(str(c))
        if e:
            ex.fail("many", "n=%d outliers %s of %.1f towards %g noise %g, circle %s: %s" % (*c[:5], c[5:], e), case=str(c))


SECTIONS = [exact, orders, repeated, refused, noisy, robust, few, limits, many]
