"""C03: focal-surface coordinates (x,y) <-> (q,s) <-> (u,v) <-> flat and the R,S,Z,N look-ups."""
import math, itertools
import numpy as np
import mc
from mc import maxabs, angdiff, snapshot
from desimeter.transform import xy2qs as Q, rszn_lookups as L, pos2ptl as P

PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("the full polar lattice radius 0..419 mm x azimuth (all axes, both signs of zero, every octant edge) for the planar "
        "systems, and every node, midpoint, quarter point and out-of-range value of the focal-surface table for the look-ups, "
        "as scalars, lists and arrays. Non-trivial: distinct rounded outputs.")
ASSUMPTIONS = ["tolerance 4.5 um on polynomial r<->s round trips (the fit's own stated precision)"]


def polar(ex, fine):
    radii = np.concatenate([[0., 1e-6, 0.01], np.arange(0.5, 419.9, 4.25 if not fine else 0.75), [414.9, 419.9]])
    ang = sorted(set(list(np.arange(-180, 180.1, 7.5 if not fine else 1.5)) + [0., 1e-7, -1e-7, 45., 90., 135., 179.99999, -179.99999, -90., -45.]))
    Rr, A = np.meshgrid(radii, ang)
    Rr, A = Rr.ravel(), A.ravel()
    x, y = Rr*np.cos(np.radians(A)), Rr*np.sin(np.radians(A))
    x = np.concatenate([x, [0., -0., 0., -0., 100., 100., -100., -100., 0., -0.]])
    y = np.concatenate([y, [0., 0., -0., -0., 0., -0., 0., -0., 57., -57.]])
    return x, y


def planar(ex):
    x, y = polar(ex, ex.thorough)
    r = np.hypot(x, y)
    b = snapshot([x, y])
    big = r > 1e-3
    # the look-up table (DESI-0530) is an independent description of the same surface
    s_ref = np.interp(r, L.R, L.S)
    with ex.guard("xy2qs"):
        q, s = Q.xy2qs(x, y)
        ex.check(np.all((q >= 0) & (q <= 360.)), "q-range", "q not within [0,360]")
        bad = angdiff(q, np.degrees(np.arctan2(y, x))) > 1e-9
        ex.check(not np.any(bad & big), "q-azimuth", "q is not the azimuth of (x,y)", at=[x[bad][:2], y[bad][:2], q[bad][:2]])
        bad = ~(np.abs(s-s_ref) <= 4.5e-3)
        ex.check(not np.any(bad), "s-table", "s differs from the focal-surface table by more than 4.5 um",
                 at=[r[bad][:3], s[bad][:3], s_ref[bad][:3]])
        x2, y2 = Q.qs2xy(q, s)
        d = np.hypot(x2-x, y2-y)
        ex.check(np.all(d < 4.5e-3), "qs-roundtrip", "xy -> qs -> xy does not close", worst=maxabs(d))
        q3, s3 = Q.xy2qs(x2, y2)
        ex.check(np.all(np.abs(s3-s) < 4.5e-3) and np.all(angdiff(q3, q)[r > 0.5] < 0.6), "qs-roundtrip2",
                 "qs -> xy -> qs does not close")
        ex.ran(x.size, sample=dict(x=x[40], y=y[40], q=q[40], s=s[40]), trans=3*x.size)
    with ex.guard("uv"):
        u, v = Q.xy2uv(x, y)
        ex.check(np.all(np.abs(np.hypot(u, v)-np.abs(s)) < 1e-9), "uv-radius", "uv radius is not s")
        ex.check(np.all(angdiff(np.degrees(np.arctan2(v, u)), np.degrees(np.arctan2(y, x)))[r > 0.01] < 1e-7), "uv-azimuth",
                 "uv azimuth differs from xy azimuth")
        x2, y2 = Q.uv2xy(u, v)
        ex.check(np.all(np.hypot(x2-x, y2-y) < 4.5e-3), "uv-roundtrip", "xy -> uv -> xy does not close",
                 worst=maxabs(np.hypot(x2-x, y2-y)))
        ex.ran(x.size, trans=2*x.size)
    with ex.guard("flat"):
        fx, fy = P.ptl2flat(x, y)
        ex.check(np.all(np.hypot(fx-u, fy-v) < 1e-9), "flat=uv", "ptl2flat is not (q,s) in cartesian form")
        x2, y2 = P.flat2ptl(fx, fy)
        ex.check(np.all(np.hypot(x2-x, y2-y) < 4.5e-3), "flat-roundtrip", "ptl -> flat -> ptl does not close")
        fx2, fy2 = P.ptl2flat(*P.flat2ptl(x, y))
        ex.check(np.all(np.hypot(fx2-x, fy2-y) < 4.5e-3), "flat-roundtrip2", "flat -> ptl -> flat does not close")
        ex.ran(x.size, trans=4*x.size)
    ex.check(snapshot([x, y]) == b, "mutated", "inputs modified in place")
    ex.states(len({(round(a, 4), round(c, 4)) for a, c in zip(q.tolist(), s.tolist())}))


def radial(ex):
    r = np.arange(0., 419.95, 0.05)
    with ex.guard("radial"):
        s = Q.r2s(r)
        ex.check(np.all(np.diff(s) > 0), "r2s-monotone", "r2s not strictly increasing")
        ex.check(np.all(np.diff(Q.s2r(r)) > 0), "s2r-monotone", "s2r not strictly increasing")
        ex.check(maxabs(s-np.interp(r, L.R, L.S)) < 4.5e-3, "r2s-table", "r2s differs from the table by more than 4.5 um")
        st = np.interp(r, L.R, L.S)
        ex.check(maxabs(Q.s2r(st)-r) < 4.5e-3, "s2r-table", "s2r differs from the table by more than 4.5 um", worst=maxabs(Q.s2r(st)-r))
        ex.check(maxabs(Q.s2r(s)-r) < 4.5e-3 and maxabs(Q.r2s(Q.s2r(r))-r) < 4.5e-3, "rs-roundtrip", "r <-> s does not close")
        for f in (Q.r2s, Q.s2r):
            whole = f(r)
            for i in range(0, r.size, 97):
                ex.check(abs(float(f(float(r[i])))-whole[i]) < 1e-10, f.__name__+"-scalar", "scalar and array answers differ", r=r[i])
                ex.check(abs(float(np.asarray(f([float(r[i])])).ravel()[0])-whole[i]) < 1e-10, f.__name__+"-list", "list and array answers differ", r=r[i])
            ex.check(maxabs(f(r[::-1])-whole[::-1]) < 1e-12, f.__name__+"-order", "answer depends on order")
            ex.check(maxabs(f(r[:8000].reshape(40, 200)).ravel()-whole[:8000]) < 1e-12, f.__name__+"-2d", "2d answer differs")
        ex.ran(r.size*6, sample=dict(r=[0, 419.95], n=r.size))
        ex.states(r.size)


def lookups(ex):
    cols = dict(r=L.R, s=L.S, z=L.Z, n=L.N)
    ex.check(np.all(np.diff(L.R) > 0) and np.all(np.diff(L.S) > 0) and np.all(np.diff(L.Z) < 0) and np.all(np.diff(L.N) > 0),
             "tables", "focal surface table not monotonic")
    # arc length and slope consistency of the table itself
    ds = np.sqrt(np.diff(L.R)**2+np.diff(L.Z)**2)
    ex.check(maxabs(np.diff(L.S)-ds) < 2e-3, "arc", "S is not the arc length along the surface", worst=maxabs(np.diff(L.S)-ds))
    funcs = [("r", "s"), ("s", "r"), ("r", "z"), ("z", "r"), ("r", "n"), ("n", "r"), ("s", "n"), ("s", "z"), ("z", "s"), ("n", "s")]
    for a, b in funcs:
        f = getattr(L, a+"2"+b)
        X, Y = cols[a], cols[b]
        lo, hi = min(X), max(X)
        for frac in (0., 0.25, 0.5, 0.75):
            xs = X[:-1]+frac*(X[1:]-X[:-1])
            if frac == 0.:
                xs = np.append(xs, X[-1])
                want = Y
            else:
                o = np.argsort(X)
                # composite maps go through r, linear in each step
                if a != "r" and b != "r":
                    rr = np.interp(xs, X[o], L.R[o])
                    want = np.interp(rr, L.R, Y)
                else:
                    want = np.interp(xs, X[o], Y[o])
            key = "%s2%s/%g" % (a, b, frac)
            with ex.guard(key):
                got = f(xs)
                ok = np.asarray(got).shape == xs.shape and maxabs(np.asarray(got)-want) < 1e-9
                ex.check(ok, key, "look-up differs from the table", worst=maxabs(np.asarray(got)-want), first=[xs[:2], np.asarray(got)[:2], want[:2]])
                g = getattr(L, b+"2"+a)(got)
                ex.check(maxabs(g-xs) < 1e-6, key+"/inv", "look-up and its inverse do not close", worst=maxabs(g-xs))
                for i in range(0, xs.size, 37):
                    ex.check(abs(float(f(float(xs[i])))-want[i]) < 1e-9, key+"/scalar", "scalar look-up differs", x=xs[i])
                ex.check(maxabs(f(xs[::-1])-want[::-1]) < 1e-9, key+"/order", "answer depends on order")
            ex.ran(xs.size*3, sample=dict(f=a+"2"+b, frac=frac))
            ex.states(xs.size)
        for x in (lo-1e-3, lo-10., hi+1e-3, hi+50.):
            key = "%s2%s/oob" % (a, b)
            with ex.guard(key):
                v = f(x)
                ex.check(np.isnan(v), key, "out-of-bounds input must give NaN, not a made-up coordinate", x=x, got=v)
                v = f(np.array([x, X[3]]))
                ex.check(np.isnan(v[0]) and abs(v[1]-Y[3]) < 1e-9, key+"/array", "out-of-bounds element spoils its neighbours")
            ex.ran(2)
            ex.state((a, b, x))


def long(ex):
    """long lists are converted point by point"""
    r, a = np.array([0., 1e-3, 3., 57., 120., 199., 260.5, 333.3, 390., 413.]), np.arange(10)*0.777
    x, y = r*np.cos(a), r*np.sin(a)
    q, s = Q.xy2qs(x, y)
    S = (1, 2, 3, 511, 1025, 5003, 20011) if not ex.thorough else (1, 2, 3, 511, 1025, 5003, 20011, 200003)
    for name, f, b in (("xy2qs", Q.xy2qs, (x, y)), ("qs2xy", Q.qs2xy, (q, s)), ("xy2uv", Q.xy2uv, (x, y)), ("uv2xy", Q.uv2xy, (x, y)), ("r2s", Q.r2s, (r,)), ("s2r", Q.s2r, (r,))):
        mc.long_lists(ex, name, f, b, 1e-9, S, periods=(0,) if name == "xy2qs" else ())
    cols = dict(r=L.R, s=L.S, z=L.Z, n=L.N)
    for f, t in (("r", "s"), ("s", "r"), ("r", "z"), ("z", "r"), ("r", "n"), ("n", "r"), ("s", "n"), ("s", "z"), ("z", "s"), ("n", "s")):
        v = cols[f][[3, 40, 100, 200, 300, 410]]*1.+(cols[f][5]-cols[f][4])*0.3
        v = np.r_[v, min(cols[f])-5., max(cols[f])+5.]
        mc.long_lists(ex, f+"2"+t, getattr(L, f+"2"+t), (v,), 1e-9, S)


SECTIONS = [long, planar, radial, lookups]
