"""C05: corrector optics, tangent plane <-> focal plane, for every ADC setting."""
import os, itertools
import numpy as np
import mc
from mc import maxabs, snapshot
from astropy.table import Table
from desimeter import io
from desimeter.transform.tan2fp import raytracefit as RF, echo22 as E
from desimeter.transform import tan2fp as DEF

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("every ordered pair of ADC angles on a lattice of the full circle (with +-360 deg aliases of each angle) x a full polar "
        "lattice of the field, forward and backward, alone and in batches; every row of the shipped ray-trace table, both "
        "directions; every 1-mm row of the Echo22 plate-scale table; every ordered pair of ADC settings as a 2-call history. "
        "Non-trivial: distinct rounded focal plane positions.")
ASSUMPTIONS = ["field radius up to 1.6 deg (the fitted field)", "tolerance 10 um against the ray trace (documented fit residual ~5.8 um)"]

DATA = str(io.desimeter_data_dir())


def field(ex, rmax=0.0281, fine=False):
    r = np.concatenate([[0., 1e-7], np.linspace(0.001, rmax, 9 if not fine else 25)])
    a = np.radians(np.concatenate([np.arange(0, 360, 15 if not fine else 5), [0.01, 89.99, 180.01]]))
    R, A = [v.ravel() for v in np.meshgrid(r, a)]
    return R*np.cos(A), R*np.sin(A)


def rot(x, y, deg):
    c, s = np.cos(np.radians(deg)), np.sin(np.radians(deg))
    return c*x-s*y, s*x+c*y


def adc_pairs(ex):
    x, y = field(ex)
    step = 40 if not ex.thorough else 12.
    angles = sorted(set(list(np.arange(0, 360, step)) + [0.1, 359.9, 181.]))
    # reference: setting (-d/2, +d/2) with mean angle 0
    ref = {}

    def pair(ab):
        a, b = ab
        res = []
        d = (b-a) % 360
        try:
            bsnap = snapshot([x, y])
            X, Y = RF.tan2fp(x, y, a, b)
            bx, by = RF.fp2tan(X, Y, a, b)
            w = max(maxabs(bx-x), maxabs(by-y))*2e5
            if not w < 1e-6:
                res.append(("inverse", "fp2tan does not undo tan2fp (arcsec)", w))
            # rotating both prisms rotates the optics
            m = (a+d/2.)
            xr, yr = rot(x, y, -m)
            ra, rb = -d/2., d/2.
            X0, Y0 = RF.tan2fp(xr, yr, ra, rb)
            Xr, Yr = rot(X0, Y0, m)
            w = max(maxabs(Xr-X), maxabs(Yr-Y))
            if not w < 1e-7:
                res.append(("equivariance", "rotating both ADC prisms does not rotate the distortion (mm)", w))
            for da, db in ((360, 0), (0, 360), (-360, 0), (0, -360), (360, 360), (-360, -360), (360, -360), (720, -720)):
                Xa, Ya = RF.tan2fp(x, y, a+da, b+db)
                w = max(maxabs(Xa-X), maxabs(Ya-Y))
                if not w < 1e-7:
                    res.append(("alias/%d/%d" % (da, db), "adding full turns to the ADC angles changes the answer (mm)", w))
                tx, ty = RF.fp2tan(X, Y, a+da, b+db)
                if not max(maxabs(tx-x), maxabs(ty-y))*2e5 < 1e-6:
                    res.append(("alias-inv/%d/%d" % (da, db), "adding full turns changes the inverse", max(maxabs(tx-x), maxabs(ty-y))*2e5))
            for i in range(0, x.size, 29):
                sx, sy = RF.tan2fp(x[i:i+1], y[i:i+1], a, b)
                if not (abs(sx[0]-X[i]) < 1e-8 and abs(sy[0]-Y[i]) < 1e-8):
                    res.append(("one", "one position alone and in a batch get different answers", [sx-X[i], sy-Y[i]]))
                tx, ty = RF.fp2tan(X[i:i+1], Y[i:i+1], a, b)
                if not (abs(tx[0]-x[i]) < 1e-11 and abs(ty[0]-y[i]) < 1e-11):
                    res.append(("one-inv", "inverse of one position alone and in a batch differ", [tx-x[i], ty-y[i]]))
            k = np.arange(x.size)[::-1]
            Xk, Yk = RF.tan2fp(x[k], y[k], a, b)
            if not max(maxabs(Xk-X[k]), maxabs(Yk-Y[k])) < 1e-9:
                res.append(("order", "answer depends on row order", 0))
            Xd, Yd = DEF.tan2fp(x, y, a, b); xd, yd = DEF.fp2tan(X, Y, a, b)
            if not (np.array_equal(Xd, X) and np.array_equal(Yd, Y) and np.array_equal(xd, bx) and np.array_equal(yd, by)):
                res.append(("default", "package-level transform is not the ray-trace fit", 0))
            # close to the symmetric corrector: never further than 8 mm from the nominal plate scale, same orientation
            ex_, ey_ = E.tan2fp(x, y)
            w = maxabs(np.hypot(X-ex_, Y-ey_))
            if not w < 8.:
                res.append(("nominal", "more than 8 mm from the nominal optics", w))
            if snapshot([x, y]) != bsnap:
                res.append(("mutated", "inputs modified in place", 0))
            return res, len({(round(u, 3), round(v, 3)) for u, v in zip(X.tolist(), Y.tolist())}), (float(X[7]), float(Y[7]))
        except Exception as e:
            import traceback
            if mc.under_test(e):
                return [("crash", "unexpected %s: %s" % (type(e).__name__, e), traceback.format_exc()[-1500:])], 0, None
            raise
    pairs = list(itertools.product(angles, angles))
    for (a, b), (res, nd, s) in zip(pairs, mc.pmap(pair, pairs)):
        ex.ran(x.size*20, sample=dict(adc=[a, b], xy=s))
        ex.states(nd)
        for key, msg, w in res:
            ex.fail("%g,%g/%s" % (a, b, key), msg, adc=[a, b], worst=w)
    # continuity of the answer as one prism is swept through a full turn
    sw = np.arange(0, 360.01, 2. if not ex.thorough else 0.5)
    for a in (0., 90., 200.):
        with ex.guard("sweep"):
            prev = None
            for b in sw:
                X, Y = RF.tan2fp(x, y, a, a+b)
                if prev is not None and 0 < b:
                    # at d=0 the two prisms cancel: mean direction immaterial, so the map is continuous there too
                    ex.check(max(maxabs(X-prev[0]), maxabs(Y-prev[1])) < 0.25*(sw[1]-sw[0]), "sweep/%g/%g" % (a, b),
                             "jump of the optics model between neighbouring ADC settings", jump=max(maxabs(X-prev[0]), maxabs(Y-prev[1])))
                prev = (X, Y)
                ex.ran(1)
                ex.state((a, b))


def raytrace(ex):
    """the shipped model reproduces the shipped ray trace, every row, both directions"""
    t = Table.read(os.path.join(DATA, "raytrace-tan2fp-4957-v18.csv"))
    cols = {c: np.array(t[c]) for c in t.colnames}
    settings = sorted(set(zip(cols["ADC1"].tolist(), cols["ADC2"].tolist())))
    ex.check(len(settings) >= 15, "table", "ray trace table lost")
    with mc.scratch() as d:
        for which in ("module", "json"):
            o = RF
            if which == "json":
                with ex.guard("json"):
                    inst = RF.get_raytracefit()
                    fn = os.path.join(d, "a.json")
                    inst.write_jsonfile(fn)
                    o = RF.TAN2FP_RayTraceFit.read_jsonfile(fn)
                    o2 = RF.TAN2FP_RayTraceFit.fromjson(o.tojson())
                    xx, yy = field(ex)
                    for a, b in ((12., 48.), (0., 0.), (-100., 100.), (350., 10.)):
                        r0, r1, r2 = inst.tan2fp(xx, yy, a, b), o.tan2fp(xx, yy, a, b), o2.tan2fp(xx, yy, a, b)
                        ex.check(np.array_equal(r0[0], r1[0]) and np.array_equal(r0[1], r1[1]) and np.array_equal(r1[0], r2[0]) and np.array_equal(r1[1], r2[1]),
                                 "json/%g,%g" % (a, b), "saved and re-read model differs")
                        ex.ran(1)
                        ex.state(("json", a, b))
            for a, b in settings:
                m = (cols["ADC1"] == a) & (cols["ADC2"] == b)
                x, y, fx, fy = [cols[c][m] for c in ("X_TAN", "Y_TAN", "X_FP", "Y_FP")]
                key = "%s/%g,%g" % (which, a, b)
                with ex.guard(key):
                    X, Y = o.tan2fp(x, y, a, b)
                    w = np.hypot(X-fx, Y-fy)
                    ex.check(maxabs(w) < 0.010 and np.sqrt(np.mean(w**2)) < 0.003, key+"/tan2fp", "more than 10 um from the ray trace", worst=maxabs(w))
                    bx, by = o.fp2tan(fx, fy, a, b)
                    w = np.hypot(bx-x, by-y)*206265.
                    ex.check(maxabs(w) < 0.15, key+"/fp2tan", "more than 0.15 arcsec from the ray trace", worst=maxabs(w))
                ex.ran(2*x.size, sample=dict(adc=[a, b]))
                ex.states(x.size)


def refit(ex):
    """fitting the ray trace again: the fit is as good, and does not depend on the order of the rows"""
    t = Table.read(os.path.join(DATA, "raytrace-tan2fp-4957-v18.csv"))
    keep = np.isin(np.array(t["ADC1"]), [0., -30., -60., -90., -120.]) if not ex.thorough else np.ones(len(t), bool)
    t = t[keep]
    x, y = field(ex)
    base = None
    n = len(t)
    for name, perm in (("file", np.arange(n)), ("rev", np.arange(n)[::-1]), ("stride", np.argsort((np.arange(n)*7919) % n, kind="stable"))):
        with ex.guard("fit/"+name):
            tt = t[perm]
            o = RF.TAN2FP_RayTraceFit(); o.fit(tt)
            for a in (0., -30., -45., -90., -120.):
                if a != -45.:
                    m = np.array(t["ADC1"]) == a
                    X, Y = o.tan2fp(np.array(t["X_TAN"][m]), np.array(t["Y_TAN"][m]), a, -a)
                    w = maxabs(np.hypot(X-t["X_FP"][m], Y-t["Y_FP"][m]))
                    ex.check(w < 0.010, "fit/%s/%g" % (name, a), "re-fitted model more than 10 um from the ray trace", worst=w)
                X, Y = o.tan2fp(x, y, a, -a)
                bx, by = o.fp2tan(X, Y, a, -a)
                ex.check(max(maxabs(bx-x), maxabs(by-y))*2e5 < 1e-6, "fit/%s/%g/inv" % (name, a), "re-fitted model: inverse does not close")
                if name == "file":
                    base = base or {}
                    base[a] = (X, Y)
                else:
                    ex.check(max(maxabs(X-base[a][0]), maxabs(Y-base[a][1])) < 1e-7, "fit/%s/%g/order" % (name, a),
                             "fit depends on the order of the ray-trace rows", worst=max(maxabs(X-base[a][0]), maxabs(Y-base[a][1])))
                ex.ran(3*x.size)
                ex.state((name, a))


def echo(ex):
    fn = os.path.join(os.path.dirname(E.__file__), "data", "Echo22Platescale.txt")
    tab = np.loadtxt(fn, usecols=[0, 1])
    tab = tab[tab[:, 0] <= 415.]
    with ex.guard("table"):
        ex.check(maxabs(E.radius2theta(tab[:, 0])-tab[:, 1])*3600 < 0.1, "r2t", "radius2theta more than 0.1 arcsec off its table", worst=maxabs(E.radius2theta(tab[:, 0])-tab[:, 1])*3600)
        ex.check(maxabs(E.theta2radius(tab[:, 1])-tab[:, 0]) < 1e-3, "t2r", "theta2radius more than 1 um off its table")
        for r, th in tab[::5]:
            ex.check(abs(E.radius2theta(float(r))-th)*3600 < 0.1 and abs(E.theta2radius(float(th))-r) < 1e-3, "scalar/%g" % r, "scalar form off the table")
        ex.ran(2*len(tab))
        ex.states(len(tab))
    thmax = tab[-1, 1]
    r = np.sin(np.radians(np.linspace(0, thmax, 80 if not ex.thorough else 400)))
    a = np.radians(np.arange(-180, 180, 5.))
    R, A = [v.ravel() for v in np.meshgrid(r, a)]
    x, y = R*np.cos(A), R*np.sin(A)
    with ex.guard("xy"):
        b = snapshot([x, y])
        X, Y = E.tan2fp(x, y)
        # rotationally symmetric, orientation preserving, matching the table
        ex.check(maxabs(X*y-Y*x) < 1e-9, "radial", "the nominal optics is not radial")
        ex.check(np.all(X*x+Y*y >= 0), "orientation", "the nominal optics flips the field")
        want = np.interp(np.degrees(np.arcsin(np.minimum(R, 1))), tab[:, 1], tab[:, 0])
        ex.check(maxabs(np.hypot(X, Y)-want) < 2e-3, "scale", "radius not the tabulated one", worst=maxabs(np.hypot(X, Y)-want))
        bx, by = E.fp2tan(X, Y)
        ex.check(maxabs(np.hypot(bx-x, by-y))*206265. < 0.05, "inverse", "fp2tan(tan2fp) off by more than 0.05 arcsec", worst=maxabs(np.hypot(bx-x, by-y))*206265.)
        X2, Y2 = E.tan2fp(bx, by)
        ex.check(maxabs(np.hypot(X2-X, Y2-Y)) < 1e-3, "inverse2", "tan2fp(fp2tan) off by more than 1 um")
        for i in range(0, x.size, 57):
            sx, sy = E.tan2fp(float(x[i]), float(y[i])); tx, ty = E.fp2tan(float(X[i]), float(Y[i]))
            ex.check(abs(sx-X[i]) < 1e-9 and abs(sy-Y[i]) < 1e-9 and abs(tx-bx[i]) < 1e-12 and abs(ty-by[i]) < 1e-12, "scalar-xy", "scalar and array answers differ")
        ex.check(snapshot([x, y]) == b, "mutated", "inputs modified")
        ex.ran(3*x.size, sample=dict(x=x[90], X=X[90]))
        ex.states(x.size)


def histories(ex):
    """every ordered pair (thorough: triple) of ADC settings: the later answers do not depend on the earlier call"""
    x, y = field(ex)
    x, y = x[::7], y[::7]
    S = [(0., 0.), (12., 48.), (48., 12.), (-90., 90.), (359., 1.), (180., 180.), (10., -170.), (300., 299.999)]
    base = {s: (RF.tan2fp(x, y, *s)) for s in S}
    for hist in itertools.product(S, repeat=2 if not ex.thorough else 3):
        with ex.guard("hist"):
            for s in hist[:-1]:
                X, Y = RF.tan2fp(x, y, *s); RF.fp2tan(X, Y, *s)
            s = hist[-1]
            X, Y = RF.tan2fp(x, y, *s)
            ex.check(np.array_equal(X, base[s][0]) and np.array_equal(Y, base[s][1]), "hist/%s" % (hist,), "answer depends on earlier calls")
            bx, by = RF.fp2tan(X, Y, *s)
            ex.check(max(maxabs(bx-x), maxabs(by-y))*2e5 < 1e-6, "hist-inv/%s" % (hist,), "inverse depends on earlier calls")
        ex.ran(2*len(hist))
        ex.state(hist)


def long(ex):
    """long lists are transformed row by row: any length, and one position at the edge among many on the axis"""
    for a, b in ((0., 0.), (20., 110.), (300., 10.), (0., 180.)) if not ex.thorough else itertools.product(range(0, 360, 45), repeat=2):
        with ex.guard("long/%g/%g" % (a, b)):
            for N in (1, 2, 3, 1000, 4999, 40000):
                r = 0.028*np.sqrt((np.arange(N)+0.5)/N); p = 2.399963*np.arange(N)
                for what in ("disk", "axis", "edge"):
                    x, y = r*np.cos(p), r*np.sin(p)
                    if what == "axis":
                        x[:-1] *= 1e-4; y[:-1] *= 1e-4
                    elif what == "edge":
                        x[1:], y[1:] = 0.028, 0.0003
                    X, Y = RF.tan2fp(x, y, a, b)
                    bx, by = RF.fp2tan(X, Y, a, b)
                    w = max(maxabs(bx-x), maxabs(by-y))*2e5
                    ex.check(w < 1e-6, "long/%g/%g/%d/%s/inverse" % (a, b, N, what), "fp2tan does not undo tan2fp in a long list (arcsec)", worst=w)
                    k = np.unique(np.concatenate([np.linspace(0, N-1, 60).astype(int)]))
                    for kk in (k, k[-1:], k[:1]):
                        Xk, Yk = RF.tan2fp(x[kk], y[kk], a, b)
                        xk, yk = RF.fp2tan(X[kk], Y[kk], a, b)
                        ex.check(max(maxabs(Xk-X[kk]), maxabs(Yk-Y[kk])) < 1e-8 and max(maxabs(xk-bx[kk]), maxabs(yk-by[kk])) < 1e-11,
                                 "long/%g/%g/%d/%s/part" % (a, b, N, what), "positions of a long list are transformed differently alone")
                        ex.ran(2)
                    ex.ran(2); ex.state((a, b, N, what))


SECTIONS = [adc_pairs, long, raytrace, refit, echo, histories]
