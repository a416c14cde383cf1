"""C17: fit of the calibration of one positioner."""
import contextlib, io, itertools
import numpy as np
from scipy import optimize
import mc
from mc import maxabs, snapshot
from desimeter.posparams import fitter as F
from desimeter.posparams.movemask import movemask
from desimeter.posparams.flags import eval_move_flags
from desimeter.transform import pos2ptl

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("simulated histories of one positioner for every calibration of a lattice x pose set (exact recovery), every subset of fixed "
        "parameters, every assignment of re-homed sequences with drifts, every scale of both axes, every one or two outliers, every "
        "noise pattern against an independent least-squares solution, all stuck/moving patterns for the flags, every ordered pair of "
        "calls. Non-trivial: distinct (calibration, history, options).")
ASSUMPTIONS = ["simulated positions from an independent forward model of the two arms", "at least 10 poses spread over both axes",
               "outliers are at least 0.3 mm away (1.2 mm if there are two)"]
ST = ['LENGTH_R1', 'LENGTH_R2', 'OFFSET_T', 'OFFSET_P', 'OFFSET_X', 'OFFSET_Y']
TOL = dict(LENGTH_R1=2e-3, LENGTH_R2=2e-3, OFFSET_T=0.03, OFFSET_P=0.05, OFFSET_X=2e-3, OFFSET_Y=2e-3)


def forward(T, P, c, et=0., ep=0.):
    """flat positions"""
    t = np.radians(np.asarray(T, float)+c['OFFSET_T']+et)
    p = np.radians(np.asarray(P, float)+c['OFFSET_P']+ep)
    return (c['OFFSET_X']+c['LENGTH_R1']*np.cos(t)+c['LENGTH_R2']*np.cos(t+p),
            c['OFFSET_Y']+c['LENGTH_R1']*np.sin(t)+c['LENGTH_R2']*np.sin(t+p))


def petal(x, y):
    return pos2ptl.flat2ptl(np.asarray(x), np.asarray(y))


def poses(kind):
    if kind == "arcs":
        T = list(np.linspace(-150, 150, 7))+[10.]*6
        P = [120.]*7+list(np.linspace(100, 172, 6))
    elif kind == "grid":
        T, P = [v.ravel().tolist() for v in np.meshgrid([-160., -70., 20., 110.], [105., 130., 155.])]
    elif kind == "integers":
        T, P = [v.ravel().tolist() for v in np.meshgrid([-150, -60, 30, 120], [110, 130, 150])]
    else:
        i = np.arange(18)
        T = (-170+(i*77.3) % 340).tolist(); P = (100+(i*23.7) % 75).tolist()
    return T, P


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def fit(T, P, x, y, mode='static', gear=(1., 1.), rehome=None, seq=None, **kw):
    n = len(T)
    g = lambda v: list(v) if np.ndim(v) else [v]*n
    return quiet(F.fit_params, T, P, [float(v) for v in x], [float(v) for v in y], g(gear[0]), g(gear[1]),
                 [True]*n if rehome is None else rehome, [0]*n if seq is None else seq, mode=mode, **kw)


def cal(*v):
    return dict(zip(ST, v))


CALS = [cal(a, b, t, p, x, y) for a, b in ((3., 3.), (2.7, 3.3), (3.3, 2.8)) for t in (-120., -45., 0., 60., 110.)
        for p in (-15., 0., 12.) for x, y in ((100., 50.), (-12., 330.))]


def differences(b, want, tol=TOL):
    bad = []
    for k in want:
        d = b[k]-want[k]
        if k == 'OFFSET_T':
            d = (d+180) % 360-180
        if not abs(d) < tol[k]:
            bad.append("%s off by %.4g" % (k, d))
    return ", ".join(bad)


def residuals(T, P, c, x, y, et=0., ep=0.):
    fx, fy = forward(T, P, c, et, ep)
    xf, yf = pos2ptl.ptl2flat(np.asarray(x, float), np.asarray(y, float))
    return np.hypot(fx-xf, fy-yf)


def run(ex, cases, one, tag, describe=str):
    def safe(c):
        try:
            return one(c)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "error", "%s: %s" % (type(e).__name__, e)
    for c, r in zip(cases, mc.pmap(safe, cases)):
        ex.ran(1, sample=dict(case=describe(c)))
        ex.state(describe(c))
        if r:
            ex.fail(tag+"-"+r[0], describe(c)+": "+r[1], case=describe(c))


def common(b, cov, rms, npt, T, P, x, y, keep, n=None, fixed=None, mode='static'):
    """consistency that holds for every successful static fit without drifts"""
    n = len(T) if n is None else n
    if npt != n:
        return "count", "%d points in the fit instead of %d" % (npt, n)
    if b["FLAGS"] & movemask["FAILED_FIT"]:
        return "flag", "flagged as failed"
    fitted = [k for k in F.all_keys if k not in keep]
    for i, k in enumerate(F.all_keys):
        lo, hi = F.default_bounds[k]
        if k in fitted and k != 'OFFSET_T' and not lo-1e-12 <= b[k] <= hi+1e-12:
            return "bounds", "%s = %g outside of %s" % (k, b[k], (lo, hi))
        v = cov.get("COV.%s.%s" % (k, k))
        if v is None or (k in keep and v != 0) or (k in fitted and not v > 0):
            return "variance", "variance of %s is %s" % (k, v)
        for l in F.all_keys[i+1:]:
            has = ("COV.%s.%s" % (k, l) in cov)+("COV.%s.%s" % (l, k) in cov)
            if has != (k in fitted and l in fitted):
                return "covariance", "covariance of %s and %s stored %d times" % (k, l, has)
    if not -180 < b['OFFSET_T'] <= 180 and 'OFFSET_T' in fitted:
        return "wrap", "OFFSET_T = %g" % b['OFFSET_T']
    return None


def near(c, d=7.):
    """first guesses close to the calibration, as in a second pass"""
    return dict(F.default_values, OFFSET_T=c['OFFSET_T']-d)


def recover(ex):
    """noise-free histories give back the calibration, from the default guess or a close one (then also across +-180 deg)"""
    cs = [(c, k, h, None) for c in CALS for k in ("arcs", "grid", "generic", "integers") for h in (1, True)]
    cs += [(dict(c, OFFSET_T=t), k, True, d) for c in CALS[::5] for t in (-179.9, -175., -150., 150., 176., 179.9) for k in ("arcs", "generic") for d in (7., -7.)]

    def one(c):
        c, kind, h, d = c
        T, P = poses(kind)
        x, y = petal(*forward(T, P, c))
        b, cov, rms, npt = fit(T, P, x, y, rehome=[h]*len(T), **({} if d is None else dict(nominals=near(c, d))))
        r = common(b, cov, rms, npt, T, P, x, y, F.dynamic_keys)
        if r:
            return r
        d = differences(b, c)
        if d:
            return "values", d
        if b['SCALE_T'] != 1 or b['SCALE_P'] != 1:
            return "fixed", "scales changed"
        if not rms < 1e-3:
            return "rms", "rms of residuals %g for exact data" % rms
        return None
    run(ex, cs, one, "recover", lambda c: "%s poses, calibration %s guess %s" % (c[1], tuple(c[0].values()), c[3]))


def fixed(ex):
    """every subset of fixed parameters, at their true and at other values"""
    c0 = [CALS[5], CALS[60], cal(2.9, 3.1, 75., 4., 210., -130.)]
    cs = []
    for i, c in enumerate(c0):
        for r in range(6):
            for keep in itertools.combinations(ST, r):
                for shift in (0., 1.):
                    if shift and not keep:
                        continue
                    cs.append((i, keep, shift))
    if not ex.thorough:
        cs = [c for k, c in enumerate(cs) if k % 2 == 0 or c[0] == 2]

    def one(cc):
        i, keep, shift = cc
        c = c0[i]
        T, P = poses("generic")
        x, y = petal(*forward(T, P, c))
        nom = dict(F.default_values)
        st = dict(LENGTH_R1=0.05, LENGTH_R2=-0.04, OFFSET_T=3., OFFSET_P=-2., OFFSET_X=0.3, OFFSET_Y=-0.2)
        for k in keep:
            nom[k] = c[k]+shift*st[k]
        bnd = dict(F.default_bounds)
        b0 = snapshot((nom, bnd, list(keep)))
        arg = list(keep)
        b, cov, rms, npt = fit(T, P, x, y, nominals=nom, bounds=bnd, keep_fixed=arg)
        if snapshot((nom, bnd, arg)) != b0:
            return "args", "nominals, bounds or list of fixed parameters modified"
        for k in keep:
            w = nom[k]
            if not (abs(b[k]-w) < 1e-9 or (k == 'OFFSET_T' and abs((b[k]-w+180) % 360-180) < 1e-9)):
                return "moved", "%s = %g although fixed at %g" % (k, b[k], w)
        r = common(b, cov, rms, npt, T, P, x, y, set(keep) | set(F.dynamic_keys))
        if r:
            return r
        if not shift or not keep:
            d = differences(b, c)
            if d:
                return "values", d
        # the residuals reported are those of the parameters reported, and no neighbour is better
        q = lambda v: np.sqrt(np.mean(residuals(T, P, v, x, y)**2))
        if (not abs(q(b)-rms) <= 1e-6+1e-4*rms):
            return "rms", "rms of residuals %g instead of %g" % (rms, q(b))
        if shift:
            free = [k for k in ST if k not in keep]
            f = lambda v: (lambda fx: np.r_[fx[0]-xf, fx[1]-yf])(forward(T, P, dict(b, **dict(zip(free, v)))))
            xf, yf = pos2ptl.ptl2flat(x, y)
            lo = [F.default_bounds[k][0]-1e-9 for k in free]; hi = [F.default_bounds[k][1]+1e-9 for k in free]
            s = optimize.least_squares(f, [b[k] for k in free], bounds=(lo, hi), xtol=1e-12, ftol=1e-12)
            best = np.sqrt(np.sum(s.fun**2)/len(T))
            if rms > best*1.01+1e-4:
                return "minimum", "rms of residuals %g where %g is possible" % (rms, best)
        return None
    run(ex, cs, one, "fixed", lambda c: "calibration %d with %s fixed%s" % (c[0], list(c[1]), " at other values" if c[2] else ""))


def limited(ex):
    """true values beyond each bound: the answer stays within, for every subset of narrowed bounds"""
    c = cal(2.9, 3.1, 20., 4., 210., -130.)
    nb = dict(LENGTH_R1=(2.95, 3.05), LENGTH_R2=(2.95, 3.05), OFFSET_T=(-10., 10.), OFFSET_P=(-2., 2.), OFFSET_X=(195., 209.9), OFFSET_Y=(-129.9, -120.))
    cs = [k for r in range(1, 7) for k in itertools.combinations(ST, r)]

    def one(keys):
        T, P = poses("generic")
        x, y = petal(*forward(T, P, c))
        bnd = dict(F.default_bounds); bnd.update({k: nb[k] for k in keys})
        b, cov, rms, npt = fit(T, P, x, y, bounds=bnd)
        for k in ST:
            if not bnd[k][0]-1e-9 <= b[k] <= bnd[k][1]+1e-9:
                return "bounds", "%s = %g outside of %s" % (k, b[k], bnd[k])
        return None
    run(ex, cs, one, "limited", lambda c: "bounds of %s exclude the truth" % (c,))


DRIFT = [CALS[9], CALS[50]]


def drifts(ex):
    """every assignment of re-homed sequences; drifts of the others are found, none for the re-homed ones"""
    cs = []
    ids = ((0, 1, 2), (1, 10, 11)) if not ex.thorough else ((0, 1, 2), (1, 10, 11), (7, 3, 5), (2, 12, 21))
    for i, c in enumerate(DRIFT):
        for re in itertools.product((True, False), repeat=3):
            for names in ids:
                for lay in ("blocks", "alternate"):
                    for e in ((12., -3.), (-20., 2.)):
                        cs.append((i, re, names, lay, e))

    def one(cc):
        i, re, names, lay, e = cc
        c = DRIFT[i]
        T, P = poses("generic")
        T = T+[t+11. for t in T]; P = P+[p-3. for p in P]
        n = len(T)
        k = np.arange(n)*3//n if lay == "blocks" else np.arange(n) % 3
        et = np.array([0. if re[j] else e[0]*(1+0.5*j) for j in k]); ep = np.array([0. if re[j] else e[1]*(1-0.4*j) for j in k])
        x, y = petal(*forward(T, P, c, et, ep))
        seq = [names[j] for j in k]; rh = [re[j] for j in k]
        b0 = snapshot((seq, rh, T, P))
        b, cov, rms, npt = fit(T, P, x, y, seq=seq, rehome=rh, nominals=near(c))
        if snapshot((seq, rh, T, P)) != b0:
            return "args", "arguments modified"
        if not any(re):
            return None if b["FLAGS"] & movemask["FAILED_FIT"] and npt == 0 else ("unanchored", "fit without any re-homed move accepted")
        if b["FLAGS"] != 0:
            return "flag", "flags %d" % b["FLAGS"]
        want = {"EPSILON_%s_%d" % (a, names[j]) for j in range(3) if not re[j] for a in "TP"}
        got = {q for q in b if "EPSILON" in q}
        if want != got:
            return "names", "drifts fitted: %s instead of %s" % (sorted(got), sorted(want))
        d = differences(b, c, {q: 10*v for q, v in TOL.items()})
        if d:
            return "values", d
        for j in range(3):
            if not re[j]:
                if (not abs(b["EPSILON_T_%d" % names[j]]-e[0]*(1+0.5*j)) <= 0.3) or (not abs(b["EPSILON_P_%d" % names[j]]-e[1]*(1-0.4*j)) <= 0.3):
                    return "drift", "drift of sequence %d is %g, %g instead of %g, %g" % (names[j], b["EPSILON_T_%d" % names[j]], b["EPSILON_P_%d" % names[j]], e[0]*(1+0.5*j), e[1]*(1-0.4*j))
        # dynamic fit with these drifts known
        nom = dict(F.default_values); nom.update({q: v for q, v in b.items() if q != "FLAGS"})
        nom.update(c)
        for j in range(3):
            if not re[j]:
                nom["EPSILON_T_%d" % names[j]] = e[0]*(1+0.5*j); nom["EPSILON_P_%d" % names[j]] = e[1]*(1-0.4*j)
        if lay == "blocks":
            # leave out the moves from one sequence to another, whose length is unknown
            s = []
            for j in range(3):
                s = np.flatnonzero(k == j)
                if not re[j]:
                    s2 = list(s)
                    d2, cv, rm, m = fit([T[q] for q in s2], [P[q] for q in s2], x[s2], y[s2], mode='dynamic', seq=[seq[q] for q in s2], rehome=[True]+[False]*(len(s2)-1), nominals=nom)
                    if m != len(s2)-1 or (not abs(d2['SCALE_T']-1) <= 2e-3) or (not abs(d2['SCALE_P']-1) <= 2e-3):
                        return "dynamic", "scales %g %g with %d points for moves of nominal length in a drifted sequence" % (d2['SCALE_T'], d2['SCALE_P'], m)
        return None
    run(ex, cs, one, "drifts", lambda c: "calibration %d, sequences %s %s rehomed %s, drift %s" % (c[0], c[2], c[3], c[1], c[4]))


def scales(ex):
    """moves shorter than commanded: scale of each axis, with calibrations in place, for all combinations"""
    cs = []
    sc = (1., 0.8, 0.5) if not ex.thorough else (1., 0.95, 0.8, 0.65, 0.5, 0.3)
    for i in (3, 47, 81):
        for st, sp in itertools.product(sc, repeat=2):
            for gt, gp in ((1., 1.), (0.9, 1.), (1., 0.7), (0.85, 0.75)):
                if gt*gp < 1 and (st < gt*0.5 or sp < gp*0.5):
                    continue
                cs.append((i, st, sp, gt, gp, 0))
        # calibrations that changed during the history
        for (st, sp), v in itertools.product(((0.8, 0.8), (0.7, 0.5), (0.9, 0.6)), (1, 2, 3) if not ex.thorough else range(1, 9)):
            cs.append((i, st, sp, 1., 1., v))

    def one(cc):
        i, st, sp, gt, gp, vary = cc
        c = CALS[i]
        # the arm starts at (t0, p0); each commanded move of the internal angles is executed times scale/gear
        n = 14
        k = np.arange(n)
        k0 = np.arange(n+1)
        dT = 55.*np.cos(k*2.3); dP = 14.*np.cos(k*1.7+1)
        t, p = -20., 135.
        T, P, x, y = [t], [p], [], []
        fx, fy = forward(t, p, c); x.append(fx); y.append(fy)
        for j in range(n):
            # before each move the internal angles are those measured (no accumulated error), after it the commanded ones
            pass
        real_t, real_p = t, p
        gt, gp = np.full(n+1, gt), np.full(n+1, gp)      # in place at the time of the move to each point
        if vary:
            gt = 1.-0.1*((k0*vary) % 3 == 1)
            gp = 1.-0.15*((k0*(vary+1)+1) % 4 < 2)
        for j in range(n):
            T.append(T[-1]+dT[j]); P.append(P[-1]+dP[j])
            real_t += dT[j]*st/gt[j+1]; real_p += dP[j]*sp/gp[j+1]
            fx, fy = forward(real_t, real_p, c); x.append(fx); y.append(fy)
        if not (np.all(np.abs(np.array(T)) < 175) and np.all((np.array(P)+c['OFFSET_P'] < 175) & (np.array(P)+c['OFFSET_P'] > 5))):
            raise AssertionError("harness: poses out of range")
        X, Y = petal(np.array(x), np.array(y))
        nom = dict(F.default_values); nom.update(c)
        b0 = snapshot(nom)
        b, cov, rms, npt = fit(T, P, X, Y, mode='dynamic', gear=(gt, gp), nominals=nom)
        if snapshot(nom) != b0:
            return "args", "nominals modified"
        if npt != n:
            return "count", "%d moves in the fit instead of %d" % (npt, n)
        wt, wp = min(st, 1.), min(sp, 1.)
        if (not abs(b['SCALE_T']-wt) <= 2e-3) or (not abs(b['SCALE_P']-wp) <= 2e-3):
            return "values", "scales %.4f %.4f" % (b['SCALE_T'], b['SCALE_P'])
        for q in ST:
            if b[q] != c[q] and not (q == 'OFFSET_T' and abs((b[q]-c[q]+180) % 360-180) < 1e-9):
                return "static", "%s changed" % q
            if cov.get("COV.%s.%s" % (q, q)) != 0:
                return "variance", "variance of the fixed %s not zero" % q
        if not rms < 5e-3:
            return "rms", "rms of residuals %g" % rms
        return None
    run(ex, cs, one, "scales", lambda c: "calibration %d scales %g %g gears %g %g%s" % (c[:5]+(" varying (pattern %d)" % c[5] if c[5] else "",)))


def outliers(ex):
    """every one or two discrepant points: dropped if requested, with everything else as without them"""
    T, P = poses("generic")
    n = len(T)
    cs = []
    for i in (12, 70):
        for s in [(j,) for j in range(n)]+[q for q in itertools.combinations(range(n), 2) if ex.thorough or (q[0]*5+q[1]) % 4 == 0]:
            for d in (0.4, 2.5) if not ex.thorough else (0.3, 0.6, 1.2, 2.5):
                if len(s) == 1 or d > 1:   # closer pairs can hide each other
                    cs.append((i, s, d))
        cs.append((i, (), 0.))

    def one(cc):
        i, out, d = cc
        c = CALS[i]
        x, y = forward(T, P, c)
        x = x+0.005*np.cos(np.arange(n)*2.7); y = y+0.005*np.sin(np.arange(n)*4.1)
        gx, gy = petal(x, y)
        ref = None
        keep = [j for j in range(n) if j not in out]
        for j, q in enumerate(out):
            x[q] += d*np.cos(1+2.2*j+q); y[q] += d*np.sin(1+2.2*j+q)
        X, Y = petal(x, y)
        b, cov, rms, npt = fit(T, P, X, Y, outlier_rejection=True)
        if npt != n-len(out):
            return "count", "%d points kept instead of %d" % (npt, n-len(out))
        w, _, wr, _ = fit([T[j] for j in keep], [P[j] for j in keep], gx[keep], gy[keep])
        dd = differences({k: b[k] for k in ST}, {k: w[k] for k in ST})
        if dd:
            return "values", "differs from the fit without the outliers: "+dd
        if (not abs(rms-wr) <= 1e-4*wr+1e-7):
            return "rms", "rms of residuals %.6f instead of %.6f" % (rms, wr)
        q = np.sqrt(np.mean(residuals([T[j] for j in keep], [P[j] for j in keep], b, gx[keep], gy[keep])**2))
        if (not abs(rms-q) <= 1e-4*q):
            return "rms", "rms of residuals %.6f instead of %.6f" % (rms, q)
        b2, _, r2, n2 = fit(T, P, X, Y)
        if n2 != n or (out and r2 < 2*rms):
            return "default", "points dropped although not requested"
        return None
    run(ex, cs, one, "outliers", lambda c: "calibration %d outliers %s by %g mm" % c)

    def toofew(c):
        # one point less than parameters remains: reported as failed, not raised nor accepted
        k, d = c
        T2, P2 = poses("generic"); T2, P2 = T2[:6], P2[:6]
        x, y = forward(T2, P2, CALS[12])
        x[k] += d
        bnd = dict(F.default_bounds)
        for q in ("LENGTH_R1", "LENGTH_R2"):
            bnd[q] = (CALS[12][q]-0.01, CALS[12][q]+0.01)
        b, cov, rms, npt = fit(T2, P2, *petal(x, y), outlier_rejection=True, bounds=bnd)
        if npt < 6 and not b["FLAGS"] & movemask["FAILED_FIT"]:
            return "toofew", "fit with %d points accepted" % npt
        if npt == 6 and b["FLAGS"] & movemask["FAILED_FIT"]:
            return "toofew", "fit with %d points flagged" % npt
        return None
    run(ex, [(k, d) for k in range(6) for d in (0., 0.5, 3., 20.)], toofew, "outliers", lambda c: "6 points, number %d off by %g mm" % c)


def noisy(ex):
    """least-squares solution for every noise pattern, weights included"""
    cs = [(i, a, k, w) for i in (1, 33, 64, 80) for a in (0.005, 0.03) for k in range(4 if not ex.thorough else 24) for w in ("none", "both", "x", "heavy")]

    def one(cc):
        i, a, k, w = cc
        c = CALS[i]
        T, P = poses(("generic", "grid")[k % 2])
        n = len(T); j = np.arange(n)
        x, y = forward(T, P, c)
        x = x+a*np.cos(j*(1.3+k)); y = y+a*np.sin(j*(2.1+k*1.7))
        ex_, ey = np.ones(n), np.ones(n)
        if w == "both": ex_ = 0.01*(1+j % 3); ey = 0.01*(1+(j+1) % 4)
        if w == "x": ex_ = 1+2.*(j % 3)
        if w == "heavy":
            x[4] += 1.5; ex_ = np.full(n, 0.01); ey = ex_.copy(); ex_[4] = 1e5; ey[4] = 1e5
        X, Y = petal(x, y)
        kw = {}
        if w in ("both", "heavy", "x"): kw['ptlXerr'] = ex_.tolist()
        if w in ("both", "heavy"): kw['ptlYerr'] = ey.tolist()
        b, cov, rms, npt = fit(T, P, X, Y, nominals=near(c), **kw)
        r = common(b, cov, rms, npt, T, P, X, Y, F.dynamic_keys)
        if r:
            return r
        f = lambda v: (lambda q: np.r_[(q[0]-x)/ex_, (q[1]-y)/ey])(forward(T, P, cal(*v)))
        s = optimize.least_squares(f, [c[q] for q in ST], xtol=1e-13, ftol=1e-13, x_scale=[.1, .1, 1, 1, .1, .1])
        best = np.sum(s.fun**2); got = np.sum(f([b[q] for q in ST])**2)
        if got > best*1.02+1e-9:
            return "minimum", "weighted sum of squares %.6g where %.6g is possible" % (got, best)
        d = residuals(T, P, b, X, Y)
        if (not abs(rms-np.sqrt(np.mean(d**2))) <= 1e-5*rms):
            return "rms", "rms of residuals %g instead of %g" % (rms, np.sqrt(np.mean(d**2)))
        return None
    run(ex, cs, one, "noisy", lambda c: "calibration %d noise %g pattern %d weights %s" % c)


def stuck(ex):
    """flags for all patterns of moving and stuck arcs"""
    n = 0
    groups = [(p, m, r, mv) for p in (110., 150., 170.) for m in (3, 4, 6) for r in (10., 30., 200.) for mv in (True, False)]
    for g in [(a,) for a in groups]+list(itertools.combinations([g for g in groups if g[1] != 6], 2)):
        if len({q[0] for q in g}) != len(g):
            continue
        T, P, x, y = [], [], [], []
        for p, m, r, mv in g:
            t = np.linspace(0, r, m)
            T += t.tolist(); P += [p]*m
            tt = t if mv else t*0
            fx, fy = forward(tt, np.full(m, p), CALS[0])
            if mv:  # moving by more than the limit in all cases
                fx, fy = fx+0.2*np.cos(np.arange(m)*3.1), fy
            x += fx.tolist(); y += fy.tolist()
        X, Y = petal(np.array(x), np.array(y))
        tested = [q for q in g if q[1] >= 4 and q[0] <= 160 and q[2] >= 20]
        want = bool(tested) and not any(q[3] for q in tested)
        with ex.guard("stuck"):
            fl = quiet(eval_move_flags, T, P, X.tolist(), Y.tolist())
            ex.check(bool(fl & movemask["THETA_STUCK"]) == want and not fl & ~int(movemask["THETA_STUCK"]), "stuck", "flags %s for groups (phi, points, theta range, moving) %s" % (fl, g))
            if want:
                b, cov, rms, npt = fit(T, P, X, Y)
                ex.check(b["FLAGS"] & movemask["FAILED_FIT"] and b["FLAGS"] & movemask["THETA_STUCK"] and npt == 0, "stuck-fit", "fit of a stuck positioner accepted", groups=g)
        n += 1
    ex.ran(n, sample=dict(groups=g))
    ex.states(n)
    # motion along any direction counts
    for a in range(0, 180, 15):
        for p, m, size in itertools.product((100., 150.), (4, 7), (0.3, 2.)):
            u = np.linspace(-size, size, m)
            X, Y = 180.+u*np.cos(np.radians(a)), 60.+u*np.sin(np.radians(a))
            with ex.guard("stuck-direction"):
                fl = quiet(eval_move_flags, np.linspace(0, 150, m).tolist(), [p]*m, X.tolist(), Y.tolist())
                ex.check(not fl & movemask["THETA_STUCK"], "stuck-direction", "moving by %g mm towards %d deg, but flagged as stuck" % (2*size, a))
            ex.ran(1)
            ex.state(("direction", a, p, m, size))


def drifts_many(ex):
    """many sequences, large drifts, sequences of uneven lengths"""
    cs = []
    for i, m, anchor, lay, e in itertools.product((9, 50, 77), (4, 5, 6), (0, 1, 3), ("blocks", "alternate"), ((12., -3.), (60., 8.), (-100., -6.), (90., 5.))):
        if ex.thorough or abs(e[0]) >= 90 or (i+m+anchor) % 2 == 0:
            cs.append((i, m, anchor, lay, e))

    def one(cc):
        i, m, anchor, lay, e = cc
        c = CALS[i]
        T, P = poses("generic")
        T = T+[t+11. for t in T]; P = P+[p-3. for p in P]
        n = len(T)
        k = np.arange(n)*m//n if lay == "blocks" else np.arange(n) % m
        names = [4+7*j for j in range(m)]
        et = np.array([0. if j == anchor else e[0]*(1-0.15*j) for j in k]); ep = np.array([0. if j == anchor else e[1]*(1-0.3*j) for j in k])
        x, y = petal(*forward(T, P, c, et, ep))
        b, cov, rms, npt = fit(T, P, x, y, seq=[names[j] for j in k], rehome=[bool(j == anchor) for j in k], nominals=near(c))
        if b["FLAGS"] != 0 or npt != n:
            return "flag", "flags %d, %d points" % (b["FLAGS"], npt)
        want = {"EPSILON_%s_%d" % (a, names[j]) for j in range(m) if j != anchor for a in "TP"}
        got = {q for q in b if "EPSILON" in q}
        if want != got:
            return "names", "drifts fitted: %s instead of %s" % (sorted(got), sorted(want))
        q = np.sqrt(np.mean(residuals(T, P, b, x, y, np.array([b.get("EPSILON_T_%d" % names[j], 0.) for j in k]), np.array([b.get("EPSILON_P_%d" % names[j], 0.) for j in k]))**2))
        if (not abs(q-rms) <= 1e-4*rms+1e-6):
            return "rms", "rms of residuals %g instead of %g" % (rms, q)
        if not rms < 0.02:
            return "rms", "rms of residuals %g for exact data" % rms
        d = differences(b, c, {q: 20*v for q, v in TOL.items()})
        if d:
            return "values", d
        for j in range(m):
            if j != anchor and ((not abs(b["EPSILON_T_%d" % names[j]]-e[0]*(1-0.15*j)) <= 1.) or (not abs(b["EPSILON_P_%d" % names[j]]-e[1]*(1-0.3*j)) <= 1.)):
                return "drift", "drift of sequence %d is %g, %g instead of %g, %g" % (names[j], b["EPSILON_T_%d" % names[j]], b["EPSILON_P_%d" % names[j]], e[0]*(1-0.15*j), e[1]*(1-0.3*j))
        return None
    run(ex, cs, one, "drifts-many", lambda c: "calibration %d, %d sequences, number %d re-homed, %s, drift %s" % c)


def mixed(ex):
    """scales in histories with drifts; outliers in histories with drifts, with errors, and in the dynamic mode"""
    n = 24
    cs = []
    for i, (st, sp), e in itertools.product((9, 50, 77), ((1., 1.), (0.9, 0.8), (0.6, 0.7)), ((9., -3.), (-14., 2.))):
        for lay in ("two", "three", "alternate"):
            cs.append(("scales", i, st, sp, e, lay, None))
            for out in (range(0, n, 5) if not ex.thorough else range(1, n)):
                cs.append(("dynamic", i, st, sp, e, lay, out))
    for i, e, lay in itertools.product((9, 50, 77), ((9., -3.), (-14., 2.)), ("two", "three", "alternate")):
        for out in (range(0, 36, 5) if not ex.thorough else range(36)):
            cs.append(("static", i, 1., 1., e, lay, out))
            cs.append(("errors", i, 1., 1., e, lay, out))

    def one(cc):
        kind, i, st, sp, e, lay, out = cc
        c = CALS[i]
        n = 36 if kind in ("static", "errors") else 24
        kk = np.arange(n)
        k = dict(two=kk*2//n, three=kk*3//n, alternate=(kk//2) % 2)[lay]
        et = np.array([0., e[0], 1.4*e[0]])[k]; ep = np.array([0., e[1], -0.7*e[1]])[k]
        dT = 55.*np.cos(kk*2.3); dP = 14.*np.cos(kk*1.7+1)
        T = -20.+np.r_[0, np.cumsum(dT[1:])]; P = 135.+np.r_[0, np.cumsum(dP[1:])]
        if kind in ("static", "errors"):
            T, P = [np.array(v) for v in poses("generic")]
            T = np.r_[T, T+11.]; P = np.r_[P, P-3.]
        x, y = forward(-20.+st*(T+20), 135.+sp*(P-135), c, et, ep)
        w = 0.01*(1+0.3*(kk % 3))
        if kind == "errors":      # small errors that the weights decide upon
            x = x+0.4*w*np.cos(kk*2.7); y = y+0.4*w*np.sin(kk*4.1)
        seq = [(3, 8, 12)[j] for j in k]; rh = [bool(j == 0) for j in k]
        nom = dict(F.default_values); nom.update(c)
        kw = dict(nominals=near(c))
        if kind in ("scales", "dynamic"):
            nom.update(EPSILON_T_8=e[0], EPSILON_P_8=e[1], EPSILON_T_12=1.4*e[0], EPSILON_P_12=-0.7*e[1])
            kw = dict(nominals=nom, mode='dynamic')
        gx, gy = petal(x, y)
        if out is not None:
            x = x.copy(); y = y.copy()
            x[out] += 2.; y[out] -= 1.3
        X, Y = petal(x, y)
        keep = [j for j in range(n) if j != out]
        er = {}
        if kind == "errors":
            er = dict(ptlXerr=w.tolist(), ptlYerr=w[::-1].tolist())
        a0 = snapshot((T, P, X, Y, seq, rh, kw, er))
        b, cov, rms, npt = fit(T.tolist(), P.tolist(), X, Y, seq=seq, rehome=rh, outlier_rejection=True, **kw, **er)
        if snapshot((T, P, X, Y, seq, rh, kw, er)) != a0:
            return "args", "arguments modified"
        if kind in ("scales", "dynamic"):
            tol = 3e-3
            if kind == "dynamic":     # an outlier spoils the move to it, and the move from it
                if not n-3 <= npt <= n-1:
                    return "count", "%d moves kept" % npt
                if out and npt > n-2:
                    return "count", "no move dropped"
            elif npt != n-1:
                return "count", "%d moves kept" % npt
            if (not abs(b['SCALE_T']-st) <= tol) or (not abs(b['SCALE_P']-sp) <= tol):
                return "values", "scales %.4f %.4f" % (b['SCALE_T'], b['SCALE_P'])
            if not rms < 5e-3:
                return "rms", "rms of residuals %g" % rms
            return None
        if npt != n-1:    # unequal errors can give an outlier so much weight that other points look discrepant
            return None if kind == "errors" and n-16 < npt < n else ("count", "%d points kept" % npt)
        if kind == "errors":
            er = dict(ptlXerr=w[keep].tolist(), ptlYerr=w[::-1][keep].tolist())
        v, _, wr, _ = fit(T[keep].tolist(), P[keep].tolist(), gx[keep], gy[keep], seq=[seq[j] for j in keep], rehome=[rh[j] for j in keep], **kw, **er)
        tol = dict(TOL, EPSILON_T_8=0.05, EPSILON_T_12=0.05, EPSILON_P_8=0.1, EPSILON_P_12=0.1)
        if kind == "errors":
            tol = {q: 2*z for q, z in tol.items()}
        names = [q for q in v if q in tol]
        d = differences({q: b[q] for q in names}, {q: v[q] for q in names}, tol)
        if d:
            return "values", "differs from the fit without the outlier: "+d
        eT = np.array([b.get("EPSILON_T_%d" % q, 0.) for q in seq]); eP = np.array([b.get("EPSILON_P_%d" % q, 0.) for q in seq])
        r = residuals(T[keep], P[keep], b, gx[keep], gy[keep], eT[keep], eP[keep])
        q = np.sqrt(np.mean(r**2))
        if (not abs(q-rms) <= 1e-4*q+1e-6):
            return "rms", "rms of residuals %g instead of %g" % (rms, q)
        if kind == "errors":
            def chi2(z):
                f = forward(T[keep], P[keep], z, np.array([z.get("EPSILON_T_%d" % q, 0.) for q in seq])[keep], np.array([z.get("EPSILON_P_%d" % q, 0.) for q in seq])[keep])
                xf, yf = pos2ptl.ptl2flat(gx[keep], gy[keep])
                return np.sum(((f[0]-xf)/w[keep])**2+((f[1]-yf)/w[::-1][keep])**2)
            if chi2(b) > 1.02*chi2(v)+0.02:
                return "minimum", "weighted sum of squares %g where %g is possible" % (chi2(b), chi2(v))
        return None
    run(ex, cs, one, "mixed", lambda c: "%s: calibration %d scales %g %g drift %s %s sequences, outlier %s" % c)


def notfinite(ex):
    """a missing value in any input is never fitted"""
    T, P = poses("generic")
    n = len(T)
    c = CALS[12]
    x, y = petal(*forward(T, P, c))

    def one(cc):
        name, mode, k, v = cc
        a = dict(T=list(T), P=list(P), x=list(x), y=list(y), gt=[1.]*n, gp=[1.]*n)
        a[name][k] = v
        try:
            b, cov, rms, npt = fit(a['T'], a['P'], a['x'], a['y'], mode=mode, gear=(a['gt'], a['gp']), nominals=dict(F.default_values, **c))
        except (AssertionError, ValueError):
            return None
        if b["FLAGS"] & movemask["FAILED_FIT"]:
            return None
        return "accepted", "fit accepted"
    cs = [(a, m, k, v) for a in ("T", "P", "x", "y", "gt", "gp") for m in ("static", "dynamic") for k in (0, 5, n-1) for v in (np.nan, np.inf, -np.inf)]
    run(ex, cs, one, "notfinite", lambda c: "%s in %s mode, entry %d is %s" % c)


def histories(ex):
    """every ordered pair (triple) of calls: each answer is that of a fresh process"""
    base = {k: (dict(F.default_values), dict(F.default_bounds)) for k in (0,)}
    T, P = poses("generic"); n = len(T)
    def call(k):
        c = CALS[[4, 40, 80, 30][k % 4]]
        if k == 0: return fit(T, P, *petal(*forward(T, P, c)))
        if k == 1:
            et = np.where(np.arange(n) < 6, 15., 0.)
            return fit(T, P, *petal(*forward(T, P, c, et)), seq=[0]*6+[1]*(n-6), rehome=[False]*6+[True]*(n-6))
        if k == 2:
            et = np.where(np.arange(n) < 6, 0., -25.)
            return fit(T, P, *petal(*forward(T, P, c, et)), seq=[3]*6+[12]*(n-6), rehome=[True]*6+[False]*(n-6))
        if k == 3: return fit(T, P, *petal(*forward(T, P, c)), mode='dynamic', nominals=dict(F.default_values, **c))
        if k == 4: return fit(T, P, *petal(*forward(T, P, c)), keep_fixed=['OFFSET_X'])
        if k == 5: return fit([10.]*5+[10.], [120., 121., 122., 123., 124., 125.], *petal(*forward([10.]*6, [120., 121., 122., 123., 124., 125.], c)))
        b = dict(F.default_bounds); b['LENGTH_R1'] = (2.99, 3.01)
        return fit(T, P, *petal(*forward(T, P, c)), bounds=b)
    K = range(7)

    def seq(s):
        d = (dict(F.default_values), dict(F.default_bounds))
        r = [call(k) for k in s]
        return r[-1], (dict(F.default_values), dict(F.default_bounds)) == d
    hs = [(k,) for k in K]+list(itertools.product(K, repeat=2))
    if ex.thorough:
        hs += list(itertools.product(K, repeat=3))
    fresh = {}
    for h, r in zip(hs, mc.pmap(seq, hs)):
        if isinstance(r, Exception):
            ex.fail("histories-error", "calls %s: %s" % (h, r)); continue
        res, clean = r
        if len(h) == 1:
            fresh[h[0]] = res
        ex.ran(1, sample=dict(calls=h))
        ex.state(h)
        ex.check(clean, "histories-defaults", "default values or bounds changed by calls %s" % (h,))
        w = fresh[h[-1]]
        same = set(res[0]) == set(w[0]) and all(res[0][k] == w[0][k] for k in w[0]) and res[2:] == w[2:] and set(res[1]) == set(w[1])
        ex.check(same, "histories", "answer of call %d depends on the calls before: %s" % (h[-1], h[:-1]))


SECTIONS = [recover, fixed, limited, drifts, drifts_many, scales, mixed, outliers, noisy, stuck, notfinite, histories]
