"""C24: turbulence corrections."""
import itertools, os
import numpy as np
import mc
from mc import maxabs, snapshot
from astropy.table import Table
from desimeter import turbulence as T

PROPERTY = "C24"
LEVEL = "exploration"
RULE = ("every residual pattern over small layouts x every prediction mode x covariance model against explicit linear algebra in double "
        "precision; every permutation of the fibers; every subset of missing and displaced fibers for the correction with stationary "
        "fibers; polynomial displacement fields for the local polynomial correction; all matchings of expected and measured tables. "
        "Non-trivial: distinct (layout, pattern, mode).")
ASSUMPTIONS = ["fibers at distinct positions", "hyperparameter optimisation itself is not judged, only what follows from it"]

LAY = [np.array([(0., 0.), (10., 3.), (-7., 22.), (31., -12.), (45., 40.)]),
       np.array([(-100., 20.), (-60., -30.), (10., 0.), (55., 71.), (60., -80.), (130., 10.)])]


def data_of(P, dx, dy):
    d = np.zeros(len(P), dtype=[('x', 'f8'), ('y', 'f8'), ('dx', 'f8'), ('dy', 'f8')])
    d['x'], d['y'], d['dx'], d['dy'] = P[:, 0], P[:, 1], dx, dy
    return d


def kern(A, B, p, model):
    """K[a, b] for scalar models, or the 2x2 block matrix for the gradient model"""
    ux, uy = (A[:, None, 0]-B[None, :, 0])/p[2], (A[:, None, 1]-B[None, :, 1])/p[2]
    r2 = ux**2+uy**2
    if model == "gauss":
        return p[1]**2*np.exp(-r2/2)
    if model == "rq":
        return p[1]**2*(1+r2/(2*p[3]))**(-p[3])
    g = p[1]**2*np.exp(-r2/2)
    return np.block([[(1-ux*ux)*g, -ux*uy*g], [-ux*uy*g, (1-uy*uy)*g]])


def reference(P, dx, dy, model, p, mode, Q):
    n = len(P)
    def solve(d, K, KQ, m):
        C = K+np.eye(len(K))*p[0]**2
        if m == "smooth":
            return K @ np.linalg.solve(C, d)
        if m == "predict":
            return KQ @ np.linalg.solve(C, d)
        out = np.zeros(len(d))
        for i in range(len(d)):
            o = np.arange(len(d)) != i
            out[i] = K[i, o] @ np.linalg.solve(C[np.ix_(o, o)], d[o])
        return out
    if model == "grad":
        t = solve(np.r_[dx, dy], kern(P, P, p, model), kern(Q, P, p, model), mode)
        k = len(t)//2
        return t[:k], t[k:]
    K, KQ = kern(P, P, p, model), kern(Q, P, p, model)
    return solve(dx, K, KQ, mode), solve(dy, K, KQ, mode)


def prediction(ex):
    """fixed covariance: smoothing, leave-one-out and prediction elsewhere are the Gaussian process formulas"""
    vals = (-0.004, 0.001, 0.006)
    cs = []
    for li, P in enumerate(LAY):
        n = len(P)
        for k, pat in enumerate(itertools.product(vals, repeat=n)):
            if not ex.thorough and (k % (3 if n == 5 else 9)):
                continue
            for model in ("gauss", "rq", "grad"):
                for mode in ("smooth", "predict", "loo"):
                    for sc in (1., 7.) if model != "grad" else (1.,):
                        cs.append((li, pat, model, mode, sc))
    Q = np.array([(3., 3.), (50., -20.), (-7., 22.), (300., 300.)])

    def one(c):
        li, pat, model, mode, sc = c
        P = LAY[li]
        dx = np.array(pat); dy = np.roll(dx, 2)*np.array([1, -1, 1, -1, 1, 1])[:len(P)]
        d = data_of(P, dx, dy)
        kw = dict(fix_covar=True)
        if mode == "loo":
            kw['excludeself'] = True
        if mode == "predict":
            kw['predict_at'] = (Q[:, 0].copy(), Q[:, 1].copy())
        if model == "rq":
            kw['rq'] = True
        b = snapshot(d)
        try:
            if model == "grad":
                x, y, res = T.solve_gradwavefront(d, **kw)
                p = [5e-3, 5e-3, 100.]
            else:
                x, y, res = T.solve_independent(d, scale_covar=sc, **kw)
                p = [5e-3*sc, 5e-3*sc, 50*sc, 2.]
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e)
        if snapshot(d) != b:
            return "data modified"
        wx, wy = reference(P, dx, dy, model, p, mode, Q)
        tol = 1e-6 if model == "grad" else 1e-10
        if maxabs(x-wx) > tol or maxabs(y-wy) > tol:
            return "differs by %g from the Gaussian process solution" % max(maxabs(x-wx), maxabs(y-wy))
        return None
    for c, e in zip(cs, mc.pmap(one, cs)):
        ex.ran(1, sample=dict(case=c))
        if e:
            ex.fail("%s-%s" % (c[2], c[3]), "layout %d residuals %s scale %s: %s" % (c[0], c[1], c[4], e), case=c)
    ex.states(len(cs))


def likelihood(ex):
    """the loss minimised is minus the log marginal likelihood, for every parameter of a lattice"""
    n = 0
    for P in LAY:
        for k in range(4):
            dx = 0.004*np.cos(np.arange(len(P))*(1.3+k)); dy = 0.003*np.sin(np.arange(len(P))*(0.7+k))
            d = data_of(P, dx, dy)
            for sg, aa, ll in itertools.product((0.002, 0.01), (0.003, 0.02), (10., 60.)):
                for model in ("gauss", "rq", "grad"):
                    p = [sg, aa, ll]+([1.7] if model == "rq" else [])
                    C = kern(P, P, p, model)
                    C = C+np.eye(len(C))*sg**2
                    with ex.guard("likelihood-"+model):
                        if model == "grad":
                            v = np.r_[dx, dy]
                            want = 0.5*(v @ np.linalg.solve(C, v)+np.linalg.slogdet(C)[1])
                            got = T.loss_gradwavefront(d, p)
                            cv = T.make_covar_gradwavefront(d, p)
                        else:
                            want = 0.5*(dx @ np.linalg.solve(C, dx)+dy @ np.linalg.solve(C, dy)+2*np.linalg.slogdet(C)[1])
                            got = T.loss_independent(d, p, rq=model == "rq")
                            cv = T.make_covar_independent(d, p, rq=model == "rq")
                        ex.check(abs(got-want) < (5e-3 if model == "grad" else 1e-7)*(1+abs(want)), "likelihood-"+model, "loss %g instead of %g" % (got, want), param=p)
                        ex.check(maxabs(cv-C) < 1e-6*aa**2+(1e-9 if model == "grad" else 0), "covariance-"+model, "wrong covariance", param=p)
                    n += 1
    ex.ran(n, sample=dict(model="rq", param=p))
    ex.states(n)


def fitted(ex):
    """full correction: order of the fibers and common shifts are irrelevant, no residual gives no correction, the fibre itself is not used"""
    n = 0
    a = np.arange(18)
    P = np.c_[60*np.cos(a*1.1)*(1+a/9.), 60*np.sin(a*1.1)*(1+a/9.)]
    for k in range(3 if not ex.thorough else 10):
        dx = 0.006*np.cos(P[:, 0]/70.+k)+0.001*np.cos(a*2.2)
        dy = 0.005*np.sin(P[:, 1]/60.-k)+0.001*np.sin(a*1.7)
        x, y = P[:, 0]+dx, P[:, 1]+dy
        with ex.guard("fitted"):
            b = snapshot((x, y, P))
            cx, cy = T.correct(x, y, P[:, 0], P[:, 1])
            ex.check(snapshot((x, y, P)) == b, "args", "arguments modified")
            r0 = np.sqrt(np.mean(dx**2+dy**2)); r1 = np.sqrt(np.mean((cx-P[:, 0])**2+(cy-P[:, 1])**2))
            ex.check(r1 < 0.6*r0, "improves", "smooth turbulence of %g mm only reduced to %g" % (r0, r1))
            for p in (a[::-1], np.roll(a, 7), np.argsort(np.cos(a*5.))):
                px, py = T.correct(x[p], y[p], P[p, 0], P[p, 1])
                ex.check(maxabs(px-cx[p]) < 2e-4 and maxabs(py-cy[p]) < 2e-4, "order", "answer depends on the order of the fibers by %g" % maxabs(px-cx[p]))
                n += 1
            sx, sy = T.correct(x+5., y-3., P[:, 0]+5., P[:, 1]-3.)
            ex.check(maxabs(sx-5-cx) < 2e-4 and maxabs(sy+3-cy) < 2e-4, "shift", "answer depends on a common shift")
            # x and y are treated alike
            yy, xx = T.correct(y, x, P[:, 1], P[:, 0])
            ex.check(maxabs(xx-cx) < 2e-4 and maxabs(yy-cy) < 2e-4, "swap", "answer changes when the axes are exchanged")
            n += 3
    # the covariance is adjusted on the central fibers, whatever the row order
    P = np.c_[11*np.cos(np.arange(24)*2.4)*np.sqrt(np.arange(24)+1.), 11*np.sin(np.arange(24)*2.4)*np.sqrt(np.arange(24)+1.)]
    r2 = P[:, 0]**2+P[:, 1]**2
    dx = 0.004*np.cos(P[:, 0]/20.)+0.02*np.cos(np.arange(24)*2.2)*(r2 > 1500.)
    dy = 0.005*np.sin(P[:, 1]/15.)+0.02*np.sin(np.arange(24)*1.7)*(r2 > 1500.)
    d = data_of(P, dx, dy)
    for nuse in (8, 12) if not ex.thorough else (5, 8, 10, 12, 20):
        for model, loss, cov in (("gauss", T.loss_independent, T.make_covar_independent), ("grad", T.loss_gradwavefront, T.make_covar_gradwavefront)):
            with ex.guard("nuse"):
                kw = dict(lossfun=loss, covarfun=cov, method='nelder-mead', options=dict(maxiter=60))
                C, want = T.solve_covar(d[np.argsort(r2)][:nuse], nuse=0, **kw)
                C0 = cov(d, want.x)
                for p in (np.arange(24), np.arange(24)[::-1], np.argsort(np.cos(np.arange(24)*5.)), np.argsort(-r2)):
                    C, res = T.solve_covar(d[p], nuse=nuse, **kw)
                    ix = np.r_[p, p+24] if model == "grad" else p
                    ex.check(maxabs(C-C0[np.ix_(ix, ix)]) < 1e-4*maxabs(C0), "nuse-"+model, "covariance not that of the %d central fibers" % nuse)
                    n += 1
    ex.ran(n)
    ex.states(n)


def stationary(ex):
    """every subset of up to two unmeasured and one displaced stationary fibers"""
    m = 9
    a = np.arange(m)
    P = np.c_[40*np.cos(a*2.1)*(0.6+a/9.), 40*np.sin(a*2.1)*(0.6+a/9.)]
    dx0 = 0.004*np.cos(P[:, 0]/60.); dy0 = -0.003*np.sin(0.5+P[:, 1]/50.)
    C = np.array([(5., 5.), (-30., 12.), (33., -40.)])
    cs = []
    for gone in [()]+[(i,) for i in a]+list(itertools.combinations(a, 2)):
        for out in [()]+[(i,) for i in a if i not in gone]:
            for how in (("measured",) if not ex.thorough else ("measured", "expected", "y")):
                cs.append((gone, out, how, 1., 0.01))
    for gone in ((), (0,), (4, 7)):
        for clip in (0., 0.002, 0.05, 1e9):
            for sc in (1., 7.):
                cs.append((gone, (), "measured", sc, clip))
    cs.append(((), (3,), "measured", 1., 0.))

    def one(c):
        gone, out, how, sc, clip = c
        dx, dy = sc*dx0, sc*dy0
        dx, dy = dx.copy(), dy.copy()
        for o in out:
            dx[o] += 0.3*sc
        x0, y0 = sc*P[:, 0], sc*P[:, 1]
        xs, ys = x0+dx, y0+dy
        for g in gone:
            if how == "measured": xs[g] = np.nan
            elif how == "expected": x0 = x0.copy(); x0[g] = np.nan
            else: ys[g] = np.inf
        b = snapshot((xs, ys, x0, y0))
        try:
            xt, yt, good = T.correct_using_stationary(xs, ys, x0, y0, sc*C[:, 0], sc*C[:, 1], scale_covar=sc, clip_resid=clip, return_good=True)
            two = T.correct_using_stationary(xs, ys, x0, y0, sc*C[:, 0], sc*C[:, 1], scale_covar=sc, clip_resid=clip)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e)
        if snapshot((xs, ys, x0, y0)) != b:
            return "arguments modified"
        if maxabs(two[0]-xt) > 0 or len(two) != 2:
            return "answer depends on return_good"
        good = np.asarray(good)
        fin = np.isfinite(xs) & np.isfinite(ys) & np.isfinite(x0) & np.isfinite(y0)
        if good.shape != (m,) or np.any(good & ~fin):
            return "unmeasured fibers used: %s" % good
        if clip > 0 and any(good[o] for o in out):
            return "displaced fibre used"
        p = [5e-3*sc, 5e-3*sc, 50*sc]
        S = np.c_[xs, ys]
        if clip in (0., 1e9, 0.05, 0.01):
            # residuals of the smooth pattern are far below these limits: every other fibre is used
            bad = [i for i in range(m) if fin[i] and not good[i] and not (clip > 0 and i in out)]
            lim5 = True
            if bad and clip > 0:
                # only a 5 sigma outlier may be dropped
                f = fin.copy()
                for cc in (dx, dy):
                    med = np.median(cc[f]); sd = 1.4826*np.median(np.abs(cc[f]-med))
                    bad = [i for i in bad if abs(cc[i]-med) < 4.99*sd]
            if bad:
                return "fibers %s excluded without a reason" % bad
        else:
            # the used ones have a residual below the limit once corrected
            f = fin
            wx, wy = reference(S[f], dx[f], dy[f], "gauss", p, "smooth", C)
            off = np.full(m, np.nan); off[f] = np.hypot(dx[f]-wx, dy[f]-wy)
            for i in np.flatnonzero(f):
                if good[i] and off[i] > clip*1.5:
                    return "fibre %d with a residual of %g used (limit %g)" % (i, off[i], clip)
        wx, wy = reference(S[good], dx[good], dy[good], "gauss", p, "predict", sc*C)
        if maxabs(xt-wx) > 1e-9 or maxabs(yt-wy) > 1e-9:
            return "differs by %g from the solution with the fibers reported good" % maxabs(xt-wx)
        return None
    for c, e in zip(cs, mc.pmap(one, cs)):
        ex.ran(1, sample=dict(missing=c[0], displaced=c[1], how=c[2], scale=c[3], clip=c[4]))
        ex.state(str(c))
        if e:
            ex.fail("stationary", "missing %s displaced %s (%s, scale %g, clip %g): %s" % (c+(e,)), case=str(c))


def polynomial(ex):
    """local polynomial correction: gradients of polynomials are removed exactly, whatever the order"""
    g = np.arange(-60, 61, 15.)
    X, Y = [v.ravel() for v in np.meshgrid(g, g)]
    a = np.arange(X.size)
    X, Y = X+2.1*np.cos(a*1.3), Y+2.3*np.sin(a*2.9)
    n = 0
    for cx, cy, cxx, cxy, cyy in ((1e-2, -5e-3, 0, 0, 0), (0, 0, 1e-4, 0, 0), (0, 0, 0, 2e-4, 0), (0, 0, 0, 0, -1e-4), (3e-3, 1e-3, 1e-4, -2e-4, 5e-5)):
        dx, dy = cx+2*cxx*X+cxy*Y, cy+2*cyy*Y+cxy*X
        with ex.guard("polynomial"):
            ox, oy = T.correct_with_pol(X, Y, X-dx, Y-dy)
            ex.check(maxabs(ox-(X-dx)) < 1e-7 and maxabs(oy-(Y-dy)) < 1e-7, "polynomial", "residual of %g mm" % max(maxabs(ox-X+dx), maxabs(oy-Y+dy)), coeffs=(cx, cy, cxx, cxy, cyy))
            p = np.argsort(np.cos(a*3.7))
            qx, qy = T.correct_with_pol(X[p], Y[p], (X-dx)[p], (Y-dy)[p])
            ex.check(maxabs(qx-ox[p]) < 1e-7 and maxabs(qy-oy[p]) < 1e-7, "polynomial-order", "depends on the order of the fibers")
            # a wrong measurement of one fibre is not absorbed by its own correction
            for i in (0, 17, 40) if not ex.thorough else range(0, len(X), 3):
                X2 = X.copy(); X2[i] += 0.02
                rx, ry = T.correct_with_pol(X2, Y, X-dx, Y-dy)
                ex.check(abs(rx[i]-(X-dx)[i]-0.02) < 1e-3, "polynomial-self", "the correction of fibre %d follows its own error" % i)
                n += 1
        n += 2
    for deg in (1, 2, 3, 4):
        u, v = np.array([0.5, -1.2, 0., 2.]), np.array([1., 0.3, 0., -0.7])
        with ex.guard("getpoly"):
            D = T.getpoly(u, v, ndeg=deg)
            h = 1e-6
            want = []
            for d in range(1, deg+1):
                for j in range(d+1):
                    f = lambda a, b: a**j*b**(d-j)
                    want.append(np.r_[(f(u+h, v)-f(u-h, v))/2/h, (f(u, v+h)-f(u, v-h))/2/h])
            ex.check(D.shape == np.shape(want) and maxabs(D-np.array(want)) < 1e-7, "getpoly", "not the gradients of the monomials of degree %d" % deg)
        n += 1
    ex.ran(n)
    ex.states(n)


def local(ex):
    """local polynomials: distortions that differ from one part to the next, higher degrees, windows, noise"""
    n = 0
    g = np.arange(-32, 33, 8.)
    u, v = [w.ravel() for w in np.meshgrid(g, g)]
    a = np.arange(u.size)
    u, v = u+1.1*np.cos(a*1.3), v+1.3*np.sin(a*2.9)
    # third and fourth degree potentials
    for deg, j, c in [(d, j, c) for d in (1, 2, 3, 4) for j in range(d+1) for c in (1., 30.)]:
        s = c*1e-2/35.**(deg-1)
        dx = s*j*u**max(j-1, 0)*v**(deg-j) if j else 0*u
        dy = s*(deg-j)*u**j*v**max(deg-j-1, 0) if deg-j else 0*u
        with ex.guard("degrees"):
            ox, oy = T.correct_with_pol(u, v, u-dx, v-dy, win=200)
            ex.check(maxabs(ox-(u-dx)) < 1e-7*c and maxabs(oy-(v-dy)) < 1e-7*c, "degrees", "distortion of degree %d not removed: %g mm left of %g" % (deg-1, max(maxabs(ox-u+dx), maxabs(oy-v+dy)), maxabs(np.hypot(dx, dy))), degree=deg, power=j)
        n += 1
    # separate groups
    for win, sep in ((50, 150.), (30, 100.), (95, 200.), (25, 95.)):
        for k in range(3):
            X = np.r_[u, u+sep, u, u+sep]; Y = np.r_[v, v, v+sep, v+sep]
            m = u.size
            cf = np.array([(1e-2, -5e-3, 1e-4), (-2e-2, 3e-3, 0.), (0., 1e-2, -2e-4), (5e-3, 5e-3, 1e-4)])[np.roll(np.arange(4), k)]
            dx = np.concatenate([c[0]+c[2]*v for c in cf]); dy = np.concatenate([c[1]+c[2]*u for c in cf])
            with ex.guard("groups"):
                ox, oy = T.correct_with_pol(X, Y, X-dx, Y-dy, **({} if win == 50 else dict(win=win)))
                far = win+1 < sep-2*35
                ex.check(not far or (maxabs(ox-(X-dx)) < 1e-6 and maxabs(oy-(Y-dy)) < 1e-6), "groups", "distortion that is different %g mm away not removed with a window of %g: %g mm" % (sep-66, win, max(maxabs(ox-X+dx), maxabs(oy-Y+dy))), k=k)
            n += 1
    # pure noise is not amplified, and has no effect on the result beyond the window
    for amp in (0.002, 0.05, 1.):
        dx, dy = amp*np.cos(a*5.1+a*a*0.3), amp*np.sin(a*3.7+a*a*0.7)
        with ex.guard("noise"):
            ox, oy = T.correct_with_pol(u, v, u-dx, v-dy, win=40)
            c = np.r_[u-ox, v-oy]
            ex.check(np.all(np.isfinite(c)) and np.sqrt(np.mean(c**2)) < 1.2*amp, "noise", "noise of %g mm gives corrections of %g" % (amp, np.sqrt(np.mean(c**2))))
            for i in (0, 11, 40):
                far = np.hypot(u-u[i], v-v[i]) > 40+2*amp+0.1
                u2 = u.copy(); u2[i] += 0.3*amp
                px, py = T.correct_with_pol(u2, v, u-dx, v-dy, win=40)
                ex.check(maxabs((px-ox)[far]) == 0 and maxabs((py-oy)[far]) == 0 and np.any(px != ox), "window", "a measurement changes corrections beyond the window")
                d2 = dx.copy(); d2[i] += 1e-6
                px, py = T.correct_with_pol(u, v, u-d2, v-dy, win=40)
                ex.check(abs((px-ox)[i]) < 1e-9, "noise-self", "the correction of fibre %d follows its own error: %g" % (i, (ox-px)[i]))
                n += 1
        n += 1
    # all fibers in the window asked for are used, and none beyond
    for win in (30, 50, 75, 120):
        h = np.arange(-5, 6)*win/4.
        X, Y = [w.ravel() for w in np.meshgrid(h, h)]
        b = np.arange(X.size)
        X, Y = X+0.07*win*np.cos(b*1.3), Y+0.07*win*np.sin(b*2.9)
        dx, dy = 0.01*np.cos(b*5.1+b*b*0.3), 0.01*np.sin(b*3.7+b*b*0.7)
        for i in (0, 38, 60, 120):
            with ex.guard("extent"):
                # only the measured position differs: with other expected positions, the order in which the
                # neighbours are listed, that decides the groups of the cross-validation, may be another
                X2 = X.copy(); X2[i] += 0.01
                ox, oy = T.correct_with_pol(X, Y, X-dx, Y-dy, win=win)
                px, py = T.correct_with_pol(X2, Y, X-dx, Y-dy, win=win)
                r = np.hypot(X-X[i], Y-Y[i])
                change = np.maximum(abs(px-ox), abs(py-oy))
                near = (r < win-0.1) & (r > 0)
                ex.check(np.all(change[near] > 1e-9) and np.all(change[r > win+0.1] == 0), "extent", "with a window of %g mm, the measurement of a fiber changes the corrections of %d of the %d fibers in it, and of %d of those beyond" % (win, np.sum(change[near] > 1e-9), near.sum(), np.sum(change[r > win+0.1] != 0)), win=win, fiber=i)
            n += 1
    ex.ran(n)
    ex.states(n)


def full(ex):
    """focal planes with thousands of fibers: the correction of each does not follow its own error, and improves the rest"""
    def one(c):
        n, k = c
        a = np.arange(n)
        r = 400*np.sqrt((a+.5)/n)
        x, y = r*np.cos(a*2.399963), r*np.sin(a*2.399963)
        tx, ty = 0.02*np.sin(x/60+k), 0.02*np.cos(y/70+x/80-k)
        dx, dy = tx+0.002*np.cos(a*2.7), ty+0.002*np.cos(a*3.3)
        odd = [5, n//2, n-9]
        dx[odd] += 0.02
        try:
            ox, oy = T.correct(x+dx, y+dy, x, y)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e)
        if np.any(np.abs((ox-x)[odd]-0.02) > 0.008):
            return "corrections follow the error of the fiber itself: %s left of 0.02 mm" % (ox-x)[odd]
        g = np.setdiff1d(a, odd)
        if not np.std(np.r_[(ox-x)[g], (oy-y)[g]]) < 0.004:
            return "scatter of %g mm left" % np.std(np.r_[(ox-x)[g], (oy-y)[g]])
        return None
    cs = [(350, 0), (499, 0), (501, 1), (2100, 2)]+([(1000, 1), (5020, 0)] if ex.thorough else [])
    for c, e in zip(cs, mc.pmap(one, cs)):
        ex.ran(1, sample=dict(fibers=c[0]))
        ex.state(("full",)+c)
        if e:
            ex.fail("full", "%d fibers: %s" % (c[0], e), case=c)


def tables(ex):
    """matching of expected and measured tables, files included"""
    locs = [10, 11, 300, 4001]
    n = 0
    for k1 in range(1, 4):
        for e in itertools.permutations(locs, k1):
            for k2 in range(1, 4):
                for m in itertools.permutations(locs, k2):
                    E = Table(dict(LOCATION=np.array(e), X_FP=np.array(e)*1., Y_FP=np.array(e)*2.))
                    M = Table(dict(LOCATION=np.array(m), X_FP=np.array(m)*1.+0.1, Y_FP=np.array(m)*2.-np.array(m)/100.))
                    with ex.guard("make_data"):
                        d = T.make_data(E, M)
                        ok = sorted(d['location']) == sorted(set(e) & set(m)) and maxabs(d['x']-d['location']) == 0 and maxabs(d['y']-2*d['location']) == 0 \
                            and maxabs(d['dx']-0.1) < 1e-9 and maxabs(d['dy']+d['location']/100.) < 1e-9
                        ex.check(ok, "make_data", "expected %s measured %s give %s" % (e, m, d))
                    n += 1
    a = np.arange(20)
    loc = 1000+a
    P = np.c_[60*np.cos(a*1.1)*(1+a/9.), 60*np.sin(a*1.1)*(1+a/9.)]
    with mc.scratch() as dd:
        for mode in ("independent", "gradwavefront"):
            for miss in ((), (3,), (0, 19)):
                p = np.argsort(np.cos(a*5.))
                keep = [i for i in p if i not in miss]
                E = Table(dict(LOCATION=loc[keep], X_FP=P[keep, 0], Y_FP=P[keep, 1]))
                tx = 0.006*np.cos(P[:, 0]/90.); ty = 0.004*np.sin(P[:, 1]/80.)
                M = Table(dict(LOCATION=loc, X_FP=P[:, 0]+tx, Y_FP=P[:, 1]+ty))
                if len(miss) == 1:     # measured in some other order
                    q = np.argsort(np.sin(a*7.3))
                    M, tx, ty, a_, Q = M[q], tx[q], ty[q], a[q], P[q]
                else:
                    a_, Q = a, P
                E.write(dd+"/e.csv", overwrite=True); M.write(dd+"/m.csv", overwrite=True)
                with ex.guard("files-"+mode):
                    o, res = T.solve_files(dd+"/e.csv", dd+"/m.csv", mode=mode, options=dict(maxiter=40))
                    ok = list(o['LOCATION']) == list(M['LOCATION'])
                    nn = np.array([i in miss for i in a_])
                    ok = ok and np.array_equal(np.isnan(np.array(o['XNEW'], float)), nn) and np.array_equal(np.isnan(np.array(o['DYTURB'], float)), nn)
                    g = ~nn
                    ok = ok and maxabs(np.array(o['XNEW']+o['DXTURB']-o['X_FP'])[g]) < 1e-9 and maxabs(np.array(o['YNEW']+o['DYTURB']-o['Y_FP'])[g]) < 1e-9
                    ex.check(ok, "files-"+mode, "table of corrected positions inconsistent (missing %s)" % (miss,))
                    r0 = np.sqrt(np.mean((tx**2+ty**2)[g])); r1 = np.sqrt(np.mean((np.array(o['XNEW'])-Q[:, 0])[g]**2+(np.array(o['YNEW'])-Q[:, 1])[g]**2))
                    ex.check(r1 < 0.7*r0, "files-improve-"+mode, "turbulence of %g mm only reduced to %g" % (r0, r1))
                n += 1
    ex.ran(n)
    ex.states(n)


def empirical(ex):
    """empirical covariance: every binning of a lattice against an explicit double loop"""
    n = 0
    for P in LAY:
        dx = 0.004*np.cos(np.arange(len(P))*1.3); dy = 0.003*np.sin(np.arange(len(P))*0.7)
        d = data_of(P, dx, dy)
        for edges in ([0., 5., 30., 80., 300.], [0., 40., 300.], [0., 300.]):
            s = np.zeros((len(edges)-1, 3))
            for i in range(len(P)):
                for j in range(len(P)):
                    r = np.hypot(*(P[i]-P[j]))
                    k = max(q for q in range(len(edges)-1) if edges[q] <= r)
                    s[k] += (1, dx[i]*dx[j], dy[i]*dy[j])
            c = np.where(s[:, 0] == 0, 1, s[:, 0])
            with ex.guard("empirical"):
                m, cx, cy = T.empirical_covariance(d, edges=np.array(edges))
                ex.check(maxabs(m-(np.array(edges[1:])+edges[:-1])/2) == 0 and maxabs(cx-s[:, 1]/c) < 1e-12 and maxabs(cy-s[:, 2]/c) < 1e-12, "empirical", "wrong covariance in bins %s" % edges)
                m, cx, cy = T.empirical_covariance(d, bins=7)
                ex.check(len(m) == len(cx) == len(cy) == 7, "empirical-n", "wrong number of bins")
            n += 2
    ex.ran(n)
    ex.states(n)


SECTIONS = [prediction, likelihood, fitted, stationary, polynomial, local, full, tables, empirical]
