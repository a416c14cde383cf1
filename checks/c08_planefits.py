"""C08: least-squares plane corrections (SimpleCorr, TanCorr, Zhao-Burge polynomials, DM2PM)."""
import itertools, math, os
import numpy as np
import mc
from mc import maxabs, angdiff, snapshot
from desimeter.simplecorr import SimpleCorr
from desimeter.fieldmodel import TanCorr
from desimeter.transform import zhaoburge as Z
from desimeter.transform.dm2pm import DM2PM
from desimeter import io

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("every combination of rotation (all quadrants, multiples of 90 deg and their neighbours), scales, shear, offset and point "
        "configuration: the fit is compared with an independent least-squares solution and must recover the generating "
        "transformation; every ordered pair (thorough: triple) of fits on one instance; every polynomial pair of the distortion "
        "basis by exact quadrature; every subset of <=2 (thorough 3) polynomials for coefficient recovery. Non-trivial: distinct "
        "parameter sets.")
ASSUMPTIONS = ["at least 3 non-collinear points", "transformations with positive determinant, shear below the scale difference limit where the decomposition is unique"]

ROTS = sorted(set([0., 1e-9, -1e-9, 1e-5, 0.01, -0.3, 5., 30., 45., 89.9999, 90., 90.0001, 120., 135., 179.999, 180., 180.001, 200., 225.,
                   269.9, 270., 271., 315., 359.7]))


def configs():
    a = np.radians(np.arange(0, 360, 30.))
    ring = np.array([np.cos(a), np.sin(a)])
    tri = np.array([[0., 1., 0.2], [0., 0.1, 0.9]])
    rect = np.array([[0, 2047, 2047, 0.], [0, 0, 1031, 1031.]])
    g = np.array([v.ravel() for v in np.meshgrid(np.linspace(-1, 1, 5), np.linspace(-.7, 1.3, 4))])
    return [("ring", ring*300.), ("triangle", tri*100.), ("ccd", rect), ("offset-grid", g*20.+np.array([[350.], [-120.]]))]


def apply_ref(p, xy):
    rot, sxx, syy, sxy, dx, dy = p
    c, s = math.cos(math.radians(rot)), math.sin(math.radians(rot))
    M = np.array([[sxx, sxy], [sxy, syy]]).dot(np.array([[c, -s], [s, c]]))
    return M.dot(xy)+np.array([[dx], [dy]])


def simple(ex):
    scales = [(1., 1., 0.), (1.0002, 0.9995, 3e-5), (0.015, 0.01493, 1e-5), (2., 3., 0.4), (1.01, 1.0, -0.02)]
    offs = [(0., 0.), (100.25, -310.5)]
    for (cn, xy), rot, sc, of in itertools.product(configs(), ROTS, scales, offs):
        p = (rot,)+sc+of
        key = "%s/rot%g/s%g,%g,%g/o%g" % (cn, rot, *sc, of[0])
        uv = apply_ref(p, xy)
        with ex.guard(key, params=p):
            c = SimpleCorr()
            b = snapshot([xy, uv])
            c.fit(xy[0], xy[1], uv[0], uv[1])
            ex.check(snapshot([xy, uv]) == b, key+"/mutated", "fit modifies its inputs")
            size = max(maxabs(xy), 1.)*max(sc[0], sc[1])
            X, Y = c.apply(xy[0], xy[1])
            w = max(maxabs(X-uv[0]), maxabs(Y-uv[1]))
            ex.check(w < 1e-8*size+1e-7*sc[0], key+"/recover", "noise-free fit does not reproduce the points it was fitted to", params=p, worst=w)
            ex.check(angdiff(c.rot_deg, rot) < 1e-6 and max(abs(c.sxx-sc[0]), abs(c.syy-sc[1]), abs(c.sxy-sc[2])) < 1e-7*sc[0],
                     key+"/params", "fitted rotation/scales are not the true ones", params=p, got=[c.rot_deg, c.sxx, c.syy, c.sxy])
            ex.check(0 <= c.rot_deg < 360.0000001 and c.nmatch == xy.shape[1] and abs(c.rms) < 1e-7*size, key+"/stats", "wrong statistics", got=[c.rot_deg, c.nmatch, c.rms])
            bx, by = c.apply_inverse(X, Y)
            ex.check(max(maxabs(bx-xy[0]), maxabs(by-xy[1])) < 1e-6, key+"/inverse", "apply_inverse does not undo apply", params=p)
            d = SimpleCorr.fromjson(c.tojson())
            ex.check(np.array_equal(np.array(d.apply(*xy)), np.array([X, Y])) and d.nmatch == c.nmatch and d.rms == c.rms, key+"/json", "saved and re-read correction differs")
        ex.ran(4, sample=dict(params=p))
        ex.state((cn, p))


def simple_noise(ex):
    """with measurement noise the fits are the least-squares optimum, for every sign pattern of the perturbation of 4 points"""
    xy = np.array([[0, 2047, 2047, 0.], [0, 0, 1031, 1031.]])*0.1+20.
    n = xy.shape[1]
    amp = 0.05
    for rot in (0., 33., 90., 180., 271.):
        for signs in itertools.product((-1, 0, 1), repeat=2*n if ex.thorough else n):
            sg = np.array(signs if ex.thorough else signs+tuple(reversed(signs)), float).reshape(2, n)
            for sc in (1., 1.01):
                uv = apply_ref((rot, sc, sc, 0., 3., -2.), xy)+amp*sg
                key = "rot%g/%s/%g" % (rot, "".join("-0+"[int(s)+1] for s in sg.ravel()), sc)
                with ex.guard(key):
                    c = SimpleCorr(); c.fit(xy[0], xy[1], uv[0], uv[1])
                    A = np.stack([np.ones(n), xy[0], xy[1]]).T
                    best = A.dot(np.linalg.lstsq(A, uv.T, rcond=None)[0]).T
                    got = np.array(c.apply(*xy))
                    ex.check(maxabs(got-best) < 1e-7, key+"/lsq", "fit is not the least-squares affine map", worst=maxabs(got-best))
                    ex.check(abs(c.rms-np.sqrt(np.mean(((uv-best)**2).sum(0)))) < 1e-8, key+"/rms", "rms is not the residual of the fit")
                    s = SimpleCorr(); s.fit(xy[0], xy[1], uv[0], uv[1], solid=True)
                    z, v = xy[0]+1j*xy[1], uv[0]+1j*uv[1]
                    r = np.sum(np.conj(z-z.mean())*(v-v.mean())); r = r/abs(r)
                    want = v.mean()+r*(z-z.mean())
                    gx, gy = s.apply(*xy)
                    w = maxabs(np.abs(gx+1j*gy-want))
                    ex.check(w < 1e-7, key+"/solid", "solid fit is not the best rotation + offset", worst=w)
                    ex.check((s.sxx, s.syy, s.sxy) == (1., 1., 0.), key+"/solid-scale", "solid fit changed the scale")
                    ex.check(abs(s.rms-np.sqrt(np.mean(np.abs(v-want)**2))) < 1e-7 and s.nmatch == n, key+"/solid-stats", "solid fit statistics are not those of this fit")
                    bx, by = s.apply_inverse(gx, gy)
                    ex.check(max(maxabs(bx-xy[0]), maxabs(by-xy[1])) < 1e-8, key+"/solid-inv", "solid inverse does not close")
                ex.ran(2)
                ex.state((rot, signs, sc))


def reuse(ex):
    """a fit does not remember what the instance was fitted to before"""
    xy = configs()[1][1]
    P = [(0., 1., 1., 0., 0., 0.), (30., 1.01, 0.99, 0.01, 5., -3.), (180., 1., 1., 0., 2., 2.), (90., 2., 1.5, 0.1, 0., 7.), (270., 0.5, 0.5, 0., -1., 1.), (0., 1.2, 1.1, 0.05, 1., 1.)]
    acts = [(i, s) for i in range(len(P)) for s in (False, True)]
    keys = ("dx", "dy", "sxx", "syy", "sxy", "rot_deg", "nmatch", "rms")
    fresh = {}
    for i, s in acts:
        c = SimpleCorr(); uv = apply_ref(P[i], xy); c.fit(xy[0], xy[1], uv[0], uv[1], solid=s)
        fresh[(i, s)] = [getattr(c, k) for k in keys]
    for hist in itertools.product(acts, repeat=2 if not ex.thorough else 3):
        with ex.guard("simple"):
            c = SimpleCorr()
            for i, s in hist:
                uv = apply_ref(P[i], xy); c.fit(xy[0], xy[1], uv[0], uv[1], solid=s)
            got = [getattr(c, k) for k in keys]
            ex.check(np.allclose(got, fresh[hist[-1]], rtol=0, atol=1e-10), "simple/%s" % (hist,), "fit depends on an earlier fit of the same instance", got=got, want=fresh[hist[-1]])
        ex.ran(len(hist)); ex.state(hist)
    x, y = tan_field()
    Q = [(0., 0., 0., 1., 1., 0.), (0.02, -0.01, 0.2, 1.001, 0.999, 1e-4), (0., 0.01, 180., 1., 1., 0.), (-0.03, 0., 90., 1., 1.002, 0.)]
    tk = ("dha", "ddec", "sxx", "syy", "sxy", "rot_deg", "nstars", "rms_arcsec")
    tgt = [tan_apply(q, x, y) for q in Q]
    ft = []
    for t in tgt:
        c = TanCorr(); c.fit(x, y, *t); ft.append([getattr(c, k) for k in tk])
    for hist in itertools.product(range(len(Q)), repeat=3):
        with ex.guard("tan"):
            c = TanCorr()
            for i in hist:
                c.fit(x, y, *tgt[i])
            got = [getattr(c, k) for k in tk]
            ex.check(np.allclose(got, ft[hist[-1]], rtol=0, atol=1e-11), "tan/%s" % (hist,), "fit depends on an earlier fit of the same instance")
        ex.ran(len(hist)); ex.state(("tan", hist))


def tan_field():
    a = np.radians(np.arange(0, 360, 40.))
    r = np.radians(np.array([0.4, 1.0, 1.55]))
    R, A = [v.ravel() for v in np.meshgrid(r, a)]
    return np.sin(R)*np.cos(A), np.sin(R)*np.sin(A)


def tan_apply(q, x, y):
    """sky shift (small great-circle rotations about the dec then ha axes), then scale*rotation"""
    dha, ddec, rot, sxx, syy, sxy = q
    # unit vectors: third axis is the boresight, first +HA, second +Dec
    z = np.sqrt(1-x**2-y**2)
    # direction in HA/Dec frame of pointing (0,0): X=z, Y=x, Z=y
    h, d = math.radians(dha), math.radians(ddec)
    X, Y, W = z, x, y
    X1, Y1 = math.cos(h)*X+math.sin(h)*Y, -math.sin(h)*X+math.cos(h)*Y
    W2 = -math.sin(d)*X1+math.cos(d)*W
    v = np.array([Y1, W2])
    c, s = math.cos(math.radians(rot)), math.sin(math.radians(rot))
    return np.array([[sxx, sxy], [sxy, syy]]).dot(np.array([[c, -s], [s, c]])).dot(v)


def tancorr(ex):
    x, y = tan_field()
    for rot in ROTS:
        for (sxx, syy, sxy) in ((1., 1., 0.), (1.0008, 0.9991, 2e-4), (1.02, 1.01, -5e-3)):
            for dha, ddec in itertools.product((0., 0.003, -0.05), (0., -0.002, 0.04)):
                q = (dha, ddec, rot, sxx, syy, sxy)
                key = "rot%g/s%g/%g,%g" % (rot, sxx, dha, ddec)
                with ex.guard(key, params=q):
                    c = TanCorr()
                    c.dha, c.ddec, c.rot_deg, c.sxx, c.syy, c.sxy = q
                    X, Y = c.apply(x, y)
                    want = tan_apply(q, x, y)
                    ex.check(max(maxabs(X-want[0]), maxabs(Y-want[1])) < 1e-12, key+"/apply", "correction is not shift on the sky then scale x rotation")
                    bx, by = c.apply_inverse(X, Y)
                    ex.check(max(maxabs(bx-x), maxabs(by-y)) < 1e-12, key+"/inverse", "apply_inverse does not undo apply", params=q, worst=max(maxabs(bx-x), maxabs(by-y))*206265)
                    d = TanCorr.fromjson(c.tojson())
                    ex.check(np.array_equal(np.array(d.apply(x, y)), np.array([X, Y])), key+"/json", "saved and re-read correction differs")
                    f = TanCorr(); b = snapshot([x, y, X, Y])
                    f.fit(x, y, X, Y)
                    ex.check(snapshot([x, y, X, Y]) == b, key+"/mutated", "fit modifies its inputs")
                    ex.check(f.nstars == x.size and abs(f.rms_arcsec) < 0.3, key+"/rms", "noise-free fit has residuals", rms=f.rms_arcsec)
                    ex.check(float(angdiff(f.rot_deg, rot))*3600 < 20. and max(abs(f.sxx-sxx), abs(f.syy-syy), abs(f.sxy-sxy)) < 2e-5,
                             key+"/params", "fitted rotation/scales are not the true ones", params=q, got=[f.rot_deg, f.sxx, f.syy, f.sxy])
                    if abs((rot+180) % 360-180) <= 0.31:
                        ex.check(max(abs(f.dha-dha), abs(f.ddec-ddec))*3600 < 0.02*max(abs(dha), abs(ddec))*3600+1e-3, key+"/pointing", "fitted pointing offset is not the true one", params=q, got=[f.dha, f.ddec])
                        fx, fy = f.apply(x, y)
                    k = np.arange(x.size)[::-1]
                    g = TanCorr(); g.fit(x[k], y[k], X[k], Y[k])
                    ex.check(max(abs(g.dha-f.dha), abs(g.ddec-f.ddec), float(angdiff(g.rot_deg, f.rot_deg)), abs(g.sxx-f.sxx)) < 1e-9, key+"/order", "fit depends on the order of the stars")
                ex.ran(6, sample=dict(params=q))
                ex.state(q)


def disk():
    n = 24
    u, w = np.polynomial.legendre.leggauss(n)
    r = np.sqrt((u+1)/2); w = w/2
    th = np.arange(40)*2*np.pi/40+0.01
    R, T = np.meshgrid(r, th)
    return (R*np.cos(T)).ravel(), (R*np.sin(T)).ravel(), (np.tile(w, (40, 1))/40).ravel()


def basis(ex):
    """the distortion polynomials are the orthonormal Zhao-Burge set: S curl-free, T divergence-free"""
    x, y, W = disk()
    V, lab = [], []
    for i in range(Z.NCOEFS):
        with ex.guard("term%d" % i):
            a, b, l = Z.getZhaoBurgeTerm(i, x, y)[:3]
            V.append((np.broadcast_to(a, x.shape), np.broadcast_to(b, x.shape))); lab.append(l)
    ex.check(len(V) == 33, "count", "not 33 polynomials")
    for i, j in itertools.combinations_with_replacement(range(len(V)), 2):
        g = float(np.sum(W*(V[i][0]*V[j][0]+V[i][1]*V[j][1])))
        ex.check(abs(g-(i == j)) < 1e-9, "gram/%d,%d" % (i, j), "distortion polynomials are not orthonormal", got=g)
        ex.ran(1); ex.state((i, j))
    h = 1e-5
    xx, yy = 0.9*x, 0.9*y
    for i in range(len(V)):
        f = lambda a, b: [np.broadcast_to(v, a.shape) for v in Z.getZhaoBurgeTerm(i, a, b)[:2]]
        curl = (f(xx+h, yy)[1]-f(xx-h, yy)[1]-f(xx, yy+h)[0]+f(xx, yy-h)[0])/(2*h)
        div = (f(xx+h, yy)[0]-f(xx-h, yy)[0]+f(xx, yy+h)[1]-f(xx, yy-h)[1])/(2*h)
        ex.check(maxabs(curl if lab[i].startswith("S") else div) < 1e-5, "curl/%d" % i, "S polynomial with curl or T polynomial with divergence")
        ex.ran(1)
        # expansions: getZhaoBurgeXY is the linear combination of the terms
        dx, dy = Z.getZhaoBurgeXY([i, (i+7) % 33], [0.25, -1.5], x, y)
        w = (0.25*V[i][0]-1.5*V[(i+7) % 33][0], 0.25*V[i][1]-1.5*V[(i+7) % 33][1])
        ex.check(maxabs(dx-w[0]) < 1e-12 and maxabs(dy-w[1]) < 1e-12, "sum/%d" % i, "expansion is not the sum of its terms")
    # the first terms have a fixed meaning: translations, dilatation, rotation
    ex.check(maxabs(V[0][0]-1) < 1e-12 and maxabs(V[0][1]) < 1e-12 and maxabs(V[1][1]-1) < 1e-12 and maxabs(V[1][0]) < 1e-12, "translation", "terms 0,1 are not the unit translations")
    k = np.sqrt(2.)
    ex.check(maxabs(V[2][0]-k*x) < 1e-12 and maxabs(V[2][1]-k*y) < 1e-12, "dilatation", "term 2 is not the dilatation")
    ex.check(maxabs(V[27][0]-k*y) < 1e-12 and maxabs(V[27][1]+k*x) < 1e-12, "rotation", "term 27 is not the rotation")


def recovery(ex):
    """fitted coefficients are the true ones for every small set of polynomials, in any order"""
    x, y, _ = disk()
    x, y = x[::9]*0.95, y[::9]*0.95
    ids = list(range(33))
    for n in (1, 2, 3) if ex.thorough else (1, 2):
        for sub in itertools.permutations(ids, n) if n < 3 else itertools.combinations(ids, n):
            key = "zb/%s" % (sub,)
            with ex.guard(key):
                co = np.array([0.013, -0.007, 0.021])[:n]
                dx, dy = Z.getZhaoBurgeXY(sub, co, x, y)
                p, c = Z.fitZhaoBurge(x, y, x+dx, y+dy, polids=np.array(sub))
                ex.check(np.array_equal(np.asarray(p), np.array(sub)) and maxabs(c-co) < 1e-9, key, "coefficients not recovered", got=c, want=co)
            ex.ran(1); ex.state(sub)
    # the default set, with noise: least squares optimum
    with ex.guard("default"):
        full = np.array([0, 1, 2, 3, 4, 5, 6, 9, 20, 27, 28, 29, 30])
        co = 1e-3*np.cos(np.arange(13)*1.7)
        dx, dy = Z.getZhaoBurgeXY(full, co, x, y)
        nz = 1e-4*np.sin(np.arange(x.size)*12.9898), 1e-4*np.cos(np.arange(x.size)*78.233)
        p, c = Z.fitZhaoBurge(x, y, x+dx+nz[0], y+dy+nz[1])
        H = np.array([np.concatenate([np.broadcast_to(v, x.shape) for v in Z.getZhaoBurgeTerm(int(i), x, y)[:2]]) for i in p]).T
        want = np.linalg.lstsq(H, np.concatenate([dx+nz[0], dy+nz[1]]), rcond=None)[0]
        ex.check(sorted(p) == sorted(full) and maxabs(c-want) < 1e-10, "default", "not the least-squares coefficients")
        k = np.arange(x.size)[::-1]
        p2, c2 = Z.fitZhaoBurge(x[k], y[k], (x+dx+nz[0])[k], (y+dy+nz[1])[k])
        ex.check(maxabs(c2-c) < 1e-10, "default/order", "fit depends on the order of the points")
    ex.ran(2)
    # scale / rotation / offset transformation
    for rot, sc, ox, oy in itertools.product((-3., -0.4, 0., 0.002, 1.5, 3.1), (0.9, 1., 1.1), (0., 0.02), (0., -0.03)):
        with ex.guard("transform"):
            X, Y = Z.transform(x, y, sc, rot, ox, oy)
            z = ((x+ox)+1j*(y+oy))*sc*np.exp(1j*rot)
            ex.check(maxabs(np.abs(X+1j*Y-z)) < 1e-12, "transform/%g/%g" % (rot, sc), "transform is not offset, rotation, scale")
            if abs(rot) < 2.:
                s, r, a, b = Z.fit_scale_rotation_offset(x, y, X, Y)
                X2, Y2 = Z.transform(x, y, s, r, a, b)
                ex.check(max(maxabs(X2-X), maxabs(Y2-Y)) < 1e-4, "fit/%g/%g/%g/%g" % (rot, sc, ox, oy), "fitted transform does not reproduce the points", worst=max(maxabs(X2-X), maxabs(Y2-Y)))
        ex.ran(2); ex.state((rot, sc, ox, oy))


def dm2pm(ex):
    x, y, _ = disk()
    x, y = 410*x, 410*y
    with ex.guard("shipped"):
        t = DM2PM.read(str(io.dm2pm_filename()))
        X, Y = t.dm2pm(x, y)
        bx, by = t.pm2dm(X, Y)
        w = maxabs(np.hypot(bx-x, by-y))
        ex.check(w < 2e-3, "shipped/inverse", "desimeter -> platemaker -> desimeter does not close to 2 um", worst=w)
        ex.check(maxabs(np.hypot(X-x, Y-y)) < 1., "shipped/size", "platemaker correction larger than 1 mm")
        ex.ran(2*x.size); ex.states(x.size)
    sel = np.arange(0, x.size, 11)
    for amp in (0., 1e-5, 1e-4):
        for which in range(13):
            with ex.guard("fit"):
                t = DM2PM()
                ids = np.array([0, 1, 2, 3, 4, 5, 6, 9, 20, 27, 28, 29, 30])
                co = np.zeros(13); co[which] = amp
                dx, dy = Z.getZhaoBurgeXY(ids, co, x/420., y/420.)
                px, py = x+420*dx, y+420*dy
                b = snapshot([x, y, px, py])
                t.fit(x[sel], y[sel], px[sel], py[sel])
                X, Y = t.dm2pm(x, y)
                ex.check(maxabs(np.hypot(X-px, Y-py)) < 1e-6, "fit/%d/%g" % (which, amp), "fit does not recover the correction", worst=maxabs(np.hypot(X-px, Y-py)))
                bx, by = t.pm2dm(X, Y)
                ex.check(maxabs(np.hypot(bx-x, by-y)) < 1e-3, "fit/%d/%g/inv" % (which, amp), "fitted inverse does not close to 1 um", worst=maxabs(np.hypot(bx-x, by-y)))
                ex.check(snapshot([x, y, px, py]) == b, "fit/mutated", "inputs modified")
                with mc.scratch() as d:
                    fn = os.path.join(d, "t.json")
                    t.write(fn); u = DM2PM.read(fn); v = DM2PM.fromjson(str(t))
                    for o in (u, v):
                        ex.check(np.array_equal(np.array(o.dm2pm(x, y)), np.array([X, Y])) and np.array_equal(np.array(o.pm2dm(X, Y)), np.array([bx, by])), "fit/%d/json" % which, "saved and re-read correction differs")
            ex.ran(4); ex.state((which, amp))


SECTIONS = [simple, simple_noise, reuse, tancorr, basis, recovery, dm2pm]
