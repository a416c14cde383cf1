"""C23: predicted positions of targets for fiber assignment."""
import itertools
import numpy as np
import mc
from mc import maxabs, snapshot
from desimeter import fiberassign as F
from desimeter.io import dm2pm_filename
from desimeter.transform.dm2pm import DM2PM
from desimeter.transform.radec2tan import radec2tan
from desimeter.transform.tan2fp.raytracefit import tan2fp
from desimeter.transform.xy2qs import r2s

PROPERTY = "C23"
LEVEL = "exploration"
RULE = ("every combination of tile RA (including the wrap), Dec, hour angle, date, requested field rotation, ADC mode (default, explicit, "
        "zero), frame (platemaker or desimeter, tangent or curved) and polar matrix option on a full field of targets, against an "
        "independent composition with a converged pointing; permutations, duplicates, aliases by full turns and undefined targets; "
        "all hour angles and declinations for the ADC angles. Non-trivial: distinct tile configurations.")
ASSUMPTIONS = ["targets are spread evenly over the field, as documented (the field rotation is measured from them)",
               "the sky, optics and platemaker conversions themselves are judged separately (C05, C06)"]
LAT = 31.9634


def field(ra0, dec0, n=8, rings=(0.35, 0.8, 1.2, 1.5)):
    """targets around a centre, by rotation on the sphere (no pole problem)"""
    t = np.linspace(0, 2*np.pi, n, endpoint=False)
    r = np.radians(np.repeat(rings, n)); t = np.concatenate([t+0.2*k for k in range(len(rings))])
    a, d = np.radians(ra0), np.radians(dec0)
    c = np.array([np.cos(d)*np.cos(a), np.cos(d)*np.sin(a), np.sin(d)])
    e = np.array([-np.sin(a), np.cos(a), 0]); u = np.cross(c, e)
    v = c[:, None]*np.cos(r)+np.sin(r)*(e[:, None]*np.cos(t)+u[:, None]*np.sin(t))
    return np.degrees(np.arctan2(v[1], v[0])) % 360, np.degrees(np.arcsin(v[2]))


def adc(ha, dec):
    """plate maker's dispersion corrector angles, from the local zenith geometry"""
    h, d, l = np.radians(ha), np.radians(dec), np.radians(LAT)
    z = np.array([-np.sin(h)*np.cos(d), np.sin(d)*np.cos(l)-np.cos(d)*np.cos(h)*np.sin(l), np.sin(d)*np.sin(l)+np.cos(d)*np.cos(h)*np.cos(l)])  # E, N, up
    zd = np.degrees(np.arctan2(np.hypot(z[0], z[1]), z[2]))
    psi = np.degrees(np.arctan2(np.sin(h)*np.cos(l), np.cos(d)*np.sin(l)-np.sin(d)*np.cos(l)*np.cos(h)))
    t = np.tan(np.radians(min(zd, 60.)))
    half = np.degrees(-0.0183-0.3795*t-0.1939*t*t)
    return zd, psi, half


def on_sky(ra, dec, ra0, dec0):
    """east and north components"""
    a, d, d0 = np.radians(ra-ra0), np.radians(dec), np.radians(dec0)
    return np.cos(d)*np.sin(a), np.sin(d)*np.cos(d0)-np.cos(d)*np.sin(d0)*np.cos(a)


def measured_rotation(ra, dec, ra0, dec0, x, y):
    e, n = on_sky(ra, dec, ra0, dec0)
    ok = np.isfinite(e*n*x*y)
    ok[ok] = np.hypot(x[ok], y[ok]) > 10
    e, n, x, y = -e[ok], n[ok], x[ok], y[ok]    # focal plane x is to the west
    return np.degrees(np.mean((y*e-x*n)/(np.hypot(x, y)*np.hypot(e, n))))


def reference(ra, dec, ra0, dec0, mjd, ha, rot, a1, a2, pm, polmis):
    if a1 is None:
        zd, psi, half = adc(ha, dec0)
        a1, a2 = psi+half, psi-half
    lst = ha+ra0
    def fp(r, d, tr, td):
        xt, yt = radec2tan(np.atleast_1d(r), np.atleast_1d(d), tr, td, mjd, lst, hexrot_deg=0, use_hardcoded_polmis_rotmat=polmis)
        return np.array(tan2fp(xt, yt, a1, a2))
    tr, td = ra0, dec0
    for it in range(6):
        f0 = fp(ra0, dec0, tr, td)[:, 0]
        h = 1e-4
        J = np.c_[(fp(ra0, dec0, tr+h, td)[:, 0]-f0)/h, (fp(ra0, dec0, tr, td+h)[:, 0]-f0)/h]
        s = -np.linalg.solve(J, f0)
        tr, td = tr+s[0], td+s[1]
    x, y = fp(ra, dec, tr, td)
    if pm:
        x, y = DM2PM.read(dm2pm_filename()).dm2pm(x, y)
    a = np.radians(rot-measured_rotation(ra, dec, ra0, dec0, x, y))
    return np.cos(a)*x-np.sin(a)*y, np.sin(a)*x+np.cos(a)*y


def tiles(ex):
    cs = []
    ras = (0., 0.7, 150., 359.6) if not ex.thorough else (0., 0.7, 77., 150., 266., 359.6, -10., 380.)
    decs = (-28., 31.9, 82.) if not ex.thorough else (-28., -10., 15., 31.9, 50., 70., 82.)
    has = (-45., 3., 50.) if not ex.thorough else (-75., -45., -20., 0., 3., 25., 50., 75.)
    rots = (-130/3600., 0.3) if not ex.thorough else (-3., -130/3600., 0., 0.05, 0.3, 5.)
    modes = [(None, None), (0., 0.), (40., 0.), (30., -150.)]
    k = 0
    for ra0, dec0, ha, rot in itertools.product(ras, decs, has, rots):
        for m in modes if ex.thorough else [modes[0], modes[1+k % 3]]:
            for pm in (True, False):
                k += 1
                cs.append((ra0, dec0, (51545., 59344.4, 60900.)[k % 3], ha, rot, m, pm, bool((k//2) % 2)))

    def one(c):
        ra0, dec0, mjd, ha, rot, (a1, a2), pm, polmis = c
        ra, dec = field(ra0, dec0)
        kw = dict(use_hardcoded_polmis_rotmat=polmis)
        if a1 is not None:
            kw.update(adc1=a1, adc2=a2)
        tile = (ra0, dec0, mjd, ha, rot)
        b = snapshot((ra, dec))
        try:
            x, y = F.fiberassign_radec2xy_cs5(ra, dec, *tile, to_platemaker=pm, **kw)
            ra2, dec2 = F.fiberassign_cs5_xy2radec(x, y, *tile, from_platemaker=pm, **kw)
            xf, yf = F.fiberassign_radec2xy_flat(ra, dec, *tile, to_platemaker=pm, **kw)
            bb = snapshot((xf, yf))
            ra3, dec3 = F.fiberassign_flat_xy2radec(xf, yf, *tile, from_platemaker=pm, **kw)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "error", "%s: %s" % (type(e).__name__, e)
        if snapshot((ra, dec)) != b or snapshot((xf, yf)) != bb:
            return "args", "arguments modified"
        wx, wy = reference(ra, dec, *tile, a1, a2, pm, polmis)
        d = max(maxabs(x-wx), maxabs(y-wy))
        if not d < 5e-4:
            return "forward", "differs by %.5f mm from the composition of its documented steps" % d
        mr = measured_rotation(ra, dec, ra0, dec0, x, y)
        if (not abs(mr-rot) <= 2e-5+3*abs(rot)**3*5.1e-5):
            return "rotation", "field rotation %.6f deg instead of the requested %.6f" % (mr, rot)
        e, n = on_sky(ra2, dec2, ra0, dec0); e0, n0 = on_sky(ra, dec, ra0, dec0)
        d = np.degrees(max(maxabs(e-e0), maxabs(n-n0)))*3600
        if not d < 0.05:
            return "inverse", "round trip error %.3f arcsec" % d
        r = np.hypot(x, y); s = r2s(r)
        if maxabs(np.hypot(xf, yf)-s) > 1e-3 or maxabs(xf*y-yf*x)/400 > 1e-3 or np.any(xf*x+yf*y < 0):
            return "flat", "curved coordinates are not the planar ones stretched along the surface"
        e, n = on_sky(ra3, dec3, ra0, dec0)
        d = np.degrees(max(maxabs(e-e0), maxabs(n-n0)))*3600
        if not d < 0.15:
            return "flat-inverse", "round trip error %.3f arcsec in curved coordinates" % d
        return None
    for c, r in zip(cs, mc.pmap(one, cs)):
        ex.ran(1, sample=dict(tile=c[:5], adc=c[5], platemaker=c[6], polar_matrix=c[7]), trans=4)
        ex.state(c[:5])
        if r:
            ex.fail(r[0], "tile RA %g Dec %g MJD %g HA %g rotation %g adc %s platemaker %s polar matrix %s: %s" % (c+(r[1],)), case=str(c))


def wide(ex):
    """large rotations, tiles near the pole, thousands of targets"""
    cs = []
    for k, (ra0, dec0, ha, rot, n) in enumerate(itertools.product((0.2, 266.), (-20., 60., 88.), (-35., 20.), (-30., -8., 10., 20.), (3, 400))):
        if ex.thorough or k % 2 == k//48 % 2:
            cs.append((ra0, dec0, (51545., 60900., 59344.4)[k % 3], ha, rot, n, bool((k//3) % 2)))

    def one(c):
        ra0, dec0, mjd, ha, rot, n, pm = c
        ra, dec = field(ra0, dec0, n=n)
        tile = (ra0, dec0, mjd, ha, rot)
        try:
            x, y = F.fiberassign_radec2xy_cs5(ra, dec, *tile, to_platemaker=pm)
            ra2, dec2 = F.fiberassign_cs5_xy2radec(x, y, *tile, from_platemaker=pm)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "error", "%s: %s" % (type(e).__name__, e)
        wx, wy = reference(ra, dec, *tile, None, None, pm, False)
        d = max(maxabs(x-wx), maxabs(y-wy))
        if not (np.shape(x) == np.shape(ra) and d < 5e-4):
            return "forward", "differs by %.5f mm from the composition of its documented steps" % d
        e, m = on_sky(ra2, dec2, ra0, dec0); e0, m0 = on_sky(ra, dec, ra0, dec0)
        d = np.degrees(max(maxabs(e-e0), maxabs(m-m0)))*3600
        if not d < (0.3 if abs(rot) <= 10 else 0.6):
            return "inverse", "round trip error %.3f arcsec" % d
        return None
    for c, r in zip(cs, mc.pmap(one, cs)):
        ex.ran(1, sample=dict(tile=c[:5], targets=4*c[5], platemaker=c[6]), trans=2)
        ex.state(c)
        if r:
            ex.fail("wide-"+r[0], "tile RA %g Dec %g MJD %g HA %g rotation %g with %d targets, platemaker %s: %s" % (c[:5]+(4*c[5], c[6], r[1])), case=str(c))


def centre(ex):
    """the tile centre is at the origin; one row at a time cannot matter except through the rotation"""
    for ra0, dec0, ha in itertools.product((0., 200., 359.9), (-28., 10., 75.), (-60., -5., 0., 40.)):
        ra, dec = field(ra0, dec0)
        ra, dec = np.r_[ra, ra0], np.r_[dec, dec0]
        with ex.guard("centre"):
            x, y = F.fiberassign_radec2xy_cs5(ra, dec, ra0, dec0, 59344.4, ha, 0.1, to_platemaker=False)
            ex.check(np.hypot(x[-1], y[-1]) < 1e-4, "centre", "tile centre at %g, %g mm" % (x[-1], y[-1]), tile=(ra0, dec0, ha))
            w = F.fiberassign_radec2xy_cs5(ra, dec, ra0, dec0, 59344.4, ha, 0.1)
            ex.check(maxabs(w[0]-x) < 0.2 and maxabs(w[1]-y) < 0.2 and maxabs(w[0]-x) > 1e-4, "default-frame", "default is not the platemaker frame", tile=(ra0, dec0, ha))
        ex.ran(2, sample=dict(tile=(ra0, dec0, ha)))
        ex.state((ra0, dec0, ha))


def forms(ex):
    """row order, repeated rows, full turns and undefined targets"""
    cs = list(itertools.product((0.3, 123.), (-20., 60.), (-30., 10.), (0., -0.05) if ex.thorough else (-0.05,)))
    thorough = ex.thorough

    def one(c):
        ra0, dec0, ha, rot = c
        ra, dec = field(ra0, dec0, n=6)
        m = len(ra)
        F_ = lambda r, d, t=ra0, h=ha, **k: np.array(F.fiberassign_radec2xy_cs5(r, d, t, dec0, 59344.4, h, rot, **k))
        B_ = lambda x, y, t=ra0, h=ha, **k: np.array(F.fiberassign_cs5_xy2radec(x, y, t, dec0, 59344.4, h, rot, **k))
        bad, n = [], 0
        def need(ok, key, msg):
            if not ok: bad.append((key, msg))
        try:
            xy = F_(ra, dec); rd = B_(*xy)
            for p in (np.arange(m)[::-1], np.roll(np.arange(m), 5), np.argsort(np.cos(np.arange(m)*3.3)), np.repeat(np.arange(m), 2)):
                need(maxabs(F_(ra[p], dec[p])-xy[:, p]) < 1e-8, "order", "answer depends on the order or repetition of the targets")
                need(maxabs(B_(*xy[:, p])-rd[:, p]) < 1e-8, "order-inverse", "answer depends on the order or repetition of the targets")
                n += 2
            for off, t, h in ((360., ra0, ha), (-360., ra0, ha), (0., ra0+360, ha), (0., ra0-360, ha), (0., ra0, ha+360), (0., ra0, ha-360)):
                need(maxabs(F_(ra+off, dec, t, h)-xy) < 1e-6, "turns", "answer changes with full turns %s" % ((off, t, h),))
                d = B_(*xy, t, h)-rd
                need(maxabs((d[0]+180) % 360-180) < 1e-8 and maxabs(d[1]) < 1e-8, "turns-inverse", "answer changes with full turns %s" % ((off, t, h),))
                n += 2
            for i in range(m) if thorough else (0, 7, m-1):
                keep = np.arange(m) != i
                wxy = F_(ra[keep], dec[keep])
                for a, b in ((np.nan, dec[i]), (ra[i], np.nan)):
                    r1, d1 = ra.copy(), dec.copy(); r1[i], d1[i] = a, b
                    p = F_(r1, d1)
                    need(not np.isfinite(p[0, i]+p[1, i]) and maxabs(p[:, keep]-wxy) < 1e-8, "undefined", "an undefined target changes the others")
                q = xy.copy(); q[0, i] = np.nan
                p = B_(*q)
                need(not np.isfinite(p[0, i]+p[1, i]) and maxabs(p[:, keep]-B_(*xy[:, keep])) < 1e-8, "undefined-inverse", "an undefined position changes the others")
                n += 3
            for f in (F.fiberassign_radec2xy_cs5, F.fiberassign_cs5_xy2radec, F.fiberassign_radec2xy_flat, F.fiberassign_flat_xy2radec):
                for kw in (dict(adc1=0.), dict(adc2=0.), dict(adc1=20.), dict(adc2=20.)):
                    try:
                        f(xy[0], xy[1], ra0, dec0, 59344.4, ha, rot, **kw)
                        need(False, "one-angle", "%s accepts only one ADC angle" % f.__name__)
                    except ValueError:
                        pass
                    n += 1
                zd, psi, half = adc(ha, dec0)
                A = (ra, dec) if "radec2xy" in f.__name__ else tuple(xy)
                o = np.array(f(*A, ra0, dec0, 59344.4, ha, rot))
                q = np.array(f(*A, ra0, dec0, 59344.4, ha, rot, adc1=psi+half, adc2=psi-half))
                need(maxabs(o-q) < 1e-6, "default-adc", "%s: default ADC angles are not those of the hour angle and declination" % f.__name__)
                n += 1
        except Exception as e:
            if not mc.under_test(e):
                raise
            bad.append(("error", "%s: %s" % (type(e).__name__, e)))
        return n, bad
    for c, (n, bad) in zip(cs, mc.pmap(one, cs)):
        ex.ran(n, sample=dict(tile=c))
        ex.states(n)
        for k, msg in bad:
            ex.fail(k, "tile %s: %s" % (c, msg), tile=c)


def dispersion(ex):
    """dispersion corrector angles over the whole sky"""
    n = 0
    for ha in np.arange(-180, 181, 7.5 if not ex.thorough else 2.5):
        for dec in np.arange(-88, 90, 4. if not ex.thorough else 1.):
            zd, psi, half = adc(ha, dec)
            with ex.guard("dispersion"):
                ex.check(abs(F.pm_zd(ha, dec, LAT)-zd) < 1e-5, "zenith", "zenith distance %g instead of %g" % (F.pm_zd(ha, dec, LAT), zd), ha=ha, dec=dec)
                a1, a2 = F.pm_get_adc_angles(ha, dec)
                ex.check(mc.angdiff(a1, psi+half) < 1e-4 and mc.angdiff(a2, psi-half) < 1e-4, "adc", "angles %g %g instead of %g %g" % (a1, a2, psi+half, psi-half), ha=ha, dec=dec)
            n += 1
    h, d = [v.ravel() for v in np.meshgrid(np.arange(-90, 91, 15.), np.arange(-30, 80, 10.))]
    with ex.guard("dispersion-array"):
        a1, a2 = F.pm_get_adc_angles(h, d)
        for i in range(len(h)):
            b1, b2 = F.pm_get_adc_angles(h[i], d[i])
            ex.check(abs(a1[i]-b1) < 1e-9 and abs(a2[i]-b2) < 1e-9, "adc-array", "arrays and scalars disagree")
            n += 1
    ex.ran(n)
    ex.states(n)


def platemaker(ex):
    """conversion to and from platemaker coordinates: shipped one, fitted ones, saved ones"""
    n = 0
    dm = DM2PM.read(dm2pm_filename())
    g = np.arange(-400, 401, 50.)
    X, Y = [v.ravel() for v in np.meshgrid(g, g)]
    k = np.hypot(X, Y) < 411; X, Y = X[k], Y[k]
    with ex.guard("shipped"):
        x, y = dm.dm2pm(X, Y); u, v = dm.pm2dm(x, y)
        ex.check(maxabs(u-X) < 5e-3 and maxabs(v-Y) < 5e-3, "shipped", "shipped conversion not inverted: %g mm" % max(maxabs(u-X), maxabs(v-Y)))
        for i in range(len(X)):
            a, b = dm.dm2pm(np.array([X[i]]), np.array([Y[i]]))
            ex.check(abs(a[0]-x[i]) < 1e-9 and abs(b[0]-y[i]) < 1e-9, "rows", "rows are not independent")
            n += 1
    with mc.scratch() as dd:
        for j, (ax, ay, s, th, q) in enumerate(itertools.product((-0.3, 0., 0.2), (0., 0.5), (0.9995, 1.0004), (-1e-3, 0., 2e-3), (0., 3e-10))):
            xp = s*(np.cos(th)*X-np.sin(th)*Y)+ax+q*X*(X*X+Y*Y)
            yp = s*(np.sin(th)*X+np.cos(th)*Y)+ay+q*Y*(X*X+Y*Y)
            with ex.guard("fit"):
                b = snapshot((X, Y, xp, yp))
                t = DM2PM(); t.fit(X, Y, xp, yp)
                ex.check(snapshot((X, Y, xp, yp)) == b, "fit-args", "arguments modified")
                x, y = t.dm2pm(X, Y); u, v = t.pm2dm(xp, yp)
                ex.check(maxabs(x-xp) < 2e-3 and maxabs(y-yp) < 2e-3, "fit-forward", "fitted conversion off by %g mm" % max(maxabs(x-xp), maxabs(y-yp)), case=(ax, ay, s, th, q))
                ex.check(maxabs(u-X) < 2e-3 and maxabs(v-Y) < 2e-3, "fit-backward", "fitted inverse off by %g mm" % max(maxabs(u-X), maxabs(v-Y)), case=(ax, ay, s, th, q))
                f = dd+"/t%d.json" % j
                t.write(f); r = DM2PM.read(f)
                ex.check(maxabs(r.dm2pm(X, Y)[0]-x) < 1e-12 and maxabs(r.dm2pm(X, Y)[1]-y) < 1e-12 and maxabs(r.pm2dm(xp, yp)[0]-u) < 1e-12 and maxabs(r.pm2dm(xp, yp)[1]-v) < 1e-12, "json", "saved conversion differs once read back")
            n += 3
    ex.ran(n)
    ex.states(n)


SECTIONS = [tiles, wide, centre, forms, dispersion, platemaker]
