"""C06: sky coordinates <-> tangent plane, against an independent vector-algebra model of the documented steps."""
import itertools, math
import numpy as np
import mc
from mc import maxabs, angdiff, snapshot
from desimeter.transform import radec2tan as T
from desimeter.time import mjd2lst

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("every combination of (declination, hour angle, sidereal time incl. the 0/360 wrap, date, hexapod angle, precession x "
        "aberration x polar-misalignment switches) of a lattice of observable pointings x a full polar lattice of field "
        "positions, forward against the reference model, backward, aliased by +-360 deg and elementwise. Non-trivial: distinct "
        "rounded tangent-plane coordinates.")
ASSUMPTIONS = ["altitude above 20 deg, declination -25..+80 (aberration is undone to first order only, its error grows towards the pole)",
               "field radius up to 1.6 deg"]

ARC = 206264.806
LAT = 31.96403
OBL = 23.0+26/60.+21.406/3600.


def S(d): return np.sin(np.radians(d))
def C(d): return np.cos(np.radians(d))


def unit(lon, lat):
    lon, lat = np.broadcast_arrays(np.asarray(lon, float), np.asarray(lat, float))
    return np.array([C(lon)*C(lat), S(lon)*C(lat), S(lat)])


def lonlat(v):
    return np.degrees(np.arctan2(v[1], v[0])) % 360., np.degrees(np.arctan2(v[2], np.hypot(v[0], v[1])))


def r1(v, deg):   # rotate vectors about x axis by deg
    return np.array([v[0], C(deg)*v[1]-S(deg)*v[2], S(deg)*v[1]+C(deg)*v[2]])


def r3(v, deg):
    return np.array([C(deg)*v[0]-S(deg)*v[1], S(deg)*v[0]+C(deg)*v[1], v[2]])


def precess(v, mjd):
    e = r1(v, -OBL)
    return r1(r3(e, 360.*(mjd-51544.5)/365.256363004/25771.5753382206), OBL)


def aberr(v, mjd):
    n = mjd-51544.5
    g = 357.528+0.9856003*n
    sun = 280.460+0.9856474*n+1.915*S(g)+0.020*S(2*g)
    beta = 0.99365e-4*np.array([C(sun-90.), S(sun-90.), 0.])
    e = r1(v, -OBL)
    dot = beta[0]*e[0]+beta[1]*e[1]
    w = e+(beta.reshape((3,)+(1,)*(e.ndim-1))-dot*e)
    w = w/np.sqrt((w**2).sum(0))
    return r1(w, OBL)


def horizon(ha, dec):
    """altitude, azimuth (from north through east)"""
    h, d = ha, dec
    east = -C(d)*S(h)
    north = S(d)*C(LAT)-C(d)*C(h)*S(LAT)
    up = S(d)*S(LAT)+C(d)*C(h)*C(LAT)
    return np.degrees(np.arctan2(up, np.hypot(east, north))), np.degrees(np.arctan2(east, north)) % 360.


def unhorizon(alt, az):
    east, north, up = C(alt)*S(az), C(alt)*C(az), S(alt)
    x = up*C(LAT)-north*S(LAT)      # towards meridian on the equator
    z = up*S(LAT)+north*C(LAT)
    return np.degrees(np.arctan2(-east, x)), np.degrees(np.arctan2(z, np.hypot(east, x)))


def polmis(v):
    # rigid rotation carrying the direction altitude=lat-ME, az=MA onto the pole direction altitude=lat, az=0
    h1, d1 = unhorizon(LAT+120./3600., -2./3600.)
    a, b = unit(h1, d1), unit(*unhorizon(LAT, 0.))
    k = np.cross(a, b); s = np.linalg.norm(k); k = k/s
    c = float(a.dot(b))
    if v.ndim == 1:
        return v*c+np.cross(k, v)*s+k*(k.dot(v))*(1-c)
    return v*c+np.cross(k, v, axisb=0, axisc=0)*s+np.outer(k, k.dot(v))*(1-c)


def refract(ha, dec):
    alt, az = horizon(ha, dec)
    alt = alt+79./3600.*math.tan(math.radians(30.))/np.tan(np.radians(alt))
    return unhorizon(alt, az)


def ref_radec2tan(ra, dec, tra, tdec, mjd, lst, hexrot, prec, aber, pol):
    out = []
    for a, d in ((ra, dec), (tra, tdec)):
        v = unit(a, d)
        if prec: v = precess(v, mjd)
        if aber: v = aberr(v, mjd)
        r_, d_ = lonlat(v)
        h = lst-r_
        if pol:
            h, d_ = lonlat(polmis(unit(h, d_)))
        out.append(refract(h, d_))
    (h, d), (th, td) = out
    v = unit(h, d)
    # gnomonic frame (orthographic, as documented): x along +HA, y along +Dec
    ex = np.array([-S(th), C(th), 0*th])
    ey = np.array([-S(td)*C(th), -S(td)*S(th), C(td)])
    x = np.tensordot(ex, v, axes=(0, 0)); y = np.tensordot(ey, v, axes=(0, 0))
    return C(hexrot)*x-S(hexrot)*y, S(hexrot)*x+C(hexrot)*y


def field(n, m):
    r = np.radians(np.concatenate([[0.], np.linspace(0.02, 1.6, n)]))
    a = np.radians(np.arange(0, 360, 360./m))
    R, A = [v.ravel() for v in np.meshgrid(r, a)]
    return np.sin(R)*np.cos(A), np.sin(R)*np.sin(A)


def pointings(ex):
    decs = [-25., -9.5, 0., LAT, 48., 63., 80.] if not ex.thorough else [-25., -20., -9.5, -0.001, 0., 12., 30., LAT, 32.2, 48., 55., 63., 72., 80.]
    has = [-60., -30., -0.01, 0., 0.5, 25., 62.] if not ex.thorough else [-75., -60., -45., -30., -8., -0.01, 0., 0.5, 13., 25., 44., 62., 75.]
    for d in decs:
        for h in has:
            if horizon(h, d)[0] > 20.:
                yield d, h


def limit(dec, aber):
    return 0.004 if not aber else 0.004+0.003/C(dec)**2


def grid(ex):
    x, y = field(4 if not ex.thorough else 9, 12 if not ex.thorough else 24)
    lsts = [359.995, 101.25, 213.] if not ex.thorough else [0., 0.01, 359.995, 45., 101.25, 180., 213., 300.]
    dates = [58789.135177, 60000.25, 44239.7] if not ex.thorough else [44239.7, 51544.5, 58789.135177, 58865.54, 58960., 59012.4, 59100.75, 60000.25, 61000., 77001.3]
    hexs = [0., 137.] if not ex.thorough else [0., -0.06, 0.3, 137., 180., 270.]
    cases = list(itertools.product(list(pointings(ex)), lsts))

    def one(case):
        (dec, ha), lst = case
        bad = []; n = 0; nd = set()
        try:
            for mjd in dates:
                for prec, aber, pol in itertools.product((True, False), repeat=3):
                    for hx in hexs:
                        tra = lst-ha
                        kw = dict(precession=prec, aberration=aber, polar_misalignment=pol)
                        at = dict(dec=dec, ha=ha, lst=lst, mjd=mjd, hexrot=hx, **kw)
                        snap = snapshot([x, y])
                        ra, de = T.tan2radec(x, y, tra, dec, mjd, lst, hx, **kw)
                        if snapshot([x, y]) != snap:
                            bad.append(("mutated", "tan2radec modified its input", at, 0))
                        snap = snapshot([ra, de])
                        X, Y = T.radec2tan(ra, de, tra, dec, mjd, lst, hx, **kw)
                        if snapshot([ra, de]) != snap:
                            bad.append(("mutated2", "radec2tan modified its input", at, 0))
                        w = maxabs(np.hypot(X-x, Y-y))*ARC
                        if not w < limit(dec, aber):
                            bad.append(("roundtrip", "tangent plane -> sky -> tangent plane does not close (arcsec)", at, w))
                        rx, ry = ref_radec2tan(ra, de, tra, dec, mjd, lst, hx, prec, aber, pol)
                        w = maxabs(np.hypot(X-rx, Y-ry))*ARC
                        if not w < 1e-4:
                            bad.append(("model", "radec2tan differs from the documented sequence of corrections (arcsec)", at, w))
                        ra2, de2 = T.tan2radec(X, Y, tra, dec, mjd, lst, hx, **kw)
                        w = maxabs(np.hypot(angdiff(ra2, ra)*C(de), de2-de))*3600
                        if not w < 2*limit(dec, aber):
                            bad.append(("roundtrip2", "sky -> tangent plane -> sky does not close (arcsec)", at, w))
                        bx, by = T.radec2tan(tra, dec, tra, dec, mjd, lst, hx, **kw)
                        if not max(abs(float(bx)), abs(float(by)))*ARC < 1e-6:
                            bad.append(("boresight", "telescope pointing does not map to (0,0)", at, [float(bx), float(by)]))
                        n += x.size
                        for dr, dt, dl, dh in ((360., 0, 0, 0), (0, 360., 0, 0), (0, 0, 360., 0), (-360., -360., 0, 0), (0, 0, 0, 360.), (0, 0, -360., -360.)):
                            Xa, Ya = T.radec2tan(ra+dr, de, tra+dt, dec, mjd, lst+dl, hx+dh, **kw)
                            if not max(maxabs(Xa-X), maxabs(Ya-Y))*ARC < 1e-5:
                                bad.append(("alias", "adding full turns to RA, pointing, LST or hexapod angle changes the answer", at, [dr, dt, dl, dh]))
                            n += x.size
                        ra3, de3 = T.tan2radec(x, y, tra+360., dec, mjd, lst-360., hx+360., **kw)
                        if not maxabs(np.hypot(angdiff(ra3, ra), de3-de))*3600 < 1e-4:
                            bad.append(("alias-inv", "adding full turns changes the inverse", at, 0))
                        # rotating the hexapod rotates the tangent plane
                        X0, Y0 = T.radec2tan(ra, de, tra, dec, mjd, lst, 0., **kw)
                        if not maxabs(np.hypot(C(hx)*X0-S(hx)*Y0-X, S(hx)*X0+C(hx)*Y0-Y))*ARC < 1e-5:
                            bad.append(("hexrot", "hexapod rotation is not a rotation of the tangent plane", at, 0))
                        Xh, Yh = T.radec2tan(ra, de, tra, dec, mjd, lst, hx, use_hardcoded_polmis_rotmat=True, **kw)
                        if not maxabs(np.hypot(Xh-X, Yh-Y))*ARC < 1e-3:
                            bad.append(("hardcoded", "tabulated polar-misalignment matrix disagrees with the computed one", at, maxabs(np.hypot(Xh-X, Yh-Y))*ARC))
                        rah, deh = T.tan2radec(X, Y, tra, dec, mjd, lst, hx, use_hardcoded_polmis_rotmat=True, **kw)
                        if not maxabs(np.hypot(angdiff(rah, ra2)*C(de), deh-de2))*3600 < 2e-3:
                            bad.append(("hardcoded-inv", "tabulated inverse polar-misalignment matrix disagrees with the computed one", at, maxabs(np.hypot(angdiff(rah, ra2)*C(de), deh-de2))*3600))
                        for i in (1, 17, x.size-1):
                            a, d = float(ra[i]), float(de[i])
                            sx, sy = T.radec2tan(a, d, tra, dec, mjd, lst, hx, **kw)
                            tr, td = T.tan2radec(float(X[i]), float(Y[i]), tra, dec, mjd, lst, hx, **kw)
                            if not max(abs(float(sx)-X[i]), abs(float(sy)-Y[i]))*ARC < 1e-6 or not max(float(angdiff(float(tr), ra2[i])), abs(float(td)-de2[i]))*3600 < 1e-5:
                                bad.append(("scalar", "scalar and array answers differ", at, i))
                        k = np.arange(x.size)[::-1]
                        Xk, Yk = T.radec2tan(ra[k], de[k], tra, dec, mjd, lst, hx, **kw)
                        if not max(maxabs(Xk-X[k]), maxabs(Yk-Y[k])) < 1e-12:
                            bad.append(("order", "answer depends on row order", at, 0))
                        nd.update((round(a, 7), round(b, 7)) for a, b in zip(X.tolist(), Y.tolist()))
                        if len(bad) > 3:
                            return bad, n, len(nd)
            # orientation in the field
            at = dict(dec=dec, ha=ha, lst=lst)
            X, Y = T.radec2tan(np.array([tra-0.5, tra+0.5, tra, tra]), np.array([dec, dec, dec+0.5, dec-0.5]), tra, dec, dates[0], lst, 0.)
            if not (X[0] > 0 and X[1] < 0 and Y[2] > 0 and Y[3] < 0):
                bad.append(("orientation", "+x is not towards larger HA / +y not towards larger Dec", at, [X, Y]))
            return bad, n, len(nd)
        except Exception as e:
            import traceback
            if mc.under_test(e):
                return [("crash", "unexpected %s: %s" % (type(e).__name__, e), dict(dec=dec, ha=ha, lst=lst), traceback.format_exc()[-1200:])], n, 0
            raise
    for case, (bad, n, nd) in zip(cases, mc.pmap(one, cases)):
        (dec, ha), lst = case
        ex.ran(n, sample=dict(dec=dec, ha=ha, lst=lst))
        ex.states(nd)
        for key, msg, at, w in bad:
            ex.fail("dec%g/ha%g/lst%g/%s" % (dec, ha, lst, key), msg, at=at, worst=w)


def pieces(ex):
    """each documented step and its undo, everywhere on the sky"""
    ra = np.arange(0., 360., 7.5 if not ex.thorough else 2.5)
    dec = np.arange(-88., 88.1, 8. if not ex.thorough else 2.)
    R, D = [v.ravel() for v in np.meshgrid(ra, dec)]

    def sep(a1, d1, a2, d2):
        return maxabs(np.sqrt(((unit(a1, d1)-unit(a2, d2))**2).sum(0)))*ARC
    b = snapshot([R, D])
    with ex.guard("eclip"):
        ex.check(sep(*T.eclip2radec(*T.radec2eclip(R, D)), R, D) < 1e-6, "eclip", "equatorial <-> ecliptic does not close")
        v = r1(unit(R, D), -OBL)
        ex.check(sep(*T.radec2eclip(R, D), *lonlat(v)) < 1e-6, "eclip-model", "ecliptic transform is not the rotation by the obliquity")
        ex.ran(2*R.size)
    for me, ma in itertools.product((-3600., -120., -1., 0., 2., 60., 300.), (-900., -2., 0., 30., 600.)):
        with ex.guard("polar/%g/%g" % (me, ma)):
            M = np.asarray(T.compute_polar_misalignment_rotation_matrix(me, ma))
            alt, az, lat = T.LATITUDE-me/3600., ma/3600., T.LATITUDE
            n_, e_, u_ = C(alt)*C(az), C(alt)*S(az), S(alt)
            pole = np.array([-n_*S(lat)+u_*C(lat), -e_, n_*C(lat)+u_*S(lat)])
            ex.check(maxabs(M.dot(M.T)-np.eye(3)) < 1e-12 and np.linalg.det(M) > 0, "polar/%g/%g" % (me, ma), "the polar misalignment matrix is not a rotation")
            ex.check(maxabs(M.dot(pole)-np.array([0., 0., 1.])) < 1e-7, "polar-to/%g/%g" % (me, ma), "the polar misalignment matrix does not take the axis of the mount to the pole", got=M.dot(pole).tolist())
            ex.check(maxabs(M-np.eye(3)) < 1.001*max(np.hypot(me, ma*C(alt))/ARC, 1e-7), "polar-size/%g/%g" % (me, ma), "the polar misalignment matrix turns too much")
        ex.ran(1)
        ex.state(("polar", me, ma))
    for mjd in (44239.7, 51544.5, 55000., 58789., 59012.4, 60000., 61500., 77001.3):
        with ex.guard("prec"):
            p = T.apply_precession_from_icrs(R, D, mjd)
            ex.check(sep(*p, *lonlat(precess(unit(R, D), mjd))) < 1e-6, "prec/%g" % mjd, "precession is not the documented rotation")
            ex.check(sep(*T.undo_precession_from_icrs(*p, mjd), R, D) < 1e-6, "prec-undo/%g" % mjd, "precession is not undone")
            a = T.apply_aberration(R, D, mjd)
            ex.check(sep(*a, *lonlat(aberr(unit(R, D), mjd))) < 1e-5, "aber/%g" % mjd, "aberration differs from the model", worst=sep(*a, *lonlat(aberr(unit(R, D), mjd))))
            k = np.abs(D) <= 80
            w = sep(*[v[k] for v in T.undo_aberration(*a, mjd)], R[k], D[k])
            ex.check(w < 0.15, "aber-undo/%g" % mjd, "aberration is not undone (arcsec)", worst=w)
            s = sep(R, D, *a)
            ex.check(15. < s < 21.5, "aber-size/%g" % mjd, "aberration amplitude is not ~20 arcsec", got=s)
            ex.ran(5*R.size, sample=dict(mjd=mjd))
            ex.states(R.size)
        # the two implementations of each correction agree
        with ex.guard("astropy"):
            q = T.apply_precession_from_icrs(R, D, mjd, use_astropy=True)
            w = sep(*q, *T.apply_precession_from_icrs(R, D, mjd))
            ex.check(w < 20., "prec-astropy/%g" % mjd, "own precession and astropy's disagree by more than 20 arcsec", worst=w)
            ex.check(sep(*T.undo_precession_from_icrs(*q, mjd, use_astropy=True), R, D) < 1e-3, "prec-astropy-undo/%g" % mjd, "astropy precession is not undone")
            aa = T.apply_aberration(R, D, mjd, use_astropy=True)
            w = sep(*aa, *T.apply_aberration(R, D, mjd))
            ex.check(w < 1., "aber-astropy/%g" % mjd, "own aberration and astropy's disagree by more than 1 arcsec", worst=w)
            ex.ran(3*R.size)
    alt = np.arange(15., 90.01, 0.25 if not ex.thorough else 0.02)
    with ex.guard("refr"):
        b2 = snapshot(alt)
        up = T.apply_refraction(alt)
        want = alt+79./3600.*np.tan(np.radians(30.))/np.tan(np.radians(alt))
        ex.check(maxabs(up-want)*3600 < 1e-6, "refraction", "refraction differs from the model")
        ex.check(np.all(up >= alt-1e-12) and np.all(np.diff(up) > 0), "refraction-mono", "refraction does not lift stars monotonically")
        snap = snapshot(up)
        back = T.undo_refraction(up)
        ex.check(snapshot(up) == snap, "refraction-mutated", "undo_refraction modified its input array")
        ex.check(maxabs((back-alt)[alt > 20])*3600 < 2e-3 and maxabs(back-alt)*3600 < 0.01, "refraction-undo", "refraction is not undone", worst=maxabs(back-alt)*3600)
        for a in alt[::17]:
            ex.check(abs(T.undo_refraction(T.apply_refraction(float(a)))-a)*3600 < 0.01, "refraction-scalar", "scalar refraction is not undone", alt=a)
        ex.check(snapshot(alt) == b2, "refraction-mutated2", "apply_refraction modified its input")
        ex.ran(3*alt.size); ex.states(alt.size)
    with ex.guard("altaz"):
        ha = R-180.
        al, az = T.hadec2altaz(ha, D)
        wa, wz = horizon(ha, D)
        al_ = np.where(al > 180, al-360, al)
        ex.check(sep(az, al_, wz, wa) < 1e-5, "altaz", "hour angle/declination to altitude/azimuth is wrong")
        h2, d2 = T.altaz2hadec(al, az)
        ex.check(sep(h2, d2, ha, D) < 1e-5, "altaz-inv", "altitude/azimuth does not invert", worst=sep(h2, d2, ha, D))
        ex.ran(2*R.size); ex.states(R.size)
    x, y = field(8, 24)
    for th in (-75., -0.3, 0., 12., 100., 359.9):
        for td in (-25., 0., 31.96, 60., 85., 89.):
            with ex.guard("xy"):
                h, d = T.xy2hadec(x, y, th, td)
                X, Y = T.hadec2xy(h, d, th, td)
                ex.check(max(maxabs(X-x), maxabs(Y-y))*ARC < 1e-5, "xy/%g/%g" % (th, td), "xy <-> HA,Dec does not close")
                v = unit(h, d)
                exv = np.array([-S(th), C(th), 0.]); eyv = np.array([-S(td)*C(th), -S(td)*S(th), C(td)]); ez = unit(th, td)
                ex.check(maxabs(exv.dot(v)-x)*ARC < 1e-5 and maxabs(eyv.dot(v)-y)*ARC < 1e-5 and np.all(ez.dot(v) > 0.9), "xy-model/%g/%g" % (th, td), "tangent plane axes are wrong")
                ex.ran(2*x.size); ex.states(x.size)
    ex.check(snapshot([R, D]) == b, "mutated", "inputs modified")
    # small trigonometric helpers
    from desimeter import trig
    a = np.concatenate([np.arange(-720., 720.1, 15.), [1e-9, -1e-9, 359.999999]])
    with ex.guard("trig"):
        p = trig.put360(a)
        ex.check(np.all((p >= 0) & (p <= 360)) and maxabs(angdiff(p, a)) < 1e-9, "put360", "put360 is not the angle modulo 360 in [0,360)")
        for u in a[::3]:
            for v in a[::3]:
                d = (v-u+180) % 360-180
                if abs(abs(d)-180) < 1e-6:
                    continue
                m = trig.average_angles_deg(u, v)
                if angdiff(m, u+d/2.) > 1e-6:
                    ex.fail("average/%g/%g" % (u, v), "average of two directions is not midway", got=m)
                ex.ran(1)
        M = trig.rot2deg(30.)
        ex.check(maxabs(M.dot([1, 0])-np.array([C(30), S(30)])) < 1e-12 and maxabs(M.dot([0, 1])-np.array([-S(30), C(30)])) < 1e-12, "rot2", "rotation matrix direction")
        ex.check(maxabs(trig.sind(a)-S(a)) < 1e-12 and maxabs(trig.cosd(a)-C(a)) < 1e-12, "sind", "degree trigonometry")


def sidereal(ex):
    """local sidereal time against the standard expression and the calibration exposures"""
    mjd = np.arange(58000., 62000., 0.37 if not ex.thorough else 0.037)
    with ex.guard("lst"):
        l = mjd2lst(mjd)
        ex.check(np.all((l >= 0) & (l < 360)), "range", "sidereal time not in [0,360)")
        t0 = mjd+2400000.5-2451545.0
        T_ = t0/36525.
        want = 280.46061837+360.98564736629*t0+0.000387933*T_**2-T_**3/38710000.-111.59989-0.16035388
        ex.check(maxabs(angdiff(l, want))*3600 < 0.05, "gmst", "sidereal time differs from the standard expression", worst=maxabs(angdiff(l, want))*3600)
        for m, w, tol in ((58789.135177, 338.01969167, 0.5), (58865.540489, 199.24148750, 4.)):
            ex.check(float(angdiff(mjd2lst(m), w))*3600 < tol, "exposure/%g" % m, "sidereal time of the calibration exposure is wrong", got=mjd2lst(m))
        for m in mjd[::501]:
            ex.check(abs(mjd2lst(float(m))-mjd2lst(np.array([m]))[0]) < 1e-9, "scalar", "scalar and array answers differ")
        # one solar day later the sky has turned by one more degree
        ex.check(maxabs(angdiff(mjd2lst(mjd+1.), l+0.98564736629))*3600 < 0.1, "rate", "sidereal rate is wrong")
        ex.ran(3*mjd.size); ex.states(mjd.size)


def options(ex):
    """astropy variants and batch sizes: every switch combination, arrays of one element, scalars, and very long arrays"""
    x, y = field(3, 8)
    cases = list(itertools.product([(-9.5, -30.), (31.9, 0.5), (63., 25.)], [359.995, 101.25], [58789.135177, 60000.25]))
    if not ex.thorough:
        cases = cases[::2]

    def one(case):
        (dec, ha), lst, mjd = case
        bad = []; n = 0
        tra = lst-ha
        try:
            for prec, aber, pol, hard in itertools.product((True, False), repeat=4):
                if hard and not pol:
                    continue
                kw = dict(precession=prec, aberration=aber, polar_misalignment=pol, use_hardcoded_polmis_rotmat=hard)
                at = dict(dec=dec, ha=ha, lst=lst, mjd=mjd, **kw)
                ra, de = T.tan2radec(x, y, tra, dec, mjd, lst, 20., use_astropy=True, **kw)
                X, Y = T.radec2tan(ra, de, tra, dec, mjd, lst, 20., use_astropy=True, **kw)
                w = maxabs(np.hypot(X-x, Y-y))*ARC
                if not w < limit(dec, aber):
                    bad.append(("astropy-roundtrip", "use_astropy: tangent plane -> sky -> tangent plane does not close (arcsec)", at, w))
                X0, Y0 = T.radec2tan(ra, de, tra, dec, mjd, lst, 20., **kw)
                w = maxabs(np.hypot(X-X0, Y-Y0))*ARC
                if not w < 3.:   # 6 deg. field times the ~10 arcsec difference of the precessions
                    bad.append(("astropy-agree", "use_astropy changes the tangent plane by more than 3 arcsec", at, w))
                r0, d0 = T.tan2radec(x, y, tra, dec, mjd, lst, 20., **kw)
                w = maxabs(np.hypot(angdiff(r0, ra)*C(de), d0-de))*3600
                if not w < 3.:
                    bad.append(("astropy-agree-inv", "use_astropy changes the sky coordinates by more than 3 arcsec", at, w))
                n += 5*x.size
                for use in (True, False):
                    A, B = (X, Y) if use else (X0, Y0)
                    sr, sd = (ra, de) if use else (r0, d0)
                    for i in (0, 11):
                        X1, Y1 = T.radec2tan(ra[i:i+1], de[i:i+1], tra, dec, mjd, lst, 20., use_astropy=use, **kw)
                        r1_, d1_ = T.tan2radec(x[i:i+1], y[i:i+1], tra, dec, mjd, lst, 20., use_astropy=use, **kw)
                        Xs, Ys = T.radec2tan(float(ra[i]), float(de[i]), tra, dec, mjd, lst, 20., use_astropy=use, **kw)
                        rs, ds = T.tan2radec(float(x[i]), float(y[i]), tra, dec, mjd, lst, 20., use_astropy=use, **kw)
                        if np.shape(X1) != (1,) or np.shape(d1_) != (1,) or np.ndim(Xs) or np.ndim(ds):
                            bad.append(("shape", "result does not have the shape of the input", dict(astropy=use, **at), [np.shape(X1), np.shape(Xs)]))
                        elif max(abs(X1[0]-A[i]), abs(Y1[0]-B[i]), abs(Xs-A[i]), abs(Ys-B[i]))*ARC > 1e-5:
                            bad.append(("one", "one star alone is not placed as it is in a list", dict(astropy=use, **at), i))
                        elif max(float(angdiff(r1_[0], sr[i])), float(angdiff(rs, sr[i])), abs(d1_[0]-sd[i]), abs(ds-sd[i]))*3600 > 1e-4:
                            bad.append(("one-inv", "one tangent plane point alone is not placed as it is in a list", dict(astropy=use, **at), i))
                        n += 4
                if len(bad) > 3:
                    break
            return bad, n
        except Exception as e:
            import traceback
            if mc.under_test(e):
                return [("crash", "unexpected %s: %s" % (type(e).__name__, e), dict(dec=dec, ha=ha, lst=lst), traceback.format_exc()[-1200:])], n
            raise
    for case, (bad, n) in zip(cases, mc.pmap(one, cases)):
        ex.ran(n, sample=dict(case=case)); ex.states(2*x.size)
        for key, msg, at, w in bad:
            ex.fail("options/%s/%s" % ("_".join("%g" % v for v in (*case[0], *case[1:])), key), msg, at=at, worst=w)
    # long lists are placed star by star
    with ex.guard("long"):
        for N in (1, 2, 3, 1000, 5001, 40000):
            r = 1.6*np.sqrt((np.arange(N)+0.5)/N); a = 2.399963*np.arange(N)
            xx, yy = S(r)*np.cos(a), S(r)*np.sin(a)
            ra, de = T.tan2radec(xx, yy, 30.1, 31., 59000.3, 40., 0.4)
            X, Y = T.radec2tan(ra, de, 30.1, 31., 59000.3, 40., 0.4)
            ex.check(maxabs(np.hypot(X-xx, Y-yy))*ARC < limit(31., True), "long/%d/roundtrip" % N, "a list of this length does not round trip")
            k = np.unique(np.linspace(0, N-1, 97).astype(int))
            for lo, hi in ((0, 97), (40, 45)):
                kk = k[lo:hi]
                if kk.size == 0:
                    continue
                Xk, Yk = T.radec2tan(ra[kk], de[kk], 30.1, 31., 59000.3, 40., 0.4)
                rk, dk = T.tan2radec(xx[kk], yy[kk], 30.1, 31., 59000.3, 40., 0.4)
                ex.check(max(maxabs(Xk-X[kk]), maxabs(Yk-Y[kk]))*ARC < 1e-6 and max(maxabs(angdiff(rk, ra[kk])), maxabs(dk-de[kk]))*3600 < 1e-5,
                         "long/%d/part" % N, "stars of a long list are placed differently from the same stars alone", rows=kk.size)
            ex.ran(4*N); ex.states(N)


SECTIONS = [grid, pieces, options, sidereal]
