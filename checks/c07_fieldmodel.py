"""C07: field model -- sky <-> focal plane for a telescope pointing, guide-star fit, field rotation."""
import itertools, math, os
import numpy as np
import mc
from mc import maxabs, angdiff, snapshot
from astropy.table import Table
from desimeter.fieldmodel import FieldModel, TanCorr, fieldrot, dfieldrotdt, dfieldrotdt_physical_model, dfieldrotdt_empirical_model
from desimeter.transform import gfa2fp as G
from desimeter.transform.tan2fp import tan2fp
from desimeter.io import read_hexrot_deg
import c06_sky as SKY

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("every combination of pointing x ADC pair x hexapod angle x correction switches x instrument correction (rotation, scales) "
        "x full polar lattice of the focal plane, forward/backward and against the composition of independent steps; every "
        "assignment of <=4 stars to 3 guide cameras; every simulated guide-star catalog of the lattice (pointing error x rotation x "
        "scale x star subset) refitted; every call sequence of length 2 on one model. Non-trivial: distinct rounded positions.")
ASSUMPTIONS = ["altitude above 20 deg, declination -25..+80", "pointing errors up to 1 arcmin, field rotation up to 0.3 deg, as on sky"]
ARC = 206264.806


def S(d): return np.sin(np.radians(d))
def C(d): return np.cos(np.radians(d))


def model(ra, dec, mjd, lst, hx, adc, sw=(True, True, True), tc=(0., 1., 1., 0.)):
    f = FieldModel()
    f.ra, f.dec, f.mjd, f.lst, f.hexrot_deg = ra, dec, mjd, lst, hx
    f.adc1, f.adc2 = adc
    f.precession, f.aberration, f.polar_misalignment = sw
    f.fieldrot_zp_deg, f.sxx, f.syy, f.sxy = tc
    return f


def fplane(nr, na):
    r = np.concatenate([[0.], np.linspace(5., 408., nr)])
    a = np.radians(np.arange(0, 360, 360./na))
    R, A = [v.ravel() for v in np.meshgrid(r, a)]
    return R*np.cos(A), R*np.sin(A)


def grid(ex):
    x, y = fplane(5 if not ex.thorough else 10, 12 if not ex.thorough else 36)
    points = [(-20., 5.), (0., -40.), (62., 30.), (80., -35.)]
    lsts = [0.3, 214.] if ex.thorough else [359.9]
    adcs = [(0., 0.), (12., 48.), (350., 20.), (-120., 95.)]
    hexs = [0., -0.07, 0.5]
    tcs = [(0., 1., 1., 0.), (0.2, 1.0007, 0.9995, 1e-4), (-0.15, 0.999, 0.999, -3e-4), (180., 1., 1., 0.), (10., 1.1, 1.2, -0.05)]
    sws = list(itertools.product((True, False), repeat=3)) if ex.thorough else [(True, True, True), (False, False, False), (True, False, True), (False, True, False)]
    mjds = (59012.4,) if not ex.thorough else (58789.135, 59012.4, 60123.)
    cases = list(itertools.product(points, lsts, adcs, mjds))

    def one(case):
        (dec, ha), lst, adc, mjd = case
        bad = []; n = 0; nd = set()
        try:
            for hx, tc, sw in itertools.product(hexs, tcs, sws):
                ra = lst-ha
                at = dict(ra=ra, dec=dec, lst=lst, mjd=mjd, adc=adc, hexrot=hx, corr=tc, switches=sw)
                f = model(ra, dec, mjd, lst, hx, adc, sw, tc)
                state = snapshot(sorted(vars(f).items()))
                k = np.ones(x.size, bool) if tc[1] < 1.05 else np.hypot(x, y) < 330.
                X, Y = x[k], y[k]
                b = snapshot([X, Y])
                sra, sde = f.fp2radec(X, Y)
                if snapshot([X, Y]) != b:
                    bad.append(("mutated", "fp2radec modifies its inputs", at, 0))
                b = snapshot([sra, sde])
                X2, Y2 = f.radec2fp(sra, sde)
                if snapshot([sra, sde]) != b:
                    bad.append(("mutated2", "radec2fp modifies its inputs", at, 0))
                w = maxabs(np.hypot(X2-X, Y2-Y))*1000.
                lim = 14.*SKY.limit(dec, sw[1])*70./14.+0.02      # um: 70 um per arcsec
                if not w < lim:
                    bad.append(("roundtrip", "fp -> sky -> fp does not close (um)", at, w))
                if snapshot(sorted(vars(f).items())) != state:
                    bad.append(("state", "transforming positions changes the model", at, 0))
                # composition: sky -> tangent plane (reference) -> inverse instrument correction -> optics
                tx, ty = SKY.ref_radec2tan(sra, sde, ra, dec, mjd, lst, hx, *sw)
                c, s = C(tc[0]), S(tc[0])
                M = np.array([[tc[1], tc[3]], [tc[3], tc[2]]]).dot(np.array([[c, -s], [s, c]]))
                ix, iy = np.linalg.solve(M, np.array([tx, ty]))
                wx, wy = tan2fp(ix, iy, *adc)
                w = maxabs(np.hypot(X2-wx, Y2-wy))*1000.
                if not w < 0.05:
                    bad.append(("model", "radec2fp is not sky -> tangent plane -> correction -> optics (um)", at, w))
                i = 7
                ox, oy = f.radec2fp(sra[i:i+1], sde[i:i+1])
                if not (abs(ox[0]-X2[i]) < 1e-7 and abs(oy[0]-Y2[i]) < 1e-7):
                    bad.append(("one", "one star alone and in a batch differ", at, 0))
                a2, d2 = f.fp2radec(X[::-1], Y[::-1])
                if not maxabs(np.hypot(angdiff(a2[::-1], sra), d2[::-1]-sde))*3600 < 1e-5:
                    bad.append(("order", "answer depends on row order", at, 0))
                g = FieldModel.fromjson(f.tojson())
                gx, gy = g.radec2fp(sra, sde); ga, gd = g.fp2radec(X, Y)
                if not (np.array_equal(gx, X2) and np.array_equal(gy, Y2) and np.array_equal(ga, sra) and np.array_equal(gd, sde)):
                    bad.append(("json", "saved and re-read model gives other positions", at, maxabs(np.hypot(gx-X2, gy-Y2))))
                t2 = f.tancorr_sky2inst(*f.tancorr_inst2sky(tx, ty))
                if not max(maxabs(t2[0]-tx), maxabs(t2[1]-ty)) < 1e-12:
                    bad.append(("tancorr", "tangent plane correction does not invert", at, 0))
                n += 8*X.size
                nd.update((round(u, 2), round(v, 2)) for u, v in zip(X2.tolist(), Y2.tolist()))
                nd.update((round(u, 4), round(v, 4)) for u, v in zip(sra.tolist(), sde.tolist()))
                if len(bad) > 3:
                    break
            return bad, n, len(nd)
        except Exception as e:
            import traceback
            if mc.under_test(e):
                return [("crash", "unexpected %s: %s" % (type(e).__name__, e), dict(case=case), traceback.format_exc()[-1200:])], n, 0
            raise
    for case, (bad, n, nd) in zip(cases, mc.pmap(one, cases)):
        ex.ran(n, sample=dict(case=case)); ex.states(nd)
        for key, msg, at, w in bad:
            ex.fail("%s/%s" % (case, key), msg, at=at, worst=w)


GPIX = [(300., 250.), (1600., 300.), (1024., 800.), (200., 900.), (1900., 700.)]


def all_gfa(ex):
    """mixed-camera arrays: every assignment of <=4 stars to 3 cameras"""
    f = FieldModel()
    for trio in ((0, 5, 8), (3, 2, 7)):
        for n in (1, 2, 3, 4):
            for pet in itertools.product(trio, repeat=n):
                with ex.guard("assign"):
                    gx, gy = np.array([p[0] for p in GPIX[:n]]), np.array([p[1] for p in GPIX[:n]])
                    pl = np.array(pet)
                    b = snapshot([gx, gy, pl])
                    X, Y = f.all_gfa2fp(gx, gy, pl)
                    want = np.array([G.gfa2fp(p, a, c) for p, a, c in zip(pet, gx, gy)])
                    ex.check(X.shape == (n,) and maxabs(X-want[:, 0]) < 1e-9 and maxabs(Y-want[:, 1]) < 1e-9, "assign/%s" % (pet,), "star not transformed with its own camera")
                    ex.check(snapshot([gx, gy, pl]) == b, "assign/mutated", "inputs modified")
                ex.ran(1); ex.state(pet)
    # a camera without metrology: zeros, and the others unaffected
    for pet in itertools.product((0, 99, 5), repeat=3):
        with ex.guard("missing"):
            gx, gy = np.array([p[0] for p in GPIX[:3]]), np.array([p[1] for p in GPIX[:3]])
            X, Y = f.all_gfa2fp(gx, gy, np.array(pet))
            for i, p in enumerate(pet):
                w = (0., 0.) if p == 99 else G.gfa2fp(p, gx[i], gy[i])
                ex.check(abs(X[i]-w[0]) < 1e-9 and abs(Y[i]-w[1]) < 1e-9, "missing/%s" % (pet,), "missing camera spoils the others")
        ex.ran(1); ex.state(pet)


def catalog(truth, petals, rows):
    gx = np.array([GPIX[i][0]+7*p for p in petals for i in rows]); gy = np.array([GPIX[i][1]+3*p for p in petals for i in rows])
    pl = np.array([p for p in petals for i in rows])
    X, Y = np.zeros(gx.size), np.zeros(gx.size)
    for p in petals:
        k = pl == p
        X[k], Y[k] = G.gfa2fp(p, gx[k], gy[k])
    ra, de = truth.fp2radec(X, Y)
    return Table(dict(xcentroid=gx, ycentroid=gy, petal_loc=pl, ra_gaia=ra, dec_gaia=de)), X, Y


def fit(ex):
    """guide-star fit: noise-free simulated stars give the true sky <-> focal plane relation back"""
    pets = [(0, 2, 3, 5, 7, 8), (0, 5, 8), tuple(range(10))]
    errs = [(0., 0.), (8., -5.), (-30., 45.), (0., 60.)]
    tcs = [(0., 1., 1., 0.), (0.12, 1.0005, 0.9998, 5e-5), (-0.3, 0.9992, 1.0004, -1e-4)]
    pts = [(-15., 10., 100.), (31.9, -20., 0.01), (65., 25., 350.)]
    adcs = [(0., 0.), (80., -40.)]
    cases = list(itertools.product(pts, adcs, tcs, errs, pets)) if ex.thorough else \
        [c for i, c in enumerate(itertools.product(pts, adcs, tcs, errs, pets)) if i % 2 == 0]
    x, y = fplane(3, 8)

    def one(case):
        (dec, ha, ra), adc, tc, err, pet = case
        lst = ra+ha
        bad = []
        try:
            truth = model(ra, dec, 59012.4, lst, 0.02, adc, tc=tc)
            cat, X, Y = catalog(truth, pet, (0, 1, 2))
            res = []
            for order in (0, 1):
                f = model(ra+err[0]/3600./C(dec), dec+err[1]/3600., None, None, None, adc)
                c = cat if order == 0 else cat[np.argsort((np.arange(len(cat))*7) % len(cat), kind="stable")]
                b = snapshot(c)
                f.fit_tancorr(c, mjd=59012.4, hexrot_deg=0.02, lst=lst)
                if snapshot(c) != b:
                    bad.append(("mutated", "fit modifies the catalog", 0))
                res.append(f)
                if f.nstars != len(cat) or not f.rms_arcsec < 0.02:
                    bad.append(("rms", "noise-free fit has residuals", [f.nstars, f.rms_arcsec]))
                gx, gy = f.radec2fp(np.asarray(cat["ra_gaia"]), np.asarray(cat["dec_gaia"]))
                w = maxabs(np.hypot(gx-X, gy-Y))*1000
                if not w < 8.:
                    bad.append(("stars", "guide stars not predicted where they were measured (um)", w))
                a, d = f.fp2radec(x, y); ta, td = truth.fp2radec(x, y)
                w = maxabs(np.hypot(angdiff(a, ta)*C(td), d-td))*3600
                if not w < 0.1:
                    bad.append(("field", "fitted model differs from the true one over the field (arcsec)", w))
                fr = truth.compute_fieldrot()
                if not abs(f.fieldrot_deg-fr)*3600 < 5.:
                    bad.append(("fieldrot", "field rotation of the fitted model is wrong", [f.fieldrot_deg, fr]))
            p, q = res
            if not max(abs(p.ra-q.ra), abs(p.dec-q.dec), abs(p.sxx-q.sxx), float(angdiff(p.fieldrot_zp_deg, q.fieldrot_zp_deg))) < 1e-7:
                bad.append(("order", "fit depends on the order of the stars", 0))
            # the same again on the already fitted model: a fixed point
            f = res[0]; old = (f.ra, f.dec, f.fieldrot_zp_deg)
            f.fit_tancorr(cat)
            if not max(abs(old[0]-f.ra), abs(old[1]-f.dec))*3600 < 0.01 or not float(angdiff(old[2], f.fieldrot_zp_deg)) < 1e-4:
                bad.append(("again", "fitting again moves the solution", [old, (f.ra, f.dec, f.fieldrot_zp_deg)]))
            return bad
        except Exception as e:
            import traceback
            if mc.under_test(e):
                return [("crash", "unexpected %s: %s" % (type(e).__name__, e), traceback.format_exc()[-1200:])]
            raise
    for case, bad in zip(cases, mc.pmap(one, cases)):
        ex.ran(3, sample=dict(case=case), trans=9); ex.state(case)
        for key, msg, w in bad:
            ex.fail("%s/%s" % (case, key), msg, worst=w)
    # stars seen by a camera without metrology do not take part
    with ex.guard("missing"):
        truth = model(100., 20., 59012.4, 110., 0., (0., 0.), tc=tcs[1])
        cat, X, Y = catalog(truth, (0, 2, 5, 8), (0, 1, 2))
        bogus = cat.copy(); bogus["petal_loc"][::4] = 99
        f = model(100.002, 20.001, None, None, None, (0., 0.)); f.fit_tancorr(bogus, mjd=59012.4, hexrot_deg=0., lst=110.)
        a, d = f.fp2radec(x, y); ta, td = truth.fp2radec(x, y)
        ex.check(f.nstars == len(cat)-len(cat[::4]), "missing/nstars", "stars without metrology are counted", got=f.nstars)
        ex.check(maxabs(np.hypot(angdiff(a, ta)*C(td), d-td))*3600 < 0.05, "missing", "stars without metrology spoil the fit")
        ex.ran(1)
    # missing ingredients are refused, in every combination
    for kw in itertools.product((None, 59012.4), (None, 0., 0.3), (None, 110., 0.)):
        for inmodel in (False, True):
            f = model(100., 20., None, None, None, (0., 0.))
            if inmodel:
                f.mjd, f.hexrot_deg, f.lst = kw; args = {}
            else:
                args = dict(mjd=kw[0], hexrot_deg=kw[1], lst=kw[2])
            must_fail = kw[0] is None or kw[1] is None
            try:
                f.fit_tancorr(cat, **args); ok = not must_fail
            except RuntimeError:
                ok = must_fail
            ex.check(ok, "args/%s" % (kw,), "missing mjd/hexapod angle not refused (or given ones refused)", args=args)
            if ok and not must_fail:
                ex.check(abs(f.mjd-kw[0]) < 1e-9 and f.hexrot_deg == kw[1] and (kw[2] is None or f.lst == kw[2]), "args-kept/%s" % (kw,), "the mjd, hexapod angle or sidereal time given is not the one used", got=(f.mjd, f.hexrot_deg, f.lst))
            if ok and not must_fail and kw[2] is None:
                from desimeter.time import mjd2lst
                ex.check(abs(f.lst-mjd2lst(59012.4)) < 1e-9, "args/lst", "LST is not derived from the date when missing")
            ex.ran(1); ex.state((kw, inmodel))


def guide_catalog(ex):
    """catalog reading: selection by match distance, proper motions"""
    with mc.scratch() as d:
        ra0, de0 = 150.02, 40.0
        seps = [0., 1.5, 1.99, 2.01, 3.]
        for pm in (None, (0., 0.), (500., -300.), (float("nan"), 200.)):
            for combo in itertools.product(range(len(seps)), repeat=2 if not ex.thorough else 3):
                for lim in (2., 1.6, 5.):
                    n = len(combo)
                    year = 2020.3
                    mjd = 51544.5+(year-2000.)*365.25
                    de = de0+0.1*np.arange(n)
                    ra = ra0+0.2*np.arange(n)
                    pra, pde = (0., 0.) if pm is None else [0. if v != v else v for v in pm]
                    dt = year-2015.5
                    era, ede = ra+dt*pra/3.6e6/C(de), de+dt*pde/3.6e6
                    sep = np.array([seps[i] for i in combo])
                    ang = 0.7*np.arange(n)
                    t = Table(dict(xcentroid=100.+np.arange(n), ycentroid=200.+np.arange(n), petal_loc=np.arange(n), ra_gaia=ra, dec_gaia=de,
                                   ra=era+sep*np.cos(ang)/3600./C(ede), dec=ede+sep*np.sin(ang)/3600.))
                    if pm is not None:
                        t["pmra"] = pm[0]*np.ones(n); t["pmdec"] = pm[1]*np.ones(n); t["ref_epoch"] = 2015.5*np.ones(n)
                    t["mjd_obs"] = mjd
                    fn = os.path.join(d, "c.fits")
                    t.write(fn, overwrite=True)
                    key = "pm%s/%s/%g" % (pm, combo, lim)
                    with ex.guard(key):
                        f = FieldModel()
                        want = np.where(sep < lim)[0]
                        try:
                            c = f.read_guide_stars_catalog(fn, max_sep_arcsec=lim)
                        except RuntimeError:
                            ex.check(want.size == 0, key+"/refused", "matched stars refused")
                            ex.ran(1); continue
                        ex.check(sorted(np.asarray(c["xcentroid"])-100.) == sorted(want), key+"/selection", "wrong stars selected", got=np.asarray(c["xcentroid"]), want=want)
                        rc = "ra_gaia" if pm is None else "ra_gaia_with_pm"; dc = rc.replace("ra", "dec", 1) if pm is None else "dec_gaia_with_pm"
                        if want.size:
                            o = np.argsort(np.asarray(c["xcentroid"]))
                            ex.check(maxabs(np.asarray(c[rc])[o]-era[want])*3600 < 1e-3 and maxabs(np.asarray(c[dc])[o]-ede[want])*3600 < 1e-3, key+"/pm", "proper motion not applied to the date of observation")
                        ex.check(abs(f.mjd-mjd) < 1e-9, key+"/mjd", "date not taken from the catalog")
                    ex.ran(1); ex.state((str(pm), combo, lim))


def guide_stars(ex):
    """guide star lists of every make: fields across RA 0, one epoch and motion per star, stars without motion, every order"""
    from astropy.time import Time
    epochs = [2015.5, 2016., 1991.25]
    motions = [(0., 0.), (1500., -900.), (-2000., 0.), (float("nan"), 100.), (float("inf"), 100.), (100., float("-inf"))]
    offs = [(0., 0.), (1.2, 0.), (-1.2, 1.2), (0., 2.2), (3., 0.)]
    with mc.scratch() as d:
        for ra0, de0, mjd in itertools.product((0., 359.9999, 150., 180.), (-20., 0., 60., 80.) if ex.thorough else (-20., 60.), (58000., 59012.4)):
            for kind, rot in itertools.product(("both", "own0", "gaia0", "plus"), range(3)):
                rows = list(itertools.product(range(len(epochs)), range(len(motions)), range(len(offs))))
                rows = rows[rot:]+rows[:rot]
                if rot == 1:
                    rows = rows[::-1]
                n = len(rows)
                ra = (ra0+0.0005*(np.arange(n)-n//2))
                de = de0+0.001*(np.arange(n) % 7)
                ep = np.array([epochs[i] for i, _, _ in rows])
                pr = np.array([motions[j][0] for _, j, _ in rows]); pd = np.array([motions[j][1] for _, j, _ in rows])
                year = 2000.+(mjd-51544.5)/365.25
                use = lambda v: np.where(np.isfinite(v), v, 0.)
                era = ra+(year-ep)*use(pr)/3.6e6/C(de); ede = de+(year-ep)*use(pd)/3.6e6
                ox = np.array([offs[k][0] for _, _, k in rows]); oy = np.array([offs[k][1] for _, _, k in rows])
                mra, mde = era+ox/3600./C(ede), ede+oy/3600.
                gra = ra % 360. if kind != "plus" else ra
                mra = mra % 360. if kind != "plus" else mra
                if kind == "own0":      # the measured coordinates in -180..180
                    mra = (mra+180.) % 360.-180.
                elif kind == "gaia0":
                    gra = (gra+180.) % 360.-180.
                t = Table(dict(xcentroid=np.arange(n)*1., ycentroid=200.+np.arange(n), petal_loc=np.arange(n) % 10, ra_gaia=gra, dec_gaia=de, ra=mra, dec=mde,
                               pmra=pr, pmdec=pd, ref_epoch=ep, mjd_obs=mjd+1e-4*(np.arange(n) % 2)))
                fn = os.path.join(d, "g.fits")
                t.write(fn, overwrite=True)
                want = np.where(np.hypot(ox, oy) < 2.)[0]
                key = "%g/%g/%g/%s/%d" % (ra0, de0, mjd, kind, rot)
                with ex.guard(key):
                    f = FieldModel()
                    c = f.read_guide_stars_catalog(fn)
                    got = np.asarray(c["xcentroid"]).astype(int)
                    ex.check(list(got) == list(want), key+"/selection", "stars selected are not those measured within 2 arcsec of their catalog position",
                             missing=len(set(want)-set(got)), extra=len(set(got)-set(want)))
                    if list(got) == list(want):
                        ex.check(maxabs(angdiff(np.asarray(c["ra_gaia_with_pm"]), era[want])*C(de[want]))*3600 < 1e-3 and maxabs(np.asarray(c["dec_gaia_with_pm"])-ede[want])*3600 < 1e-3,
                                 key+"/pm", "each star is not moved by its own proper motion since its own epoch")
                        for a, b in (("ycentroid", "ycentroid"), ("petal_loc", "petal_loc"), ("ra", "ra"), ("dec", "dec")):
                            ex.check(np.array_equal(np.asarray(c[a]), np.asarray(t[b])[want]), key+"/"+a, "column %s is mixed up" % a)
                    ex.check(abs(f.mjd-np.mean(t["mjd_obs"])) < 1e-9, key+"/mjd", "date is not the mean of the dates of the stars")
                ex.ran(1, sample=key); ex.state((ra0, de0, mjd, kind, rot))


def rotation(ex):
    """field rotation and its rate"""
    decs = [-20., 0., 25., 45., 60., 75.]; has = [-60., -30., -2., 0., 15., 45.]
    cells = [c for c in itertools.product(decs, has, (0.1, 200., 359.9)) if SKY.horizon(c[1], c[0])[0] >= 20]

    def one(cell):
        dec, ha, lst = cell
        ra = lst-ha
        bad = []

        def ck(ok, k, msg, **w):
            if not ok:
                bad.append((k, msg, w))
        try:
            f0 = fieldrot(ra, dec, 59012.4, lst)
            # reference: rotation between the true sky frame at the pointing and the instrument tangent plane
            want = ref_fieldrot(ra, dec, 59012.4, lst, 0.)
            ck(abs(f0-want)*3600 < 3., "ref", "field rotation is not the angle between sky and instrument", got=f0, want=want)
            for dd in (360., -360.):
                ck(abs(fieldrot(ra+dd, dec, 59012.4, lst)-f0)*3600 < 1e-3 and abs(fieldrot(ra, dec, 59012.4, lst+dd)-f0)*3600 < 1e-3, "alias", "full turns change the field rotation")
            for hx in (-0.4, 0.3):
                fh = fieldrot(ra, dec, 59012.4, lst, hexrot_deg=hx)
                wh = ref_fieldrot(ra, dec, 59012.4, lst, hx)
                ck(abs(fh-wh)*3600 < 3., "hex%g" % hx, "hexapod rotation enters the field rotation wrongly", got=fh, want=wh)
            rate = dfieldrotdt_physical_model(ra, dec, 59012.4, lst)
            w = 3600*(ref_fieldrot(ra, dec, 59012.4, lst+0.25, 0.)-want)
            ck(abs(rate-w) < 0.02, "rate", "physical rotation rate is not the change over one minute of sidereal time", got=rate, want=w)
        except Exception as e:
            if not mc.under_test(e):
                raise
            bad.append(("crash", "unexpected %s: %s" % (type(e).__name__, e), {}))
        return bad
    for (dec, ha, lst), bad in zip(cells, mc.pmap(one, cells)):
        for k, msg, w in bad:
            ex.fail("d%g/h%g/l%g/%s" % (dec, ha, lst, k), msg, **w)
        ex.ran(8, sample=dict(dec=dec, ha=ha)); ex.state((dec, ha, lst))
    # empirical model
    ra = np.arange(0., 360., 4.); dec = np.arange(-90., 90.1, 5.)
    R, D = [v.ravel() for v in np.meshgrid(ra, dec)]
    for lst in (0., 0.5, 123., 359.):
        h = (lst-R) % 360.; h = np.where(h > 180, h-360, h)
        u, v = h/60., (D-30)/30.
        want = np.clip(-0.447+0.065*u-0.067*v+0.382*u*u+0.021*u*v-0.121*v*v-0.031*u**3+0.196*u*u*v+0.096*u*v*v-0.043*v**3, -1.5, 1.5)
        for name, fn in (("emp", lambda r, d, l: dfieldrotdt_empirical_model(r, d, l)), ("def", lambda r, d, l: dfieldrotdt(r, d, 59000., l))):
            with ex.guard(name):
                b = snapshot([R, D])
                got = fn(R, D, lst)
                ex.check(maxabs(got-want) < 1e-9, "%s/%g" % (name, lst), "rotation rate is not the published polynomial, saturated at +-1.5", worst=maxabs(got-want))
                ex.check(snapshot([R, D]) == b, name+"/mutated", "inputs modified")
                for dd in (360., -360., 720.):
                    ex.check(maxabs(fn(R+dd, D, lst)-got) < 1e-9 and maxabs(fn(R, D, lst+dd)-got) < 1e-9, "%s/%g/alias" % (name, lst), "full turns change the rate")
                for i in range(0, R.size, 97):
                    ex.check(abs(fn(float(R[i]), float(D[i]), lst)-want[i]) < 1e-9, name+"/scalar", "scalar and array answers differ")
                ex.ran(5*R.size); ex.states(R.size)
    for d in (90.0001, -91., 200., np.array([0., 95.])):
        ok = False
        try:
            dfieldrotdt(0. if np.isscalar(d) else np.zeros(2), d, 59000., 10.)
        except ValueError:
            ok = True
        ex.check(ok, "unphysical/%s" % d, "unphysical declination accepted")
        ex.ran(1)


def ref_fieldrot(ra, dec, mjd, lst, hx):
    """solve the reference sky->tangent relation for a 1-deg cross; compare with the plain HA/Dec frame at the field centre"""
    T = np.radians(1.)*np.array([[0., 0.], [1., 0.], [0., 1.], [-1., 0.], [0., -1.]]).T
    a, d = np.full(5, float(ra)), np.full(5, float(dec))
    f = lambda a, d: np.array(SKY.ref_radec2tan(a, d, ra, dec, mjd, lst, hx, True, True, True))
    e = 1e-4
    for k in range(8):
        r = f(a, d)
        if k < 2:       # full Newton twice, then the same Jacobian
            xa, xd = (f(a+e, d)-r)/e, (f(a, d+e)-r)/e
            J = np.moveaxis(np.array([xa, xd]), (2, 1, 0), (0, 1, 2))
        s = np.linalg.solve(J, (T-r).T[:, :, None])[:, :, 0]
        a, d = a+s[:, 0], d+s[:, 1]
    assert np.max(np.abs(f(a, d)-T)) < 1e-11
    X, Y = T[:, 1:]
    dl = np.radians(a[0]-a[1:])      # +HA is -RA
    x2 = C(d[1:])*np.sin(dl)
    y2 = S(d[1:])*C(d[0])-C(d[1:])*S(d[0])*np.cos(dl)
    return float(np.mean(np.degrees((Y*x2-X*y2)/np.sqrt((X*X+Y*Y)*(x2*x2+y2*y2)))))


def hexapod(ex):
    """hexapod rotation keyword, every accepted and refused form"""
    for v in (0., 123.4, -361.25, 1e-3):
        vals = [1., 2., 3., 4., 5., v]
        for form, ok in ((",".join(map(str, vals)), True), (tuple(vals), True), (" , ".join(map(str, vals)), True), (vals, False), (",".join(map(str, vals[:5])), False),
                         (tuple(vals+[1.]), False), (v, False)):
            try:
                got = read_hexrot_deg(dict(FOCUS=form)); good = ok and abs(got-v/3600.) < 1e-12
            except ValueError:
                good = not ok
            except Exception as e:
                if not mc.under_test(e):
                    raise
                good = False
            ex.check(good, "focus/%r" % (form,), "hexapod rotation keyword misread")
            ex.ran(1); ex.state(repr(form))


def long(ex):
    """long lists of targets are projected one by one"""
    r, a = np.array([0., 3., 57., 120., 199., 260.5, 333.3, 390., 405.]), np.arange(9)*0.777
    x, y = r*np.cos(a), r*np.sin(a)
    sizes = (1, 2, 3, 511, 1025, 5003) if not ex.thorough else (1, 2, 3, 511, 1025, 5003, 20011, 100003)
    for k, (ra, dec, lst, hx, adc, tc) in enumerate([(150., 20., 140., 0.03, (0., 0.), (0., 1., 1., 0.)), (359.95, 62., 5., -0.07, (12., 48.), (0.2, 1.0007, 0.9995, 1e-4)), (0.1, -20., 359., 0., (350., 20.), (-0.15, 0.999, 0.999, -3e-4))]):
        f = model(ra, dec, 59012.4, lst, hx, adc, tc=tc)
        mc.long_lists(ex, "fp2radec/%d" % k, f.fp2radec, (x, y), 1e-8, sizes, periods=(0,))
        R, D = f.fp2radec(x, y)
        mc.long_lists(ex, "radec2fp/%d" % k, f.radec2fp, (R, D), 1e-5, sizes)
        mc.long_lists(ex, "tancorr/%d" % k, f.tancorr_inst2sky, (x/1e5, y/1e5), 1e-12, sizes)
        mc.long_lists(ex, "tancorr-inverse/%d" % k, f.tancorr_sky2inst, (x/1e5, y/1e5), 1e-12, sizes)
        P = np.array([0, 2, 3, 5, 7, 8, 0, 9, 5])
        mc.long_lists(ex, "all_gfa2fp/%d" % k, lambda u, v, p: f.all_gfa2fp(u, v, p.astype(int)), (np.linspace(0, 2047, 9), np.linspace(1031, 0, 9), P), 1e-9, sizes)


SECTIONS = [long, grid, all_gfa, fit, guide_catalog, guide_stars, rotation, hexapod]
