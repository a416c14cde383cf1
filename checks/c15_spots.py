"""C15: detection and centroids of spots in camera images."""
import itertools
import numpy as np
from scipy.special import erf
import mc
from mc import snapshot
from desimeter import detectspots as D

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("simulated images with known spots: every sub-pixel phase of a lattice x flux x background level x pixel type, every placement of "
        "one spot including all edge pixels, every pair of spots at every separation vector of a lattice, every flux around every "
        "threshold combination, transposed images, random generator states. Non-trivial: distinct (phase, flux, placement) and outcomes.")
ASSUMPTIONS = ["spots are Gaussian with sigma 1 pixel on a background with some noise", "spots closer than 8 pixels to each other are not judged, except coincident ones",
               "spots within 4 pixels of the edge may or may not be listed, but nothing else is affected"]


def spot(shape, x, y, flux, sigma=1.):
    i = np.arange(shape[0]); j = np.arange(shape[1])
    a = 1/(np.sqrt(2)*sigma)
    gy = 0.5*(erf(a*(i+0.5-y))-erf(a*(i-0.5-y)))
    gx = 0.5*(erf(a*(j+0.5-x))-erf(a*(j-0.5-x)))
    return flux*gy[:, None]*gx[None, :]


def background(shape, level, amp):
    i = np.arange(shape[0])[:, None]; j = np.arange(shape[1])[None, :]
    return level+amp*(((37*i+101*j+(i*j) % 17*5) % 23)-11)/7.


def image(shape, spots, level=1000., amp=20., dtype=float):
    im = background(shape, level, amp)
    for x, y, f in spots:
        im = im+spot(shape, x, y, f)
    if dtype is not float:
        im = np.round(im).astype(dtype)
    return im


def judge(shape, spots, want, tol=0.03, ftol=0.03, **kw):
    """want: list of (x, y, flux) that must be found, exactly"""
    opts = {k: kw.pop(k) for k in list(kw) if k in ("min_counts_per_pixel", "min_counts_per_spot", "nsig")}
    seed = kw.pop("seed", 1)
    maybe = kw.pop("maybe", [])
    im = image(shape, spots, **kw)
    b = snapshot(im)
    np.random.seed(seed)
    try:
        t = D.detectspots(im, **opts)
        X, Y, C = np.array(t["XPIX"]), np.array(t["YPIX"]), np.array(t["COUNTS"])
        if len(t) and not (np.all(np.array(t["XERR"]) > 0) and np.all(np.array(t["YERR"]) > 0)):
            return "non-positive uncertainty"
    except RuntimeError as e:
        X = Y = C = np.zeros(0)
        if "no spot" not in str(e) or want:
            return "RuntimeError: %s" % e
    if snapshot(im) != b:
        return "image modified"
    for x, y in maybe:   # a spot near the edge is either not listed or measured
        for k in np.flatnonzero(np.hypot(X-x, Y-y) < 3):
            if (not np.hypot(X[k]-x, Y[k]-y) <= 0.1):
                return "spot near the edge at %.3f,%.3f measured at %.3f,%.3f" % (x, y, X[k], Y[k])
    used = set()
    for x, y, f in want:
        d = np.hypot(X-x, Y-y)
        k = np.flatnonzero(d < 1.5)
        if len(k) != 1:
            return "spot at %.2f,%.2f found %d times" % (x, y, len(k))
        k = k[0]
        used.add(k)
        if d[k] > tol:
            return "spot at %.3f,%.3f measured at %.3f,%.3f" % (x, y, X[k], Y[k])
        if (not abs(C[k]/f-1) <= ftol):
            return "spot of %.0f counts measured as %.0f" % (f, C[k])
    for k in range(len(X)):
        if k not in used and not any(np.hypot(X[k]-x, Y[k]-y) < 3 for x, y in maybe):
            return "spurious spot at %.2f,%.2f with %.0f counts" % (X[k], Y[k], C[k])
    return None


def sweep(ex, tag, cases):
    """cases: list of (args, kwargs)"""
    def one(c):
        try:
            return judge(*c[0], **c[1])
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e)
    for c, e in zip(cases, mc.pmap(one, cases)):
        ex.ran(1, sample=dict(args=c[0], options=str(c[1])))
        ex.state(str(c))
        if e:
            ex.fail(tag, "%s: spots %s options %s" % (e, c[0][1], c[1]), case=str(c))


def phases(ex):
    """every sub-pixel phase, flux, background and pixel type"""
    ph = np.arange(-0.5, 0.5, 0.125 if not ex.thorough else 0.0625)+0.031
    cs = []
    for px, py in itertools.product(ph, ph):
        for f, lev, dt in ((2e4, 1000., float), (1e5, 1000., np.uint16), (3e4, 0., np.float32), (4e4, 3000., np.int32)):
            s = [(30+px, 17+py, f), (13+py, 30-px, 1.7*f)]
            cs.append((((40, 48), s, s), dict(level=lev, dtype=dt)))
    # pixel types as cameras and FITS files have them, also big-endian
    for dt in ("i2", "u2", "i4", "u4", "i8", "u8", ">i2", ">u2", ">i4", ">u4", ">i8", "f4", ">f4", ">f8", np.float16):
        for px, py, lev in itertools.product(ph[::2], (0.22, -0.31), (200., 1500.)):
            s = [(30+px, 17+py, 2e4), (13+py, 30-px, 5e4)]
            cs.append((((40, 48), s, s), dict(level=lev, dtype=dt)))
    # faint spots of cameras with few bits
    for dt in ("u1", "i1"):
        for px, py in itertools.product(ph, (0.22, -0.31)):
            s = [(30+px, 17+py, 5e2), (13+py, 30-px, 6e2)]
            cs.append((((40, 48), s, s), dict(level=20., dtype=dt, amp=1., min_counts_per_pixel=20, min_counts_per_spot=100, tol=0.06, ftol=0.08)))
    # spots exactly between pixels
    for px, py, lev in itertools.product((-0.5, 0., 0.5), (-0.5, 0., 0.5), (0., 1000.)):
        s = [(30+px, 17+py, 2e4), (13+py, 30-px, 5e4)]
        cs.append((((40, 48), s, s), dict(level=lev)))
    sweep(ex, "phases", cs)


def placement(ex):
    """one spot anywhere in the image, edges included, together with a normal one"""
    sh = (26, 33)
    cs = []
    for i in range(sh[0]):
        for j in range(sh[1]):
            edge = min(i, j, sh[0]-1-i, sh[1]-1-j) < 4
            ref = (12.3, 13.4) if np.hypot(j-12.3, i-13.4) > 9 else (24.4, 10.2)
            if np.hypot(j-ref[0], i-ref[1]) < 8.5:
                continue
            s = [(j+0.2, i-0.3, 3e4), ref+(5e4,)]
            cs.append(((sh, s, s[1:] if edge else s), dict(maybe=[s[0][:2]] if edge else [], tol=0.05, ftol=0.05)))
    sweep(ex, "placement", cs)


def pairs(ex):
    """two spots at every separation vector of a lattice"""
    cs = []
    st = 1.5 if not ex.thorough else 0.75
    for dx in np.arange(-15, 15.1, st):
        for dy in np.arange(0, 15.1, st):
            d = np.hypot(dx, dy)
            if d < 8:
                continue
            for fr in (1., 4.):
                s = [(24.1, 12.2, 2e4), (24.1+dx, 12.2+dy, 2e4*fr)]
                cs.append((((40, 50), s, s), dict(tol=0.06, ftol=0.05)))
    sweep(ex, "pairs", cs)


def thresholds(ex):
    """fluxes around every combination of thresholds; nothing below a threshold is listed"""
    cs = []
    # peak of the convolved spot per unit flux (sigma 1 spot, pixel integrated, truncated sigma 1 kernel): about 0.0765
    for mpix, mspot, f in itertools.product((200, 500, 1500, None), (0, 5000, 20000), (1e3, 2e3, 4e3, 8e3, 1.4e4, 3e4)):
        peak = 0.0765*f
        rms = 3.
        thr = max(mpix or 0, 7*rms)
        if 0.85 < peak/thr < 1.15 or (mspot and 0.9 < f/mspot < 1.1):
            continue
        for lev in (0., 2000.):
            big = (33.3, 20.7, 6e4)
            s = [(12.2, 11.1, f), big]
            found = peak > thr and f >= mspot
            cs.append((((32, 45), s, s if found else s[1:]), dict(min_counts_per_pixel=mpix, min_counts_per_spot=mspot, level=lev, tol=0.1, ftol=0.1, amp=4.)))
    sweep(ex, "thresholds", cs)


def noisy(ex):
    """noise above the thresholds in counts: only what stands out of the noise by the requested significance is listed"""
    cs = []
    k = 0
    for amp, mpix, mspot, nsig in itertools.product((30., 60., 100.), (5, 20, None), (0, 200), (5, 7, 12, 20)):
        for ratio in (0.6, 1.5, 3.):
            k += 1
            if not ex.thorough and k % 2:
                continue
            cs.append((amp, mpix, mspot, nsig, ratio))

    def one(c):
        amp, mpix, mspot, nsig, ratio = c
        sh = (60, 64)
        noise = np.random.RandomState(7).normal(size=sh)*amp
        rms = np.std(D.gaussian_convolve(noise, 1.)[6:-6, 6:-6])
        f = ratio*nsig*rms/0.0765
        s = [(12.2, 11.1, f), (43.3, 40.7, 40*nsig*rms/0.0765)]
        im = 500.+noise
        for q in s:
            im = im+spot(sh, *q)
        np.random.seed(3)
        t = D.detectspots(im, min_counts_per_pixel=mpix, min_counts_per_spot=mspot, nsig=nsig)
        d = [np.hypot(t["XPIX"]-q[0], t["YPIX"]-q[1]) for q in s]
        want = (ratio > 1)+1
        if np.sum(d[1] < 0.3) != 1:
            return "bright spot found %d times" % np.sum(d[1] < 0.3)
        if np.sum(d[0] < 2.) != (ratio > 1):
            return "spot of %.1f times the requested significance found %d times" % (ratio, np.sum(d[0] < 2.))
        far = (d[0] > 3) & (d[1] > 3)
        if np.any(far):
            return "%d spots where there is only noise" % np.sum(far)
    for c, e in zip(cs, mc.pmap(mc.guarded(one), cs)):
        ex.ran(1, sample=c); ex.state(str(c))
        if e: ex.fail("noisy", "%s: %s" % (e, c), case=c)


def crowded(ex):
    """as many spots as a focal plane has, at the phases where a spot can be detected several times, and far too many"""
    cs = [(n, ph, lev, th) for n in (12, 40, 74) for ph in ("half", "nearly half", "lattice") for lev in (0., 1000.) for th in (5000, 25000) if n < 74 or lev]

    def one(c):
        n, ph, lev, th = c
        g = np.arange(n)
        X, Y = np.meshgrid(10.+12*g, 10.+12*g)
        X, Y = X.ravel(), Y.ravel()
        k = np.arange(X.size)
        if ph == "lattice":
            X, Y = X+np.modf(k*0.7548776)[0]-0.5, Y+np.modf(k*0.5698402)[0]-0.5
        else:
            X, Y = X+0.5, Y+(0.5 if ph == "half" else 0.4999)
        F = 2e4+1e3*(k*7 % 31)
        sh = (12*n+14, 12*n+14)
        im = background(sh, lev, 20.)
        for x, y, f in zip(X, Y, F):
            x0, y0 = int(x)-6, int(y)-6
            im[y0:y0+14, x0:x0+14] += spot((14, 14), x-x0, y-y0, f)
        np.random.seed(1)
        t = D.detectspots(im, min_counts_per_spot=th)
        ok = np.abs(F/th-1) > 0.03
        d = np.hypot(X[:, None]-np.array(t["XPIX"]), Y[:, None]-np.array(t["YPIX"]))
        times = np.sum(d < 1.5, axis=1)
        bad = np.flatnonzero(ok & (times != (F > th)))
        if bad.size:
            return "%d of %d spots not listed once, e.g. one of %.0f counts %d times" % (bad.size, n*n, F[bad[0]], times[bad[0]])
        if np.any(d.min(axis=0) > 0.05):
            return "spots listed where there is none"
        j = d.argmin(axis=0)
        if np.any(~(np.abs(t["COUNTS"]/F[j]-1) <= 0.03)):
            return "wrong counts"
        # the uncertainty scales as the inverse of the flux, at a given phase
        if ph != "lattice":
            q = np.array([t["XERR"]*F[j], t["YERR"]*F[j]])
            if np.any(~(np.abs(q/np.median(q)-1) <= 0.05)):
                return "uncertainties do not belong to their spots"
    for c, e in zip(cs, mc.pmap(mc.guarded(one), cs, chunksize=1)):
        ex.ran(1, sample=c); ex.state(str(c))
        if e: ex.fail("crowded", "%s: %s" % (e, c), case=c)
    n = 104   # far more spots than the camera can see
    im = background((4*n+10, 4*n+10), 1000., 5.)
    for i in range(n):
        for j in range(n):
            im[5+4*i, 5+4*j] += 3e4
    try:
        D.detectspots(im)
        ex.fail("too many", "an image with %d spots is accepted" % (n*n))
    except RuntimeError:
        pass
    ex.ran(1)


def generator(ex):
    """random generator states, and transposed images"""
    s = [(30.2, 17.4, 2e4), (13.7, 30.1, 4e4), (8.1, 8.9, 3e4)]
    cs = [(((40, 48), s, s), dict(seed=k)) for k in range(20 if not ex.thorough else 200)]
    t = [(y, x, f) for x, y, f in s]
    cs += [(((48, 40), t, t), dict(seed=k)) for k in range(5)]
    sweep(ex, "generator", cs)
    n = 0
    for k in range(12):
        im = image((40, 48), s, amp=10.+k)
        with ex.guard("transpose"):
            np.random.seed(3)
            a = D.detectspots(im)
            np.random.seed(4)
            b = D.detectspots(im.T.copy())
            ia, ib = np.argsort(a["XPIX"]), np.argsort(b["YPIX"])
            ex.check(len(a) == len(b) == 3 and mc.maxabs(np.array(a["XPIX"])[ia]-np.array(b["YPIX"])[ib]) < 5e-3
                     and mc.maxabs(np.array(a["YPIX"])[ia]-np.array(b["XPIX"])[ib]) < 5e-3, "transpose", "transposing the image does not swap the coordinates")
        n += 2
    ex.ran(n)


def nothing(ex):
    """images without spots are refused, images where everything is below the spot threshold give an empty table"""
    n = 0
    for sh, lev in itertools.product(((20, 20), (30, 17)), (0., 500., 3000.)):
        try:
            t = D.detectspots(image(sh, [], level=lev, amp=5.))
            ex.check(len(t) == 0, "nothing", "spots found in an empty image")
        except RuntimeError:
            pass
        with ex.guard("all-faint"):
            t = D.detectspots(image((30, 30), [(15., 14., 8e3)], level=lev, amp=5.), min_counts_per_spot=2e4)
            ex.check(len(t) == 0, "all-faint", "a spot below the threshold is listed")
        n += 2
    ex.ran(n)
    ex.states(n)


def convolution(ex):
    """the smoothing is a correlation with a normalised Gaussian, for every kernel width"""
    n = 0
    for sg in (1., 1.5, 2.):
        for (i, j) in itertools.product((7, 10, 12), (8, 9, 13)):
            im = np.zeros((24, 26)); im[i, j] = 1.
            with ex.guard("convolution"):
                o = D.gaussian_convolve(im, sg)
                yy, xx = np.mgrid[0:24, 0:26]
                hw = int(3*sg)
                g = np.exp(-((yy-i)**2+(xx-j)**2)/2/sg**2)*((abs(yy-i) <= hw) & (abs(xx-j) <= hw))
                k = np.arange(-hw, hw+1)
                g /= np.sum(np.exp(-k**2/2/sg**2))**2
                ex.check(o.shape == im.shape and mc.maxabs(o-g) < 1e-10, "convolution", "wrong convolution for sigma %s" % sg)
            n += 1
    ex.ran(n)
    ex.states(n)


def uncertainties(ex):
    """the uncertainties are the statistical errors of a fit of the position and flux of the spot, for every noise, flux, level and phase"""
    def expected(x, y, f, n=7, e=1e-4):
        a, b = x-np.round(x)+n//2, y-np.round(y)+n//2
        H = np.array([spot((n, n), a, b, 1.), (spot((n, n), a+e, b, f)-spot((n, n), a-e, b, f))/2/e, (spot((n, n), a, b+e, f)-spot((n, n), a, b-e, f))/2/e]).reshape(3, -1)
        A = np.linalg.inv(H.dot(H.T))
        return np.sqrt(A[1, 1]), np.sqrt(A[2, 2])
    st = 0.125 if ex.thorough else 0.25
    cs = list(itertools.product((5., 20., 60.), (0., 1000.), (2e4, 1e5), np.arange(-0.5, 0.5, st)+0.03, np.arange(-0.5, 0.5, st)+0.03))

    def one(c):
        amp, lev, f, px, py = c
        sh = (60, 68)
        s = [(30+px, 17+py, f), (13+py, 30-px, 1.7*f)]
        rms = np.std(background(sh, lev, amp))
        np.random.seed(5)
        try: t = D.detectspots(image(sh, s, level=lev, amp=amp))
        except Exception as e:
            if not mc.under_test(e): raise
            return "%s: %s" % (type(e).__name__, e)
        for x, y, ff in s:
            k = np.argmin(np.hypot(t["XPIX"]-x, t["YPIX"]-y))
            for n, w in zip(("XERR", "YERR"), expected(x, y, ff)):
                if not 0.75 < t[n][k]/w/rms < 1.25: return "%s is %.5f instead of %.5f, for a noise of %.1f counts and %.0f counts in the spot" % (n, t[n][k], w*rms, rms, ff)
        return None
    for c, e in zip(cs, mc.pmap(one, cs)):
        ex.ran(1); ex.state(str(c))
        if e: ex.fail("uncertainties", "%s: %s" % (e, c), case=str(c))


def stamps(ex):
    """the two centroid measurements of a stamp: every pixel, every pair of pixels, every phase"""
    n = 0
    for size in (5, 7, 9) if ex.thorough else (5, 7):
        hw = size//2
        pix = list(itertools.product(range(size), repeat=2))
        for k, (i, j) in enumerate(pix):
            for (a, b) in pix[k:] if size == 5 else pix[k::7]:
                im = np.zeros((size, size)); im[i, j] += 3.; im[a, b] += 1.
                with ex.guard("barycenter"):
                    x, y, xe, ye, f = D.fitcentroid_barycenter(im)
                    ex.check(abs(x-((3*j+b)/4-hw)) < 1e-9 and abs(y-((3*i+a)/4-hw)) < 1e-9 and abs(f-4) < 1e-9, "barycenter", "barycenter %s, %s, %s of pixels (%d,%d) and (%d,%d)" % (x, y, f, i, j, a, b))
                n += 1
        with ex.guard("no flux"):
            for flat in (0., -1.):
                try: D.fitcentroid_barycenter(np.zeros((size, size))+flat); ex.fail("no flux", "position of a stamp without flux")
                except RuntimeError: pass
        ph = np.arange(-0.6, 0.61, 0.1 if ex.thorough else 0.2)
        for px, py, f in itertools.product(ph, ph, (3., 1e4)):
            with ex.guard("gaussian"):
                x, y, xe, ye, g = D.fitcentroid(spot((size, size), hw+px, hw+py, f), noise=2.)
                ex.check(abs(x-px) < 2e-3 and abs(y-py) < 2e-3 and abs(g/f-1) < 2e-3, "gaussian", "fitted (%.4f, %.4f, %.4f) instead of (%.4f, %.4f, %.4f) for size %d" % (x, y, g, px, py, f, size))
                H = np.array([spot((size, size), hw+px, hw+py, 1.), (spot((size, size), hw+px+1e-4, hw+py, f)-spot((size, size), hw+px-1e-4, hw+py, f))/2e-4,
                              (spot((size, size), hw+px, hw+py+1e-4, f)-spot((size, size), hw+px, hw+py-1e-4, f))/2e-4]).reshape(3, -1)
                A = 2*np.sqrt(np.diag(np.linalg.inv(H.dot(H.T))))
                ex.check(abs(xe/A[1]-1) < 0.03 and abs(ye/A[2]-1) < 0.03 and abs(xe/ye/(A[1]/A[2])-1) < 7e-4, "gaussian", "uncertainties (%g, %g) instead of (%g, %g) for size %d, phase %g %g" % (xe, ye, A[1], A[2], size, px, py))
                _, _, xe2, ye2, _ = D.fitcentroid(spot((size, size), hw+px, hw+py, f), noise=6.)
                ex.check(abs(xe2/xe-3) < 1e-6 and abs(ye2/ye-3) < 1e-6, "gaussian", "uncertainties are not proportional to the noise")
            n += 1
    ex.ran(n)
    ex.states(n)


SECTIONS = [phases, placement, pairs, thresholds, noisy, crowded, generator, nothing, convolution, uncertainties, stamps]
