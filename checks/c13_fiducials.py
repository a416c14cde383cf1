"""C13: identification of fiducial pinholes among camera spots."""
import itertools, os
import numpy as np
import mc
from astropy.table import Table
from desimeter import io
from desimeter.transform.fvc2fp import FVC2FP
from desimeter.findfiducials import findfiducials

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("simulated images of the whole focal plane through both shipped camera transformations: every combination of camera shift, rotation "
        "and scale error of the lattice, every single missing fiducial, every single missing pinhole, every missing petal and stride, every "
        "row order pattern, positioner spots present or not, noise patterns. Non-trivial: distinct sets of identified pinholes.")
ASSUMPTIONS = ["camera orientation within 100 pixels, 0.25 deg and 1% of the assumed transformation", "noise up to 0.03 pixel (4 um)",
               "no positioner spot closer than 1.5 mm to a pinhole"]
M0 = io.load_metrology()
FID = M0[(M0["DEVICE_TYPE"] == "FIF") | (M0["DEVICE_TYPE"] == "GIF")]
POS = M0[M0["DEVICE_TYPE"] == "POS"]
TX = [io.fvc2fp_filename(), os.path.join(str(io.desimeter_data_dir()), "canon-lens-fvc2fp.json")]
LOC = np.array(FID["LOCATION"])
PIN = np.array(FID["PINHOLE_ID"])
XF, YF = np.array(FID["X_FP"], float), np.array(FID["Y_FP"], float)
ULOC, UN = np.unique(LOC, return_counts=True)
MANY = set(int(v) for v in ULOC[UN > 4])   # fiducials with more pinholes than the algorithm looks at
XP, YP = np.array(POS["X_FP"], float), np.array(POS["Y_FP"], float)
_d = np.array([np.min(np.hypot(XF-x, YF-y)) for x, y in zip(XP, YP)])
XP, YP = XP[_d > 4.5], YP[_d > 4.5]


def simulate(tx, dx=0., dy=0., rot=0., sc=1., gone=(), pos=0, order="id", noise=0., ghost=None, double=None):
    """spots table and truth (LOCATION, PINHOLE_ID per row; -1, 0 for positioners)"""
    t = FVC2FP.read(TX[tx])
    keep = np.ones(len(LOC), bool)
    for g in gone:
        keep[g] = False
    xf, yf = XF[keep], YF[keep]
    loc, pin = LOC[keep], PIN[keep]
    if pos:
        a = np.arange(len(XP))*2.39
        xf = np.r_[xf, XP+2.*np.cos(a)]
        yf = np.r_[yf, YP+2.*np.sin(a)]
        loc = np.r_[loc, -np.ones(len(XP), int)]
        pin = np.r_[pin, np.zeros(len(XP), int)]
    x, y = t.fp2fvc(xf, yf)
    z = ((x-3000)+1j*(y-3000))*sc*np.exp(1j*np.radians(rot))
    x, y = z.real+3000+dx, z.imag+3000+dy
    if noise:
        k = np.arange(len(x))
        x, y = x+noise*((k % 3)-1), y+noise*((k//3 % 3)-1)
    if ghost is not None:
        g = loc == ghost[0]
        x, y, loc, pin = x+ghost[1]*g, y+ghost[2]*g, np.where(g, -1, loc), np.where(g, 0, pin)
    if double is not None:     # more spots next to a pinhole
        for k, ox, oy in double:
            x, y, loc, pin = np.r_[x, x[k]+ox], np.r_[y, y[k]+oy], np.r_[loc, -2-k], np.r_[pin, 0]
    n = len(x)
    p = dict(id=np.arange(n), rev=np.arange(n)[::-1], stride=np.argsort(np.arange(n)*7919 % n, kind="stable"),
             x=np.argsort(x), y=np.argsort(-y))[order]
    s = Table()
    s["XPIX"], s["YPIX"] = x[p], y[p]
    s["COUNTS"] = 1e4+np.arange(n)
    return s, loc[p], pin[p]


def judge(case, tight=True):
    s, loc, pin = simulate(**case)
    x0, y0 = np.array(s["XPIX"]), np.array(s["YPIX"])
    if case.get("order") == "rev":     # spots that already carry (stale) identifications
        s["LOCATION"] = 1234
        s["PINHOLE_ID"] = 2
    r = findfiducials(s, input_transform=TX[case["tx"]])
    if len(r) != len(loc) or np.any(np.array(r["XPIX"]) != x0) or np.any(np.array(r["YPIX"]) != y0):
        return "rows or positions of the spots changed", None
    L, P = np.array(r["LOCATION"]), np.array(r["PINHOLE_ID"])
    n_seen = {int(l): int(np.sum(loc == l)) for l in np.unique(loc[loc >= 0])}
    pairs = [(int(a), int(b)) for a, b in zip(L, P) if b > 0]
    if len(pairs) != len(set(pairs)):
        return "the same pinhole is identified twice: %s" % [q for q in set(pairs) if pairs.count(q) > 1], None
    touched = set()
    for k in np.flatnonzero(loc < -1):     # a spot added near a pinhole may be taken for any pinhole of that fiducial
        l = LOC[-2-loc[k]]
        if L[k] not in (-1, l):
            return "spot added near location %d identified as location %d" % (l, L[k]), None
        touched.add(int(l))
    if touched:
        skip = np.isin(loc, list(touched)) | (loc < -1)
        if np.any(~np.isin(L[skip], [-1]+list(touched))):
            return "spot of location %s identified as location %s" % (touched, L[skip]), None
        loc, pin = np.where(skip, L, loc), np.where(skip, P, pin)
        n_seen = {int(l): int(np.sum(loc == l)) for l in np.unique(loc[loc >= 0]) if int(l) not in touched}
    bad = np.flatnonzero((L >= 0) & (L != loc))
    if bad.size:
        return "spot %d of location %d identified as location %d" % (bad[0], loc[bad[0]], L[bad[0]]), None
    bad = np.flatnonzero((P > 0) & (P != pin))
    if bad.size:
        return "pinhole %d of location %d identified as pinhole %d" % (pin[bad[0]], loc[bad[0]], P[bad[0]]), None
    if np.any((P > 0) & (L < 0)):
        return "pinhole identified without a location", None
    for l, n in n_seen.items():
        ii = loc == l
        full = int(np.sum(LOC == l))
        if n == full:
            want = n if l not in MANY else 4
            got = int(np.sum((P[ii] > 0) & (L[ii] == l)))
            if got < want:
                return "only %d of the %d pinholes of location %d identified" % (got, n, l), None
    if np.any(np.array(r["PETAL_LOC"])[L >= 0] != L[L >= 0]//1000) or np.any(np.array(r["DEVICE_LOC"])[L >= 0] != L[L >= 0] % 1000):
        return "petal or device location inconsistent with the location", None
    if np.any(np.array(r["PETAL_LOC"])[L < 0] != -1) or np.any(np.array(r["DEVICE_LOC"])[L < 0] != -1):
        return "petal or device location given to an unidentified spot", None
    return None, int(np.sum(P > 0))


def sweep(ex, tag, cases):
    def one(c):
        try:
            return judge(c)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e), None
    for c, (e, s) in zip(cases, mc.pmap(one, cases, chunksize=2)):
        ex.ran(1, sample=c)
        ex.state(str(c))
        if e:
            ex.fail(tag, "%s with %s" % (e, c), case=c)


def camera(ex):
    """every shift, rotation and scale error of the camera"""
    S = (-60., 0., 60.) if not ex.thorough else (-60., -25., 0., 10., 60.)
    R = (-0.2, 0., 0.2) if not ex.thorough else (-0.2, -0.1, -0.02, 0., 0.05, 0.2)
    K = (0.995, 1., 1.005)
    cs = [dict(tx=t, dx=dx, dy=dy, rot=r, sc=k) for dx in S for dy in S for r in R for k in K for t in (0, 1)]
    if not ex.thorough:
        cs = [c for i, c in enumerate(cs) if c["tx"] == 0 or (c["dx"] == c["dy"])]
    sweep(ex, "camera", cs)


def missing(ex):
    """every single missing fiducial, every single missing pinhole, every missing petal, every stride of fiducials"""
    cs = []
    for i, l in enumerate(ULOC):
        cs.append(dict(tx=i % 2, gone=tuple(int(v) for v in np.flatnonzero(LOC == l)), dx=5.))
    for j in range(len(LOC)):
        if ex.thorough or j % 3 == 0:
            cs.append(dict(tx=0, gone=(j,), dy=-7.))
    pet = LOC//1000
    for k in range(10):
        cs.append(dict(tx=0, gone=tuple(int(v) for v in np.flatnonzero(pet == k))))
        cs.append(dict(tx=1, gone=tuple(int(v) for v in np.flatnonzero((pet == k) | (pet == (k+3) % 10)))))
    for st in (2, 3, 5):
        for o in range(st):
            sel = np.isin(LOC, ULOC[o::st])
            cs.append(dict(tx=o % 2, gone=tuple(int(v) for v in np.flatnonzero(sel)), dx=3., rot=0.05))
    if ex.thorough:
        for a, b in itertools.combinations(range(0, len(ULOC), 3), 2):
            cs.append(dict(tx=0, gone=tuple(int(v) for v in np.flatnonzero((LOC == ULOC[a]) | (LOC == ULOC[b])))))
    sweep(ex, "missing", cs)


def ghosts(ex):
    """every fiducial off, with spots arranged like its pinholes some distance away"""
    cs = []
    D = ((25., 0.), (-25., 0.), (0., 25.), (20., -20.), (-35., 15.))
    if ex.thorough:
        D = D+((0., -25.), (15., 15.), (-18., -18.), (45., 0.), (0., -60.), (30., 40.))
    for i, l in enumerate(ULOC):
        for k, d in enumerate(D):
            if ex.thorough or (i+k) % 2 == 0:
                cs.append(dict(tx=(i+k) % 2, ghost=(int(l),)+d))
    sweep(ex, "ghosts", cs)


def rows(ex):
    """row orders, positioner spots, noise, combined"""
    cs = []
    for o, pos, nz, t in itertools.product(("id", "rev", "stride", "x", "y"), (0, 1), (0., 0.01, 0.03), (0, 1)):
        cs.append(dict(tx=t, order=o, pos=pos, noise=nz, dx=-8., dy=4., rot=0.03))
    sweep(ex, "rows", cs)


def doubles(ex):
    """every fiducial with a spot detected twice, or other spots next to its pinholes"""
    cs = []
    D = ((1., 0.), (-2., 1.), (0.3, 0.2), (4., -3.), (-6., 2.), (0., 8.))
    if ex.thorough:
        D = D+((0., -1.5), (3., 3.), (-4., -4.), (9., 1.))
    j = 0
    for i, l in enumerate(ULOC):
        for q, k in enumerate(np.flatnonzero(LOC == l)[:4]):
            for m, d in enumerate(D):
                if ex.thorough or (i+q+m) % 6 == 0:
                    j += 1
                    two = ((int(k),)+d,) if j % 3 else ((int(k),)+d, (int(k), -d[1], d[0]))
                    cs.append(dict(tx=j % 2, double=two, order=("id", "stride", "y")[j % 3]))
    sweep(ex, "doubles", cs)


def extremes(ex):
    """combinations of large errors of the camera"""
    cs = []
    for t, dx, dy, rot, sc, nz in itertools.product((0, 1), (-100., 100.), (-100., 100.), (-0.25, 0.25), (0.99, 1.01), (0., 0.03)):
        cs.append(dict(tx=t, dx=dx, dy=dy, rot=rot, sc=sc, noise=nz, pos=1, order=("x", "y", "stride")[len(cs) % 3]))
    sweep(ex, "extremes", cs)


SECTIONS = [camera, missing, ghosts, rows, doubles, extremes]
