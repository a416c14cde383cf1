"""C20: processing of a fiber view camera image, from spots or pixels to identified focal plane positions."""
import contextlib, io as _io, itertools, json, logging, os
import numpy as np
import mc
from mc import maxabs
import fitsio
from astropy.table import Table
from desimeter import io, processfvc
from desimeter.log import get_logger
from desimeter.processfvc import get_parser, fvc_proc, process_fvc
from desimeter.transform.fvc2fp import FVC2FP
from desimeter.transform.xy2qs import xy2qs, qs2xy
from desimeter.fieldmodel import FieldModel

PROPERTY = "C20"
LEVEL = "exploration"
RULE = ("simulated exposures with known truth: every combination of (expected positions format, displacement pattern, match distance, "
        "missing fibers, extra spots, row order, camera orientation, fit options), both matching programs (the external one replaced by a "
        "stand-in), every combination of image extensions and extension options, every error condition, every sequence of processing "
        "requests of an alphabet. Non-trivial: distinct combinations.")
ASSUMPTIONS = ["noise-free spots; the camera differs from the default one by shift, rotation and scale", "displacements below 4.5 mm without expected positions",
               "small images (detection itself is C15)"]
M = io.load_metrology()
POS = M[M["DEVICE_TYPE"] == "POS"]
FID = M[(M["DEVICE_TYPE"] == "FIF") | (M["DEVICE_TYPE"] == "GIF")]
XP, YP, LP = np.array(POS["X_FP"], float), np.array(POS["Y_FP"], float), np.array(POS["LOCATION"], int)
XF, YF, LF, PF = np.array(FID["X_FP"], float), np.array(FID["Y_FP"], float), np.array(FID["LOCATION"], int), np.array(FID["PINHOLE_ID"], int)
DEVID = {int(l): str(d) for l, d in zip(M["LOCATION"], M["DEVICE_ID"])}
MANY = {int(l) for l in np.unique(LF) if np.sum(LF == l) > 4}
# positioners away from fiducials, such that a pinhole is never mistaken for a fiber
FAR = np.array([np.min(np.hypot(XF-x, YF-y)) for x, y in zip(XP, YP)]) > 9.
NP = len(POS)
K = np.arange(NP)
logging.getLogger("desimeter.INFO").disabled = True


def camera(dr=0., ds=1., dx=0., dy=0.):
    t = FVC2FP.read(io.fvc2fp_filename())
    t.rotation += np.radians(dr); t.scale *= ds; t.offset_x += dx/3000.; t.offset_y += dy/3000.
    return t


CAMERAS = [dict(), dict(dr=0.1, ds=1.002, dx=20., dy=-15.), dict(dr=-0.15, ds=0.998, dx=-30., dy=5.), dict(dr=0.02, ds=1.0002, dx=3., dy=-2.), dict(dr=-0.03, dx=-2., dy=4.)]
MOVES = {"still": lambda k: (0.*k, 0.*k), "small": lambda k: (0.05*np.cos(k*1.7), 0.05*np.sin(k*1.7)), "large": lambda k: (4.*np.cos(k*2.39), 4.*np.sin(k*2.39)),
         "mixed": lambda k: ((0.2+1.8*(k % 3))*np.cos(k*1.1), (0.2+1.8*(k % 3))*np.sin(k*1.1))}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(_io.StringIO()):
        return f(*a, **k)


def run(args, **kw):
    a = quiet(get_parser().parse_args, args)
    return quiet(fvc_proc, a, get_logger())


def guarded(f):
    def g(c):
        try:
            return f(c)
        except SystemExit as e:
            return "the program exits with code %s" % e.code
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e)
    return g


def sweep(ex, tag, cases, one, describe=str):
    for c, e in zip(cases, mc.pmap(guarded(one), cases, chunksize=1)):
        ex.ran(1, sample=dict(case=describe(c)))
        ex.state(tag+str(c))
        if e:
            ex.fail(tag, "%s, with %s" % (e, describe(c)), case=str(c))


# ---------------------------------------------------------------------
def expected(fmt, d, targets, k):
    """write the expected positions file of the positioners; returns (options, x, y) with undefined ones as NaN"""
    x, y = targets
    t = Table()
    x, y = x.copy(), y.copy()
    if fmt == "none":
        return [], XP.copy(), YP.copy()
    bad = (k % 11 == 3) if fmt.endswith(("nan", "blank")) else np.zeros(len(k), bool)
    x[bad] = np.nan; y[bad] = np.nan
    if fmt.startswith("qs"):
        q, s = xy2qs(x, y)
        t["EXP_Q_0"], t["EXP_S_0"] = q, s
        x, y = qs2xy(q, s)
    elif fmt.startswith("exp"):
        t["X_FP_EXP"], t["Y_FP_EXP"] = x, y
    else:
        t["X_FP"], t["Y_FP"] = x, y
    t["PETAL_LOC"], t["DEVICE_LOC"] = LP//1000, LP % 1000
    if fmt in ("xy", "xypin"):
        t["LOCATION"] = LP
    if fmt in ("qs", "qsnan", "qsfits", "qsblank", "xypin"):
        t["DEVICE_ID"] = np.array(POS["DEVICE_ID"]).astype(str)
        t["DEVICE_TYPE"] = np.array(["POS"]*NP)
    if fmt == "xypin":      # fiducials are in the table too
        t["PINHOLE_ID"] = np.zeros(NP, int)
        for l, p, a, b in list(zip(LF, PF, XF, YF))[::7]:
            t.add_row(dict(X_FP=a+0.3, Y_FP=b, PETAL_LOC=l//1000, DEVICE_LOC=l % 1000, LOCATION=l, DEVICE_ID="fid", DEVICE_TYPE="FIF", PINHOLE_ID=p))
    fn = d+"/expected"+(".fits" if fmt.endswith("fits") else ".csv")
    o = np.argsort(np.cos(np.arange(len(t))*1.9))     # its own row order
    t = t[o]
    if fmt.endswith("blank"):   # unknown values left out of the file
        t = Table(t, masked=True)
        for c in ("EXP_Q_0", "EXP_S_0", "X_FP", "Y_FP"):
            if c in t.colnames:
                t[c].mask = np.isnan(t[c])
    t.write(fn, overwrite=True)
    return ["--expected-positions", fn], x, y


def simulate(cam, targets, disp, gone, extra, order, gonefid=()):
    """spots table and truth: location (positioners), x, y per row; fiducials as (location, pinhole)"""
    x, y = targets[0]+disp[0], targets[1]+disp[1]
    keep = np.ones(NP, bool)
    if gone: keep[gone::13] = False
    kf = ~np.isin(LF, gonefid)
    X = np.r_[x[keep], XF[kf]]; Y = np.r_[y[keep], YF[kf]]
    L = np.r_[LP[keep], LF[kf]]; P = np.r_[np.zeros(np.sum(keep), int), PF[kf]]
    if extra:
        e = np.flatnonzero(FAR)[::37]
        X = np.r_[X, x[e]+3., 430., -425.]; Y = np.r_[Y, y[e]+3.5, 20., -30.]
        L = np.r_[L, np.full(len(e)+2, -1)]; P = np.r_[P, np.zeros(len(e)+2, int)]
    px, py = camera(**CAMERAS[cam]).fp2fvc(X, Y)
    n = len(X)
    o = [np.arange(n), np.arange(n)[::-1], np.argsort(np.cos(np.arange(n)*2.7))][order]
    t = Table(dict(XPIX=px[o], YPIX=py[o], COUNTS=1000.+np.arange(n)))
    return t, L[o], P[o], X[o], Y[o]


def nearest(xs, ys, ex_, ey, limit):
    """index of the expected position of each spot: the nearest one, the closest of its claimants, within the limit"""
    d2 = (xs[:, None]-ex_[None])**2+(ys[:, None]-ey[None])**2
    d2[~np.isfinite(d2)] = np.inf
    j = np.argmin(d2, axis=1); d = np.sqrt(d2[np.arange(len(xs)), j])
    out = np.full(len(xs), -1)
    for q in np.unique(j):
        c = np.flatnonzero(j == q)
        w = c[np.argmin(d[c])]
        if d[w] < limit: out[w] = q
    return out


def judge_fids(o, L, P, X, Y, tol):
    isf = P > 0
    ok = isf & (o["PINHOLE_ID"] > 0)
    if np.any(o["LOCATION"][ok] != L[ok]) or np.any(o["PINHOLE_ID"][ok] != P[ok]) or np.any((o["PINHOLE_ID"] > 0) & ~isf):
        return "wrong fiducial labels"
    want = sum(min(4, int(np.sum(isf & (L == l)))) for l in np.unique(L[isf]))
    if np.sum(ok) < want:
        return "%d pinholes identified instead of %d" % (np.sum(ok), want)
    if maxabs(np.hypot(o["X_FP_METRO"][ok]-X[ok], o["Y_FP_METRO"][ok]-Y[ok])) > 1e-6 or np.any(o["X_FP_METRO"][~ok] != 0):
        return "metrology of the pinholes wrong"
    if maxabs(np.hypot(o["X_FP_EXP"][ok]-X[ok], o["Y_FP_EXP"][ok]-Y[ok])) > 1e-6:
        return "expected position of the pinholes wrong"
    if maxabs(np.hypot(o["X_FP"]-X, o["Y_FP"]-Y)) > tol:
        return "focal plane positions wrong by %.2g mm" % maxabs(np.hypot(o["X_FP"]-X, o["Y_FP"]-Y))
    return None


def labels(ex):
    """expected positions formats, displacements, missing fibers, spurious spots, row order, camera, distance limit, fit options"""
    F = ["none", "xy", "exp", "qs", "qsfits", "xypin", "qsnan", "xynan", "expnan", "qsblank", "xyblank"]
    cs = []
    for i, (f, mv, lim) in enumerate(itertools.product(F, ("still", "small", "mixed", "large"), (7., 1.))):
        for j in range(1 if not ex.thorough else 16):
            q = i+5*j+j
            cs.append((f, mv, lim, (q*7) % 13 if (q//2) % 2 else 0, (q//4) % 2, q % 3, q % 3 if j == 0 else (q//3) % 3, ("", "--zbfit", "--fixed-rotation", "--fixed-scale")[(q//3) % 4], (i+j) % 2))

    def one(c):
        fmt, mv, lim, gone, extra, order, cam, opt, stale = c
        if opt.startswith("--fixed"):
            cam = 0
        with mc.scratch() as d:
            a = K*0.7
            tg = (XP+2.*np.cos(a)*(fmt != "none"), YP+2.*np.sin(a)*(fmt != "none"))
            dm = MOVES[mv](K)
            if fmt != "none":
                dm = (0.8*dm[0], 0.8*dm[1])
            t, L, P, X, Y = simulate(cam, tg, dm, gone, extra, order)
            if stale:      # a table that went through the processing before
                n = len(t)
                t["LOCATION"] = np.full(n, 1234); t["PINHOLE_ID"] = np.ones(n, int); t["PETAL_LOC"] = np.ones(n, int); t["DEVICE_LOC"] = np.full(n, 234)
                t["X_FP"] = np.full(n, 5.); t["Y_FP"] = np.full(n, 6.); t["X_FP_METRO"] = np.full(n, 7.); t["Y_FP_METRO"] = np.full(n, 8.); t["Z_FP_METRO"] = np.full(n, 8.)
            t.write(d+"/spots.csv")
            eo, ex_, ey = expected(fmt, d, tg, K)
            rc = run(["-i", d+"/spots.csv", "-o", d+"/out.csv", "--max-match-distance", str(lim)]+eo+([opt] if opt else []))
            if rc != 0:
                return "return code %s" % rc
            o = Table.read(d+"/out.csv")
            if len(o) != len(t) or maxabs(o["XPIX"]-t["XPIX"]) > 1e-9 or maxabs(o["YPIX"]-t["YPIX"]) > 1e-9 or np.any(o["COUNTS"] != t["COUNTS"]):
                return "the spots of the output are not those of the input"
            e = judge_fids(o, L, P, X, Y, 2e-3 if opt == "--zbfit" else 1e-4)
            if e:
                return e
            s = np.flatnonzero((P == 0))
            # the unidentified pinholes (more than four in a fiducial) compete for expected positions too
            z = np.flatnonzero(o["PINHOLE_ID"] == 0)
            w = nearest(X[z], Y[z], ex_, ey, lim)
            for r, q in zip(z, w):
                if q < 0:
                    if P[r] == 0 and (o["LOCATION"][r] != -1 or o["PETAL_LOC"][r] != -1 or o["DEVICE_LOC"][r] != -1 or o["X_FP_EXP"][r] != 0):
                        return "spot %d, which is nowhere near an expected position, is identified as %d" % (r, o["LOCATION"][r])
                else:
                    if o["LOCATION"][r] != LP[q]:
                        return "spot %d (fiber %d) is identified as %d" % (r, LP[q], o["LOCATION"][r])
                    if o["PETAL_LOC"][r]*1000+o["DEVICE_LOC"][r] != LP[q]:
                        return "petal and device of spot %d inconsistent with its location" % r
                    if "DEVICE_ID" in o.colnames and str(o["DEVICE_ID"][r]).strip() != DEVID[int(LP[q])]:
                        return "device identifier of spot %d (location %d) is %s" % (r, LP[q], o["DEVICE_ID"][r])
                    if not np.hypot(o["X_FP_EXP"][r]-ex_[q], o["Y_FP_EXP"][r]-ey[q]) < 1e-6:
                        return "expected position of spot %d (location %d) is %.4f %.4f" % (r, LP[q], o["X_FP_EXP"][r], o["Y_FP_EXP"][r])
            if fmt in ("none", "qs", "qsfits", "qsnan", "qsblank", "xypin") and "DEVICE_ID" not in o.colnames:
                return "no device identifiers"
            if len(s) == 0:
                raise AssertionError("harness")
        return None
    sweep(ex, "labels", cs, one, lambda c: "(expected, moves, limit, missing, extra, order, camera, option, stale columns) %s" % (c,))


# ---------------------------------------------------------------------
def small_exposure(d, cam=0, gonefid=(), n=400, name="/spots.csv"):
    t, L, P, X, Y = simulate(cam, (XP, YP), MOVES["small"](K), 0, 0, 0, gonefid)
    k = (P > 0) | (np.arange(len(L)) % max(1, NP//n) == 0)
    t[k].write(d+name, overwrite=True)
    return t[k], L[k], P[k], X[k], Y[k]


def outputs(ex):
    """field model, output transform, directories, spot number limits, error codes, with every combination of the options"""
    cs = []
    for fm, tr, mk, nm, lo, hi in itertools.product((0, 1, 2), ("", "t.json", "t.txt", "sub2/t.json"), (0, 1), (0, 1), (None, 10, 10**6), (None, 10, 10**6)):
        if tr == "sub2/t.json" and not mk:
            continue
        if not ex.thorough and (lo == 10**6 or hi == 10) and (fm or tr):
            continue
        if nm and fm == 2 and not ex.thorough:
            continue
        cs.append((fm, tr, mk, nm, lo, hi))

    def one(c):
        fm, tr, mk, nm, lo, hi = c
        with mc.scratch() as d:
            t, L, P, X, Y = small_exposure(d)
            out = d+("/sub/deep/out.csv" if mk else "/out.csv")
            a = ["-i", d+"/spots.csv", "-o", out]
            if mk: a.append("--make-directory")
            if nm: a.append("--nomatch")
            if lo is not None: a += ["--min-spots", str(lo)]
            if hi is not None: a += ["--max-spots", str(hi)]
            if tr: a += ["--output-transform", d+"/"+tr]
            if fm:
                f = FieldModel()
                f.ra, f.dec, f.expid, f.hexrot_deg, f.adc1, f.adc2, f.mjd, f.lst = 40.+fm, 25.-30*fm, fm, 0.02, 12.*fm, 340., 59000.3, 50.
                f.fieldrot_zp_deg = 0.05*fm
                with open(d+"/fm.json", "w") as s: s.write(f.tojson())
                a += ["--field-model", d+"/fm.json"]
            rc = run(a)
            if rc != 0:
                return "return code %s" % rc
            few = (lo is not None and len(t) < lo) or (hi is not None and len(t) > hi)
            if os.path.exists(out) == few:
                return "output written in spite of the number of spots" if few else "no output"
            wrote = os.path.exists(d+"/"+tr) if tr else False
            if wrote != (tr.endswith(".json") and not few and not nm):
                return "transformation file %s" % ("written" if wrote else "not written")
            if few:
                return None
            o = Table.read(out)
            if nm:
                return None if np.array_equal(o["XPIX"], t["XPIX"]) and np.array_equal(o["YPIX"], t["YPIX"]) and len(o.colnames) == len(t.colnames) else "spots changed though no match was requested"
            if wrote:
                x, y = FVC2FP.read_jsonfile(d+"/"+tr).fvc2fp(np.array(t["XPIX"]), np.array(t["YPIX"]))
                if maxabs(np.hypot(x-o["X_FP"], y-o["Y_FP"])) > 1e-9:
                    return "the transformation written is not the one used"
            if fm:
                with open(d+"/fm.json") as s: g = FieldModel.fromjson(s.read())
                ra, dec = g.fp2radec(np.array(o["X_FP"]), np.array(o["Y_FP"]))
                if maxabs(np.hypot((ra-o["RA"])*np.cos(np.radians(dec)), dec-o["DEC"])) > 1e-9:
                    return "sky coordinates are not those of the field model"
            elif "RA" in o.colnames:
                return "sky coordinates without a field model"
        return None
    sweep(ex, "outputs", cs, one, lambda c: "(field model, transform, directory, nomatch, min, max spots) %s" % (c,))


def errors(ex):
    """every error condition, alone and in pairs: its code, and no output"""
    E = ["threshold", "name", "kind", "fewfid", "nofid"]
    cs = [c for n in (0, 1, 2) for c in itertools.combinations(E, n)]

    def one(c):
        with mc.scratch() as d:
            gone = ()
            u = [int(v) for v in np.unique(LF)]
            if "fewfid" in c: gone = u[2:]
            if "nofid" in c: gone = u
            small_exposure(d, gonefid=gone)
            out = d+"/out"+(".txt" if "name" in c else ".csv")
            inf = d+"/spots.csv"
            if "kind" in c:
                os.rename(inf, d+"/spots.dat"); inf = d+"/spots.dat"
            try:
                rc = run(["-i", inf, "-o", out]+(["--threshold", "500"] if "threshold" in c else []))
            except ValueError:
                if "nofid" in c and not set(c) & {"kind", "name", "threshold"}:
                    return None if not os.path.exists(out) else "output"     # nothing to match at all
                raise
            want = 12 if "name" in c else 1 if "threshold" in c else 13 if c else 0
            if rc != want:
                return "return code %s instead of %d" % (rc, want)
            if os.path.exists(out) != (not c):
                return "output %swritten" % ("" if c else "not ")
        return None
    sweep(ex, "errors", cs, one, lambda c: "conditions %s" % (c,))


# ---------------------------------------------------------------------
def image(k, n=96):
    """image with 3 spots, at positions that tell which one it is, on a pedestal"""
    im = np.full((n, n), 1000.)
    yy, xx = np.mgrid[:n, :n]
    pts = [(20.+3*k, 30.), (60., 20.+4*k), (75.-2*k, 70.)]
    for x, y in pts:
        im += 5e4*np.exp(-((xx-x)**2+(yy-y)**2)/2.)/2/np.pi
    im += 3.*np.cos(xx*1.3+k)*np.cos(yy*2.1)
    return im, pts


def same_spots(t, pts):
    if len(t) != len(pts):
        return False
    return all(np.min(np.hypot(t["XPIX"]-x, t["YPIX"]-y)) < 0.05 for x, y in pts)


def images(ex):
    """every list of image extensions x extension option x bias option: the right image is processed"""
    exts = [(), ("F0000",), ("F0001",), ("F0000", "F0001"), ("F0001", "F0000"), ("F0000", "F0001", "F0002"), ("F0000", "F0000B"), ("F0000", "OTHER", "F0001"), ("OTHER", "F0000", "F0001")]
    cs = []
    for e, prim in itertools.product(exts, (0, 1)):
        if not e and not prim:
            continue
        for opt in ([], ["--extname", "F0000"], ["--extname", "F0001"], ["--extname", "last"], ["--sequence"]):
            for bias in ("none", "file", "off"):
                if bias != "none" and not ex.thorough and len(e) > 2:
                    continue
                cs.append((e, prim, tuple(opt), bias))

    def one(c):
        e, prim, opt, bias = c
        with mc.scratch() as d:
            fn = d+"/im.fits"
            hot = np.zeros((96, 96)); hot[45:48, 45:48] = 4e4
            with fitsio.FITS(fn, "rw", clobber=True) as f:
                add = hot if bias != "none" else 0.*hot
                if prim: f.write((image(9)[0]+add).astype(np.float32))
                elif e: f.write(None)
                for k, n in enumerate(e):
                    f.write((image(k)[0]+add).astype(np.float32), extname=n)
            a = ["-i", fn, "-o", d+"/out.csv", "--nomatch"]+list(opt)
            if bias != "none":
                fitsio.write(d+"/bias.fits", hot.astype(np.float32))
                a += ["--bias", d+"/bias.fits"]
            if bias == "off": a.append("--no-bias")
            nh = len(e)+1
            # what must be processed: (file, image number)
            if opt == ("--sequence",):
                want = [("out-%s.csv" % n.lower(), k) for k, n in enumerate(e) if n.lower().startswith("f0")]
            elif nh == 1:
                want = [("out.csv", 9)]
            else:
                x = opt[1] if opt else "F0000"
                if x == "last":
                    L = [k for i in range(9) for k, n in enumerate(e) if n == "F%04d" % i]
                    if [n for n in e if n[0] == "F" and len(n) == 5] != sorted(n for n in e if n[0] == "F" and len(n) == 5):
                        L = L[-1:]
                    want = [("out.csv", L[-1])] if L and set("F%04d" % i for i in range(len(L))) <= set(e) else None
                else:
                    want = [("out.csv", e.index(x))] if x in e else None
            try:
                rc = run(a)
            except (OSError, ValueError, KeyError, TypeError) as err:
                if want is None:
                    return None
                return "%s: %s" % (type(err).__name__, err)
            if want is None:
                return None if not os.path.exists(d+"/out.csv") or opt == ("--extname", "last") else "an image was processed that was not asked for"
            if rc != 0:
                return "return code %s" % rc
            files = sorted(f for f in os.listdir(d) if f.endswith(".csv"))
            if sorted(f.lower() for f in files) != sorted(w[0].lower() for w in want):
                return "files %s instead of %s" % (files, [w[0] for w in want])
            for f, k in want:
                g = [q for q in files if q.lower() == f.lower()][0]
                pts = image(k)[1]+([(46., 46.)] if bias == "off" else [])
                if not same_spots(Table.read(d+"/"+g), pts):
                    return "%s does not have the spots of image %d" % (g, k)
        return None
    sweep(ex, "images", cs, one, lambda c: "(extensions, image in the primary, options, bias) %s" % (c,))


def sequences(ex):
    """every sequence of exposures with few and many spots, and every limit: exactly the exposures within the limits are processed"""
    cs = [(n, lo, hi) for k in range(1, 5 if ex.thorough else 4) for n in itertools.product((1, 2, 3), repeat=k) for lo, hi in ((None, None), (2, None), (None, 2), (2, 2), (4, None), (3, 1))
          if ex.thorough or k < 3 or (lo, hi) in ((2, None), (None, 2), (2, 2))]

    def one(c):
        n, lo, hi = c
        with mc.scratch() as d:
            with fitsio.FITS(d+"/im.fits", "rw", clobber=True) as f:
                f.write(None)
                all_ = []
                for k, m in enumerate(n):
                    _, pts = image(k)
                    yy, xx = np.mgrid[:96, :96]
                    im = 1000.+3.*np.cos(xx*1.3+k)*np.cos(yy*2.1)
                    for x, y in pts[:m]: im += 5e4*np.exp(-((xx-x)**2+(yy-y)**2)/2.)/2/np.pi
                    all_.append(pts[:m])
                    f.write(im.astype(np.float32), extname="F%04d" % k)
            a = ["-i", d+"/im.fits", "-o", d+"/out.csv", "--nomatch", "--sequence", "--no-bias"]
            if lo is not None: a += ["--min-spots", str(lo)]
            if hi is not None: a += ["--max-spots", str(hi)]
            rc = run(a)
            if rc != 0: return "return code %s" % rc
            want = {"out-f%04d.csv" % k: k for k, m in enumerate(n) if not (lo is not None and m < lo or hi is not None and m > hi)}
            files = {f.lower(): f for f in os.listdir(d) if f.endswith(".csv")}
            if set(files) != set(want): return "files %s instead of %s" % (sorted(files), sorted(want))
            for f, k in want.items():
                if not same_spots(Table.read(d+"/"+files[f]), all_[k]): return "%s does not have the spots of exposure %d" % (f, k)
        return None
    sweep(ex, "sequences", cs, one, lambda c: "numbers of spots %s, limits %s to %s" % c)


# ---------------------------------------------------------------------
def histories(ex):
    """every sequence of processing requests: outputs depend on the request, and are kept unless overwriting is asked for"""
    # requests: (image written before the call or None, file, overwrite)
    al = [("w1", "a", 0), ("w2", "a", 0), ("w2", "a", 1), ("w3", "b", 0), (None, "a", 1), (None, "b", 1), ("csv", "c", 0), ("bad", "a", 1)]
    seqs = [s for n in (1, 2, 3) for s in itertools.product(range(len(al)), repeat=n)]
    if not ex.thorough:
        seqs = [s for s in seqs if len(s) < 3 or s[0] in (0, 2) and s[1] != s[2]]

    def one(s):
        tag = "vmc%d_" % os.getpid()
        with mc.scratch() as d:
            old = processfvc.get_outfilename
            os.mkdir(d+"/tmp")
            cur, made = {}, {}
            try:
                # the real names are /tmp/<basename>.csv: only the folder is changed
                processfvc.get_outfilename = lambda p: os.path.join(d, "tmp", os.path.basename(old(p)))
                if os.path.dirname(old("/x/y/im.fits.fz")) != "/tmp" or os.path.basename(old("/x/y/im.fits.fz")) != "im.csv" or os.path.basename(old("im.fits")) != "im.csv":
                    return "name of the output"
                for i, r in enumerate(s):
                    what, f, ow = al[r]
                    fn = d+"/"+tag+f+".fits"
                    if what == "csv":
                        t = Table(dict(XPIX=[1., 2.], YPIX=[3., 4.])); t.write(d+"/c.csv", overwrite=True)
                        g = quiet(process_fvc, d+"/c.csv")
                        if list(g["XPIX"]) != [1., 2.]: return "request %d: a table of spots is not returned as it is" % i
                        continue
                    if what in ("w1", "w2", "w3"):
                        fitsio.write(fn, image(int(what[1]))[0], clobber=True); cur[f] = int(what[1])
                    if what == "bad":
                        fitsio.write(fn, np.zeros((40, 40)), clobber=True); cur[f] = "bad"
                    if f not in cur:
                        continue
                    calls = []
                    p = processfvc.get_parser
                    real = processfvc.fvc_proc

                    def proc(args, log):
                        args.nomatch = True       # three spots cannot be matched
                        calls.append(args.infile)
                        if cur[f] == "bad": return 13
                        return real(args, log)
                    processfvc.fvc_proc = proc
                    try:
                        g = quiet(process_fvc, fn, overwrite=bool(ow), use_subprocess=False)
                    finally:
                        processfvc.fvc_proc = real
                    if f in made and not ow:
                        if calls or g is None or not same_spots(g, image(made[f])[1]):
                            return "request %d: the previous output is not returned" % i
                    elif cur[f] == "bad":
                        if g is not None: return "request %d: spots returned though the processing failed" % i
                    else:
                        if g is None or not same_spots(g, image(cur[f])[1]):
                            return "request %d: not the spots of the image" % i
                        made[f] = cur[f]
            finally:
                processfvc.get_outfilename = old
        return None
    sweep(ex, "histories", seqs, one, lambda s: "requests %s" % ([al[i] for i in s],))


# ---------------------------------------------------------------------
def subprocesses(ex):
    """every sequence of processing requests with the program in a subprocess (a stand-in): its output, or nothing if it fails"""
    al = [(w, f, ow) for w in ("1", "2", "fail") for f in ("a.fits", "b c.fits.fz") for ow in (0, 1)]
    seqs = [s for n in ((1, 2, 3) if ex.thorough else (1, 2)) for s in itertools.product(range(len(al)), repeat=n)]

    def one(s):
        tag = "vms%d_" % os.getpid()
        with mc.scratch() as d:
            old, path = processfvc.get_outfilename, os.environ["PATH"]
            os.mkdir(d+"/tmp"); os.mkdir(d+"/bin")
            with open(d+"/bin/desi_fvc_proc", "w") as f:
                f.write("#!/bin/sh\n[ $# = 4 ] && [ \"$1\" = -i ] && [ \"$3\" = -o ] || exit 7\n[ -f \"$2\" ] || exit 8\necho x >> %s/calls\nread w < \"$2\"\n[ \"$w\" = fail ] && exit 13\nprintf 'XPIX,YPIX\\n%%s,5\\n' \"$w\" > \"$4\"\n" % d)
            os.chmod(d+"/bin/desi_fvc_proc", 0o755)
            made = {}
            try:
                processfvc.get_outfilename = lambda p: os.path.join(d, "tmp", os.path.basename(old(p)))
                os.environ["PATH"] = d+"/bin:"+path
                for i, r in enumerate(s):
                    w, f, ow = al[r]
                    fn = d+"/"+tag+f
                    with open(fn, "w") as h: h.write(w+"\n")
                    if os.path.exists(d+"/calls"): os.remove(d+"/calls")
                    g = quiet(process_fvc, fn, overwrite=bool(ow))
                    called = os.path.exists(d+"/calls")
                    keep = f in made and not ow
                    if called == keep: return "request %d: the program is %scalled" % (i, "" if called else "not ")
                    if not keep and w == "fail":
                        if g is not None: return "request %d: spots returned though the program failed" % i
                        continue
                    if not keep: made[f] = w
                    if g is None or len(g) != 1 or float(g["XPIX"][0]) != float(made[f]): return "request %d: not the spots of the program" % i
            finally:
                processfvc.get_outfilename = old
                os.environ["PATH"] = path
        return None
    sweep(ex, "subprocesses", seqs, one, lambda s: "requests (outcome, file, overwrite) %s" % ([al[i] for i in s],))


def options(ex):
    """the limits of the detection and what is kept fixed in the fit of the camera are those asked for"""
    from desimeter.detectspots import detectspots
    im = np.full((110, 100), 800.)
    yy, xx = np.mgrid[:110, :100]
    for i, (x, y, f, sg) in enumerate([(20.3, 20.1, 6e3, 1.), (50.2, 22.7, 12e3, 1.), (80.4, 20.2, 25e3, 1.), (20.6, 60.4, 4e4, 2.), (50.1, 60.9, 9e4, 1.), (80.2, 61.3, 9e4, 2.), (50.7, 92.2, 9e3, 1.)]):
        im += f*np.exp(-((xx-x)**2+(yy-y)**2)/2./sg**2)/2/np.pi/sg**2
    im += 4.*np.cos(xx*1.3)*np.cos(yy*2.1)
    im = im.astype(np.float32)
    dark = np.round(40.*np.cos(xx/3.)+(xx > 60)*300.).astype(np.float32)

    def detection(c):
        pix, cnt, sg, bias = c
        try: w = detectspots((im+(dark if bias == "data-off" else 0)).astype(float), min_counts_per_pixel=500. if pix is None else pix, min_counts_per_spot=10000. if cnt is None else cnt, psf_sigma=1. if sg is None else sg)
        except RuntimeError: return None        # no spot at all
        with mc.scratch() as d:
            fitsio.write(d+"/im.fits", im+(dark if bias else 0))
            a = ["-i", d+"/im.fits", "-o", d+"/out.csv", "--nomatch"]
            for o, v in (("--min-counts-per-pixel", pix), ("--min-counts", cnt), ("--fvc-psf-sigma", sg)):
                if v is not None: a += [o, str(v)]
            env = os.environ.get("DESIMETER_DATA")
            try:
                if bias == "arg": fitsio.write(d+"/mybias.fits", dark); a += ["--bias", d+"/mybias.fits"]
                if bias in ("data", "data-off"): fitsio.write(d+"/bias.fits", dark); os.environ["DESIMETER_DATA"] = d
                if bias == "data-off": a += ["--no-bias"]
                rc = run(a)
            finally:
                os.environ.pop("DESIMETER_DATA", None)
                if env is not None: os.environ["DESIMETER_DATA"] = env
            if rc: return "return code %s" % rc
            t = Table.read(d+"/out.csv")
        if len(w) != len(t) or len(w) and max(np.min(np.hypot(t["XPIX"]-q["XPIX"], t["YPIX"]-q["YPIX"])+abs(t["COUNTS"]/q["COUNTS"]-1)) for q in w) > 0.02: return "%d spots %s instead of %d" % (len(t), [(round(float(q["XPIX"]), 1), round(float(q["YPIX"]), 1), int(q["COUNTS"])) for q in t], len(w))
        return None
    sweep(ex, "detection", list(itertools.product((None, 300., 1500., 6000.), (None, 0., 5000., 3e4), (None, 1., 2., 2.5), ("", "arg", "data", "data-off"))), detection, lambda c: "(counts per pixel, counts, psf sigma, bias) %s" % (c,))

    def fit(c):
        sc, ro, zb, cam = c
        with mc.scratch() as d:
            small_exposure(d, cam)
            a = ["-i", d+"/spots.csv", "-o", d+"/out.csv", "--output-transform", d+"/t.json"]+["--fixed-scale"]*sc+["--fixed-rotation"]*ro+["--zbfit"]*zb
            rc = run(a)
            if rc: return "return code %s" % rc
            t, o = FVC2FP.read_jsonfile(d+"/t.json"), FVC2FP.read_jsonfile(io.fvc2fp_filename())
        for n, fixed in (("scale", sc), ("rotation", ro)):
            if (getattr(t, n) == getattr(o, n)) != bool(fixed): return "the %s is %s" % (n, "fitted though it is fixed" if fixed else "not fitted")
        same = len(t.zbcoeffs) == len(o.zbcoeffs) and np.array_equal(t.zbcoeffs, o.zbcoeffs)
        if same == bool(zb): return "the distortion is %s" % ("not fitted" if zb else "fitted though it was not asked for")
        return None
    sweep(ex, "fit", list(itertools.product((0, 1), (0, 1), (0, 1), (1, 3))), fit, lambda c: "(fixed scale, fixed rotation, zbfit, camera) %s" % (c,))


def names(ex):
    """input and output names, many extensions in a sequence, extensions of other names, sequences from tables of spots"""
    cs = [("csv", p, q, sq) for p in ("spots.csv", "./spots.csv", "../w/spots.csv", "my.spots.v2.csv", "a b/spots.csv", "{d}/spots.csv") for q in ("out.csv", "./out.csv", "o/out.csv", "my.out.csv") for sq in (0, 1)]
    cs += [("fits", n, opt, p) for n in (1, 2, 9, 10, 11, 12, 14) for opt in ("--sequence", "last", "one") for p in ("im.fits", "./im.fits", "my.im.fits")]
    cs += [("other", o, opt, "im.fits") for o in ("BUF0", "BUF0001", "XF0000", "DARKF0", "INFO") for opt in ("--sequence", "last", "one")]

    def one(c):
        kind, a1, a2, a3 = c
        with mc.scratch() as d:
            os.mkdir(d+"/w"); os.mkdir(d+"/w/a b"); os.mkdir(d+"/w/o")
            cwd = os.getcwd()
            os.chdir(d+"/w")
            try:
                if kind == "csv":
                    inf = a1.replace("{d}", d+"/w")
                    t = Table(dict(XPIX=[10.5, 20.25, 30.125], YPIX=[3., 4., 5.], COUNTS=[5., 6., 7.])); t.write(inf, overwrite=True)
                    g = quiet(process_fvc, inf)
                    if g is None or list(g["XPIX"]) != list(t["XPIX"]): return "a table of spots is not returned as it is"
                    rc = run(["-i", inf, "-o", a2, "--nomatch"]+["--sequence"]*a3)
                    if rc: return "return code %s" % rc
                    w = a2.replace(".csv", "-F0000.csv") if a3 else a2
                    if not os.path.exists(w): return "no output %s in %s" % (w, os.listdir("."))
                    o = Table.read(w)
                    return None if list(o["XPIX"]) == list(t["XPIX"]) and list(o["COUNTS"]) == list(t["COUNTS"]) else "other spots"
                n = a1 if kind == "fits" else 2
                with fitsio.FITS(a3, "rw", clobber=True) as f:
                    f.write(None)
                    if kind == "other": f.write(image(8)[0].astype(np.float32), extname=a1)
                    for k in range(n): f.write(image(k)[0].astype(np.float32), extname="F%04d" % k)
                    if kind == "other": f.write(image(7)[0].astype(np.float32), extname=a1+"B")
                k = n-1
                rc = run(["-i", a3, "-o", "out.csv", "--nomatch", "--no-bias"]+(["--sequence"] if a2 == "--sequence" else ["--extname", "last"] if a2 == "last" else ["--extname", "F%04d" % k]))
                if rc: return "return code %s" % rc
                files = {f.lower(): f for f in os.listdir(".") if f.endswith(".csv")}
                want = {"out-f%04d.csv" % i: i for i in range(n)} if a2 == "--sequence" else {"out.csv": k}
                if set(files) != set(want): return "files %s instead of %s" % (sorted(files), sorted(want))
                for f, i in want.items():
                    if not same_spots(Table.read(files[f]), image(i)[1]): return "%s does not have the spots of image %d" % (f, i)
            finally:
                os.chdir(cwd)
        return None
    sweep(ex, "names", cs, one, lambda c: "case %s" % (c,))


def sparse(ex):
    """few fiducials; expected positions of few positioners, far from their spots, with every distance limit"""
    U = [int(v) for v in np.unique(LF) if np.sum(LF == v) == 4]
    fid = [U[i::len(U)//k][:k] for k in (3, 4, 6) for i in ((0, 5) if ex.thorough else (0,))]+[[U[0], U[1], U[-1]], U[:3], U]
    cs = [("fid", i, cam) for i in range(len(fid)) for cam in (0, 3, 4)]
    cs += [("far", lim, step) for lim in (0.5, 3., 7., 15., 19.9, 20.1, 25., 40.) for step in (97, 61, 211)]

    def one(c):
        kind, a1, a2 = c
        with mc.scratch() as d:
            if kind == "fid":
                t, L, P, X, Y = small_exposure(d, a2, gonefid=[int(v) for v in np.unique(LF) if v not in fid[a1]])
                rc = run(["-i", d+"/spots.csv", "-o", d+"/out.csv", "--fixed-scale", "--fixed-rotation"][:4 if len(fid[a1]) > 3 else None] if a2 == 0 else ["-i", d+"/spots.csv", "-o", d+"/out.csv"])
                if rc: return "return code %s" % rc
                o = Table.read(d+"/out.csv")
                ok = P > 0
                if np.any(o["LOCATION"][ok] != L[ok]) or np.any(o["PINHOLE_ID"][ok] != P[ok]): return "wrong fiducials"
                return "wrong fibers" if np.any(o["LOCATION"][~ok] != L[~ok]) else None
            q = np.flatnonzero(FAR)[::a2]
            r = 1.+24.*((np.arange(len(q))*0.381966) % 1)            # displacements
            ang = q*2.1
            tx, ty = XP[q], YP[q]
            sx, sy = tx+r*np.cos(ang), ty+r*np.sin(ang)
            e = Table(dict(X_FP=tx, Y_FP=ty, PETAL_LOC=LP[q]//1000, DEVICE_LOC=LP[q] % 1000)); e.write(d+"/e.csv")
            far = np.array([np.min(np.hypot(XF-x, YF-y)) > 3. for x, y in zip(sx, sy)])
            px, py = camera().fp2fvc(np.r_[XF, sx[far]], np.r_[YF, sy[far]])
            Table(dict(XPIX=px, YPIX=py, COUNTS=np.full(len(px), 1e4))).write(d+"/spots.csv")
            rc = run(["-i", d+"/spots.csv", "-o", d+"/out.csv", "--max-match-distance", str(a1), "--expected-positions", d+"/e.csv"])
            if rc: return "return code %s" % rc
            o = Table.read(d+"/out.csv")
            nf = len(XF)
            z = np.flatnonzero(np.array(o["PINHOLE_ID"]) == 0)
            xs, ys = np.r_[XF, sx[far]][z], np.r_[YF, sy[far]][z]
            w = nearest(xs, ys, tx, ty, a1)
            dd = np.sort(np.hypot(xs[:, None]-tx, ys[:, None]-ty), axis=1)
            for i, g in zip(z, w):
                if i < nf: continue
                if np.min(abs(np.hypot(tx-np.r_[XF, sx[far]][i], ty-np.r_[YF, sy[far]][i])-a1)) < 0.01: continue
                want = LP[q][g] if g >= 0 else -1
                if o["LOCATION"][i] != want: return "spot %d, %.2f mm from its expected position, is identified as %d instead of %d" % (i-nf, r[far][i-nf], o["LOCATION"][i], want)
        return None
    sweep(ex, "sparse", cs, one, lambda c: "case %s" % (c,))


def draw(px, py, flux, n=6000):
    im = np.full((n, n), 1000., dtype=np.float32)
    w = np.arange(-5, 6)
    for x, y, f in zip(px, py, flux):
        i, j = int(np.rint(y)), int(np.rint(x))
        im[i-5:i+6, j-5:j+6] += f/2/np.pi*np.exp(-((w[None]+j-x)**2+(w[:, None]+i-y)**2)/2.)
    im += (3.*np.cos(np.arange(n)*1.3)[None]*np.cos(np.arange(n)*2.1)[:, None]).astype(np.float32)
    return im


def pixels(ex):
    """whole exposures from pixels to identified positions, alone and in sequences with different cameras, displacements and missing fibers"""
    E = [(0, "small", 0), (1, "mixed", 3), (2, "small", 0), (4, "still", 5), (3, "mixed", 0)]     # camera, displacement, missing
    cs = [((0,), "xy"), ((1, 2), "none"), ((3, 1, 4), "qs")] if not ex.thorough else [(s, f) for s in ((0,), (1,), (2,), (3,), (4,), (0, 1), (1, 0), (2, 3, 1), (4, 4)) for f in ("none", "xy", "qsnan")]

    def one(c):
        seq, fmt = c
        with mc.scratch() as d:
            a = K*0.7
            tg = (XP+1.5*np.cos(a)*(fmt != "none"), YP+1.5*np.sin(a)*(fmt != "none"))
            truth = []
            with fitsio.FITS(d+"/im.fits", "rw", clobber=True) as f:
                f.write(None)
                for k, e in enumerate(seq):
                    cam, mv, gone = E[e]
                    dm = MOVES[mv](K); dm = (0.5*dm[0], 0.5*dm[1])
                    t, L, P, X, Y = simulate(cam, tg, dm, gone, 0, 1)
                    o = np.flatnonzero((P > 0) & (P < 5) | (P == 0) & (np.arange(len(L)) % 3 == k % 3) & (np.min(np.hypot(X[:, None]-XF, Y[:, None]-YF), axis=1) > 3.))   # spots that do not touch
                    truth.append((np.array(t["XPIX"])[o], np.array(t["YPIX"])[o], L[o], P[o], X[o], Y[o]))
                    f.write(draw(t["XPIX"][o], t["YPIX"][o], 4e4+100.*(o % 300)), extname="F%04d" % k)
            eo, ex_, ey = expected(fmt, d, tg, K)
            rc = run(["-i", d+"/im.fits", "-o", d+"/out.csv", "--no-bias", "--output-transform", d+"/t.json", "--max-match-distance", "3"]+["--sequence"]*(len(seq) > 1)+eo)
            if rc: return "return code %s" % rc
            files = sorted(f for f in os.listdir(d) if f.startswith("out"))
            want = ["out.csv"] if len(seq) == 1 else ["out-f%04d.csv" % k for k in range(len(seq))]
            if [f.lower() for f in files] != want: return "files %s" % files
            for f, (px, py, L, P, X, Y) in zip(files, truth):
                o = Table.read(d+"/"+f)
                if len(o) != len(L): return "%s: %d spots instead of %d" % (f, len(o), len(L))
                D = (np.array(o["XPIX"])[:, None]-px)**2+(np.array(o["YPIX"])[:, None]-py)**2
                j = np.argmin(D, axis=1)
                if len(set(j)) != len(L) or maxabs(D[np.arange(len(j)), j]) > 0.05**2: return "%s: spots are not where they are in the image" % f
                e = judge_fids(o, L[j], P[j], X[j], Y[j], 0.01)
                if e: return "%s: %s" % (f, e)
                z = np.flatnonzero(np.array(o["PINHOLE_ID"]) == 0)
                w = nearest(X[j][z], Y[j][z], ex_, ey, 3.)
                for i, g in zip(z, w):
                    if P[j[i]] == 0 and o["LOCATION"][i] != (LP[g] if g >= 0 else -1): return "%s: fiber %d is identified as %d" % (f, L[j[i]], o["LOCATION"][i])
            x, y = FVC2FP.read_jsonfile(d+"/t.json").fvc2fp(px, py)
            if maxabs(np.hypot(x-X, y-Y)) > 0.01: return "the transformation written is not the one of the last exposure"
        return None
    sweep(ex, "pixels", cs, one, lambda c: "exposures (camera, displacement, missing) %s, expected %s" % ([E[i] for i in c[0]], c[1]))


def external(ex):
    """matching with the external program (stand-in of C19)"""
    from c19_spotmatch import Bench
    cs = list(itertools.product(("none", "xy", "qs"), (0, 3) if not ex.thorough else (0, 3, 4), (0, 4), (0, 1), ("small", "mixed") if ex.thorough else ("small",)))

    def one(c):
        fmt, cam, gone, order, mv = c
        with Bench() as b:
            b.conf()
            d = b.d
            a = K*0.7
            tg = (XP+1.5*np.cos(a)*(fmt != "none"), YP+1.5*np.sin(a)*(fmt != "none"))
            dm = MOVES[mv](K); dm = (0.5*dm[0], 0.5*dm[1])
            t, L, P, X, Y = simulate(cam, tg, dm, gone, 0, order)
            # the stand-in identifies the central pinhole with the center: give it the center as a spot, as the real program computes it
            keep = ((P == 0) & (FARL(L)) & (np.arange(len(L)) % 8 < 2)) | (P == -1)
            fl = [int(v) for v in np.unique(LF)]
            fx = np.array([np.mean(XF[LF == l]) for l in fl]); fy = np.array([np.mean(YF[LF == l]) for l in fl])
            px, py = camera(**CAMERAS[cam]).fp2fvc(fx, fy)
            s = Table(dict(XPIX=np.r_[t["XPIX"][keep], px], YPIX=np.r_[t["YPIX"][keep], py]))
            # pinholes of some fiducials
            kp = (P > 0) & np.isin(L, fl[::10]) & (P <= 4) & (cam == 0)     # (the stand-in only takes the nearest)
            s = Table(dict(XPIX=np.r_[s["XPIX"], t["XPIX"][kp]], YPIX=np.r_[s["YPIX"], t["YPIX"][kp]]))
            tx_ = np.r_[X[keep], fx, X[kp]]; ty_ = np.r_[Y[keep], fy, Y[kp]]; tl = np.r_[L[keep], fl, L[kp]]; kind = np.r_[np.zeros(np.sum(keep)), np.ones(len(fl)), 2*np.ones(np.sum(kp))]
            s.write(d+"/spots.csv")
            eo, ex_, ey = expected(fmt, d, tg, K)
            rc = run(["-i", d+"/spots.csv", "-o", d+"/out.csv", "--use-spotmatch", "--spotmatch-match-radius-pixels", "40"]+eo)
            if rc != 0:
                return "return code %s" % rc
            o = Table.read(d+"/out.csv")
            n1 = len(o)
            want = {}
            E = {int(l): (x, y) for l, x, y in zip(LP, ex_, ey)}
            C = {l: (x, y) for l, x, y in zip(fl, fx, fy)}
            hit = 0
            for r in range(n1):
                k = int(np.argmin((tx_-o["X_FP"][r])**2+(ty_-o["Y_FP"][r])**2))
                if (not np.hypot(tx_[k]-o["X_FP"][r], ty_[k]-o["Y_FP"][r]) <= 2e-3):
                    return "no spot at the position of row %d" % r
                l = int(o["LOCATION"][r])
                if kind[k] == 0:
                    if l != tl[k]: return "fiber %d identified as %d" % (tl[k], l)
                    if not np.hypot(o["X_FP_EXP"][r]-E[l][0], o["Y_FP_EXP"][r]-E[l][1]) < 1e-6:
                        return "expected position of fiber %d is %.3f %.3f instead of %.3f %.3f" % (l, o["X_FP_EXP"][r], o["Y_FP_EXP"][r], E[l][0], E[l][1])
                    hit += 1
                elif kind[k] == 1:
                    if l != tl[k] or o["PINHOLE_ID"][r] != 99: return "fiducial %d identified as %d (pinhole %d)" % (tl[k], l, o["PINHOLE_ID"][r])
                    if not np.hypot(o["X_FP_METRO"][r]-C[l][0], o["Y_FP_METRO"][r]-C[l][1]) < 1e-6:
                        return "metrology of the center of fiducial %d is %.3f %.3f instead of %.3f %.3f" % (l, o["X_FP_METRO"][r], o["Y_FP_METRO"][r], C[l][0], C[l][1])
                    hit += 1
                elif o["PINHOLE_ID"][r] not in (0, 10, 11, 12, 13):
                    return "pinhole number %d" % o["PINHOLE_ID"][r]
            if hit < np.sum(kind < 2):
                return "%d of %d fibers and fiducials in the output" % (hit, np.sum(kind < 2))
        return None
    sweep(ex, "external", cs, one, lambda c: "(expected, camera, missing, order, moves) %s" % (c,))


_FL = {int(l): bool(f) for l, f in zip(LP, FAR)}


def FARL(L):
    return np.array([_FL.get(int(l), False) for l in L])


def turbulence(ex):
    """smooth turbulence is reduced, for fibers with an expected position only; without expected positions it is left alone"""
    cs = list(itertools.product(("--turbulence-correction", "--turbulence-correction-with-pol"), ("xy", "none", "qs"), (0, 1)))

    def one(c):
        opt, fmt, big = c
        with mc.scratch() as d:
            # a dense patch of the focal plane
            tg = (XP.copy(), YP.copy())
            patch = (np.hypot(XP-100., YP-120.) < (90. if big else 70.))
            turb = (0.012*np.cos(XP/60.)*np.cos(YP/90.), 0.009*np.sin(XP/80.+1)*np.cos(YP/70.))
            turb = (turb[0]+0.0008*np.cos(K*5.1), turb[1]+0.0008*np.sin(K*3.7))      # and incoherent errors
            t, L, P, X, Y = simulate(0, tg, turb, 0, 0, 1)
            k = (P > 0) | np.isin(L, LP[patch])
            t, L, P, X, Y = t[k], L[k], P[k], X[k], Y[k]
            t.write(d+"/spots.csv")
            eo, ex_, ey = expected(fmt, d, tg, K)
            rc = run(["-i", d+"/spots.csv", "-o", d+"/out.csv", opt]+eo)
            if rc != 0: return "return code %s" % rc
            o = Table.read(d+"/out.csv")
            f = P == 0
            E = {int(l): (x, y) for l, x, y in zip(LP, ex_, ey)}
            r0 = np.sqrt(np.mean([(X[i]-E[int(L[i])][0])**2+(Y[i]-E[int(L[i])][1])**2 for i in np.flatnonzero(f)]))
            r1 = np.sqrt(np.mean([(o["X_FP"][i]-E[int(L[i])][0])**2+(o["Y_FP"][i]-E[int(L[i])][1])**2 for i in np.flatnonzero(f)]))
            if np.any(o["LOCATION"][f] != L[f]): return "wrong labels"
            if fmt == "none" and (not abs(r1-r0) <= 1e-4): return "positions changed without expected positions"
            if fmt != "none" and r1 > 0.5*r0: return "turbulence of %.4f mm only reduced to %.4f" % (r0, r1)
            g = ~f
            if maxabs(np.hypot(o["X_FP"][g]-X[g], o["Y_FP"][g]-Y[g])) > 1e-3: return "fiducials moved"
        return None
    sweep(ex, "turbulence", cs, one, lambda c: "(option, expected, size) %s" % (c,))


SECTIONS = [labels, outputs, errors, images, sequences, histories, subprocesses, options, names, sparse, pixels, external, turbulence]
