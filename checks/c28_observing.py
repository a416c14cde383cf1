"""C28: tools used while observing or moving positioners: which may move, which moved, field rotation, guide star fits, processing jobs."""
import ast, csv, gzip, itertools, json, os, re, shutil, stat, subprocess
import numpy as np
import mc, prog
import warnings
warnings.simplefilter("ignore")
import fitsio
from astropy.io import fits
from astropy.table import Table
from desimeter import io, match_positioners as MP
from desimeter.fieldmodel import FieldModel, fieldrot, dfieldrotdt
from desimeter.time import mjd2lst
from desimeter.transform.fvc2fp import FVC2FP
from desimeter.transform.ptl2fp import fp2ptl
from desimeter.transform.xy2qs import xy2qs

PROPERTY = "C28"
LEVEL = "exploration"
RULE = ("every arrangement of up to three neighbours over a lattice of distances and directions; every subset of a patch of the focal plane and row order split into groups that may move "
        "together; every combination of moves (too small, measured, too large, not requested), limits, missing and false spots, cameras and numbers of images; every arrangement of "
        "centroids around two or three positioners; every combination of arguments and header keywords; every history of up to 4 (5) steps of preparing and running processing jobs. "
        "Non-trivial: distinct arrangements and histories.")
ASSUMPTIONS = ["no arrangement exactly at a limit", "a stand-in for the image processing program in the jobs"]
prog.preload("ok2move", "select_groups_of_positioners", "detect_and_match_moving_positioners", "desi_print_ambigous_groups", "compute_distance_from_center", "desi_predict_fieldrot", "desi_fit_guide_star_coordinates", "write_fvc_image_processing_scripts")
DATA = os.path.join(mc.REPO, "py", "desimeter", "data")


def read(fn):
    with open(fn, newline="") as f: return list(csv.DictReader(f))


def write(fn, cols, rows):
    with open(fn, "w", newline="") as f:
        w = csv.DictWriter(f, cols, extrasaction="ignore"); w.writeheader(); w.writerows(rows)


def sweep(ex, tag, jobs, one, describe=lambda j: dict(case=str(j))):
    def job(j):
        try: return one(j)
        except Exception as e:
            if not mc.under_test(e): raise
            return "%s: %s" % (type(e).__name__, e)
    for j, bad in zip(jobs, mc.pmap(job, jobs)):
        n = j.get("n", 1) if isinstance(j, dict) else 1
        ex.ran(1, sample=describe(j)); ex.state(tag+repr(j))
        if bad: ex.fail(tag, bad, **describe(j))


# ------------------------------------------------------------------------------------------------
DIST = [2.4, 3.43, 3.57, 7.]
DIRS = [0., 37., 89., 91., 143., 180., 217., 330.]


def clusters(ex):
    """relative positions of the neighbours of a spot"""
    one = [(d, a) for d in DIST for a in DIRS]
    res = []
    for a, b in itertools.combinations(range(len(one)), 2):
        p, q = one[a], one[b]
        if p[0] == q[0]:
            if p[1] == q[1]: continue
            q = (q[0]+0.02, q[1])
        for rot in ((0., 11.) if not ex.thorough else (0., 11., 45., 90., 163., 250.)): res.append([(p[0], p[1]+rot), (q[0], q[1]+rot)])
    if ex.thorough:
        for c in itertools.combinations(one[::3], 3):
            res.append([(d+0.013*i, a) for i, (d, a) in enumerate(c)])
    else:
        for c in itertools.combinations(one[::7], 3):
            res.append([(d+0.013*i, a) for i, (d, a) in enumerate(c)])
    return res


def movable(x, y):
    """brute force: not wedged between two close neighbours; None if too close to a limit"""
    ok = []
    for i in range(len(x)):
        dx, dy = x-x[i], y-y[i]
        d = np.hypot(dx, dy); d[i] = np.inf
        o = np.argsort(d)
        j, k = o[:2]
        if len(o) > 2 and np.isfinite(d[o[2]]) and d[o[2]]-d[k] < 1e-6 and d[k] < 4.: ok.append(None); continue
        if abs(d[j]-3.5) < 1e-6 or abs(d[k]-3.5) < 1e-6: ok.append(None); continue
        if d[k] > 3.5: ok.append(True); continue
        # opening angle
        a = abs((np.degrees(np.arctan2(dy[j], dx[j])-np.arctan2(dy[k], dx[k]))+180.) % 360.-180.)
        ok.append(None if abs(a-90) < 1e-6 else bool(a < 90.))
    return ok


def moving(ex):
    """ok2move: positioners that may move, in groups"""
    cl = clusters(ex)
    size = 20
    jobs = []
    chunks = [cl[i:i+size] for i in range(0, len(cl), size)]
    for n, i in enumerate(range(len(chunks))):
        jobs.append((i, [50, 7, 1, 3][n % 4], n % 3, n % 2))
    if ex.thorough: jobs = list(itertools.product(range(len(chunks)), (50, 7, 1), (0, 1, 2), (0, 1)))
    # sizes at which the number of positioners is a multiple of the group size
    jobs += [(-k, g, o, 1) for k in range(1, 7) for g in (1, 2, 3, 50) for o in (0, 1)]

    def job(j):
        c, g, order, plot = j
        rows = []
        if c >= 0:
            for m, cluster in enumerate(chunks[c]):
                cx, cy = 60.*(m % 10)-270., 60.*(m//10)+3.
                for q, (d, a) in enumerate([(0., 0.)]+cluster): rows.append((cx+d*np.cos(np.radians(a)), cy+d*np.sin(np.radians(a)), 0))
        else:
            # exactly -c movable ones: far apart, and three that are wedged (the outer two of a chain may move)
            rows = [(50.*i, 20., 0) for i in range(-c)]
            if -c > 2: rows = rows[2:]+[(-300., 0., 0), (-297., 0., 0), (-294., 0., 0)]
            if len(rows) < 3: rows += []
        rows += [(5.+k, -200.+0.3*k, k+1) for k in range(3)]      # a fiducial
        if c < 0 and len(rows) < 6: return None
        rows = [rows[i] for i in {0: np.arange(len(rows)), 1: np.arange(len(rows))[::-1], 2: np.argsort(np.cos(1.7*np.arange(len(rows))))}[order]]
        rs = [dict(DEVICE_ID="M%05d" % i if not r[2] else "P001", X_FP=repr(float(r[0])), Y_FP=repr(float(r[1])), PINHOLE_ID=r[2], XPIX=300+2*i % 50, YPIX=5+i % 40) for i, r in enumerate(rows)]
        x = np.array([r[0] for r in rows if not r[2]]); y = np.array([r[1] for r in rows if not r[2]])
        ids = [r["DEVICE_ID"] for r in rs if r["PINHOLE_ID"] == 0]
        ok = movable(x, y)
        with mc.scratch() as d:
            write(os.path.join(d, "spots.csv"), ["DEVICE_ID", "X_FP", "Y_FP", "PINHOLE_ID", "XPIX", "YPIX"], rs)
            a = ["-i", os.path.join(d, "spots.csv"), "-g", g]
            to = j[0] % 2
            if to: a += ["-o", os.path.join(d, "groups.txt")]
            if plot:
                fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(np.zeros((400, 600)), name="F0001")]).writeto(os.path.join(d, "im.fits"))
                a += ["--plotdir", os.path.join(d, "deep", "plots"), "--fvcimage", os.path.join(d, "im.fits"), "--extname", "F0001"]
            code, text = prog.run("ok2move", a)
            if code: return "the program ends with %d: %s" % (code, text[-300:])
            if to:
                with open(os.path.join(d, "groups.txt")) as f: text = f.read()
            groups = []
            for l in text.splitlines():
                m = re.match(r"group(\d+) = (\[.*\])$", l)
                if m:
                    if int(m.group(1)) != len(groups): return "groups are numbered %s" % m.group(1)
                    groups.append(ast.literal_eval(m.group(2)))
            got = [i for q in groups for i in q]
            sure = {i: o for i, o in zip(ids, ok) if o is not None}
            wrong = [i for i in sure if (i in got) != sure[i]]
            if wrong:
                k = ids.index(wrong[0]); dd = np.hypot(x-x[k], y-y[k]); o = np.argsort(dd)[1:3]
                return "a positioner with neighbours at %.3f,%.3f and %.3f,%.3f mm %s" % (x[o[0]]-x[k], y[o[0]]-y[k], x[o[1]]-x[k], y[o[1]]-y[k], "may not move" if sure[wrong[0]] else "may move")
            if len(got) != len(set(got)) or not set(got) <= set(ids): return "the groups %s repeat positioners, or have unknown ones" % groups
            if got != [i for i in ids if i in got]: return "the groups are not in the order of the table"
            if [len(q) for q in groups] != [g]*(len(got)//g)+([len(got) % g] if len(got) % g else []): return "groups of %s instead of %d" % ([len(q) for q in groups], g)
            if plot:
                pd = os.path.join(d, "deep", "plots")
                def images(fn):
                    with open(os.path.join(pd, fn)) as f: return re.findall(r'SRC="(.*?)\.png"', f.read())
                for k, q in enumerate(groups):
                    fn = "group%d.html" % k
                    if not os.path.exists(os.path.join(pd, fn)): return "group %d of %d, of %d positioners, has no page" % (k, len(groups), len(q))
                    if images(fn) != q: return "the page of group %d shows %s instead of %s" % (k, images(fn), q)
                if images("dontmove.html") != [i for i in ids if i not in got]: return "the page of positioners that must not move shows %s" % images("dontmove.html")
        return None
    sweep(ex, "ok2move", jobs, job, lambda j: dict(neighbours=chunks[j[0]][:3] if j[0] >= 0 else "%d movable positioners" % -j[0], groupsize=j[1], order=j[2], plots=j[3]))
    with mc.scratch() as d:
        write(os.path.join(d, "s.csv"), ["DEVICE_ID", "X_FP", "Y_FP", "PINHOLE_ID"], [dict(DEVICE_ID="M%d" % i, X_FP=20.*i, Y_FP=1., PINHOLE_ID=0) for i in range(4)])
        code, _ = prog.run("ok2move", ["-i", os.path.join(d, "s.csv"), "--plotdir", os.path.join(d, "p"), "-o", os.path.join(d, "o")])
        ex.check(code not in (0, 250) and not os.path.exists(os.path.join(d, "o")), "plotdir", "plots without image are accepted"); ex.ran(1)


# ------------------------------------------------------------------------------------------------
def groups(ex):
    """groups of positioners that can move together"""
    cols = ["PETAL_LOC", "DEVICE_LOC", "LOCATION", "PINHOLE_ID", "DEVICE_ID", "DEVICE_TYPE", "X_FP", "Y_FP", "Z_FP"]
    jobs = [("real", 0, 0)]+[("patch", s, o) for s in range(1, 1 << 12) for o in range(2) if (ex.thorough or s % 7 == 3) and bin(s).count("1") > 1]
    jobs += [("hex", n, o) for n in (4, 9, 12) for o in range(3)]

    def job(j):
        kind, n, order = j
        with mc.scratch() as d:
            env = {}
            if kind == "real":
                m = Table.read(os.path.join(DATA, "fp-metrology.csv")); m = m[m["DEVICE_TYPE"] == "POS"]
                pos = [(str(r["DEVICE_ID"]), float(r["X_FP"]), float(r["Y_FP"])) for r in m]
            else:
                k = n if kind == "hex" else 4
                xy = [(10.4*(i+0.5*(q % 2))-20+0.01*q, 9.01*q) for q in range(k if kind == "hex" else 3) for i in range(k)]
                if kind == "patch": xy = [p for i, p in enumerate(xy) if n >> i & 1]
                xy = {0: xy, 1: xy[::-1], 2: [xy[i] for i in np.argsort(np.cos(1.3*np.arange(len(xy))))]}[order]
                pos = [("M%05d" % (7*i % 211), x, y) for i, (x, y) in enumerate(xy)]
                rows = [dict(PETAL_LOC=3, DEVICE_LOC=i, LOCATION=3000+i, PINHOLE_ID=0, DEVICE_ID=p[0], DEVICE_TYPE="POS", X_FP=repr(p[1]), Y_FP=repr(p[2]), Z_FP=0.) for i, p in enumerate(pos)]
                fid = [dict(PETAL_LOC=3, DEVICE_LOC=500, LOCATION=3500, PINHOLE_ID=q, DEVICE_ID="P1", DEVICE_TYPE="FIF", X_FP=3.+q, Y_FP=4., Z_FP=0.) for q in (1, 2)]
                write(os.path.join(d, "fp-metrology.csv"), cols, rows[:2]+fid+rows[2:]); env["DESIMETER_DATA"] = d
            os.mkdir(os.path.join(d, "w"))
            code, text = prog.run("select_groups_of_positioners", [], env=env, cwd=os.path.join(d, "w"))
            if code: return "the program ends with %d: %s" % (code, text[-300:])
            got = []
            for g in range(4):
                with open(os.path.join(d, "w", "group-%d.csv" % g)) as f: ids = [l.strip() for l in f][1:]
                with open(os.path.join(d, "w", "group-%d.list" % g)) as f: lst = ast.literal_eval(f.read())
                if ids != lst: return "the two lists of group %d differ" % g
                got.append(ids)
        where = {p[0]: (p[1], p[2]) for p in pos}
        al = [i for g in got for i in g]
        if len(al) != len(set(al)): return "a positioner is in more than one group"
        if not set(al) <= set(where): return "%s is not a positioner" % sorted(set(al)-set(where))[0]
        left = list(where)
        for k, g in enumerate(got):
            gx = np.array([where[i] for i in g]).reshape(-1, 2); lx = np.array([where[i] for i in left]).reshape(-1, 2)
            if len(g):
                D = np.hypot(gx[:, None, 0]-gx[None, :, 0], gx[:, None, 1]-gx[None, :, 1]); np.fill_diagonal(D, np.inf)
                if np.min(D) < 12.:
                    a, b = np.unravel_index(np.argmin(D), D.shape)
                    return "%s and %s of group %d are %.2f mm apart" % (g[a], g[b], k, D[a, b])
            for i, l in zip(left, lx):
                if i not in g and (not len(g) or np.min(np.hypot(gx[:, 0]-l[0], gx[:, 1]-l[1])) >= 12.): return "%s would fit in group %d but is not in it" % (i, k)
            left = [i for i in left if i not in g]
        return None
    sweep(ex, "groups", jobs, job)


# ------------------------------------------------------------------------------------------------
def detect(ex):
    """positioners identified by the moves of their fibers"""
    m = Table.read(os.path.join(DATA, "fp-metrology.csv"))
    pos = m[(m["DEVICE_TYPE"] == "POS")]
    pos = pos[np.flatnonzero((pos["PETAL_LOC"] == 3) | (pos["PETAL_LOC"] == 6))][::4]
    n = len(pos)
    X, Y = np.array(pos["X_FP"], float), np.array(pos["Y_FP"], float)
    ID = [str(i) for i in pos["DEVICE_ID"]]
    t0 = FVC2FP.read(io.fvc2fp_filename())
    k = np.arange(n)
    off = np.array([0.5, 3.6, 5.5, 6.4, 2.6])
    steps = [0., 0.02, 0.15, 0.35, 0.7]

    def job(c):
        req, pattern, limits, images, deform, extra, order, twin = c
        # where the fibers are after the move
        r = off[(k*3+k//5) % 5]; a = 2.4*k
        x1, y1 = X+r*np.cos(a), Y+r*np.sin(a)
        mv = np.zeros(n)
        sel = np.flatnonzero(k % 17 == 5)            # some move
        for q, i in enumerate(sel): mv[i] = steps[1+(q+pattern) % 4]
        x0, y0 = x1-mv*np.cos(1.1*k), y1-mv*np.sin(1.1*k)
        wanted = [ID[i] for i in sel] if req == 0 else [ID[i] for i in sel[::2]] if req == 1 else [ID[i] for i in sel]+[ID[3], ID[9], "M99999"]
        xs1, ys1, xs0, ys0, mm = list(x1), list(y1), list(x0), list(y0), list(mv)
        if twin:
            # a second moving spot near a requested positioner, farther from its centre
            i = [i for i in sel if ID[i] in wanted and 0.1 < mv[i] < 0.5][0]
            xs1.append(X[i]-6.9*np.cos(a[i])); ys1.append(Y[i]-6.9*np.sin(a[i])); xs0.append(xs1[-1]+0.25); ys0.append(ys1[-1]); mm.append(0.25)
        xs1, ys1, xs0, ys0, mm = map(np.array, (xs1, ys1, xs0, ys0, mm))
        minm, maxm, rad, mind = [(0.05, 0.5, 7., 3.), (0.2, 0.5, 7., 3.), (0.05, 1., 7., 0.), (0.05, 0.5, 6., 3.), (0.05, 0.2, 5., 5.)][limits]
        arg = [[], ["--min-move-mm", 0.2], ["--max-move-mm", 1., "--min-dist-from-center-mm", 0.], ["--max-match-radius-mm", 6.], ["--max-move-mm", 0.2, "--max-match-radius-mm", 5., "--min-dist-from-center-mm", 5.]][limits]
        # what must be found
        det = np.flatnonzero((mm > minm) & (mm < maxm))
        want = {}
        cen = {i: (x, y) for i, x, y in zip(ID, X, Y) if i in wanted}
        cl = {}
        for q in det:
            ds = {i: np.hypot(xs1[q]-p[0], ys1[q]-p[1]) for i, p in cen.items()}
            i = min(ds, key=ds.get)
            if i not in cl or ds[i] < cl[i][0]: cl[i] = (ds[i], q)
        for i, (dd, q) in cl.items():
            if dd < rad and dd > mind: want[i] = q
        with mc.scratch() as d:
            def image(fn, x, y, which, drop):
                px, py = t0.fp2fvc(x, y)
                if deform and which:
                    px, py = px+2.5*which, py-1.5*which
                    ang = 2e-4*which; px, py = 3000+(px-3000)*np.cos(ang)-(py-3000)*np.sin(ang), 3000+(px-3000)*np.sin(ang)+(py-3000)*np.cos(ang)
                i = np.flatnonzero(~np.isin(np.arange(len(x)), drop))
                if extra:
                    fx, fy = t0.fp2fvc(np.array([20.+31.*which, -90.]), np.array([-250., -320.+17.*which]))
                    px, py, i = np.r_[px, fx], np.r_[py, fy], np.r_[i, len(x), len(x)+1]
                o = i if not order else i[np.argsort(np.cos((1.7+0.2*which)*np.arange(len(i))))]
                write(fn, ["XPIX", "YPIX", "COUNTS"], [dict(XPIX=repr(float(px[q])), YPIX=repr(float(py[q])), COUNTS=1000.+q) for q in o])
                return fn
            fixed = [q for q in range(n) if mv[q] == 0]
            drop0 = fixed[2:30:9] if extra else []
            drop1 = fixed[3:30:9] if extra else []
            after = [image(os.path.join(d, "a%d.csv" % w), xs1, ys1, w, drop1) for w in range(images)]
            before = [image(os.path.join(d, "b%d.csv" % w), xs0, ys0, w+1 if deform else w, drop0) for w in range(images)]
            o = os.path.join(d, "out.csv")
            code, text = prog.run("detect_and_match_moving_positioners", ["--before-moves"]+before+["--after-moves"]+after+["-p", ",".join(wanted), "-o", o]+arg)
            if code: return "the program ends with %d: %s" % (code, text[-400:])
            got = read(o) if os.path.exists(o) else []
        ids = [r["DEVICE_ID"] for r in got]
        if len(ids) != len(set(ids)): return "a positioner is written twice"
        if set(ids) != set(want): return "the positioners found are %s instead of %s" % (sorted(ids), sorted(want))
        row = {str(r["DEVICE_ID"]): r for r in m if str(r["DEVICE_ID"]) in want}
        for r in got:
            q = want[r["DEVICE_ID"]]; w = row[r["DEVICE_ID"]]
            for c_, v, tol in (("X_FP", xs1[q], 2e-3), ("Y_FP", ys1[q], 2e-3), ("X_FP_METRO", float(w["X_FP"]), 1e-9), ("Y_FP_METRO", float(w["Y_FP"]), 1e-9), ("LOCATION", int(w["LOCATION"]), 0), ("PETAL_LOC", int(w["PETAL_LOC"]), 0), ("FLAGS", 4, 0)):
                if (not abs(float(r[c_])-v) <= tol*(4 if images > 1 and c_ in ("X_FP", "Y_FP") and not deform else 60 if images > 1 and c_ in ("X_FP", "Y_FP") else 1)): return "%s of %s is %s instead of %s" % (c_, r["DEVICE_ID"], r[c_], v)
            px, py, _ = fp2ptl(int(w["PETAL_LOC"]), np.array([float(r["X_FP"])]), np.array([float(r["Y_FP"])]))
            qq, ss = xy2qs(px, py)
            for c_, v in (("PTL_X", px[0]), ("PTL_Y", py[0]), ("Q", qq[0]), ("S", ss[0])):
                if (not abs(float(r[c_])-v) <= 1e-6): return "%s of %s is %s instead of %s" % (c_, r["DEVICE_ID"], r[c_], v)
            gx, gy = t0.fvc2fp(np.array([float(r["XPIX"])]), np.array([float(r["YPIX"])]))
            if np.hypot(gx[0]-float(r["X_FP"]), gy[0]-float(r["Y_FP"])) > 1e-6: return "the pixel and focal plane positions of %s disagree" % r["DEVICE_ID"]
        return None
    jobs = list(itertools.product(range(3), range(4), range(5), (1, 2), (0, 1), (0, 1), (0, 1), (0, 1)))
    if not ex.thorough: jobs = [j for i, j in enumerate(jobs) if (j[0]+j[1]+j[2]+j[3]+j[4]*2+j[5]+j[6]*3+j[7]) % 5 == 0]
    sweep(ex, "detect", jobs, job, lambda j: dict(zip(("request", "pattern", "limits", "images", "deformed", "extra", "order", "twin"), j)))


# ------------------------------------------------------------------------------------------------
def header_file(fn, which, blocks):
    """a FITS file whose header unit number `which` has the keywords"""
    h = [fits.PrimaryHDU(), fits.ImageHDU(np.zeros((2, 2)))]
    for i, k in blocks.items():
        for a, b in k.items(): h[i].header[a] = b
    fits.HDUList(h).writeto(fn)


def predict(ex):
    """field rotation for every combination of arguments or header keywords"""
    sky = [(10., 20., 58789.25), (200.5, -8., 58865.54), (310., 78.5, 59500.125)]
    jobs = []
    for s in range(3):
        for lst, ha, hexrot in itertools.product((None, 15., 0.), (None, -40., 0.), (None, 0., 120., -300.)):
            jobs.append(("args", s, lst, ha, hexrot))
        for hdu, sst, hexp, foc in itertools.product((0, 1), (None, "22:32:04.726", "00:00:00.000"), (0, 1), ("1.,2.,3.,4.,5.,120.", "0,0,0,0,0,-60")):
            jobs.append(("header", s, hdu, sst, (hexp, foc)))
        for gone in ("ra", "dec", "mjd"): jobs.append(("missing", s, gone, None, None))
    jobs.append(("noheader", 0, None, None, None))

    def job(j):
        kind, s, p, q, r = j
        ra, dec, mjd = sky[s]
        with mc.scratch() as d:
            h = 0.
            if kind in ("args", "missing"):
                a = dict(ra=ra, dec=dec, mjd=mjd)
                if kind == "missing": a.pop(p); a["lst"] = 30.
                else:
                    if p is not None: a["lst"] = (ra+p) % 360
                    if q is not None: a["ha"] = q
                    if r is not None: a["hexrot-arcsec"] = r; h = r/3600.
                    lst = (ra+p) % 360 if p is not None else ra+q if q is not None else mjd2lst(mjd)
                argv = ["--%s=%r" % i for i in a.items()]
            else:
                fn = os.path.join(d, "h.fits"); argv = ["--fits-header", fn]
                k = {"TARGTRA": ra, "TARGTDEC": dec, "MJD-OBS": mjd}
                blocks = {0: {"OTHER": 1}}
                if kind == "header":
                    lst = mjd2lst(mjd)
                    if q:
                        k["TCSST"] = q; v = [float(u) for u in q.split(":")]; lst = (v[0]+v[1]/60+v[2]/3600)*15.
                    if r[0]: k["HEXPOS"] = r[1]; k["FOCUS"] = r[1]; h = float(r[1].split(",")[5])/3600.
                    blocks = {p: k} if p else {0: k, 1: {"TARGTRA": 1., "TARGTDEC": 2.}}
                header_file(fn, 0, blocks)
            code, text = prog.run("desi_predict_fieldrot", argv)
        if kind in ("missing", "noheader"): return None if code not in (0,) and "FIELDROT" not in text else "an answer is given although %s is missing" % p
        if code: return "the program ends with %d: %s" % (code, text[-300:])
        m = re.search(r"^FIELDROT *= (\S+) deg\nDFIELDROTDT = (\S+) arcsec/min", text, re.M)
        if not m: return "the answer is %r" % text[-200:]
        w = fieldrot(ra=ra, dec=dec, mjd=mjd, lst_deg=lst, hexrot_deg=h), dfieldrotdt(ra=ra, dec=dec, mjd=mjd, lst_deg=lst)
        if (not abs(float(m.group(1))-w[0]) <= 6e-4) or (not abs(float(m.group(2))-w[1]) <= 6e-4): return "the field rotation is %s and its rate %s instead of %.4f, %.4f" % (m.groups()+w)
        return None
    sweep(ex, "predict", jobs, job)


# ------------------------------------------------------------------------------------------------
def sky_stars(fm, n=24):
    """a catalog of guide stars seen through the field model"""
    rows = []
    gf = [0, 2, 3, 5, 7, 8]
    for i in range(n):
        p = gf[i % 6]; x, y = 200.+1500.*((i*7) % 11)/11., 150.+700.*((i*5) % 7)/7.
        xf, yf = fm.all_gfa2fp(np.array([x]), np.array([y]), np.array([p]))
        r, d_ = fm.fp2radec(xf, yf)
        rows.append((p, x, y, float(np.atleast_1d(r)[0]), float(np.atleast_1d(d_)[0])))
    return rows


def guide(ex):
    """guide star fits by the program, for every arrangement of headers and catalogs"""
    jobs = list(itertools.product((0, 1), ("MJD-OBS", "TCSMJD", "both"), (None, "obs"), ("csv", "fits"), (0, 1), (0, 1, 2)))
    if not ex.thorough: jobs = [j for i, j in enumerate(jobs) if i % 4 == (i//4) % 4 or j[5] == 2 and i % 2]
    jobs += [("none", 0, 0, 0, 0, 0)]

    def model(mjd):
        fm = FieldModel(); fm.ra, fm.dec, fm.expid, fm.hexrot_deg, fm.adc1, fm.adc2 = 150.2, 12.5, 4242, -75./3600, 31., 333.
        fm.mjd = mjd; fm.lst = mjd2lst(mjd)
        return fm

    def job(j):
        hdu, key, cat, fmt, mk, bad = j
        mjd = 58865.54
        with mc.scratch() as d:
            if hdu == "none":
                header_file(os.path.join(d, "h.fits"), 0, {0: {"OTHER": 1}}); write(os.path.join(d, "c.csv"), ["xcentroid"], [])
                code, _ = prog.run("desi_fit_guide_star_coordinates", ["-i", os.path.join(d, "c.csv"), "-o", os.path.join(d, "o.json"), "--fits-header", os.path.join(d, "h.fits")])
                return None if code not in (0, 250) and not os.path.exists(os.path.join(d, "o.json")) else "a header without pointing ends with %d" % code
            k = dict(TARGTRA=150.2, TARGTDEC=12.5, EXPID=4242, FOCUS="1.,2.,3.,4.,5.,-75.", ADC1PHI=31., ADC2PHI=333.)
            used = mjd
            if cat: used = mjd; hm = mjd+0.31          # the catalog knows better
            else: hm = mjd
            if key in ("MJD-OBS", "both"): k["MJD-OBS"] = hm
            if key == "TCSMJD": k["TCSMJD"] = hm
            if key == "both": k["TCSMJD"] = hm+0.2
            header_file(os.path.join(d, "h.fits"), 0, {hdu: k} if hdu else {0: k, 1: dict(TARGTRA=1., TARGTDEC=2.)})
            truth = model(used)
            from desimeter.transform.tan2fp import tan2fp
            truth.sxx, truth.dra, truth.ddec, truth.sxy, truth.syy = 1.0002, 3e-4, -2e-4, 1e-5, 0.9999
            truth.fieldrot_zp_deg = 0.; truth.fieldrot_deg = truth.compute_fieldrot()+0.04
            rows = sky_stars(truth)
            if bad:      # false matches, that the catalog itself shows (more than 2 arcsec apart)
                rows = rows+[(rows[i][0], rows[i][1]+30., rows[i][2], rows[i][3], rows[i][4]) for i in (1, 5)]
            t = Table(dict(petal_loc=[r[0] for r in rows], xcentroid=[r[1] for r in rows], ycentroid=[r[2] for r in rows], ra_gaia=[r[3] for r in rows], dec_gaia=[r[4] for r in rows],
                           ra=[r[3]+(0.002 if i >= 24 else 1e-5) for i, r in enumerate(rows)], dec=[r[4] for r in rows]))
            if cat: t["mjd_obs"] = mjd+np.linspace(-1e-3, 1e-3, len(t))
            if bad == 2:
                t["pmra"], t["pmdec"], t["ref_epoch"] = 800.*np.cos(np.arange(len(t))), -700.*np.ones(len(t)), 2015.5
                from astropy.time import Time
                dy = Time(used, format="mjd").to_value(format="jyear")-2015.5
                t["ra_gaia"] -= dy*t["pmra"]/3600e3/np.cos(np.radians(t["dec_gaia"])); t["dec_gaia"] -= dy*t["pmdec"]/3600e3
            fn = os.path.join(d, "c."+fmt); t.write(fn)
            o = os.path.join(d, *(["new", "dir"] if mk else []), "o.json")
            code, text = prog.run("desi_fit_guide_star_coordinates", ["-i", fn, "-o", o, "--fits-header", os.path.join(d, "h.fits")]+(["--make-directory"] if mk else []))
            if code: return "the program ends with %d: %s" % (code, text[-300:])
            with open(o) as f: fm = FieldModel.fromjson(f.read())
        for a, w in (("ra", 150.2), ("dec", 12.5), ("expid", 4242), ("mjd", used), ("lst", mjd2lst(used)), ("adc1", 31.), ("adc2", 333.), ("hexrot_deg", -75./3600)):
            if (not abs(getattr(fm, a)-w) <= 1e-6): return "%s is %s instead of %s" % (a, getattr(fm, a), w)
        rows = np.array(rows[:24])
        r, de = fm.fp2radec(*fm.all_gfa2fp(rows[:, 1], rows[:, 2], rows[:, 0].astype(int)))
        err = np.max(np.hypot((r-rows[:, 3])*np.cos(np.radians(rows[:, 4])), de-rows[:, 4]))*3600
        if err > 0.02: return "guide stars are up to %.3f arcsec from their coordinates" % err
        xs, ys = np.array([0., 120., -200., 30.]), np.array([0., -90., 150., 300.])
        r1, d1 = fm.fp2radec(xs, ys); r2, d2 = truth.fp2radec(xs, ys)
        err = np.max(np.hypot((r1-r2)*np.cos(np.radians(d2)), d1-d2))*3600
        if err > 0.05: return "the field is up to %.3f arcsec from the truth" % err
        return None
    sweep(ex, "guide", jobs, job)


# ------------------------------------------------------------------------------------------------
IMAGES = ["single", "multi", "packed", "zipped", "date", "blank", "nodate", "astropy", "noext", "primary", "broken", "absent"]


def make_images(d):
    """writes one image of each kind; returns (path by kind, {kind: [(extension or None, date)]} as must be processed)"""
    path, want = {}, {}

    def hdu(date=None, name=None, key="DATE-OBS", cls=fits.ImageHDU):
        h = cls(np.zeros((3, 4), np.int16))
        if date is not None: h.header[key] = date
        if name: h.header["EXTNAME"] = name
        return h
    D = "2020-03-0%dT01:02:03"
    def put(kind, fn, hdus, w, op=None):
        p = os.path.join(d, fn); path[kind] = p; want[kind] = w
        if op == "gz":
            fits.HDUList(hdus).writeto(p[:-3])
            with open(p[:-3], "rb") as a, gzip.open(p, "wb") as b: b.write(a.read())
            os.remove(p[:-3])
        else: fits.HDUList(hdus).writeto(p)
    P = fits.PrimaryHDU
    put("single", "fvc-001.fits", [hdu(D % 1+".123", cls=P)], [(None, D % 1)])
    put("multi", "fvc-002.fits", [hdu(D % 2, cls=P), hdu(D % 3+".5", "F0000"), hdu(D % 4, "F0001"), hdu(D % 5, "BACK"), hdu(None, "F0002"), hdu(D % 6, "F0003")], [("F0000", D % 3), ("F0001", D % 4), ("F0003", D % 6)])
    put("packed", "fvc-003.fits.fz", [hdu(D % 1, cls=P), fits.CompImageHDU(np.zeros((8, 8), np.int16), header=fits.Header([("DATE-OBS", D % 7)]), name="F0000")], [("F0000", D % 7)])
    put("zipped", "fvc-004.fits.gz", [hdu(D % 8, cls=P)], [(None, D % 8)])
    put("date", "fvc.5.fits", [hdu(D % 9, key="DATE", cls=P)], [(None, D % 9)])
    put("blank", "fvc-006.fits", [hdu("  ", cls=P)], [])
    put("nodate", "fvc-007.fits", [hdu(cls=P)], [])
    put("astropy", "fvc-008.fits", [hdu("<astropy.Undefined>", cls=P)], [])
    put("noext", "fvc-009.fits", [hdu(D % 1, cls=P), hdu(D % 2), hdu(D % 3, "F0007")], [("F0007", D % 3)])
    put("primary", "fvc-010-primary.fits", [hdu(D % 1, cls=P)], [])
    path["broken"] = os.path.join(d, "fvc-011.fits"); want["broken"] = []
    with open(path["broken"], "w") as f: f.write("not an image")
    path["absent"] = os.path.join(d, "fvc-012.fits"); want["absent"] = []
    return path, want


def base_of(p):
    b = os.path.basename(p)
    for e in (".fits.fz", ".fits.gz", ".fits"): b = b.replace(e, "")
    return b.replace(".", "-")


def jobs_history(ex):
    """every history of preparing, running and losing results of the image processing jobs"""
    lists = [["single", "multi", "packed", "zipped", "date"], ["primary", "multi", "broken", "noext", "absent", "blank", "single", "nodate", "astropy"], IMAGES[::-1]]
    events = [("prep", 0), ("prep", 1), ("prep", 2), ("run", "all"), ("run", 0), ("run", "last"), ("lose", 0), ("half", 0)]
    depth = 5 if ex.thorough else 4
    hist = []
    for n in range(1, depth+1):
        for h in itertools.product(events, repeat=n):
            if h[0][0] != "prep" or h[-1][0] in ("lose", "half") or n > 1 and h[-1][0] != "prep" and h[-2][0] == h[-1][0] and n < 3: continue
            if n == depth and (h[1][0] == "prep" and h[2][0] == "prep" or sum(e[0] == "prep" for e in h) > 2): continue
            if n == depth and not ex.thorough and (h[0][1], h[1][1], h[-1][1]) not in ((0, "all", 1), (1, 0, 0), (2, "last", 2), (1, "all", "all"), (2, "all", 1), (0, 0, 0), (0, "all", "all")): continue
            hist.append(h)
    jobs = [(h, (1, 2, 4, 500)[i % 4], (None, "--min-gauss-fit-amplitude 3")[i % 2]) for i, h in enumerate(hist)]

    def job(j):
        h, size, opt = j
        with mc.scratch() as d:
            im, jd, od, b = [os.path.join(d, x) for x in ("im", "deep/jobs", "deep/out", "bin")]
            os.mkdir(im); os.mkdir(b)
            path, want = make_images(im)
            log = os.path.join(d, "log.txt")
            with open(os.path.join(b, "desi_fvc_proc"), "w") as f:
                f.write("#!/bin/bash\necho \"$@\" >> %s\nwhile (( $# )) ; do case $1 in -o|--output-transform) echo x > $2; shift 2;; *) shift;; esac; done\n" % log)
            os.chmod(os.path.join(b, "desi_fvc_proc"), 0o755)
            mode = {p: os.stat(p).st_mode for p in path.values() if os.path.exists(p)}
            done, exist, planned = set(), {}, []     # the model: marked as done, outputs that exist (1 table, 2 both), tasks of each job
            for step, (e, v) in enumerate(h):
                if e == "prep":
                    with open(os.path.join(d, "list.txt"), "w") as f: f.write("\n".join(path[k] for k in lists[v])+"\n")
                    code, text = prog.run("write_fvc_image_processing_scripts", ["-i", os.path.join(d, "list.txt"), "-j", jd, "-o", od, "--ntasks-per-job", size]+(["--options=%s" % opt] if opt else []))
                    if code: return "preparing the jobs (step %d) ends with %d: %s" % (step, code, text[-300:])
                    tasks = []
                    for k in lists[v]:
                        for ext, date in want[k]:
                            stem = "%s-%s-%s" % (base_of(path[k]), ext or "0", date)
                            tasks.append((path[k], ext, date, "%s/%s.csv" % (od, stem), "%s/transfo/%s.json" % (od, stem)))
                    todo = [t for t in tasks if exist.get(t[3], 0) < 2]
                    rows = read(os.path.join(od, "fvc-desimeter-and-dates.csv"))
                    if [(r["DATE"], r["FILE"]) for r in rows] != [(t[2], t[3]) for t in tasks]: return "the list of tables is %s" % [(r["DATE"], r["FILE"]) for r in rows][:4]
                    # read the jobs just written
                    names = re.findall(r"^wrote (.*job-\d+\.sh)$", text, re.M)
                    cmds = []; count = []
                    for nme in names:
                        if not os.path.exists(nme): return "%s was not written" % nme
                        if not os.stat(nme).st_mode & stat.S_IXUSR: return "%s cannot be executed" % os.path.basename(nme)
                        with open(nme) as f: t = f.read()
                        c = re.findall(r"^\s*(desi_fvc_proc .*)$", t, re.M); cmds += c; count.append(len(c))
                    w = ["desi_fvc_proc -i %s -o %s --output-transform %s%s%s" % (t[0], t[3], t[4], " --ext "+t[1] if t[1] else "", " "+opt if opt else "") for t in todo]
                    if [c.split() for c in cmds] != [c.split() for c in w]: return "the jobs process %s instead of %s" % (cmds[:3], w[:3])
                    if any(c > size+2 for c in count): return "a job has %d instead of about %d images" % (max(count), size)
                    if any(c < size for c in count[:-1]): return "jobs of %s images instead of %d" % (count, size)
                    planned = names, [todo[sum(count[:i]):sum(count[:i+1])] for i in range(len(count))]
                elif e == "run":
                    names, per = planned
                    sel = range(len(names)) if v == "all" else [0] if v == 0 else [len(names)-1]
                    for i in sel:
                        if os.path.exists(log): os.remove(log)
                        r = subprocess.run([names[i]], env=dict(os.environ, PATH=b+":"+os.environ["PATH"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                        if r.returncode: return "a job ends with %d: %s" % (r.returncode, r.stdout.decode()[-200:])
                        got = []
                        if os.path.exists(log):
                            with open(log) as f: got = [l.split()[3] for l in f]
                        w = [t for t in per[i] if t[3] not in done]
                        if got != [t[3] for t in w]: return "step %d processes %s instead of %s" % (step, [os.path.basename(g) for g in got], [os.path.basename(t[3]) for t in w])
                        for t in w:
                            done.add(t[3]); exist[t[3]] = 2
                            if not (os.path.exists(t[3]) and os.path.exists(t[4])): return "the outputs of %s are not where they should be" % t[3]
                elif exist:
                    # a result is lost (with its mark), or only the transform is
                    t = sorted(exist)[0]
                    tr = os.path.join(od, "transfo", os.path.basename(t)[:-4]+".json")
                    os.remove(tr) if os.path.exists(tr) else None
                    if e == "lose" and os.path.exists(t): os.remove(t)
                    exist[t] = 0 if e == "lose" else 1; done.discard(t)
                    fn = os.path.join(jd, "DONE.txt")
                    with open(fn) as f: l = [x for x in f if x.strip() != t]
                    with open(fn, "w") as f: f.writelines(l)
            for p, mo in mode.items():
                if os.stat(p).st_mode != mo: return "the mode of the image %s is changed" % os.path.basename(p)
        return None
    sweep(ex, "jobs", jobs, job, lambda j: dict(history=j[0], tasks=j[1], options=j[2]))


# ------------------------------------------------------------------------------------------------
def centers(ex):
    """distances from the centres of positioners"""
    m = Table.read(os.path.join(DATA, "fp-metrology.csv"))
    pos = m[m["DEVICE_TYPE"] == "POS"][::300]
    ids = [str(i) for i in pos["DEVICE_ID"]]
    D = [0.5, 2.99, 3.01, 4.5, 5.5, 6.5, 12.]
    jobs = [(p, o, s, unk) for p in range(len(D)) for o in range(3) for s in ("all", "ids", "table", "idstable", "unknown") for unk in (0, 1)]

    def job(j):
        p, o, s, unk = j
        dist = {i: D[(k+p) % len(D)] for k, i in enumerate(ids)}
        rows = [dict(LOCATION=int(r["LOCATION"]), X_FP=repr(float(r["X_FP"]+dist[i]*np.cos(k+p))), Y_FP=repr(float(r["Y_FP"]+dist[i]*np.sin(k+p)))) for k, (i, r) in enumerate(zip(ids, pos))]
        if unk: rows += [dict(LOCATION=-1, X_FP=3., Y_FP=4.), dict(LOCATION=99999, X_FP=0., Y_FP=0.)]
        rows = [rows[i] for i in (np.arange(len(rows)), np.arange(len(rows))[::-1], np.argsort(np.cos(2.2*np.arange(len(rows)))))[o]]
        with mc.scratch() as d:
            write(os.path.join(d, "s.csv"), ["LOCATION", "X_FP", "Y_FP"], rows)
            sel, a = None, []
            if s in ("ids", "idstable"): sel = ids[1::2]; a = ["-p", ",".join(sel)]
            if s == "unknown": sel = ids[:2]+["M77777"]; a = ["-p", ",".join(sel)]
            if s in ("table", "idstable"):
                q = ids[::3]; write(os.path.join(d, "t.csv"), ["DEVICE_ID", "X"], [dict(DEVICE_ID=i, X=1) for i in q]); a += ["--other-table-with-device-ids", os.path.join(d, "t.csv")]
                sel = sel or q
            code, text = prog.run("compute_distance_from_center", ["-i", os.path.join(d, "s.csv")]+a)
        if code: return "the program ends with %d: %s" % (code, text[-300:])
        want = {i: v for i, v in dist.items() if sel is None or i in sel}
        for i in sel or []: want.setdefault(i, -1.)
        got = {a: float(b) for a, b in re.findall(r"^(\S+) dist= +(\S+) mm", text, re.M)}
        if set(got) != set(want) or any((not abs(got[i]-want[i]) <= 6e-4) for i in want): return "the distances are %s instead of %s" % (got, want)
        v = np.array(list(want.values()))
        for l, w in [("number of matched", np.sum(v > 0)), ("number of unmatched", np.sum(v < 0))]+[("number with dist<%dmm" % k, np.sum((v > 0) & (v < k))) for k in (3, 4, 5, 6)]:
            q = re.search(r"^%s *= (\d+)" % l, text, re.M)
            if not q or int(q.group(1)) != w: return "the %s is %s instead of %d" % (l, q and q.group(1), w)
        for l, lo, hi in (("dist>6mm", 6, 1e9), ("5mm<dist<6mm", 5, 6), ("4mm<dist<5mm", 4, 5), ("3mm<dist<4mm", 3, 4)):
            q = re.search(r"positioners with %s = (\[[^]]*\])" % l, text)
            g = set(re.findall(r"'(\w+)'", q.group(1))) if q else set()
            if g != {i for i, x in want.items() if lo < x <= hi}: return "positioners with %s are %s" % (l, g)
        return None
    sweep(ex, "centers", jobs, job)


CENT = {"M00101": (0., 0.), "M00102": (8., 0.), "M00103": (4., 6.9)}
REG = [(-3., -1.), (4., 0.3), (10., -1.), (4., 2.4), (1., 3.9), (7., 4.), (4., 9.5), (5.9, 0.), (0.4, 0.), (0., 0.), (8.4, 0.), (6., 0.), (-6.03, 0.1)]


def optima(ok):
    n, m = ok.shape
    sols = [(frozenset(), frozenset())]
    for i in range(n):
        sols = sols+[(s | {(i, j)}, u | {j}) for s, u in sols for j in range(m) if ok[i, j] and j not in u]
    b = max(len(s) for s, _ in sols)
    return [s for s, _ in sols if len(s) == b]


def ambiguous(ex):
    """the list of possible matches: every arrangement of centroids, arm lengths, petals"""
    names = sorted(CENT)
    cents = [c for n in (1, 2, 3) for c in (itertools.permutations(range(len(REG)), n) if ex.thorough else itertools.combinations(range(len(REG)), n))]
    jobs = [(c, arm, petal) for c in cents for arm in (None, 0, 1, 2) for petal in (None, 4) if ex.thorough or (sum(c)+len(c)+(arm or 0)) % 3 == 0]
    jobs = [j for j in jobs if not (12 in j[0] and j[2])]       # the selection of a petal leaves out centroids in the last 0.1 mm
    ARMS = [[(3., 3.), (3., 3.), (3., 3.)], [(2.6, 2.6), (3.2, 2.8), (3., 3.1)], [(3., 3.), None, (2.6, 2.6)]]

    def job(j):
        cs, arm, petal = j
        with mc.scratch() as d:
            m = [dict(PETAL_LOC=4, DEVICE_LOC=7+i, LOCATION=4007+i, PINHOLE_ID=0, DEVICE_ID=n, DEVICE_TYPE="POS", X_FP=CENT[n][0], Y_FP=CENT[n][1], Z_FP=0.) for i, n in enumerate(names)]
            far = dict(PETAL_LOC=5, DEVICE_LOC=1, LOCATION=5001, PINHOLE_ID=0, DEVICE_ID="M00900", DEVICE_TYPE="POS", X_FP=60., Y_FP=3., Z_FP=0.)
            fid = [dict(far, PINHOLE_ID=k, DEVICE_ID="P7", DEVICE_TYPE="FIF", PETAL_LOC=4, DEVICE_LOC=30, LOCATION=4030, X_FP=2.+k, Y_FP=-3.) for k in (1, 2)]
            m = [far]+fid+m
            write(os.path.join(d, "fp-metrology.csv"), list(m[0]), m)
            xy = [(REG[r][0]+0.011*i, REG[r][1]-0.007*i) for i, r in enumerate(cs)]
            f = [dict(X_FP=x, Y_FP=y, COUNTS=2e5, PINHOLE_ID=0, DEVICE_ID=names[i % 3]) for i, (x, y) in enumerate(xy)]
            f += [dict(X_FP=60.5, Y_FP=4., COUNTS=3e5, PINHOLE_ID=0, DEVICE_ID="M00900"), dict(X_FP=30., Y_FP=30., COUNTS=9e4, PINHOLE_ID=0, DEVICE_ID="")]
            f = [dict(X_FP=3., Y_FP=-3., COUNTS=5e5, PINHOLE_ID=1, DEVICE_ID="P7")]+f
            write(os.path.join(d, "fvc.csv"), list(f[0]), f)
            a = [os.path.join(d, "fvc.csv")]
            arms = {n: (3., 3.) for n in names+["M00900"] if n in [r["DEVICE_ID"] for r in f]}
            if arm is not None:
                L = [(n, q) for n, q in zip(names, ARMS[arm]) if q]+[("M00900", (3., 3.))]
                write(os.path.join(d, "cal.csv"), ["POS_ID", "LENGTH_R1", "LENGTH_R2"], [dict(POS_ID=n, LENGTH_R1=q[0], LENGTH_R2=q[1]) for n, q in L[::-1]]); a += ["--calib", os.path.join(d, "cal.csv")]
                arms = dict(L)
            if petal: a += ["--petal", petal]
            code, text = prog.run("desi_print_ambigous_groups", a, env=dict(DESIMETER_DATA=d))
        if code: return "the program ends with %d: %s" % (code, text[-300:])
        P = [r for r in m if r["DEVICE_TYPE"] == "POS" and (not petal or r["PETAL_LOC"] == petal)]
        known = {n: sum(arms[n]) for n in [r["DEVICE_ID"] for r in P] if n in arms and (arm is not None or n in [q["DEVICE_ID"] for q in f])}
        med = np.median(list(known.values()))
        F = [r for r in f if r["PINHOLE_ID"] == 0]
        ok = np.array([[np.hypot(r["X_FP"]-p["X_FP"], r["Y_FP"]-p["Y_FP"]) < known.get(p["DEVICE_ID"], med)+0.1 for p in P] for r in F])
        sols = optima(ok)
        # the union of what is printed must be made of optimal matches, show every ambiguity and nothing impossible
        line = re.compile(r"^(M\d+) (\S+) (\S+) (\S+) (\S+) (\d+)$", re.M)
        got = {}
        for n, x, y, ex_, ey, k in line.findall(text): got.setdefault(n, []).append((float(x), float(y), float(ex_), float(ey), int(k)))
        possible = {}
        for s in sols:
            for i, q in s: possible.setdefault(P[q]["DEVICE_ID"], set()).add((round(F[i]["X_FP"], 6), round(F[i]["Y_FP"], 6)))
        for n, l in got.items():
            if any(k != len(l) for *_, k in l): return "%s has %d possible centroids but announces %s" % (n, len(l), [k for *_, k in l])
            seen = {(round(x, 6), round(y, 6)) for x, y, *_ in l}
            if len(seen) != len(l): return "a centroid is listed twice for %s" % n
        tot = len(sols[0])
        for n in possible:
            if n in got and len(got[n]) == 1 and len(possible[n]) > 1 and all(any(P[q]["DEVICE_ID"] == n for _, q in s) for s in sols): return "%s is said to have one possible centroid, but it has %d" % (n, len(possible[n]))
            if all(any(P[q]["DEVICE_ID"] == n for _, q in s) for s in sols) and n not in got: return "%s, that can always be matched, is not listed" % n
        # elbows
        cen = {r["DEVICE_ID"]: (r["X_FP"], r["Y_FP"]) for r in P}
        for n, l in got.items():
            if n not in arms: continue
            r1, r2 = arms[n]
            for x, y, exx, ey, _ in l:
                if (round(x, 6), round(y, 6)) not in possible.get(n, ()): continue
                dc = np.hypot(x-cen[n][0], y-cen[n][1])
                if not np.isfinite(exx+ey) or dc < r1+r2 and dc > abs(r1-r2)+1e-6 and abs(np.hypot(exx-cen[n][0], ey-cen[n][1])-r1) > 0.06: return "the elbow of %s for a fiber %.4f mm from its centre is at %s,%s" % (n, dc, exx, ey)
                if dc > r1+r2+1e-6:
                    fr = r1/(r1+r2)
                    if np.hypot(exx-cen[n][0]-fr*(x-cen[n][0]), ey-cen[n][1]-fr*(y-cen[n][1])) > 1e-3: return "the elbow of %s, fully extended, is at %s,%s" % (n, exx, ey)
                if abs(r1-r2)+1e-6 < dc < r1+r2 and abs(np.hypot(exx-x, ey-y)-r2) > 1e-3: return "the elbow of %s is %.4f mm from the fiber" % (n, np.hypot(exx-x, ey-y))
        return None
    sweep(ex, "ambiguous", jobs, job)


SECTIONS = [moving, groups, detect, predict, guide, jobs_history, centers, ambiguous]
