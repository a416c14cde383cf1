"""C09: fiber view camera pixels <-> focal plane, and the fit of that transformation to fiducials."""
import itertools, json, os, copy
import numpy as np
import mc
from mc import maxabs, snapshot
from astropy.table import Table
from desimeter import io
from desimeter.transform import fvc2fp as M
from desimeter.transform.fvc2fp import FVC2FP
from desimeter.transform.zhaoburge import getZhaoBurgeXY

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("every combination of (shipped transformation, rotation over the full turn, scale, shift, distortion on/off, camera axis "
        "signs) x full polar lattice of the focal plane, both ways and against an independent formula; every combination of "
        "(true transformation, starting point, distortion refit, fixed scale/rotation, subset of fiducials, row order, unmatched "
        "rows) refitted on simulated fiducials; every ordered pair of fits on one object. Non-trivial: distinct rounded positions "
        "or fitted parameters.")
ASSUMPTIONS = ["distortion coefficients of the size of the shipped ones", "true rotation/scale reachable from the fixed starting point of the fit (checked over the full turn)"]

DATA = str(io.desimeter_data_dir())
FILES = [io.fvc2fp_filename(), os.path.join(DATA, "single-lens-fvc2fp.json"), os.path.join(DATA, "canon-lens-fvc2fp.json")]
METRO = io.load_metrology()


def plane(nr, na, rmax=412.):
    r = np.concatenate([[0.], np.linspace(7., rmax, nr)])
    a = np.radians(np.arange(0, 360, 360./na)+0.5)
    R, A = [v.ravel() for v in np.meshgrid(r, a)]
    return R*np.cos(A), R*np.sin(A)


def ref_fvc2fp(p, x, y):
    """p: the json parameters"""
    a = (x-p['xfvc_offset'])/p['xfvc_scale']+p['offset_x']
    b = (y-p['yfvc_offset'])/p['yfvc_scale']+p['offset_y']
    z = (a+1j*b)*p['scale']*np.exp(1j*p['rotation'])
    dx, dy = getZhaoBurgeXY(p['zbpolids'], p['zbcoeffs'], z.real.copy(), z.imag.copy())
    return 420.*(z.real+dx), 420.*(z.imag+dy)


def params(full):
    base = []
    for f in FILES:
        with open(f) as fx:
            p = json.load(fx)
        p.setdefault('xfvc_scale', -3000.); p.setdefault('yfvc_scale', 3000.)
        p.setdefault('xfvc_offset', 3000.); p.setdefault('yfvc_offset', 3000.)
        if p['version'] == '1':
            p['version'] = '2'; p['zbpolids'] = [2, 5, 6, 9, 20, 28, 29, 30]
        base.append((os.path.basename(f), p))
    rots = [-3.1, -1.6, -0.3, -0.0059, 0., 0.01, 0.7, 1.5707963267948966, 3.0] if full else [-1.6, -0.0059, 0., 0.3, 3.0]
    scales = [0.9, 1., 1.036, 1.2] if full else [0.95, 1.036]
    offs = [(0., 0.), (-0.0074, -0.0209), (0.05, -0.1)]
    axes = [(-3000., 3000., 3000., 3000.), (3000., 3000., 3000., 2900.), (2500., -2600., 3100., 2800.)]
    for (name, p), r, s, o, ax, zb in itertools.product(base, rots, scales, offs, axes, (1., 0., -1.)):
        q = dict(p); q['rotation'] = r; q['scale'] = s; q['offset_x'], q['offset_y'] = o
        q['xfvc_scale'], q['yfvc_scale'], q['xfvc_offset'], q['yfvc_offset'] = ax; q['zbcoeffs'] = [zb*c for c in p['zbcoeffs']]
        yield (name, r, s, o, ax, zb), q


def transforms(ex):
    """both directions against an independent formula"""
    x, y = plane(6, 12) if not ex.thorough else plane(14, 36)
    for f in FILES:        # as shipped
        with ex.guard("shipped/"+os.path.basename(f)):
            t = FVC2FP.read(f)
            u = FVC2FP.read_jsonfile(f); v = M.read_jsonfile(f)
            a = t.fp2fvc(x, y)
            ex.check(all(np.array_equal(np.array(a), np.array(w.fp2fvc(x, y))) for w in (u, v)), "readers/"+f, "the readers disagree")
            ex.ran(3); ex.state(f)

    def one(case):
        key, q = case
        bad = []
        try:
            t = FVC2FP.fromjson(json.dumps(q))
            st = snapshot(vars(t))
            b = snapshot([x, y])
            px, py = t.fp2fvc(x, y)
            if snapshot([x, y]) != b:
                bad.append(("mutated", "fp2fvc modifies its inputs", 0))
            b = snapshot([px, py])
            fx, fy = t.fvc2fp(px, py)
            if snapshot([px, py]) != b:
                bad.append(("mutated2", "fvc2fp modifies its inputs", 0))
            w = maxabs(np.hypot(fx-x, fy-y))
            if not w < 1e-6:
                bad.append(("roundtrip", "fp -> fvc -> fp does not close (mm)", w))
            qx, qy = t.fp2fvc(fx, fy)
            w = maxabs(np.hypot(qx-px, qy-py))
            if not w < 1e-5:
                bad.append(("roundtrip2", "fvc -> fp -> fvc does not close (pixels)", w))
            rx, ry = ref_fvc2fp(q, px, py)
            w = maxabs(np.hypot(rx-fx, ry-fy))
            if not w < 1e-9:
                bad.append(("formula", "fvc2fp is not shift, rotate, scale, distort (mm)", w))
            u = FVC2FP.fromjson(t.tojson())
            if not (np.array_equal(u.fvc2fp(px, py), (fx, fy)) and np.array_equal(u.fp2fvc(x, y), (px, py))):
                bad.append(("json", "saved and re-read transformation gives other positions", 0))
            i = 5
            ox, oy = t.fp2fvc(x[i:i+1], y[i:i+1]); gx, gy = t.fvc2fp(px[i:i+1], py[i:i+1])
            if not (max(abs(ox[0]-px[i]), abs(oy[0]-py[i])) < 1e-6 and max(abs(gx[0]-fx[i]), abs(gy[0]-fy[i])) < 1e-9):
                bad.append(("one", "one point alone and in a batch differ", 0))
            if snapshot(vars(t)) != st:
                bad.append(("state", "using the transformation changes it", 0))
            return bad, len({(round(a, 2), round(b, 2)) for a, b in zip(px.tolist(), py.tolist())})
        except Exception as e:
            if mc.under_test(e):
                return [("crash", "unexpected %s: %s" % (type(e).__name__, e), 0)], 0
            raise
    cases = list(params(ex.thorough))
    for (key, q), (bad, nd) in zip(cases, mc.pmap(one, cases)):
        ex.ran(7*x.size, sample=key); ex.states(nd)
        for k, msg, w in bad:
            ex.fail("%s/%s" % (key, k), msg, worst=w, params=q)


FID = METRO[(METRO['PINHOLE_ID'] > 0) & np.isin(METRO['DEVICE_TYPE'], ['FIF', 'GIF'])]


def simulate(t, fid, order=None, extra=True):
    """spots table: fiducial pinholes at their true pixel positions, plus unmatched and positioner rows"""
    x, y = t.fp2fvc(np.array(fid['X_FP'], float), np.array(fid['Y_FP'], float))
    loc, pin = np.array(fid['LOCATION']), np.array(fid['PINHOLE_ID'])
    if extra:
        x = np.concatenate([[2500.], x[:7], [3111.], x[7:], [3456.7, 100.]]); y = np.concatenate([[2600.], y[:7], [4000.], y[7:], [1234.5, 5000.]])
        loc = np.concatenate([[-1], loc[:7], [3001], loc[7:], [-1, 4007]]); pin = np.concatenate([[0], pin[:7], [0], pin[7:], [0, 0]])
    s = Table(dict(XPIX=x, YPIX=y, LOCATION=loc, PINHOLE_ID=pin, COUNTS=1000.+np.arange(x.size)))
    if order is not None:
        s = s[order(len(s))]
    return s


ORDERS = [("asis", lambda n: np.arange(n)), ("reversed", lambda n: np.arange(n)[::-1]),
          ("interleaved", lambda n: np.concatenate([np.arange(0, n, 2), np.arange(1, n, 2)])),
          ("strided", lambda n: (np.arange(n)*7 % n if n % 7 else np.argsort(np.arange(n)*7 % (n+1)))),
          ("rotated", lambda n: np.roll(np.arange(n), n//3))]
LOCS = np.unique(np.array(FID['LOCATION']))
SUBSETS = [("all", np.ones(len(FID), bool)),
           ("FIF", np.array(FID['DEVICE_TYPE'] == 'FIF')),
           ("odd", np.isin(FID['LOCATION'], LOCS[1::2])),
           ("petals0-4", np.array(FID['LOCATION'])//1000 <= 4),
           ("nopin1", np.array(FID['PINHOLE_ID']) != 1),
           ("every7", np.isin(FID['LOCATION'], LOCS[::7])),
           ("ragged", (np.arange(len(FID))*5 % 11) > 3)]
TRUTHS = [(0., 0., 0., 0.), (0.002, 0.01, 0.003, -0.002), (-0.01, -0.05, 0.02, 0.02), (0.03, 0.3, 0.05, -0.05), (0., 3.0, -0.01, 0.), (0., -1.5, 0., 0.)]
TRUTHS = TRUTHS+[(0.1, 2.2, -0.05, 0.1), (-0.06, -0.7, 0.08, 0.03)]


def truth(ds, dr, dx, dy):
    t = FVC2FP.read_jsonfile(FILES[0])
    t.scale += ds; t.rotation += dr; t.offset_x += dx; t.offset_y += dy
    return t


GX, GY = plane(7, 24)


def err_um(u, t):
    px, py = t.fp2fvc(GX, GY)
    x, y = u.fvc2fp(px, py)
    return maxabs(np.hypot(x-GX, y-GY))*1000.


def fits(ex):
    """refit on simulated fiducials: recovery, statistics, updated columns, untouched inputs"""
    jobs = []
    for it in range(len(TRUTHS)):
        for start, zb, upd in (("file", False, True), ("file", True, True), ("fresh", True, False)):
            jobs.append((it, start, zb, "all", "asis", upd, False, False))
    for sub, _ in SUBSETS:
        for zb in (False, True):
            jobs.append((2, "file", zb, sub, "interleaved", True, False, False))
    for o, _ in ORDERS:
        for zb, sub in ((False, "ragged"), (True, "odd")):
            jobs.append((3, "file", zb, sub, o, True, False, False))
    for it in (1, 2, 3):
        for fs, fr in ((True, False), (False, True), (True, True)):
            for zb in (False, True):
                jobs.append((it, "file", zb, "every7", "asis", False, fs, fr))
    if ex.thorough:
        jobs = list(itertools.product(range(len(TRUTHS)), ("file", "fresh"), (False, True), [s[0] for s in SUBSETS], [o[0] for o in ORDERS], (True, False), (False,), (False,)))
        jobs = [j for j in jobs if not (j[1] == "fresh" and not j[2])]+list(itertools.product(range(len(TRUTHS)), ("file",), (False, True), ("all", "ragged", "every7"), ("asis", "strided"), (False,), (True, False), (True, False)))

    def one(job):
        it, start, zb, sub, o, upd, fs, fr = job
        bad = []
        try:
            t = truth(*TRUTHS[it])
            fid = FID[dict(SUBSETS)[sub]]
            s = simulate(t, fid, dict(ORDERS)[o])
            u = FVC2FP.read_jsonfile(FILES[0]) if start == "file" else FVC2FP()
            if fs:
                u.scale = t.scale
            if fr:
                u.rotation = t.rotation
            metro = METRO.copy() if upd else None
            ms = snapshot(metro) if upd else None
            before = s.copy()
            u.fit(s, metrology=metro, zbfit=zb, update_spots=upd, fixed_scale=fs, fixed_rotation=fr)
            for c in before.colnames:
                if not np.array_equal(np.asarray(before[c]), np.asarray(s[c])):
                    bad.append(("spots", "fit modifies the input column %s" % c, 0))
            if upd and snapshot(metro) != ms:
                bad.append(("metrology", "fit modifies the metrology table", 0))
            if not upd and s.colnames != before.colnames:
                bad.append(("columns", "columns added although not asked", 0))
            lim = (0.2 if not zb else 0.01) if start == "file" else 1.5
            if sub in ("every7", "petals0-4") and not zb:
                lim = 1.0
            e = err_um(u, t)
            if not e < lim:
                bad.append(("recovery", "fit to noise free fiducials does not give the true transformation (um)", e))
            if fs and u.scale != t.scale:
                bad.append(("fixed_scale", "fixed scale was changed", u.scale-t.scale))
            if fr and u.rotation != t.rotation:
                bad.append(("fixed_rotation", "fixed rotation was changed", u.rotation-t.rotation))
            # statistics
            k = (np.array(s['LOCATION']) >= 0) & (np.array(s['PINHOLE_ID']) > 0)
            key = {(l, p): i for i, (l, p) in enumerate(zip(METRO['LOCATION'].tolist(), METRO['PINHOLE_ID'].tolist()))}
            fx, fy = u.fvc2fp(np.array(s['XPIX']), np.array(s['YPIX']))
            mi = np.array([key[(l, p)] if ok else -1 for l, p, ok in zip(s['LOCATION'].tolist(), s['PINHOLE_ID'].tolist(), k)])
            mx, my, mz = [np.where(k, np.array(METRO[c])[mi], 0.) for c in ('X_FP', 'Y_FP', 'Z_FP')]
            d = 1000*np.hypot(fx-mx, fy-my)[k]
            for nm, w in (("meandistance", np.mean(d)), ("mediandistance", np.median(d)), ("rmsdistance", np.sqrt(np.mean(d**2)))):
                if not abs(getattr(u, nm)-w) < 1e-6+1e-6*w:
                    bad.append((nm, "reported %s is not that of the matched fiducials" % nm, getattr(u, nm)-w))
            if u.nmatch != len(fid):
                bad.append(("nmatch", "wrong number of matches", u.nmatch))
            if upd:
                if not maxabs(np.hypot(np.array(s['X_FP'])-fx, np.array(s['Y_FP'])-fy)) < 1e-9:
                    bad.append(("xfp", "updated positions are not those of the fitted transformation", 0))
                for c, w in (("X_FP_METRO", mx), ("Y_FP_METRO", my), ("Z_FP_METRO", mz)):
                    if not np.array_equal(np.array(s[c]), w):
                        bad.append((c, "%s is not the metrology of that pinhole (0 for others)" % c, maxabs(np.array(s[c])-w)))
            js = FVC2FP.fromjson(u.tojson())
            if not (np.array_equal(js.fvc2fp(GX, GY), u.fvc2fp(GX, GY)) and all(getattr(js, a) == getattr(u, a) for a in ("meandistance", "mediandistance", "rmsdistance", "nmatch"))):
                bad.append(("json", "fitted transformation does not survive saving and reading", 0))
            return bad, (round(u.scale, 6), round(u.rotation, 6), len(fid), zb, o)
        except Exception as e:
            if mc.under_test(e):
                return [("crash", "unexpected %s: %s" % (type(e).__name__, e), 0)], None
            raise
    for job, (bad, st) in zip(jobs, mc.pmap(one, jobs)):
        ex.ran(1, sample=job)
        ex.state(st)
        for k, msg, w in bad:
            ex.fail("%s/%s" % ("-".join(map(str, job)), k), msg, worst=w)


def optimum(ex):
    """perturbed fiducials: no neighbouring transformation is better (distortion held or refitted)"""
    fid = FID[dict(SUBSETS)["every7"]]
    n = len(fid)

    def one(job):
        pat, zb, fs, fr = job
        bad = []
        try:
            t = truth(*TRUTHS[1])
            s = simulate(t, fid, extra=False)
            k = np.arange(n)
            s['XPIX'] += 0.5*np.sin(1.7*k*(pat+1)); s['YPIX'] += 0.5*np.cos(2.3*k+pat)
            u = FVC2FP.read_jsonfile(FILES[0])
            if fs: u.scale = t.scale
            if fr: u.rotation = t.rotation
            u.fit(s, zbfit=zb, fixed_scale=fs, fixed_rotation=fr)

            def cost(v):
                x, y = v.fvc2fp(np.array(s['XPIX']), np.array(s['YPIX']))
                return float(np.sum((x-fid['X_FP'])**2+(y-fid['Y_FP'])**2))
            c0 = cost(u)
            names = [] if zb else [a for a in ("scale", "rotation", "offset_x", "offset_y") if not (a == "scale" and fs) and not (a == "rotation" and fr)]
            for a in names:
                for d in (1e-5, -1e-5):
                    v = copy.deepcopy(u); setattr(v, a, getattr(v, a)+d)
                    if not cost(v) > c0:
                        bad.append((a, "changing %s by %g gives a better fit" % (a, d), cost(v)-c0))
            if zb:
                for i in range(len(u.zbcoeffs)):
                    for d in (1e-5, -1e-5):
                        v = copy.deepcopy(u); v.zbcoeffs[i] += d
                        if not cost(v) > c0:
                            bad.append(("zb%d" % i, "changing a distortion coefficient by %g gives a better fit" % d, cost(v)-c0))
            return bad
        except Exception as e:
            if mc.under_test(e):
                return [("crash", "unexpected %s: %s" % (type(e).__name__, e), 0)]
            raise
    jobs = list(itertools.product(range(4 if not ex.thorough else 16), (False, True), (False, True), (False, True)))
    for job, bad in zip(jobs, mc.pmap(one, jobs)):
        ex.ran(1, sample=job, trans=9); ex.state(job)
        for k, msg, w in bad:
            ex.fail("%s/%s" % (job, k), msg, worst=w)


def histories(ex):
    """fit A then fit B on one object = fit B alone"""
    its = [(0, False), (2, False), (3, True), (5, True)]
    seqs = list(itertools.product(its, repeat=2))
    if ex.thorough:
        seqs += list(itertools.product(its, repeat=3))
    fid = FID[dict(SUBSETS)["odd"]]

    def one(seq):
        try:
            u = FVC2FP.read_jsonfile(FILES[0])
            for it, zb in seq:
                u.fit(simulate(truth(*TRUTHS[it]), fid), zbfit=zb)
            return err_um(u, truth(*TRUTHS[seq[-1][0]])), u.nmatch
        except Exception as e:
            if mc.under_test(e):
                return "unexpected %s: %s" % (type(e).__name__, e), 0
            raise
    for seq, (e, n) in zip(seqs, mc.pmap(one, seqs)):
        ex.check(not isinstance(e, str) and e < 0.5 and n == len(fid), str(seq), "a fit depends on what the object was fitted to before", err_um=e)
        ex.ran(1, sample=seq, trans=len(seq)); ex.state(seq)
    # a metrology given to one fit is used by that fit, and by no other
    other = METRO.copy()
    other['X_FP'] += 0.5; other['Y_FP'] -= 0.25; other['Z_FP'] += 3.
    few = METRO[np.isin(METRO['LOCATION'], LOCS[1::4])]
    tables = dict(default=None, shifted=other, same=METRO.copy(), few=few)
    for seq in itertools.product(tables, repeat=2 if not ex.thorough else 3):
        with ex.guard("metrology/%s" % "-".join(seq)):
            u = FVC2FP.read_jsonfile(FILES[0])
            for i, m in enumerate(seq):
                f = fid if m != "few" else fid[np.isin(fid['LOCATION'], few['LOCATION'])]
                s = simulate(truth(*TRUTHS[i]), f, extra=False)
                u.fit(s, metrology=tables[m], zbfit=False, update_spots=True)
                t = truth(*TRUTHS[i])
                px, py = t.fp2fvc(GX, GY); x, y = u.fvc2fp(px, py)
                dx, dy, dz = (0.5, -0.25, 3.) if m == "shifted" else (0., 0., 0.)
                w = maxabs(np.hypot(x-GX-dx, y-GY-dy))*1000
                ex.check(w < (60. if m == "shifted" else 5.), "metrology/%s/%d" % ("-".join(seq), i), "the fit does not use the metrology it was given (um)", worst=w)
                key = {(l, p): j for j, (l, p) in enumerate(zip(METRO['LOCATION'].tolist(), METRO['PINHOLE_ID'].tolist()))}
                j = np.array([key[k] for k in zip(s['LOCATION'].tolist(), s['PINHOLE_ID'].tolist())])
                ex.check(maxabs(np.array(s['X_FP_METRO'])-METRO['X_FP'][j]-dx) < 1e-9 and maxabs(np.array(s['Y_FP_METRO'])-METRO['Y_FP'][j]-dy) < 1e-9
                         and maxabs(np.array(s['Z_FP_METRO'])-METRO['Z_FP'][j]-dz) < 1e-9, "metrology/%s/%d/columns" % ("-".join(seq), i), "metrology columns are not those of the table given to the fit")
            ex.ran(len(seq), sample=seq); ex.state(seq)


def terms(ex):
    """every distortion term alone and every ordered pair of terms (in either order in the file), points of the axes and diagonals one by one"""
    base = json.loads(FVC2FP.read(FILES[0]).tojson())
    px_, py_ = plane(4, 10)
    single = [(a*r, b*r) for r in (60., 250., 405.) for a, b in ((1, 0), (0, 1), (-1, 0), (0, -1), (0.7, 0.7), (-0.7, 0.7), (0.7, -0.7), (-0.7, -0.7))]
    cases = [((i,), (amp,), rot) for i in range(33) for amp in (2e-3, -2e-3) for rot in (0., 1.5, 3.1)]
    for k, (i, j) in enumerate(itertools.permutations(range(33), 2)):
        if ex.thorough or k % 3 == 0:
            cases.append(((i, j), (2e-3, -1e-3), (0., 1.5, 3.1, -2.)[k % 4]))
    cases += [((9, 2, 6, 5), (1e-3, 2e-3, -1e-3, 5e-4), 0.3), ((30, 29, 28, 20, 9, 6, 5, 2), tuple(1e-3/(1+i) for i in range(8)), -3.)]

    def one(c):
        ids, co, rot = c
        q = dict(base, zbpolids=list(ids), zbcoeffs=list(co), rotation=rot, version='2')
        t = FVC2FP.fromjson(json.dumps(q))
        x, y = px_.copy(), py_.copy()
        u, v = t.fp2fvc(x, y)
        w = maxabs(np.hypot(*(np.array(t.fvc2fp(u, v))-np.array([x, y]))))
        if not w < 1e-6:
            return "fp -> fvc -> fp does not close (%g mm)" % w
        rx, ry = ref_fvc2fp(q, u, v)
        if not maxabs(np.hypot(rx-x, ry-y)) < 1e-6:
            return "fp2fvc is not the inverse of shift, rotate, scale, distort with these terms"
        r = FVC2FP.fromjson(t.tojson())
        if list(r.zbpolids) != list(t.zbpolids) or not np.array_equal(np.array(r.fp2fvc(x, y)), np.array([u, v])):
            return "saved and re-read transformation gives other positions"
        for a, b in single if len(ids) == 1 or (ids[0]+ids[1]) % 5 == 0 else single[1:4:2]:
            a, b = np.array([a]), np.array([b])
            g, h = t.fvc2fp(*t.fp2fvc(a, b))
            if not maxabs([g-a, h-b]) < 1e-6:
                return "the point %g,%g alone does not come back (%g mm)" % (a[0], b[0], maxabs([g-a, h-b]))
        return None
    for c, e in zip(cases, mc.pmap(one, cases)):
        ex.ran(3+len(single), sample=dict(terms=c[0], coefficients=c[1], rotation=c[2])); ex.state(c)
        if e:
            ex.fail("terms/%s" % (c,), "%s: %s" % (c, e), case=c)


def long(ex):
    """long lists of positions are transformed one by one"""
    for f in FILES:
        t = FVC2FP.read(f)
        with ex.guard("long/"+os.path.basename(f)):
            for N in (1, 2, 3, 1000, 4999, 60000):
                r = 412.*np.sqrt((np.arange(N)+0.5)/N); a = 2.399963*np.arange(N)
                for what in ("disk", "axis", "edge"):
                    x, y = r*np.cos(a), r*np.sin(a)
                    if what == "axis":
                        x[:-1] *= 1e-4; y[:-1] *= 1e-4
                    elif what == "edge":
                        x[1:], y[1:] = 412., 3.
                    px, py = t.fp2fvc(x, y); bx, by = t.fvc2fp(px, py)
                    ex.check(maxabs(np.hypot(bx-x, by-y)) < 1e-6, "%s/%d/%s/roundtrip" % (os.path.basename(f), N, what), "fp -> fvc -> fp does not close in a long list", worst=maxabs(np.hypot(bx-x, by-y)))
                    k = np.unique(np.linspace(0, N-1, 80).astype(int))
                    for kk in (k, k[-1:], k[:1]):
                        qx, qy = t.fp2fvc(x[kk], y[kk]); cx, cy = t.fvc2fp(px[kk], py[kk])
                        ex.check(max(maxabs(qx-px[kk]), maxabs(qy-py[kk])) < 1e-6 and max(maxabs(cx-bx[kk]), maxabs(cy-by[kk])) < 1e-9,
                                 "%s/%d/%s/part" % (os.path.basename(f), N, what), "positions of a long list are transformed differently alone")
                        ex.ran(2)
                    ex.ran(2); ex.state((f, N, what))


def files(ex):
    """reading, writing, refusing"""
    with mc.scratch() as d:
        for i, f in enumerate(FILES):
            t = FVC2FP.read(f)
            p = os.path.join(d, "t%d.json" % i)
            for w in (t.write, t.write_jsonfile):
                with ex.guard("write"):
                    w(p)
                    for r in (FVC2FP.read, FVC2FP.read_jsonfile, M.read_jsonfile):
                        ex.check(np.array_equal(r(p).fp2fvc(GX, GY), t.fp2fvc(GX, GY)), "file/%d" % i, "writing and reading a file changes the transformation")
                        ex.ran(1); ex.state((i, w.__name__, r.__name__ if hasattr(r, "__name__") else 0))
        before = sorted(os.listdir(d))
        for name in ("t.csv", "t", "t.yaml"):
            for op in (lambda: t.write(os.path.join(d, name)), lambda: FVC2FP.read(os.path.join(d, name))):
                ok = False
                try:
                    op()
                except RuntimeError:
                    ok = True
                except Exception as e:
                    if not mc.under_test(e):
                        raise
                ex.check(ok and sorted(os.listdir(d)) == before, "refuse/"+name, "unknown file type not refused")
                ex.ran(1); ex.state(name)
    for bad in (dict(method="other"), dict(version="3")):
        p = json.loads(FVC2FP.read(FILES[0]).tojson()); p.update(bad)
        ok = False
        try:
            FVC2FP.fromjson(json.dumps(p))
        except Exception as e:
            ok = mc.under_test(e)
        ex.check(ok, "refuse/%s" % bad, "unknown method or version accepted")
        ex.ran(1); ex.state(str(bad))


SECTIONS = [transforms, terms, long, fits, optimum, histories, files]
