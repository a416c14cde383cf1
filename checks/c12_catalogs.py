"""C12: matching of two catalogs of positions."""
import itertools
import numpy as np
import mc
from mc import snapshot
from desimeter import io, match_positioners as MP
from desimeter.match import match_same_system, match_arbitrary_translation_dilatation

PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("same coordinates: every pair of catalogs of up to 3 (4) entries over a grid with ties and coincidences, against brute force; "
        "unknown shift and scale: every generic point set x every row permutation x every subset x scale x shift x small rotation, and "
        "the pinhole pattern of every real fiducial; key matching and radius matching: every small catalog. "
        "Non-trivial: distinct (catalog pair) and distinct answers.")
ASSUMPTIONS = ["point sets for unknown shift and scale are generic (no two triangles similar to 2%)", "finite coordinates"]


def judge_same(x1, y1, x2, y2, idx, dist):
    n1, n2 = len(x1), len(x2)
    if len(idx) != n1 or len(dist) != n1:
        return "wrong length"
    d = np.hypot(x1[:, None]-x2[None, :], y1[:, None]-y2[None, :]) if n2 else np.zeros((n1, 0))
    used = {}
    for i in range(n1):
        j = idx[i]
        if j >= n2:
            return "entry %d matched to entry %d of a catalog of %d" % (i, j, n2)
        if j >= 0:
            if (not abs(dist[i]-d[i, j]) <= 1e-9):
                return "wrong distance for entry %d" % i
            if d[i, j] > d[i].min()+1e-9:
                return "entry %d not matched to its nearest neighbour" % i
            if j in used:
                return "entry %d of the second catalog used twice" % j
            used[j] = i
        elif np.isfinite(dist[i]):
            return "unmatched entry %d has a finite distance" % i
    for i in range(n1):
        if idx[i] < 0 and n2:
            near = np.flatnonzero(d[i] <= d[i].min()+1e-9)
            if not any(j in used and d[used[j], j] <= d[i, j]+1e-9 for j in near):
                return "entry %d unmatched although its nearest neighbour is free" % i
    return None


def same_system(ex):
    """every pair of small catalogs over a grid (ties and coincident points included)"""
    pts = [(0., 0.), (1., 0.), (3., 0.5), (0.1, 2.)] if not ex.thorough else [(0., 0.), (1., 0.), (3., 0.5), (0.1, 2.), (1., 1.)]
    cats = [c for n in range(0, 4) for c in itertools.product(pts, repeat=n)]
    offs = [(0., 0.), (0.2, -0.1), (0.5, 0.)]
    if ex.thorough:
        cats4 = list(itertools.product(pts, repeat=4))
    work = cats+(cats4 if ex.thorough else [])

    def one(c1):
        res, n, st = [], 0, set()
        for c2 in cats:
            for ox, oy in offs:
                if not c1:
                    continue
                x1 = np.array([p[0] for p in c1]); y1 = np.array([p[1] for p in c1])
                x2 = np.array([p[0]+ox for p in c2]); y2 = np.array([p[1]+oy for p in c2])
                b = snapshot((x1, y1, x2, y2))
                try:
                    idx, dist = match_same_system(x1, y1, x2, y2)
                    e = judge_same(x1, y1, x2, y2, idx, dist)
                    if e is None and len(c2):
                        i2, d2 = match_same_system(x1, y1, x2, y2, remove_duplicates=False)
                        d = np.hypot(x1[:, None]-x2[None, :], y1[:, None]-y2[None, :])
                        if np.any(~(np.abs(d2-d.min(axis=1)) <= 1e-9)) or np.any(~(np.abs(d[np.arange(len(x1)), i2]-d2) <= 1e-9)):
                            e = "without duplicate removal: not the nearest neighbour"
                    if e is None and snapshot((x1, y1, x2, y2)) != b:
                        e = "arguments modified"
                    st.add((len(c2), tuple(idx)))
                except Exception as exc:
                    if not mc.under_test(exc):
                        raise
                    e = "%s: %s" % (type(exc).__name__, exc)
                n += 1
                if e:
                    res.append((c1, c2, (ox, oy), e))
        return res, n, st
    for res, n, st in mc.pmap(one, work):
        ex.ran(n)
        for s in st:
            ex.state(s)
        for c1, c2, o, e in res:
            ex.fail("same-%d-%d" % (len(c1), len(c2)), e, first=c1, second=c2, offset=o)
    ex.samples.append(dict(section="same_system", case=str(work[50])))


# ---------------------------------------------------------------------
GEN = [  # generic point sets: x well separated, no two similar triangles
    [(0.3, 0.3), (3.6, -2.2), (4.2, -2.9), (5.0, -2.8)],
    [(0.3, 0.6), (2.6, -2.3), (3.2, -0.8), (3.9, -1.8), (5.8, 2.7)],
    [(0.5, -2.3), (1.6, -1.1), (2.3, 1.6), (3.3, -2.7), (4.3, 1.2), (5.5, -2.8)],
]


def tri_ok(P):
    """genericity of a point set: every two triangles differ in shape"""
    f = []
    for t in itertools.combinations(sorted(P), 3):
        a, b, c = [np.array(p) for p in t]
        l = [np.hypot(*(b-a)), np.hypot(*(c-b)), np.hypot(*(a-c))]
        f.append((max(l)/min(l), (b-a).dot(c-a)/l[0]/l[2], (b-a)[0]/l[0]))
    f = np.array(f)
    d = [np.hypot(*(f[i]-f[j])[:2])+abs(f[i][2]-f[j][2]) for i in range(len(f)) for j in range(i)]
    return min(d) if d else 9.


def unknown_shift_scale(ex):
    """catalogs related by shift, scale and small rotation: all permutations, all subsets"""
    work = []
    for gi, P in enumerate(GEN):
        assert tri_ok(P) > 0.2, (gi, tri_ok(P))
        n = len(P)
        perms = list(itertools.permutations(range(n)))
        if n == 6 and not ex.thorough:
            perms = perms[::12]
        subsets = [s for k in range(3, n+1) for s in itertools.combinations(range(n), k)]
        for perm in perms:
            work.append((gi, perm, subsets if n < 6 or ex.thorough else subsets[::7]+[tuple(range(n))]))
    trans = [(1., 0., 0., 0.), (12., 33., 11., 0.), (0.07, -200., 5., 1.), (3., 0., -50., -1.)]
    if ex.thorough:
        trans += [(1e3, 1e4, -1e4, 0.5), (1e-3, 0., 0., 2.)]

    def one(w):
        gi, perm, subsets = w
        P = np.array(GEN[gi])
        res, n = [], 0
        for sub in subsets:
            for sc, tx, ty, rot in trans:
                z = (P[:, 0]+1j*P[:, 1])*sc*np.exp(1j*np.radians(rot))
                x2, y2 = (z.real+tx)[list(perm)], (z.imag+ty)[list(perm)]
                x1, y1 = P[list(sub), 0], P[list(sub), 1]
                b = snapshot((x1, y1, x2, y2))
                try:
                    idx, dist = match_arbitrary_translation_dilatation(x1, y1, x2, y2)
                    want = [perm.index(s) for s in sub]
                    e = None
                    if list(idx) != want:
                        e = "entries matched to %s instead of %s" % (list(idx), want)
                    elif snapshot((x1, y1, x2, y2)) != b:
                        e = "arguments modified"
                    elif rot == 0. and np.any(~(np.abs(dist) <= 1e-6)):
                        e = "exact match reported with distance %s" % dist
                except Exception as exc:
                    if not mc.under_test(exc):
                        raise
                    e = "%s: %s" % (type(exc).__name__, exc)
                n += 1
                if e:
                    res.append((gi, perm, sub, (sc, tx, ty, rot), e))
        return res, n
    for w, (res, n) in zip(work, mc.pmap(one, work)):
        ex.ran(n, sample=dict(points=GEN[w[0]], permutation=w[1]))
        ex.states(n)
        for gi, perm, sub, t, e in res:
            ex.fail("arbitrary-set%d" % gi, e, permutation=perm, subset=sub, transformation=t)


def spurious_entries(ex):
    """entries without a counterpart: two entries never share a partner and the answer is deterministic in row order"""
    P = np.array(GEN[1])
    extra = [(7.3, -2.), (1.4, 0.7), (2.7, 5.)]
    n1 = 0
    for gone in [()]+list(itertools.combinations(range(5), 1))+list(itertools.combinations(range(5), 2)):
        for add in [()]+[(i,) for i in range(3)]+[(0, 1), (1, 2)]:
            keep = [i for i in range(5) if i not in gone]
            C1 = np.vstack([P]+[np.array([extra[a]]) for a in add])
            for perm in itertools.islice(itertools.permutations(range(len(keep))), 0, None, 1 if ex.thorough else 5):
                C2 = P[keep][list(perm)]
                with ex.guard("spurious", gone=gone, add=add, perm=perm):
                    idx, dist = match_arbitrary_translation_dilatation(C1[:, 0], C1[:, 1], 2*C2[:, 0]+5, 2*C2[:, 1]-1)
                    m = idx[idx >= 0]
                    ex.check(len(set(m)) == len(m), "share", "two entries share a partner", gone=gone, add=add, got=idx)
                    ex.check(np.all(idx < len(C2)), "range", "partner out of range", gone=gone, add=add, got=idx)
                    # the triangles of true counterparts are exact: they are used first
                    kept = [keep[k] for k in perm]
                    true = np.array([kept.index(i) if i in kept else -1 for i in range(5)]+[-1]*len(add))
                    ex.check(np.all((idx < 0) | (idx == true)), "false partner", "entry matched to another entry than its counterpart: %s, counterparts %s" % (idx, true), gone=gone, add=add, perm=perm)
                n1 += 1
                ex.state((gone, add, tuple(idx)))
    ex.ran(n1)


def real_fiducials(ex):
    """the pinhole pattern of every fiducial of the metrology, every row order, as seen by a scaled and slightly rotated camera"""
    m = io.load_metrology()
    m = m[(m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF")]
    locs = np.unique(m["LOCATION"])
    rots = (0., 0.5, -0.5) if not ex.thorough else (0., 0.2, 0.5, -0.5, 1., -1.)
    X, Y, L = np.array(m["X_FP"], float), np.array(m["Y_FP"], float), np.array(m["LOCATION"])

    def one(loc):
        ii = np.flatnonzero(L == loc)
        x2, y2 = X[ii], Y[ii]
        res, n = [], 0
        # rows with (nearly) the same abscissa may legitimately swap order under rotation
        xs = np.sort(x2)
        margin = np.min(np.diff(xs))
        for rot in rots:
            if abs(np.radians(rot))*(y2.max()-y2.min()) > 0.5*margin:
                continue
            z = (x2+1j*y2)*6.7*np.exp(1j*np.radians(rot))
            for perm in itertools.permutations(range(len(ii))):
                p = list(perm)
                try:
                    idx, dist = match_arbitrary_translation_dilatation((z.real+3000.)[p], (z.imag+3000.)[p], x2, y2)
                    if list(idx) != p:
                        res.append((int(loc), rot, perm, "matched to %s" % list(idx)))
                except Exception as exc:
                    if not mc.under_test(exc):
                        raise
                    res.append((int(loc), rot, perm, "%s: %s" % (type(exc).__name__, exc)))
                n += 1
        return res, n
    for loc, (res, n) in zip(locs, mc.pmap(one, locs)):
        ex.ran(n, sample=dict(location=int(loc)))
        ex.states(n)
        for l, rot, perm, e in res:
            ex.fail("fiducial-%d" % l, "fiducial %d rotated by %g deg, rows %s: %s" % (l, rot, perm, e))


def keys(ex):
    """key matching: every pair of small key lists"""
    K = ("M01", "M02", "M03", "M10")
    B = list(K)+["X99"]
    n = 0
    for la in range(0, 5):
        for a in itertools.permutations(K, la):
            for lb in range(0, 4):
                for b in itertools.product(B, repeat=lb):
                    aa, bb = np.array(a, dtype="U4"), np.array(b, dtype="U4")
                    want = sorted((a.index(k), j) for j, k in enumerate(b) if k in a)
                    with ex.guard("keys", a=a, b=b):
                        ma, mb = MP.match(aa, bb)
                        ex.check(sorted(zip([int(v) for v in ma], [int(v) for v in mb])) == want, "keys", "keys %s and %s matched as %s" % (a, b, list(zip(ma, mb))), a=a, b=b)
                    n += 1
    for a in itertools.product(K[:3], repeat=3):
        if len(set(a)) < 3:
            try:
                MP.match(np.array(a), np.array(K))
                ex.fail("keys-dup", "repeated keys accepted", a=a)
            except ValueError:
                pass
            n += 1
    ex.ran(n)
    ex.states(n)


def radius(ex):
    """all pairs within a radius: every pair of small catalogs"""
    pts = [(0., 0.), (1., 0.), (1.2, 1.1), (3., 0.5)]
    cats = [c for n in range(1, 4) for c in itertools.combinations_with_replacement(pts, n)]
    n = 0
    for c1 in cats:
        for c2 in cats:
            for rad in (0.05, 1.05, 2.3):
                x1, y1 = np.array(c1).T
                x2, y2 = np.array(c2).T+0.01
                with ex.guard("radius", c1=c1, c2=c2):
                    m1, m2, d = MP.match2d(x1, y1, x2, y2, rad)
                    dd = np.hypot(x1[:, None]-x2[None, :], y1[:, None]-y2[None, :])
                    want = sorted(zip(*[list(map(int, v)) for v in np.nonzero(dd <= rad)]))
                    got = sorted(zip(map(int, m1), map(int, m2)))
                    ex.check(got == want, "radius", "pairs %s instead of %s" % (got, want), c1=c1, c2=c2, rad=rad)
                    ex.check(len(m1) == 0 or np.allclose(d, dd[np.array(m1, int), np.array(m2, int)]), "radius-d", "wrong distances", c1=c1, c2=c2, rad=rad)
                n += 1
    ex.ran(n)
    ex.states(n)


def large(ex):
    """large catalogs and coordinates: nearest neighbours, pairs within a radius and keys, against brute force"""
    jobs = []
    for n1, n2 in ((1, 4000), (300, 300), (2500, 1800), (5000, 3)):
        for unit in (1e-4, 1., 150., 1e5, 1e9):
            for off in (0., 1e3, 3e6):
                jobs.append(("same", n1, n2, unit, off))
    jobs += [("radius", n1, n2) for n1, n2 in ((40000, 60), (60, 40000), (70000, 1), (33000, 33000))]
    jobs += [("keys", n, dup) for n in (50, 99, 100, 101, 512, 5020) for dup in (None, 0, 1)]

    def one(j):
        if j[0] == "same":
            _, n1, n2, unit, off = j
            k1, k2 = np.arange(n1), np.arange(n2)
            x1, y1 = unit*(np.modf(k1*0.754877666)[0]*100), unit*(np.modf(k1*0.569840291)[0]*100)
            x2, y2 = unit*(np.modf(k2*0.819172513+0.3)[0]*100+0.02), unit*(np.modf(k2*0.671043607+0.1)[0]*100)
            x1, x2 = x1+off, x2+off
            idx, dist = match_same_system(x1, y1, x2, y2)
            d = np.hypot(x1[:, None]-x2, y1[:, None]-y2)
            tol = 1e-9*unit+1e-12*off
            m, best = d.min(axis=1), d.argmin(axis=1)
            order = np.sort(np.partition(d, 1, axis=1)[:, :2], axis=1) if n2 > 1 else None
            ok = order[:, 1]-order[:, 0] > 10*tol if n2 > 1 else np.ones(n1, bool)   # no tie
            win = {}
            for i in np.argsort(m, kind="stable"):
                win.setdefault(best[i], i)
            want = np.array([best[i] if win[best[i]] == i else -1 for i in range(n1)])
            two = {b: np.sort(m[best == b])[:2] for b in set(best[want < 0])}
            for i in range(n1):
                t = two.get(best[i])
                if t is not None and len(t) > 1 and t[1]-t[0] <= 10*tol:
                    ok[i] = False
            bad = np.flatnonzero(ok & (idx != want))
            if bad.size:
                return "entry %d matched to %d instead of %d" % (bad[0], idx[bad[0]], want[bad[0]])
            hit = idx >= 0
            if np.any(~(np.abs(dist[hit]-d[np.flatnonzero(hit), idx[hit]]) <= tol)) or np.any(np.isfinite(dist[~hit])):
                return "wrong distances"
            i2, d2 = match_same_system(x1, y1, x2, y2, remove_duplicates=False)
            if np.any(~(np.abs(d[np.arange(n1), i2]-m) <= tol)) or np.any(~(np.abs(d2-m) <= tol)):
                return "without duplicate removal: not the nearest neighbour"
        elif j[0] == "radius":
            _, n1, n2 = j
            k1, k2 = np.arange(n1), np.arange(n2)
            x1, y1 = 3.*(k1 % 200), 3.*(k1//200)
            x2, y2 = 3.*(k2 % 200)+0.5*(k2 % 2), 3.*(k2//200)+0.25
            m1, m2, d = MP.match2d(x1, y1, x2, y2, 1.)
            n = min(n1, n2)
            if sorted(zip(map(int, m1), map(int, m2))) != [(i, i) for i in range(n)]:
                return "pairs within the radius differ, e.g. %s" % [t for t in zip(map(int, m1), map(int, m2)) if t[0] != t[1]][:2]
            if np.any(~(np.abs(d-np.hypot(0.5*(np.asarray(m1) % 2), 0.25)) <= 1e-9)):
                return "wrong distances"
        else:
            _, n, dup = j
            a = np.array(["M%05d" % ((7919*i) % 10007) for i in range(n)])
            if dup is not None:
                a[-1] = a[0 if dup == 0 else n-2]
            b = np.concatenate([a[::3], ["M99999", "A"], a[::-1]])
            try:
                ma, mb = MP.match(a, b)
            except ValueError:
                return None if dup is not None else "unique keys refused"
            if dup is not None:
                return "repeated keys accepted"
            where = {k: i for i, k in enumerate(a)}
            want = [(where[k], q) for q, k in enumerate(b) if k in where]
            if sorted(zip(map(int, ma), map(int, mb))) != sorted(want):
                return "keys wrongly matched"
        return None
    for j, e in zip(jobs, mc.pmap(mc.guarded(one), jobs)):
        ex.ran(1, sample=j)
        ex.states(1)
        if e:
            ex.fail("large-"+j[0], "%s: %s" % (j, e), case=j)


def close_abscissae(ex):
    """unknown shift and scale with 8 to 11 points, and with abscissae that nearly coincide: rotations, reversals and swaps of the rows"""
    P8 = [(0.37*k+2.1*((k*k*7) % 5)/5, ((k*37) % 29)*0.21) for k in range(8)]
    P10 = [(0.61*k+((k*13) % 7)*0.05, ((k*53) % 31)*0.17+0.003*k*k) for k in range(10)]
    P11 = [(0.53*k+((k*17) % 9)*0.04, ((k*71) % 37)*0.19-0.004*k*k) for k in range(11)]
    near = [(0., 0.), (0.001, 2.3), (1.7, -0.4), (1.702, 3.1), (4.4, 1.3)]
    near2 = [(0.001, 0.), (0., 2.3), (1.7, -0.4), (2.9, 3.1), (2.903, -1.)]
    work = []
    for name, P in (("8", P8), ("10", P10), ("11", P11), ("near", near), ("near2", near2), ("near3", near[:3]), ("near4", near[:4])):
        n = len(P)
        idt = tuple(range(n))
        perms = [idt[k:]+idt[:k] for k in range(n)]+[idt[::-1][k:]+idt[::-1][:k] for k in range(n)]
        perms += list(itertools.permutations(range(n))) if n < 6 else [tuple((3*k) % n for k in range(n))] if n % 3 else []
        for perm in perms:
            for sub in [idt]+([tuple(i for i in idt if i != j) for j in idt] if n >= 6 else []):
                work.append((name, tuple(P), perm, sub))
    if not ex.thorough:
        work = [w for k, w in enumerate(work) if len(w[1]) < 6 or len(w[3]) == len(w[1]) or k % 5 == 0]

    def one(w):
        name, P, perm, sub = w
        P = np.array(P)
        for sc, tx, ty, moved in ((1., 0., 0., ()), (5.5, 100., -7., ()), (1., 0., 0., (0,)), (2., 1., 0., (len(P)-1, 3))):
            if moved and len(P) < 8:
                continue
            Q = P.copy()
            for i in moved:   # a measurement slightly off: its triangles come after the exact ones
                Q[i] += (1e-5, -2e-5)
            x2, y2 = (P[:, 0]*sc+tx)[list(perm)], (P[:, 1]*sc+ty)[list(perm)]
            idx, dist = match_arbitrary_translation_dilatation(Q[list(sub), 0], Q[list(sub), 1], x2, y2)
            want = [perm.index(i) for i in sub]
            if list(idx) != want:
                return "scale %g, %s moved: matched to %s instead of %s" % (sc, moved, list(idx), want)
    for w, e in zip(work, mc.pmap(mc.guarded(one), work)):
        ex.ran(1, sample=w[0])
        ex.states(1)
        if e:
            ex.fail("close-"+w[0], e, permutation=w[2], subset=w[3])


SECTIONS = [same_system, unknown_shift_scale, spurious_entries, real_fiducials, keys, radius, large, close_abscissae]
