"""C14: assignment of centroids to positioners."""
import itertools
import numpy as np
import mc
from mc import snapshot
from astropy.table import Table
from desimeter import match_positioners as MP

PROPERTY = "C14"
LEVEL = "model_checking"
RULE = ("every instance of up to three positioners with overlapping reach (every pattern of arm lengths, including unknown ones) and every "
        "sequence of up to four (five) centroids over all the regions of the plane that the reaches delimit, faint and fiducial spots "
        "included, in every row order; the answer is compared with a brute-force enumeration of all assignments; a centroid on both sides of "
        "every reach for every pattern of four arm lengths; petals of many positioners with one ambiguity, one missing or one additional centroid anywhere. "
        "Non-trivial: distinct (geometry, centroid regions) and distinct assignments.")
ASSUMPTIONS = ["centroids are at least 0.05 mm away from the edge of a reach (single precision arm lengths)"]
FUDGE = 0.1

# positioner centres: overlapping reaches of about 6.1 mm, pitch smaller than the real 10.4 so that all overlaps exist
CENT = {"M00101": (0., 0.), "M00102": (8., 0.), "M00103": (4., 6.9)}
REG = [(-3., -1.), (4., 0.3), (10., -1.), (4., 2.4), (1., 3.9), (7., 4.), (4., 9.5), (30., 30.)]


def tables(posn, arms, cents, static, order, fid=True):
    """cents: list of (region index, kind): kind 0 bright, 1 faint, 2 fiducial pinhole"""
    rows = [("P%d" % i, 0., 0., 4) for i in range(1 if fid else 0)]
    names = [p for p in posn]
    metr = Table()
    ids, xs, ys, ph = [], [], [], []
    if fid:
        ids.append("P001"); xs.append(20.); ys.append(1.); ph.append(4)
    for p in names:
        ids.append(p); xs.append(CENT[p][0]); ys.append(CENT[p][1]); ph.append(0)
    if fid:
        ids.append("P001"); xs.append(20.5); ys.append(1.); ph.append(2)
    metr["DEVICE_ID"] = np.array(ids); metr["X_FP"] = np.array(xs); metr["Y_FP"] = np.array(ys); metr["PINHOLE_ID"] = np.array(ph)
    cal = Table()
    have = [p for p in names if arms[p] is not None]
    cid = ["M99999"]+[have[i] for i in order if i < len(have)]
    cal["POS_ID"] = np.array(cid)
    r1 = np.array([3.0 if p == "M99999" else arms[p][0] for p in cid])
    r2 = np.array([3.0 if p == "M99999" else arms[p][1] for p in cid])
    if static:
        cal["LENGTH_R1_STATIC"], cal["LENGTH_R2_STATIC"] = r1, r2
        cal["LENGTH_R1"], cal["LENGTH_R2"] = r1+2., r2+2.   # moving fit, not to be used
    else:
        cal["LENGTH_R1"], cal["LENGTH_R2"] = r1, r2
    fvc = Table()
    x = [REG[r][0]+0.011*i for i, (r, k) in enumerate(cents)]
    y = [REG[r][1]-0.007*i for i, (r, k) in enumerate(cents)]
    fvc["X_FP"] = np.array(x, float); fvc["Y_FP"] = np.array(y, float)
    fvc["COUNTS"] = np.array([5e4 if k == 1 else 2e5 for r, k in cents], float)
    fvc["PINHOLE_ID"] = np.array([3 if k == 2 else 0 for r, k in cents], int)
    return fvc, metr, cal


def edges(fvc, metr, arms):
    """ok[i centroid][j metrology row]: within reach and eligible"""
    known = [sum(a) for a in arms.values() if a is not None]
    med = np.median(np.array(known)+FUDGE) if known else np.nan
    ok = np.zeros((len(fvc), len(metr)), bool)
    for i in range(len(fvc)):
        if fvc["PINHOLE_ID"][i] != 0 or not fvc["COUNTS"][i] > 80000:
            continue
        for j in range(len(metr)):
            if metr["PINHOLE_ID"][j] != 0:
                continue
            a = arms[str(metr["DEVICE_ID"][j])]
            reach = med if a is None else sum(a)+FUDGE
            d = np.hypot(fvc["X_FP"][i]-metr["X_FP"][j], fvc["Y_FP"][i]-metr["Y_FP"][j])
            if abs(d-reach) < 0.04:
                raise RuntimeError("ambiguous geometry %s" % d)
            ok[i, j] = d < reach
    return ok


def optima(ok):
    """all maximum matchings, as sets of (centroid, metrology row)"""
    n, m = ok.shape
    best, sols = -1, []

    def rec(i, used, cur):
        nonlocal best, sols
        if i == n:
            if len(cur) > best:
                best, sols = len(cur), [frozenset(cur)]
            elif len(cur) == best:
                sols.append(frozenset(cur))
            return
        rec(i+1, used, cur)
        for j in range(m):
            if ok[i, j] and j not in used:
                rec(i+1, used | {j}, cur+[(i, j)])
    rec(0, frozenset(), [])
    return best, sols


def judge(fvc, metr, cal, arms, alts):
    ok = edges(fvc, metr, arms)
    elig = [(fvc["PINHOLE_ID"][i] == 0 and fvc["COUNTS"][i] > 80000) for i in range(len(fvc))]
    pos = np.array(metr["PINHOLE_ID"]) == 0
    best, sols = optima(ok)
    snap = snapshot((fvc, metr, cal))
    out = MP.match_positioners(fvc, metr, cal, return_alternatives=alts)
    ind, sc, tot = out[:3]
    if snapshot((fvc, metr, cal)) != snap:
        return "arguments modified", None
    if len(ind) != len(fvc) or len(sc) != len(fvc):
        return "answer of length %d for %d centroids" % (len(ind), len(fvc)), None

    def valid(ind):
        cur = set()
        used = set()
        for i, j in enumerate(ind):
            j = int(j)
            if j < 0:
                continue
            if j >= len(metr) or not pos[j]:
                return "centroid %d assigned to row %d, not a positioner" % (i, j), None
            if not elig[i]:
                return "centroid %d (faint or fiducial) assigned" % i, None
            if j in used:
                return "positioner row %d assigned twice" % j, None
            used.add(j)
            if ok[i, j]:
                cur.add((i, j))
        return None, cur
    e, cur = valid(ind)
    if e:
        return e, None
    if len(cur) != best or int(tot) != best:
        return "%d centroids assigned within reach (reported %s) but %d is possible" % (len(cur), tot, best), None
    for i in range(len(fvc)):
        j = int(ind[i])
        if j < 0:
            if not np.isnan(sc[i]):
                return "unassigned centroid %d has a score" % i, None
        elif bool(sc[i] == 1) != bool(ok[i, j]):
            return "score %s of centroid %d contradicts the reach" % (sc[i], i), None
    if alts:
        altc = []
        for a in out[3]:
            e, c = valid(a)
            if e:
                return "alternative: "+e, None
            if len(c) != best:
                return "alternative with %d instead of %d assignments" % (len(c), best), None
            altc.append(c)
        for i, j in cur:
            # ambiguous: some optimum does not contain this assignment
            amb = any((i, j) not in s for s in sols)
            got = any((i, j) not in c for c in altc)
            if amb != got:
                return "assignment of centroid %d is %sambiguous but the alternatives say %s" % (i, "" if amb else "not ", got), None
        poss = MP.possible_assignments_dict(ind, out[3] if len(out[3]) else None)
        for i, j in cur:
            if i not in poss.get(j, ()):
                return "listing of possible assignments misses the best one", None
            if (len(poss[j]) == 1) and any(any(b == j and a != i for a, b in s) for s in sols) and all(any(b == j for a, b in s) for s in sols):
                return "positioner row %d has other optimal centroids, none is listed" % j, None
    return None, (tuple(int(v) for v in ind), best)


ARM = [(3., 3.), (2.6, 2.6), None]


def geometries(full):
    names = sorted(CENT)
    for posn in (names, names[::-1], names[:2], names[1:]) if full else (names, names[1::-1]):
        for pat in itertools.product(range(3), repeat=len(posn)):
            if all(p == 2 for p in pat):
                continue
            yield posn, {n: ARM[p] for n, p in zip(posn, pat)}


def explore(ex, geos, cents, static, alts, tag, chunk=400):
    work = []
    for posn, arms in geos:
        for k in range(0, len(cents), chunk):
            work.append((posn, arms, cents[k:k+chunk]))

    def one(w):
        posn, arms, cs = w
        res, st = [], set()
        for c in cs:
            order = list(range(len(posn)))[::-1]
            fvc, metr, cal = tables(posn, arms, c, static, order)
            try:
                e, s = judge(fvc, metr, cal, arms, alts)
            except Exception as exc:
                if not mc.under_test(exc):
                    raise
                e, s = "%s: %s" % (type(exc).__name__, exc), None
            if e:
                res.append((c, e))
            else:
                st.add(s)
        return res, len(cs), st
    for w, (res, n, st) in zip(work, mc.pmap(one, work)):
        ex.ran(n, sample=dict(positioners=w[0], arms=w[1], centroids=w[2][-1]))
        ex.trace(n)
        for s in st:
            ex.state((tuple(w[0]), str(w[1]), s))
        for c, e in res:
            ex.fail("%s-%d" % (tag, len(c)), "%s (positioners %s arms %s centroids %s)" % (e, w[0], w[1], c), positioners=w[0], arms=w[1], centroids=c)


def best_assignment(ex):
    """every sequence of up to four bright centroids over all regions, every arm length pattern"""
    R = range(len(REG))
    cents = [[(r, 0) for r in c] for n in range(1, 4) for c in itertools.product(R, repeat=n)]
    cents += [[(r, 0) for r in c] for c in (itertools.product(R, repeat=4) if ex.thorough else itertools.combinations_with_replacement(R, 4))]
    if ex.thorough:
        cents += [[(r, 0) for r in c] for c in itertools.combinations_with_replacement(R, 5)]
    geos = list(geometries(ex.thorough))
    explore(ex, geos if ex.thorough else geos[::2], cents, False, False, "best")


def eligible(ex):
    """faint spots, fiducial spots and the choice of arm length columns"""
    K = [(r, k) for r in (1, 3, 6) for k in (0, 1, 2)]
    cents = [list(c) for n in range(1, 4) for c in itertools.product(K, repeat=n)]
    geos = list(geometries(ex.thorough))
    explore(ex, geos if ex.thorough else geos[::4], cents, True, False, "eligible")


def alternatives(ex):
    """with alternatives: an assignment is reported ambiguous exactly when it is"""
    R = range(len(REG)-1)
    cents = [[(r, 0) for r in c] for n in range(1, 4) for c in itertools.product(R, repeat=n)]
    if ex.thorough:
        cents += [[(r, 0) for r in c] for c in itertools.product(R, repeat=4)]
    else:
        cents = cents[::2]
    geos = list(geometries(ex.thorough))
    explore(ex, geos if ex.thorough else geos[::5], cents, False, True, "alternatives", 60)


def reach(ex):
    """one centroid just inside or outside every possible reach of each of four positioners, for every pattern of arm lengths"""
    L = [(3., 3.), (2.6, 2.6), (3.4, 3.6), (2.9, 3.3), None]
    names = ["M00201", "M00202", "M00203", "M00204"]
    place = [(0., 0.), (60., 0.), (0., 60.), (-60., -60.)]
    pats = [p for p in itertools.product(range(5), repeat=4) if sum(k == 4 for k in p) < 3 and (ex.thorough or sum(p)+2*p[1]+p[3] & 1)]
    work = [(p, static) for p in pats for static in (False, True)]

    def one(w):
        pat, static = w
        arms = {n: L[k] for n, k in zip(names, pat)}
        known = sorted(sum(a)+FUDGE for a in arms.values() if a)
        n = len(known)
        med = (known[(n-1)//2]+known[n//2])/2
        metr, cal = Table(), Table()
        metr["DEVICE_ID"] = np.array(names[::-1]); metr["X_FP"] = np.array([c[0] for c in place[::-1]]); metr["Y_FP"] = np.array([c[1] for c in place[::-1]]); metr["PINHOLE_ID"] = np.zeros(4, int)
        have = [k for k in names if arms[k]]
        sfx = "_STATIC" if static else ""
        cal["POS_ID"] = np.array(have)
        for j in (1, 2): cal["LENGTH_R%d%s" % (j, sfx)] = np.array([arms[k][j-1] for k in have])
        cnt, bad = 0, []
        for j, (nm, c) in enumerate(zip(names, place)):
            R = sum(arms[nm])+FUDGE if arms[nm] else med
            for d in sorted({R+e for e in (-0.05, -0.003, 0.003, 0.05)}):
                for ux, uy in ((1, 0), (0, -1), (-0.8, 0.6)):
                    fvc = Table()
                    fvc["X_FP"] = np.array([300., c[0]+d*ux]); fvc["Y_FP"] = np.array([300., c[1]+d*uy]); fvc["COUNTS"] = np.array([2e5, 2e5]); fvc["PINHOLE_ID"] = np.zeros(2, int)
                    cnt += 1
                    try: ind, sc, tot = MP.match_positioners(fvc, metr, cal)
                    except Exception as exc:
                        if not mc.under_test(exc): raise
                        bad.append("%s: %s" % (type(exc).__name__, exc)); continue
                    w = d < R
                    if int(tot) != int(w) or w and (int(ind[1]) != 3-j or sc[1] != 1) or not w and sc[1] == 1:
                        bad.append("centroid %.2f mm from %s with a reach of %.2f: assigned to row %s, score %s, total %s (arms %s)" % (d, nm, R, ind[1], sc[1], tot, arms))
        return cnt, bad
    for w, (cnt, bad) in zip(work, mc.pmap(one, work)):
        ex.ran(cnt); ex.trace(cnt); ex.state(w)
        for b in bad[:2]: ex.fail("reach", b, case=str(w))


def limits(ex):
    """every threshold in counts and every margin on the reach that can be asked for, with centroids on both sides of each"""
    cs = list(itertools.product((None, 0., 100., 5e4, 80000., 1.5e5, 2e6), (None, 0., 0.06, 0.1, 0.5, 1.), (0, 1), (0, 1)))

    def one(c):
        thr, fudge, static, two = c
        t, f = 80000. if thr is None else thr, 0.1 if fudge is None else fudge
        L = {"M00201": (3., 3.), "M00202": (2.6, 2.7), "M00203": (3.3, 3.4)}
        C = {"M00201": (0., 0.), "M00202": (40., 0.), "M00203": (0., 40.)}
        metr, cal = Table(), Table()
        metr["DEVICE_ID"] = np.array(list(C)); metr["X_FP"] = np.array([C[k][0] for k in C]); metr["Y_FP"] = np.array([C[k][1] for k in C]); metr["PINHOLE_ID"] = np.zeros(3, int)
        sfx = "_STATIC" if static else ""
        cal["POS_ID"] = np.array(list(L)[::-1])
        for j in (1, 2): cal["LENGTH_R%d%s" % (j, sfx)] = np.array([L[k][j-1] for k in list(L)[::-1]])
        kw = {}
        if thr is not None: kw["countthresh"] = thr
        if fudge is not None: kw["arm_fudge_offset"] = fudge
        n = 0
        for j, k in enumerate(C):
            R = sum(L[k])+f
            for d, q in itertools.product((R-0.3, R-0.003, R+0.003, R+0.3), (t-1., t, t+1., 2*t+1.)):
                fvc = Table()
                fvc["X_FP"] = np.array([C[k][0]+0.6*d, 300.][:1+two]); fvc["Y_FP"] = np.array([C[k][1]-0.8*d, 300.][:1+two]); fvc["COUNTS"] = np.array([q, 3*t+5.][:1+two]); fvc["PINHOLE_ID"] = np.zeros(1+two, int)
                n += 1
                try: ind, sc, tot = MP.match_positioners(fvc, metr, cal, **kw)
                except Exception as exc:
                    if not mc.under_test(exc): raise
                    return n, "%s: %s" % (type(exc).__name__, exc)
                w = d < R and q > t
                if int(tot) != int(w) or w and (int(ind[0]) != j or sc[0] != 1) or not w and sc[0] == 1 or not q > t and ind[0] >= 0:
                    return n, "centroid of %g counts %.3f mm from %s (reach %.3f): assigned to row %s, score %s, total %s" % (q, d, k, R, ind[0], sc[0], tot)
        return n, None
    for c, (n, e) in zip(cs, mc.pmap(one, cs)):
        ex.ran(n, sample=dict(case=c)); ex.trace(n); ex.state(("limits", c))
        if e: ex.fail("limits", "%s, with (threshold, margin, static, two) %s" % (e, c), case=str(c))


def maxmatch(ok):
    """size of a maximum matching, by augmenting paths"""
    n, m = ok.shape
    adj = [np.flatnonzero(ok[i]) for i in range(n)]
    to = {}

    def aug(i, seen):
        for j in adj[i]:
            if j in seen: continue
            seen.add(j)
            if j not in to or aug(to[j], seen):
                to[j] = i
                return True
        return False
    return sum(aug(i, set()) for i in range(n))


def large(ex):
    """petals of many positioners: an ambiguity, a missing and an additional centroid at every place, with the true optimum from augmenting paths"""
    sizes = (1, 12, 51, 77, 120, 300) if ex.thorough else (1, 12, 61, 110)
    work = [(n, k, what) for n in sizes for k in range(0, n, 1 if ex.thorough or n < 20 else 3) for what in range(4)]+[(n, n-1, what) for n in sizes for what in range(4)]

    def one(w):
        n, k, what = w
        names = ["M%05d" % (300+(7*i) % n if n % 7 else 300+i) for i in range(n)]
        X, Y = 10.4*(np.arange(n) % 12), 10.4*(np.arange(n)//12)
        metr, cal = Table(), Table()
        metr["DEVICE_ID"] = np.array(names); metr["X_FP"] = X; metr["Y_FP"] = Y; metr["PINHOLE_ID"] = np.zeros(n, int)
        o = np.argsort(np.cos(np.arange(n)*1.7))
        cal["POS_ID"] = np.array(names)[o]; cal["LENGTH_R1"] = np.full(n, 3.); cal["LENGTH_R2"] = np.full(n, 3.)
        px, py = X+1.5*np.cos(np.arange(n)), Y+1.5*np.sin(np.arange(n))
        q = min(k+1, n-1)
        if what == 0: px[k], py[k], px[q], py[q] = (X[k]+X[q])/2, (Y[k]+Y[q])/2+0.1, (X[k]+X[q])/2, (Y[k]+Y[q])/2-0.1     # both in reach of both, unless in another row
        if what == 1: px, py = np.delete(px, k), np.delete(py, k)
        if what == 2: px, py = np.append(px, X[k]), np.append(py, Y[k]-2.)
        if what == 3: px[k], py[k] = (X[k]+X[q])/2, (Y[k]+Y[q])/2; px, py = np.delete(px, q), np.delete(py, q)
        if not len(px): return None
        o = np.argsort(np.cos(np.arange(len(px))*2.3))
        fvc = Table()
        fvc["X_FP"] = px[o]; fvc["Y_FP"] = py[o]; fvc["COUNTS"] = np.full(len(px), 2e5); fvc["PINHOLE_ID"] = np.zeros(len(px), int)
        d = np.hypot(fvc["X_FP"].data[:, None]-X[None], fvc["Y_FP"].data[:, None]-Y[None])
        if np.any(abs(d-6.1) < 0.03): return None
        ok = d < 6.1
        best = maxmatch(ok)
        try: ind, sc, tot, alt = MP.match_positioners(fvc, metr, cal, return_alternatives=True)
        except Exception as exc:
            if not mc.under_test(exc): raise
            return "%s: %s" % (type(exc).__name__, exc)
        for a in [ind]+list(alt):
            u = [int(j) for j in a if j >= 0]
            if len(set(u)) != len(u): return "a positioner has two centroids"
            if sum(ok[i, int(j)] for i, j in enumerate(a) if j >= 0) != best: return "assignment %s of %d" % (sum(ok[i, int(j)] for i, j in enumerate(a) if j >= 0), best)
        if int(tot) != best: return "score %s instead of %d" % (tot, best)
        for i, j in enumerate(ind):
            if j < 0 or not ok[i, int(j)]: continue
            if ok[:, int(j)].sum() == 1 and ok[i].sum() == 1: amb = False
            else:
                o2 = ok.copy(); o2[i, int(j)] = False
                amb = maxmatch(o2) == best
            if amb != any(int(a[i]) != int(j) for a in alt): return "centroid %d of row %d is %sambiguous but the alternatives say otherwise" % (i, j, "" if amb else "not ")
        return None
    for w, e in zip(work, mc.pmap(one, work)):
        ex.ran(1); ex.trace(1); ex.state(w)
        if e: ex.fail("large", "%s (%d positioners, place %d, kind %d)" % ((e,)+w), case=str(w))


SECTIONS = [limits, best_assignment, eligible, alternatives, reach, large]
