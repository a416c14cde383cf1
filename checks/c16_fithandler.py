"""C16: time windows, selection of data and bookkeeping of the calibration fits of a positioner."""
import contextlib, io, itertools, os
import numpy as np
from astropy.table import Table
import mc
from mc import maxabs
from desimeter.posparams import fithandler as H
from desimeter.posparams import fitter as F
from desimeter.posparams.movemask import movemask
from desimeter.transform import ptl2fp as P2F

PROPERTY = "C16"
LEVEL = "model_checking"
RULE = ("every history of a small scope (dates from an alphabet of gaps; rows valid, disabled, without a move, of another kind of exposure, "
        "re-homed or not, in every combination) x period x window x selection, run through the real file-to-file code with the "
        "numerical fit replaced by a deterministic stand-in that records its data and first guesses; the recorded fits and the results file are compared with a "
        "reference model of the history. Every permutation of fit errors and every failing subset of windows. A smaller set goes through the real fit. "
        "Non-trivial: distinct (history, options).")
ASSUMPTIONS = ["the numerical fit is judged separately (C17)", "rows have distinct dates", "of rows that share the same number of moves any one may be kept"]
POSID = "M00042"
T0 = np.datetime64("2021-03-01T00:00:00")
SEC0 = 1614556800.


def history(gaps, ctrl=None, moves=None, notes=None, rehome=None, expid=None, posid=POSID, order=None):
    """gaps in hundredths of days between consecutive rows"""
    n = len(gaps)+1
    d = np.r_[0, np.cumsum(gaps)]
    dates = [str(T0+np.timedelta64(int(round(q*864)), 's')) for q in d]
    i = np.arange(n)
    x = 3*np.cos(i*1.7)+150.; y = 3*np.sin(i*1.7)+80.
    t = Table(dict(DATE=dates, POS_P=110.+i*0.5, POS_T=-150+i*1.0, X_FP=x, Y_FP=y, CTRL_ENABLED=[bool(c) for c in (ctrl if ctrl is not None else [True]*n)],
                   TOTAL_MOVE_SEQUENCES=(moves if moves is not None else 100+i), TOTAL_CRUISE_MOVES_T=50+i, TOTAL_CRUISE_MOVES_P=50+i,
                   POS_ID=[posid]*n, PETAL_LOC=[3]*n, PETAL_ID=[4]*n, DEVICE_LOC=[77]*n, RECENT_REHOME=(rehome if rehome is not None else [1]*n),
                   EXPOSURE_ID=(expid if expid is not None else [9000]*n), LOG_NOTE=(notes if notes is not None else ["arc calibration; use_desimeter=True"]*n),
                   GEAR_CALIB_T=0.9+0.001*i, GEAR_CALIB_P=0.8+0.001*i))
    if order is not None:
        t = t[list(order)]
    return t


class Standin:
    """takes the place of the numerical fit"""
    def __init__(self, table, seqids=None, errors=None, failing=None):
        self.t = table
        self.calls = []
        self.errors = errors
        self.failing = failing or {}
        self.problem = None
        self.byT = {round(float(v), 6): i for i, v in enumerate(table['POS_T'])}
        px, py, _ = P2F.fp2ptl(3, np.array(table['X_FP'], float), np.array(table['Y_FP'], float), None)
        self.xy = np.array([px, py])
        self.nwin = {'static': {}, 'dynamic': {}}

    def __call__(self, posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequence_id, mode='static', nominals=None, bounds=None,
                 keep_fixed=None, ptlXerr=None, ptlYerr=None, outlier_rejection=False):
        r = [self.byT[round(float(v), 6)] for v in posintT]
        t = self.t
        for name, v, w in (("POS_P", posintP, t['POS_P']), ("x", ptlX, self.xy[0]), ("y", ptlY, self.xy[1]), ("GEAR_CALIB_T", gearT, t['GEAR_CALIB_T']),
                           ("GEAR_CALIB_P", gearP, t['GEAR_CALIB_P'])):
            if not maxabs(np.array(v, float)-np.array(w, float)[r]) <= 1e-6:
                self.problem = "%s given to the fit are not those of the rows used" % name
        seq = list(sequence_id); rh = [bool(v) for v in recent_rehome]
        self.calls.append(dict(rows=tuple(r), mode=mode, nominals=dict(nominals), seq=tuple(seq), rehome=tuple(rh), outlier=outlier_rejection,
                               fixed=tuple(keep_fixed or ()), bounds=dict(bounds)))
        b, cov, rms, n, fl = self.answer(mode, tuple(r), dict(nominals), seq, rh)
        b['FLAGS'] = fl
        return b, cov, rms, n

    def answer(self, mode, rows, nominals, seq, rh):
        key = (mode, rows)
        fl = self.failing.get(rows, 0)
        if fl & movemask['FAILED_FIT']:
            return {}, {}, 0., 0, fl
        k = rows[0]*31+rows[-1]*7+len(rows)
        b = {}
        fitted = F.static_keys if mode == 'static' else F.dynamic_keys
        for j, q in enumerate(F.all_keys):
            b[q] = round(1+((k*(j+3)*17) % 101)/50., 6) if q in fitted else nominals[q]
        if mode == 'static':
            for s in sorted({s for s, h in zip(seq, rh) if not h}):
                b["EPSILON_T_%d" % s] = round(5+s+((k*13) % 11)/10., 6); b["EPSILON_P_%d" % s] = round(-3-s-((k*7) % 11)/10., 6)
        else:
            for q in nominals:
                if "EPSILON" in q: b[q] = nominals[q]
        cov = {}
        for j, q in enumerate(fitted):
            for l, w in enumerate(fitted):
                if l >= j:
                    cov["COV.%s.%s" % (q, w)] = 0.01*(1+j)+0.001*l*(1+k % 5) if l > j else 0.04*(1+j+k % 3)
        for q in F.all_keys:
            if q not in fitted: cov["COV.%s.%s" % (q, q)] = 0.
        if self.errors is not None and rows in self.errors:
            rms = self.errors[rows]+(0.5 if mode == 'dynamic' else 0)
        else:
            rms = 0.01+0.001*((k*5) % 7)
        return b, cov, rms, len(rows)-(k % 3 == 0), fl


@contextlib.contextmanager
def patched(s):
    old = F.fit_params
    F.fit_params = s
    extra = hasattr(H, 'fit_params')
    if extra:
        H.fit_params = s
    try:
        yield
    finally:
        F.fit_params = old
        if extra:
            H.fit_params = old


def execute(t, period, window, quantile=0.5, standin=True, errors=None, failing=None, posid=POSID, min_window=2, original=None, **kw):
    """returns (log string or exception, results table, calls)"""
    s = Standin(original if original is not None else t, errors=errors, failing=failing)
    with mc.scratch() as d:
        f = os.path.join(d, POSID+".csv")
        t.write(f)
        out = os.path.join(d, "out"); os.mkdir(out)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if standin:
                    with patched(s):
                        log = H.run_best_fits(posid, f, period, window, out, quantile, printf=lambda *a: None, min_window=min_window, **kw)
                else:
                    log = H.run_best_fits(posid, f, period, window, out, quantile, printf=lambda *a: None, min_window=min_window, **kw)
        except (Exception, SystemExit) as e:
            if not mc.under_test(e):
                raise
            log = e
        files = sorted(os.listdir(out))
        r = Table.read(os.path.join(out, files[0])) if files else None
        if files and files != [posid+"_paramfits.csv"]:
            s.problem = "files written: %s" % files
    return log, r, s


# ---- reference model

def seconds(gaps):
    return np.r_[0, np.cumsum(gaps)]*864.


def windows(sec, period_days, window):
    """sec: sorted times of the valid rows; returns list of (first, last) indices"""
    n = len(sec)
    per = period_days*86400.
    k = int(np.ceil((sec[-1]-sec[0])/per))
    datum = [sec[0]+per*i for i in range(max(k, 1))]
    if len(datum) == 1:
        out = []
        for i in range(0, n, window):
            out.append((0, min(n-1, i+window-1)))
        return out
    idx = [int(np.searchsorted(sec, q, side='left')) for q in datum]
    out = []
    for J in range(1, len(idx)):
        I = [i for i in range(J) if idx[J]-idx[i] > window]
        if I:
            w = (idx[max(I)], idx[J])
        elif J == len(idx)-1:
            w = (idx[0], idx[J])
        else:
            continue
        if w not in out:
            out.append(w)
    return out


def expected_results(s, rows, wins, calls):
    """what the results file must contain, given the stand-in's answers; rows: valid rows in time order"""
    return [(tuple(rows[a:b+1]), rows[a], rows[b]) for a, b in wins]


def close(a, b):
    try:
        a = float(a)
    except (TypeError, ValueError):
        return False
    return abs(a-b) <= 1e-9*(1+abs(b))


def compare(log, res, s, rows, wins, sec, quantile=0.5, outlier=False, first_pass=None, seq=None, rehome=None):
    """None or a message. rows: valid rows in time order; first_pass: (rows, windows) of the re-homed ones or None"""
    if isinstance(log, BaseException):
        return "failed: %s: %s" % (type(log).__name__, log)
    if s.problem:
        return s.problem
    todo = []
    nom = dict(F.default_values)
    def best(ws, rr, defaults, start):
        ans = []
        for a, b in ws:
            w = tuple(rr[a:b+1])
            sq = [seq[i] for i in w]; rh = [rehome[i] for i in w]
            ans.append(s.answer('static', w, start, sq, rh))
        err = np.array([a[2] for a in ans])
        lim = np.percentile(err, quantile*100)
        keys = list(F.all_keys)
        eps = sorted({k for a in ans for k in a[0] if "EPSILON" in k})
        out = {}
        for k in keys+eps:
            v = [a[0][k] for a, e in zip(ans, err) if e <= lim and k in a[0]]
            if not v:
                v = [a[0][k] for a in ans if k in a[0]]
            out[k] = np.median(v)
        return out, ans
    calls = [c for c in s.calls]
    want = []
    start = nom
    if first_pass is not None:
        r1, w1 = first_pass
        want += [(tuple(r1[a:b+1]), 'static', start) for a, b in w1]
        bst, _ = best(w1, r1, nom, start)
        start = {k: bst[k] for k in F.all_keys}
    want += [(tuple(rows[a:b+1]), 'static', start) for a, b in wins]
    bst, stat = best(wins, rows, nom, start)
    want += [(tuple(rows[a:b+1]), 'dynamic', bst) for a, b in wins]
    got = [(c['rows'], c['mode']) for c in calls]
    if got != [w[:2] for w in want]:
        return "fits made %s instead of %s" % (short(got), short([w[:2] for w in want]))
    for c, w in zip(calls, want):
        sq = tuple(seq[i] for i in w[0]); rh = tuple(rehome[i] for i in w[0])
        if c['seq'] != sq or c['rehome'] != rh:
            return "sequences %s rehomed %s given instead of %s %s" % (c['seq'], c['rehome'], sq, rh)
        if c['fixed'] or c['outlier'] != outlier:
            return "fixed parameters %s, outlier rejection %s" % (c['fixed'], c['outlier'])
        for k in F.all_keys:
            if c['bounds'].get(k) != F.default_bounds[k]:
                return "bounds of %s are %s" % (k, c['bounds'].get(k))
        ks = set(w[2])
        if not ks <= set(c['nominals']) or any(not abs(c['nominals'][k]-w[2][k]) <= 1e-9 for k in ks):
            return "first guesses of the %s fit are %s instead of %s" % (c['mode'], c['nominals'], w[2])
    # results file
    if len(res) != len(wins):
        return "%d rows of results for %d windows" % (len(res), len(wins))
    ends = list(res['DATA_END_DATE_SEC'])
    if ends != sorted(ends):
        return "results are not in time order"
    used = set()
    for (a, b), st in zip(wins, stat):
        w = tuple(rows[a:b+1])
        m = [i for i in range(len(res)) if i not in used and close(res['DATA_START_DATE_SEC'][i], SEC0+sec[w[0]]) and close(res['DATA_END_DATE_SEC'][i], SEC0+sec[w[-1]]) and int(res['NUM_POINTS'][i]) == len(w)]
        if not m:
            return "no row of results for the window of rows %s..%s with its dates and count" % (w[0], w[-1])
        i = m[0]; used.add(i)
        if str(res['DATA_START_DATE'][i]) != str(s.t['DATE'][w[0]]) or str(res['DATA_END_DATE'][i]) != str(s.t['DATE'][w[-1]]):
            return "dates of the window are wrong"
        if str(res['POS_ID'][i]) != POSID or (int(res['PETAL_ID'][i]), int(res['PETAL_LOC'][i]), int(res['DEVICE_LOC'][i])) != (4, 3, 77):
            return "identification columns are wrong"
        sq = [seq[q] for q in w]; rh = [rehome[q] for q in w]
        dyn = s.answer('dynamic', w, bst, sq, rh)
        alleps = {k for k in bst if "EPSILON" in k}
        for suf, (pb, cov, rms, n, fl) in (("_STATIC", st), ("_DYNAMIC", dyn)):
            if not close(res['FIT_ERROR'+suf][i], rms) or int(res['NUM_POINTS_IN_FIT'+suf][i]) != n or int(res['FLAGS'][i]) != fl:
                return "error, count or flags of the %s fit are wrong" % suf[1:].lower()
            for k in list(F.all_keys)+sorted(alleps):
                if k+suf not in res.colnames:
                    return "no column %s%s" % (k, suf)
                v = res[k+suf][i]
                if k in pb:
                    if v is np.ma.masked or not close(v, pb[k]):
                        return "%s%s = %s instead of %s" % (k, suf, v, pb[k])
                elif v is not np.ma.masked and np.isfinite(float(v)) and float(v) != 0:
                    return "%s%s = %s for a window without that sequence" % (k, suf, v)
            fitted = F.static_keys if suf == "_STATIC" else F.dynamic_keys
            for j, q in enumerate(F.all_keys):
                v = res["ERR.%s%s" % (q, suf)][i]
                if not close(v, np.sqrt(cov["COV.%s.%s" % (q, q)])):
                    return "ERR.%s%s = %s" % (q, suf, v)
                for l in F.all_keys[j+1:]:
                    name = "COV.%s%s.%s%s" % (q, suf, l, suf)
                    if q in fitted and l in fitted:
                        if name not in res.colnames or not close(res[name][i], cov["COV.%s.%s" % (q, l)]):
                            return "%s missing or wrong" % name
    strange = [c for c in res.colnames if c.split(".")[0] not in ("COV", "ERR") and "EPSILON" in c and not any(c in (k+"_STATIC", k+"_DYNAMIC") for k in bst)]
    if strange:
        return "unexpected columns %s" % strange
    return None


def short(x):
    s = str(x)
    return s if len(s) < 400 else s[:400]+"..."


def drive(ex, cs, one, tag, sample):
    for c, e in zip(cs, mc.pmap(one, cs)):
        ex.ran(1, sample=sample(c))
        ex.state(str(c))
        ex.trace()
        if e:
            ex.fail(tag, "%s: %s" % (sample(c), e), case=str(c))


def timing(ex):
    """every sequence of gaps x period x window"""
    L = 6 if not ex.thorough else 8
    cs = []
    for k, g in enumerate(itertools.product((1, 130, 700), repeat=L)):
        for j, (period, window) in enumerate(itertools.product((1, 5, 1000), (1, 3, 100))):
            if ex.thorough and (k+j) % 3:
                continue
            if not ex.thorough and (k+j) % 6:
                continue
            cs.append((g, period, window))

    def one(c):
        g, period, window = c
        t = history(g)
        sec = seconds(g)
        log, res, s = execute(t, period, window)
        n = len(t)
        return compare(log, res, s, list(range(n)), windows(sec, period, window), sec, seq=[0]*n, rehome=[True]*n)
    drive(ex, cs, one, "windows", lambda c: dict(gaps=c[0], period=c[1], window=c[2]))


def long(ex):
    """histories of many hundreds of days, with short periods"""
    cs = []
    for n, gap, period, window in itertools.product((40, 90), (100, 730), (1, 2), (3,)) if not ex.thorough else itertools.product((40, 90, 160), (100, 730, 1100), (1, 2, 5), (3, 7)):
        for burst in (0, 3):
            cs.append((n, gap, period, window, burst))

    def one(c):
        n, gap, period, window, burst = c
        g = tuple(gap+30*(i % 3) if not (burst and i % burst) else 2 for i in range(n-1))
        t = history(g)
        log, res, s = execute(t, period, window)
        return compare(log, res, s, list(range(n)), windows(seconds(g), period, window), seconds(g), seq=[0]*n, rehome=[True]*n)
    drive(ex, cs, one, "long", lambda c: dict(rows=c[0], gap=c[1], period=c[2], window=c[3], burst=c[4]))


def counters(ex):
    """counters of moves in every order with respect to the dates (counters restart when a positioner or its electronics is replaced), rows of the file in several orders"""
    cs = []
    for k, p in enumerate(itertools.permutations(range(6))):
        if k % (11 if not ex.thorough else 2) == 0 or p in ((3, 4, 5, 0, 1, 2), (5, 4, 3, 2, 1, 0), (1, 2, 3, 4, 5, 0)):
            for period, window, order in ((1, 1, None), (2, 2, (5, 3, 1, 0, 2, 4)), (1000, 3, (2, 3, 4, 5, 0, 1))):
                cs.append((p, period, window, order))

    def one(c):
        p, period, window, order = c
        g = (130, 60, 130, 210, 130)
        t = history(g, moves=[10+3*q for q in p])
        log, res, s = execute(t if order is None else t[list(order)], period, window, original=t)
        sec = seconds(g)
        return compare(log, res, s, list(range(6)), windows(sec, period, window), sec, seq=[0]*6, rehome=[True]*6)
    drive(ex, cs, one, "counters", lambda c: dict(counters=c[0], period=c[1], window=c[2], order=c[3]))


def selection(ex):
    """every combination of valid, disabled, move-less rows and kinds of exposure"""
    L = 6 if not ex.thorough else 7
    notes = {"a": "arc calibration; use_desimeter=True", "b": "random; use_desimeter=True", "c": "arc calibration"}
    cs = []
    for k, kinds in enumerate(itertools.product("vdm", repeat=L)):
        if ex.thorough or k % 2 == 0:
            cs.append((kinds, "a"*L, None))
    for k, nn in enumerate(itertools.product("abc", repeat=L)):
        for j, sel in enumerate(("arc calibration", "arc calibration & use_desimeter=True", "random | use_desimeter=False", "arc&True|random", "nothing", "nothing|none|random", "none|nothing|nor|arc & use_desimeter=True", "arc & calibration & use & desimeter & True | none")):
            if (k+j) % (9 if not ex.thorough else 2) == 0:
                cs.append(("v"*L, "".join(nn), sel))
                if ex.thorough and k % 5 == 0:
                    kinds = "".join("vdm"[(k//(q+1)+q) % 3] for q in range(L))
                    cs.append((kinds, "".join(nn), sel))

    def one(c):
        kinds, nn, sel = c
        moves, m = [], 100
        for q in kinds:
            m += (q != "m")
            moves.append(m)
        g = [130]*(len(kinds)-1)
        t = history(g, ctrl=[q != "d" for q in kinds], moves=moves, notes=[notes[q] for q in nn])
        log, res, s = execute(t, 1000, 1000, min_window=2, log_note_selection=sel)
        match = []
        for q in nn:
            o = sel is None
            for alt in (sel or "").split("|"):
                if sel is not None:
                    o |= all(w.strip() in notes[q] for w in alt.split("&") if w.strip())
            match.append(o)
        if not any(match):
            return None if isinstance(log, RuntimeError) and not s.calls else "no selected row, but %s" % log
        cand = [i for i in range(len(kinds)) if kinds[i] != "d" and match[i]]
        groups = {}
        for i in cand:
            groups.setdefault(moves[i], []).append(i)
        if len(groups) < 2:
            if s.calls or isinstance(log, BaseException):
                return "too few valid rows, but %s" % log
            if len(res) != 1 or int(res['FLAGS'][0]) != movemask["INVALID_AFTER_FILTER"] or str(res['POS_ID'][0]) != POSID:
                return "results for too few valid rows: %s" % res
            return None
        if isinstance(log, BaseException) or not s.calls:
            return "failed: %s" % log
        rows = s.calls[0]['rows']
        if sorted(rows) != list(rows):
            return "rows out of time order: %s" % (rows,)
        if len(rows) != len(groups) or any(sum(r in q for r in rows) != 1 for q in groups.values()):
            return "rows used %s, valid ones grouped by number of moves %s" % (rows, list(groups.values()))
        sec = seconds(g)
        n = len(kinds)
        return compare(log, res, s, list(rows), [(0, len(rows)-1)], sec, seq=[0]*n, rehome=[True]*n)
    drive(ex, cs, one, "selection", lambda c: dict(rows="".join(c[0]), notes=c[1], keywords=c[2]))


def rehoming(ex):
    """every re-homing and exposure pattern of the last rows, over one or several windows"""
    m = 5 if not ex.thorough else 6
    cs = []
    for re in itertools.product((1, 0), repeat=m):
        for e in ("same", "each", "two"):
            for period, window in ((1000, 1000), (2, 3), (2, 11)):
                for force in (False, True):
                    cs.append((re, e, period, window, force, 10, 0.5, sum(re) % 2 == 1))
    for k in (8, 9):
        for re in itertools.product((1, 0), repeat=3):
            cs.append((re, "each", 1000, 1000, False, k, 0.5, False))
    # only few windows decide on the first guesses: sequences outside of them keep their offsets
    for re in itertools.product((1, 0), repeat=m):
        for period, window in ((2, 3), (2, 1), (1, 2)):
            for q, o in ((0., True), (0.05, False), (0.34, True), (1., False)):
                cs.append((re, "each", period, window, False, 10, q, o))

    def one(c):
        re, e, period, window, force, k, quantile, outlier = c
        n = k+len(re)
        rehome = [1]*k+list(re)
        ex_ = [500]*k+[dict(same=600, each=600+7*i, two=600+(i % 2))[e] for i in range(len(re))]
        g = [60]*(n-1)
        t = history(g, rehome=rehome, expid=ex_)
        log, res, s = execute(t, period, window, quantile=quantile, force_recent_rehome=force, min_window=5, outlier_rejection=outlier,
                              errors=None if quantile == 0.5 else {tuple(range(a, b+1)): 0.001*(1+j) for j, (a, b) in enumerate(windows(seconds(g), period, window))})
        sec = seconds(g)
        rank = sorted(set(ex_))
        seq = [rank.index(q) for q in ex_]
        rh = [bool(q) or force for q in rehome]
        first = None
        if not all(rh):
            r1 = [i for i in range(n) if rh[i]]
            if len(r1) < 10:
                ok = not s.calls and res is not None and len(res) == 1 and int(res['FLAGS'][0]) == movemask["INVALID_AFTER_FILTER"]
                return None if ok else "only %d re-homed rows, but %s" % (len(r1), log)
            # windows of the first pass use the datum dates of the whole history
            per = period*86400.
            kk = max(int(np.ceil((sec[-1]-sec[0])/per)), 1)
            s1 = sec[r1]
            if kk == 1:
                w1 = [(0, min(len(r1)-1, i+window-1)) for i in range(0, len(r1), window)]
            else:
                idx = [min(int(np.searchsorted(s1, sec[0]+per*i, side='left')), len(r1)-1) for i in range(kk)]
                w1 = []
                for J in range(1, kk):
                    I = [i for i in range(J) if idx[J]-idx[i] > window]
                    if not I and J < kk-1:
                        continue
                    w = (idx[max(I)] if I else idx[0], idx[J])
                    if w not in w1:
                        w1.append(w)
            first = (r1, w1)
        return compare(log, res, s, list(range(n)), windows(sec, period, window), sec, first_pass=first, seq=seq, rehome=rh, quantile=quantile, outlier=outlier)
    drive(ex, cs, one, "rehoming", lambda c: dict(rehomed=c[0], exposures=c[1], period=c[2], window=c[3], forced=c[4], before=c[5], quantile=c[6], outlier=c[7]))


def quantiles(ex):
    """every order of the errors of the windows x quantile"""
    g = [100]*11
    sec = seconds(g)
    wins = windows(sec, 3, 2)
    n = 12
    assert len(wins) == 3, wins
    g2 = [100]*15
    cs = []
    for perm in itertools.product((0.01, 0.02, 0.03, 0.05), repeat=4):
        for q in (0., 0.05, 0.34, 0.5, 0.67, 1.):
            cs.append((perm, q))
    if not ex.thorough:
        cs = [c for i, c in enumerate(cs) if i % 3 == 0 or len(set(c[0])) == 4]

    for perm in itertools.product((0.01, 0.0100003, 0.010002, 0.05), repeat=4):   # nearly the same errors
        if len(set(perm)) > 2:
            cs.append((perm, 0.05)); cs.append((perm, 0.34))

    def one(c):
        perm, q = c
        sec = seconds(g2)
        wins = windows(sec, 3, 2)
        assert len(wins) == 4, wins
        rows = list(range(16))
        errs = {tuple(rows[a:b+1]): p for (a, b), p in zip(wins, perm)}
        log, res, s = execute(history(g2), 3, 2, quantile=q, errors=errs, outlier_rejection=bool(len(set(perm)) % 2))
        return compare(log, res, s, rows, wins, sec, quantile=q, seq=[0]*16, rehome=[True]*16, outlier=bool(len(set(perm)) % 2))
    drive(ex, cs, one, "quantile", lambda c: dict(errors=c[0], quantile=c[1]))


def failing(ex):
    """every subset of windows whose fit fails, or is only flagged"""
    g2 = [100]*15
    sec = seconds(g2)
    wins = windows(sec, 3, 2)
    rows = list(range(16))
    cs = list(itertools.product((0, 1, 4, 5), repeat=4))

    def one(c):
        fl = {tuple(rows[a:b+1]): f for (a, b), f in zip(wins, c)}
        log, res, s = execute(history(g2), 3, 2, failing=fl)
        if any(f & 4 for f in c):
            if isinstance(log, BaseException):
                return "failed: %s: %s" % (type(log).__name__, log)
            w = 0
            for f in c: w |= f
            if any(q['mode'] == 'dynamic' for q in s.calls):
                return "second pass made although the first one failed"
            if len(res) != 1 or int(res['FLAGS'][0]) != w or str(res['POS_ID'][0]) != POSID or 'LENGTH_R1_STATIC' in res.colnames:
                return "results of failed fits: %s" % res
            return None
        return compare(log, res, s, rows, wins, sec, seq=[0]*16, rehome=[True]*16)
    drive(ex, cs, one, "failing", lambda c: dict(flags=c))

    # fits of the first pass, with the re-homed moves only
    def first(c):
        t = history(g2, rehome=[1]*14+[0]*2)
        fl = {tuple(range(a, b+1)): f for (a, b), f in zip(w1, c)}
        log, res, s = execute(t, 3, 2, failing=fl)
        if isinstance(log, BaseException):
            return "failed: %s: %s" % (type(log).__name__, log)
        if not any(f & 4 for f in c):
            return None if len(res) == len(wins) else "%d rows of results" % len(res)
        w = 0
        for f in c: w |= f
        if len(s.calls) > len(w1) or any(set(q['rows']) - set(range(14)) for q in s.calls):
            return "went on although the first pass failed"
        if len(res) != 1 or int(res['FLAGS'][0]) != w or str(res['POS_ID'][0]) != POSID or 'LENGTH_R1_STATIC' in res.colnames:
            return "results of failed fits of the first pass: %s" % res
        return None
    log, res, s = execute(history(g2, rehome=[1]*14+[0]*2), 3, 2)
    w1 = sorted({(min(q['rows']), max(q['rows'])) for q in s.calls[:len(s.calls)-2*len(wins)]})
    drive(ex, list(itertools.product((0, 1, 4, 5), repeat=len(w1))), first, "failing-first", lambda c: dict(first=c))


def files(ex):
    """wrong positioner, each missing column, row order, one date, positioners fitted one after the other"""
    g = [130, 20, 700, 1, 300, 90]
    n = len(g)+1
    sec = seconds(g)
    k = 0
    def bad(t, posid=POSID):
        log, res, s = execute(t, 1000, 1000, posid=posid, original=history(g))
        ok = not s.calls and not isinstance(log, BaseException) and len(res) == 1 and int(res['FLAGS'][0]) == movemask["INVALID_TABLE"] and str(res['POS_ID'][0]) == posid
        return ok, log
    ok, log = bad(history(g), "M00043")
    ex.check(ok, "wrong-positioner", "data of another positioner: %s" % log)
    ok, log = bad(history(g, posid="M00041"))
    ex.check(ok, "wrong-positioner", "data of another positioner: %s" % log)
    t = history(g); t['POS_ID'][3] = "M00041"
    ok, log = bad(t)
    ex.check(ok, "mixed-positioners", "data of two positioners: %s" % log)
    for col in ("POS_P", "POS_T", "X_FP", "Y_FP", "CTRL_ENABLED", "TOTAL_MOVE_SEQUENCES", "PETAL_LOC"):
        t = history(g); t.remove_column(col)
        t['GEAR_CALIB_T'] = 1.; t['GEAR_CALIB_P'] = 1.
        if col in ("POS_P", "POS_T"):
            pass
        ok, log = bad(t)
        ex.check(ok, "missing-"+col, "table without %s: %s" % (col, log))
        k += 1
    log, res, s = execute(history(g, rehome=[0]*n), 1000, 1000)
    ex.check(isinstance(log, RuntimeError) and not s.calls and res is None, "no-rehome", "history without re-homed moves: %s" % log)
    for spelling, val in (("True", True), ("true", True), ("TRUE", True), ("1", True), ("Yes", True), ("False", False), ("false", False), ("0", False), ("no", False)):
        t = history(g)
        t['CTRL_ENABLED'] = ["yes" if spelling != "1" and spelling != "0" else "1"]*n
        t['CTRL_ENABLED'] = np.array(t['CTRL_ENABLED'], dtype='U8')
        t['CTRL_ENABLED'][2] = spelling
        if spelling in ("1", "0"):
            t['CTRL_ENABLED'] = [int(q) for q in t['CTRL_ENABLED']]
        log, res, s = execute(t, 1000, 1000)
        ex.check(bool(s.calls) and (2 in s.calls[0]['rows']) == val, "spelling", "CTRL_ENABLED=%s: %s" % (spelling, log))
        k += 1
    # order of the rows in the file
    perms = list(itertools.permutations(range(n)))[::(37 if not ex.thorough else 5)]
    def one(p):
        log, res, s = execute(history(g, order=p), 3, 2, original=history(g))
        return compare(log, res, s, list(range(n)), windows(sec, 3, 2), sec, seq=[0]*n, rehome=[True]*n)
    drive(ex, perms, one, "row-order", lambda p: dict(order=p))
    # all moves at the same date
    t = history([0]*5)
    log, res, s = execute(t, 10, 1000)
    ex.check(not isinstance(log, BaseException) and sorted(s.calls[0]['rows']) == list(range(6)) and len(res) == 1, "one-date", "all moves at one date: %s" % log)
    ex.ran(k+6)
    ex.states(k+6)

    # several positioners in one process
    def run(kind):
        m = 24
        rh = [1]*12+[1]*12; eid = [500]*12+[600+i//4 for i in range(12)]
        if kind == 1: rh = [1]*12+[0]*12
        if kind == 2: rh = [0]*4+[1]*12+[0]*8
        if kind == 3: eid = [500]*10+[600+i for i in range(14)]; rh = [1]*12+[0]*12
        t = history([60]*(m-1), rehome=rh, expid=eid)
        log, res, s = execute(t, 1000 if kind < 3 else 4, 1000 if kind < 3 else 3)
        if isinstance(log, BaseException):
            return "failed: %s: %s" % (type(log).__name__, log)
        for c in list(res.colnames):
            if c.startswith("ANALYSIS"): res.remove_column(c)
        return sorted(res.colnames), [[str(v) for v in res[c]] for c in sorted(res.colnames)]
    def seq(h):
        for q in h[:-1]: run(q)
        return run(h[-1])
    hs = [(a,) for a in range(4)]+list(itertools.product(range(4), repeat=2))
    if ex.thorough: hs += list(itertools.product(range(4), repeat=3))
    rs = mc.pmap(seq, hs, chunksize=1)
    fresh = {h[0]: r for h, r in zip(hs, rs) if len(h) == 1}
    for h, r in zip(hs, rs):
        ex.ran(1, sample=dict(sequence=h)); ex.state(h)
        if isinstance(r, str):
            ex.fail("sequence", "positioners %s: %s" % (h, r))
        else:
            ex.check(r == fresh[h[-1]], "sequence", "results of positioner %d depend on the ones fitted before: %s" % (h[-1], h[:-1]))


def complete(ex):
    """real fits: calibration recovered through the files, windows with drifts included"""
    c0 = dict(LENGTH_R1=2.95, LENGTH_R2=3.06, OFFSET_T=33., OFFSET_P=-4., OFFSET_X=152., OFFSET_Y=78.)
    cs = [(re, per, dw, st) for re in itertools.product((1, 0), repeat=3) for per, dw in ((1000, 1000), (7, 10)) for st in (1., 0.7)]
    if not ex.thorough:
        cs = [c for i, c in enumerate(cs) if i % 2 == 0 or c[3] == 1]

    def one(c):
        re, per, dw, st = c
        n = 48
        i = np.arange(n)
        k = np.where(i % 2 == 0, 0, np.where(i < 16, 1, np.where(i < 32, 2, 3)))
        re = (1,)+re
        T = -170+(i*77.3) % 340; P = 105+(i*23.7) % 60
        et = np.array([0 if re[q] else 9.*q for q in k]); ep = np.array([0 if re[q] else 1.5-q for q in k])
        t, p = np.radians(T+c0['OFFSET_T']+et), np.radians(P+c0['OFFSET_P']+ep)
        x = c0['OFFSET_X']+c0['LENGTH_R1']*np.cos(t)+c0['LENGTH_R2']*np.cos(t+p)
        y = c0['OFFSET_Y']+c0['LENGTH_R1']*np.sin(t)+c0['LENGTH_R2']*np.sin(t+p)
        from desimeter.transform import pos2ptl
        xp, yp = pos2ptl.flat2ptl(x, y)
        xf, yf, _ = P2F.ptl2fp(3, xp, yp, None)
        h = history([60]*(n-1), rehome=[re[q] for q in k], expid=(700+k).tolist())
        h['POS_T'], h['POS_P'], h['X_FP'], h['Y_FP'] = T, P, xf, yf
        if st < 1:
            h['CTRL_ENABLED'][5] = False; h['X_FP'][5] += 50.   # would spoil everything
        log, res, s = execute(h, per, dw, standin=False, min_window=10)
        if isinstance(log, BaseException):
            return "failed: %s: %s" % (type(log).__name__, log)
        if 'LENGTH_R1_STATIC' not in res.colnames:
            return "no results: %s" % log
        for r in res:
            for q, w in c0.items():
                if abs(r[q+"_STATIC"]-w) > (0.3 if "OFFSET_T" in q or "OFFSET_P" in q else 0.02):
                    return "%s_STATIC = %g instead of %g" % (q, r[q+"_STATIC"], w)
            for q in range(1, 4):
                name = "EPSILON_T_%d_STATIC" % q
                if (name in res.colnames) == bool(re[q]):
                    return "column %s %s" % (name, "missing" if not re[q] else "present")
                if not re[q]:
                    v = r[name]
                    if v is not np.ma.masked and np.isfinite(v) and abs(v-9*q) > 0.5:
                        return "%s = %g instead of %g" % (name, v, 9*q)
                    if (not abs(r["EPSILON_T_%d_DYNAMIC" % q]-9*q) <= 0.5):
                        return "EPSILON_T_%d_DYNAMIC = %g instead of %g" % (q, r["EPSILON_T_%d_DYNAMIC" % q], 9*q)
        return None
    drive(ex, cs, one, "complete", lambda c: dict(rehomed=c[0], period=c[1], window=c[2]))


SECTIONS = [timing, long, counters, selection, rehoming, quantiles, failing, files, complete]
