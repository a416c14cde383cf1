"""C26: from the fits of individual positioners to the calibrations prepared for the instrument."""
import csv, glob, itertools, os
import numpy as np
import mc, prog
from desimeter import io
from desimeter.posparams import fitter
from desimeter.posparams.movemask import movemask
from desimeter.posparams.fithandler import write_failed_fit

PROPERTY = "C26"
LEVEL = "model_checking"
RULE = ("the dialogue of the preparation program is a state machine: every sequence of answers up to a depth at every prompt, every subset of failing "
        "conditions, both sides of every tolerance, every arrangement of duplicate rows, every choice of committed parameters, in both modes, against a "
        "model of the documented behaviour; every sequence of fit results merged. Non-trivial: distinct cases.")
ASSUMPTIONS = ["device locations exist in the nominal table", "values are at least 1e-6 away from a tolerance"]
DIS = "DEVICE_CLASSIFIED_NONFUNCTIONAL"
STATIC = ["LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y"]
BOUND = dict(LENGTH_R1=(2.5, 3.5), LENGTH_R2=(2.5, 3.5), OFFSET_T=(-200., 200.), OFFSET_P=(-30., 30.), OFFSET_X=(-500., 500.), OFFSET_Y=(-500., 500.))
BITS = dict(THETA_STUCK=0, PHI_STUCK=1, FAILED_FIT=2, INVALID_TABLE=3, INVALID_AFTER_FILTER=4)
REQ = ["POS_ID", "FLAGS", "DEVICE_LOC", "NUM_POINTS", "DATA_END_DATE", "FIT_ERROR_STATIC", "NUM_POINTS_IN_FIT_STATIC"]+[k+"_STATIC" for k in STATIC]
COMMITS = ["LENGTH_R1", "LENGTH_R2", "OFFSET_T", "OFFSET_P", "OFFSET_X", "OFFSET_Y", DIS]
NEVER = ["SCALE_T", "SCALE_P", "PHYSICAL_RANGE_T", "PHYSICAL_RANGE_P"]
_nom = None


def nominal(loc):
    global _nom
    if _nom is None:
        t = io.load_nominal_positioner_locations()
        _nom = {int(d): (float(x), float(y)) for d, x, y in zip(t["DEVICE_LOC"], t["X_FLAT"], t["Y_FLAT"])}
    return _nom[loc]


def row(pid, loc, j=0, **k):
    x, y = nominal(loc)
    r = dict(POS_ID=pid, FLAGS=0, DEVICE_LOC=loc, PETAL_LOC=3, NUM_POINTS=20+j, DATA_END_DATE="2020-01-%02d" % (j+1), FIT_ERROR_STATIC=0.01+0.001*j, FIT_ERROR_DYNAMIC=0.2, NUM_POINTS_IN_FIT_STATIC=19+j,
             NUM_POINTS_IN_FIT_DYNAMIC=3)
    r["LENGTH_R1_DYNAMIC"] = 9.
    for n, v in zip(STATIC, (3.1, 2.9, 15., -4., x+0.1, y-0.2)): r[n+"_STATIC"] = v+0.001*j
    r["SCALE_T_STATIC"] = 7.; r["SCALE_T_DYNAMIC"] = 1.01; r["SCALE_P_DYNAMIC"] = 0.99; r["OFFSET_X_DYNAMIC"] = -3.; r["ERR.OFFSET_X_STATIC"] = 0.3
    r.update(k)
    return r


def fails(r, tol):
    """checks that a row does not pass, for the given tolerances"""
    f = set()
    if any(r[k] is None for k in REQ): f.add("missing")
    v = {k: r[k+"_STATIC"] for k in STATIC}
    if r["NUM_POINTS"] is not None and r["NUM_POINTS_IN_FIT_STATIC"] is not None and r["NUM_POINTS"]-r["NUM_POINTS_IN_FIT_STATIC"] > tol["outliers"]: f.add("outliers")
    if r["FIT_ERROR_STATIC"] is not None and r["FIT_ERROR_STATIC"] > tol["error"]: f.add("error")
    for n, b in BITS.items():
        if r["FLAGS"] is not None and (r["FLAGS"] >> b) & 1: f.add("flag "+n)
    for k in STATIC:
        lo, hi = BOUND[k]
        d = (hi-lo)*tol["bounds"]
        if v[k] is not None and not lo+d <= v[k] <= hi-d: f.add("bounds")
    for k, n in zip(("OFFSET_X", "OFFSET_Y"), nominal(r["DEVICE_LOC"]) if r["DEVICE_LOC"] is not None else (None, None)):
        if v[k] is not None and n is not None and (not abs(v[k]-n) <= tol["xy"]): f.add("xy")
    for k in ("LENGTH_R1", "LENGTH_R2"):
        if v[k] is not None and (not abs(v[k]-3.) <= tol["arms"]): f.add("arms")
    return f


class Exit(Exception): pass
class Starved(Exception): pass


class Model:
    """documented behaviour of prepare_posparams_for_instr"""
    def __init__(self, rows, answers, enabling):
        self.rows, self.it, self.enabling, self.tol = rows, iter(answers), enabling, dict(outliers=2, error=0.03, bounds=0.001, xy=0.5, arms=0.5)

    def input(self):
        try: return next(self.it)
        except StopIteration: raise Starved()

    def ask(self, opts):
        while True:
            a = self.input().lower()
            if "help" in opts and a in ("h", "help", "doc", "man"): return "help"
            if "no" in opts and a in ("n", "no", "false"): return "no"
            if "yes" in opts and a in ("y", "yes", "true"): return "yes"
            if a == "exit": raise Exit()

    def run(self):
        if self.enabling: self.ask(("yes",))
        all_ = ("help", "no", "yes")
        bad = {i: {f for f in fails(r, self.tol) if f == "missing"} for i, r in enumerate(self.rows)}
        left = [i for i in bad if self.enabling or not bad[i]]
        for name in ("outliers", "error", "flag", "bounds", "xy", "arms"):
            while True:
                new = {i: {f for f in fails(self.rows[i], self.tol) if f.split()[0] == name} for i in left}
                if name == "flag": self.input(); break
                old = self.tol[name]
                while True:
                    a = self.ask(all_)
                    if a != "help": break
                if a == "no": break
                while True:
                    v = self.input()
                    if v == "": break
                    if v == "exit": raise Exit()
                    try:
                        if np.isfinite(float(v)): self.tol[name] = float(v); break
                    except ValueError: pass
                if self.tol[name] == old: break
            for i in new: bad[i] |= new[i]
            left = [i for i in left if self.enabling or not bad[i]]
        for pid in sorted({self.rows[i]["POS_ID"] for i in left}):
            same = [i for i in left if self.rows[i]["POS_ID"] == pid]
            while len(same) > 1:
                a = self.input()
                if a.lower() in ("skip", "s"): keep = []
                elif a in [str(k) for k in range(len(same))]: keep = [same[int(a)]]
                else: continue
                left = [i for i in left if i not in same or i in keep]
                same = keep
        self.input()
        commit = {}
        for k in COMMITS:
            while True:
                a = self.ask(all_)
                if a != "help": break
            commit[k] = a == "yes"
        return left, bad, commit


def write(fn, rows):
    with open(fn, "w", newline="") as f:
        w = csv.DictWriter(f, list(rows[0])); w.writeheader()
        for r in rows: w.writerow({k: "" if v is None else v for k, v in r.items()})


def num(a, b):
    if b is None: return a in ("", "--", "nan")
    if isinstance(b, str): return a == b
    try: return abs(float(a)-float(b)) < 1e-9*max(1., abs(b))
    except ValueError: return False


def prepare(rows, answers, enabling):
    """runs the program and compares with the model"""
    m = Model(rows, answers, enabling)
    try: left, bad, commit = m.run(); end = "done"
    except Exit: end = "exit"
    except Starved: end = "starved"
    with mc.scratch() as d:
        write(d+"/in.csv", rows)
        ref = open(d+"/in.csv").read()
        rc, text = prog.run("prepare_posparams_for_instr", ["-i", d+"/in.csv"]+(["-e"] if enabling else []), answers=answers, env=dict(DESI_LOGLEVEL="INFO"))
        outs, logs = glob.glob(d+"/*_posparams_for_instr.csv"), glob.glob(d+"/*_posparams_for_instr.log")
        if open(d+"/in.csv").read() != ref: return "input changed"
        if len(logs) != 1 or not os.path.getsize(logs[0]): return "no log file"
        if end != "done":
            if outs: return "output written although the dialogue %s" % dict(exit="was ended", starved="was not finished")[end]
            if end == "exit" and rc: return "code %d instead of a normal exit: %s" % (rc, text.strip().splitlines()[-1])
            return None
        if not left and rc: return "output written" if outs else None     # nothing to prepare
        if rc or len(outs) != 1: return "ended with code %d: %s" % (rc, text.strip().splitlines()[-1] if rc else "%d outputs" % len(outs))
        with open(outs[0], newline="") as f: got = list(csv.DictReader(f))
    if [g["POS_ID"] for g in got] != [rows[i]["POS_ID"] for i in left]: return "positioners %s instead of %s" % ([g["POS_ID"] for g in got], [rows[i]["POS_ID"] for i in left])
    for g, i in zip(got, left):
        r, off = rows[i], bool(bad[i])
        want = dict(r)
        for k in STATIC: want[k] = r[k+"_STATIC"]
        want["SCALE_T"], want["SCALE_P"] = r["SCALE_T_DYNAMIC"], r["SCALE_P_DYNAMIC"]
        for k, v in want.items():
            if not num(g[k], v): return "row %d (%s): %s is %s instead of %s" % (i, r["POS_ID"], k, g[k], v)
        if g[DIS] != str(off): return "row %d (%s): %s is %s, failing checks %s" % (i, r["POS_ID"], DIS, g[DIS], sorted(bad[i]))
        for k in COMMITS+NEVER:
            w = k in commit and commit[k] and (k == DIS or not off)
            if g["COMMIT_"+k] != str(w): return "row %d (%s): COMMIT_%s is %s instead of %s" % (i, r["POS_ID"], k, g["COMMIT_"+k], w)
        if enabling:
            why = g["ENABLE_DISABLE_RATIONALE"]
            if not why.startswith("%s=%s " % (DIS, off)): return "row %d: rationale %s" % (i, why)
            K = dict(missing="missing required", outliers="outliers >", error="FIT_ERROR_STATIC >", bounds="bound=", xy="OFFSET_Y outside", arms="LENGTH_R2 outside")
            for n, s in K.items():
                if n != "bounds" and (s in why) != (n in bad[i]): return "row %d: rationale %s, failing checks %s" % (i, why, sorted(bad[i]))
            for n in BITS:
                if ("; flag "+n in why or ": flag "+n in why) != ("flag "+n in bad[i]): return "row %d: rationale %s, failing checks %s" % (i, why, sorted(bad[i]))
            if ((" below min" in why) or (" above max" in why)) != ("bounds" in bad[i]): return "row %d: rationale %s, failing checks %s" % (i, why, sorted(bad[i]))
    return None


def guarded(f):
    def g(c):
        try:
            return f(c)
        except Exception as e:
            if not mc.under_test(e): raise
            return "%s: %s" % (type(e).__name__, e)
    return g


def sweep(ex, tag, cases, one, describe=str):
    for c, e in zip(cases, mc.pmap(guarded(one), cases, chunksize=2)):
        ex.ran(1, sample=dict(case=describe(c)))
        ex.state(tag+str(c))
        if e:
            ex.fail(tag, "%s, with %s" % (e, describe(c)), case=str(c))


NO = ["n", "n", "", "n", "n", "n"]      # outliers, error, flags, bounds, xy, arms


def straight(enabling, commits=("y",)*7, dup=()):
    return (["y"] if enabling else [])+NO+list(dup)+[""]+list(commits)


# one change per condition, none of which implies another
COND = dict(missing=dict(DATA_END_DATE=None), outliers=dict(NUM_POINTS_IN_FIT_STATIC=10), error=dict(FIT_ERROR_STATIC=0.05), flag=dict(FLAGS=4), bounds=dict(OFFSET_T_STATIC=199.9), xy="xy", arms=None)


def changed(pid, loc, j, conds):
    r = row(pid, loc, j)
    for c in conds:
        if c == "xy": r["OFFSET_Y_STATIC"] = nominal(loc)[1]+0.7
        else: r.update(COND[c])
    return r


def subsets(ex):
    """every subset of failing conditions, in both modes, together with good rows"""
    C = ["missing", "outliers", "error", "flag", "bounds", "xy"]
    S = [s for n in range(len(C)+1) for s in itertools.combinations(C, n)]
    cs = [(s, e) for s in S for e in (0, 1)]

    def one(c):
        s, e = c
        rows = [changed("M00001", 3, 0, ()), changed("M00002", 10, 1, s), changed("M00003", 11, 2, s[1:]), changed("M00004", 12, 3, [q for q in C if q not in s])]
        return prepare(rows, straight(e), e)
    sweep(ex, "subsets", cs, one, lambda c: "failing %s, set-enabling %d" % c)


def edges(ex):
    """both sides of every tolerance, every flag, every missing value"""
    x, y = nominal(3)
    cs = []
    for k in STATIC:
        lo, hi = BOUND[k]
        d = 0.001*(hi-lo)
        if k.startswith("OFFSET_X") or k.startswith("OFFSET_Y"):
            n = x if k == "OFFSET_X" else y
            cs += [{k+"_STATIC": n+s*(0.5+q)} for s in (-1, 1) for q in (-1e-5, 1e-5)]
        cs += [{k+"_STATIC": v+q} for v in (lo+d, hi-d) for q in (-1e-5, 1e-5)]+[{k+"_STATIC": v} for v in (lo, hi, 2*hi, lo-0.3*abs(lo))]
    cs += [dict(FLAGS=f) for f in range(32)]+[dict(FIT_ERROR_STATIC=v) for v in (0., 0.0299, 0.0301, 5.)]+[dict(NUM_POINTS=20, NUM_POINTS_IN_FIT_STATIC=v) for v in (20, 19, 18, 17, 10)]
    cs += [{k: None} for k in REQ if k not in ("POS_ID", "DEVICE_LOC")]+[{"FIT_ERROR_DYNAMIC": None}, {"NUM_POINTS_IN_FIT_DYNAMIC": None}, {"SCALE_T_DYNAMIC": None}]
    cs = [(i, e, n) for i in cs for e in (0, 1) for n in ((0, 1) if ex.thorough or "FLAGS" in i else (1,)) if not (e and i.get("FLAGS", 0) is None)]

    def one(c):
        k, e, n = c
        r = row("M00001", 3); r.update(k)
        rows = [r] if n == 0 else [row("M00002", 10, 1), r, row("M00003", 11, 2)]
        return prepare(rows, straight(e), e)
    sweep(ex, "edges", cs, one, lambda c: "%s, set-enabling %d, other rows %d" % c)


def dialogues(ex):
    """every sequence of answers at each prompt: repetition with other tolerances, help, invalid answers, exit"""
    rows = [row("M00001", 3), row("M00002", 10, 1, NUM_POINTS_IN_FIT_STATIC=17), row("M00003", 11, 2, FIT_ERROR_STATIC=0.05), row("M00004", 12, 3, LENGTH_R1_STATIC=3.45), changed("M00005", 13, 4, ("xy",)), row("M00006", 14, 5, OFFSET_P_STATIC=29.), row("M00007", 15, 6, LENGTH_R2_STATIC=2.55)]
    # at each check: the tolerance is changed and changed back, to values that change the outcome
    V = {0: ("1", "4"), 1: ("0.1", "0.005"), 3: ("0.2", "0.0"), 4: ("0.9", "0.1"), 5: ("0.3", "0.6")}
    cs = []
    for k, vals in V.items():
        base = ["n", "help", "zz", ("y", ""), ("yes", "qq", vals[0]), ("TRUE", vals[1]), ("y", "exit"), "exit", ("y", "nan", "inf", "")]
        depth = 3 if ex.thorough else 2
        for n in range(1, depth+1):
            for s in itertools.product(base, repeat=n):
                # nothing is asked after the answers that end it
                if any(q in ("n", "exit", ("y", "exit"), ("y", ""), ("y", "nan", "inf", "")) for q in s[:-1]): continue
                f = []
                for q in s: f += list(q) if isinstance(q, tuple) else [q]
                if s[-1] not in ("n", "exit", ("y", "exit"), ("y", ""), ("y", "nan", "inf", "")): f.append("No")
                cs.append((k, tuple(f), 0))
    cs = list(dict.fromkeys(cs))
    # two checks adjusted
    cs += [(("y", V[a][i], "n"), ("y", V[b][j], "n"), a, b) for a, b in itertools.combinations(V, 2) for i in (0, 1) for j in (0, 1)]

    def one(c):
        if len(c) == 3:
            a = NO[:c[0]]+list(c[1])+NO[c[0]+1:]
        else:
            a = [[q] for q in NO]
            a[c[2]], a[c[3]] = list(c[0]), list(c[1])
            a = sum(a, [])
        e = prepare(rows, a+["x"]+["y"]*7, 0)
        return e or (prepare(rows, ["y"]+a+["x"]+["y"]*7, 1) if len(c) == 4 or ex.thorough else None)
    sweep(ex, "dialogues", cs, one, lambda c: "answers %s" % (c,))
    # the confirmation of the mode; answers that are not offered there do not confirm
    W = ["n", "no", "help", "zz", "", "y", "exit"]
    cs = [s for n in range(1, 4) for s in itertools.product(W, repeat=n) if not any(q in ("y", "exit") for q in s[:-1]) and (ex.thorough or n < 3 or s[-1] in ("y", "exit", "n"))]
    sweep(ex, "confirmation", cs, lambda c: prepare(rows[:2], list(c)+straight(0), 1), lambda c: "answers %s" % (c,))
    # invalid answers and help about the parameters to commit, everything answered at most once
    cs = [(k, s) for k in range(7) for n in range(1, 3) for s in itertools.product(("help", "zz", "", "exit"), repeat=n) if "exit" not in s[:-1]]
    sweep(ex, "commit help", cs, lambda c: prepare(rows[:2], straight(0, ["yn"[i % 2] for i in range(c[0])]+list(c[1])+["n"]+["y"]*7), 0), lambda c: "parameter %d: answers %s" % c)
    # not enough answers: nothing is written
    for e in (0, 1):
        full = straight(e)
        sweep(ex, "unfinished", [(e, n) for n in range(len(full))], lambda c: prepare(rows, straight(c[0])[:c[1]], c[0]), lambda c: "set-enabling %d, %d answers" % c)


def duplicates(ex):
    """several rows for a positioner: every arrangement and every answer"""
    cs = []
    for n in range(2, 5 if not ex.thorough else 6):
        for s in itertools.product("ab", repeat=n):
            if s.count("a") < 2: continue
            for bad in range(-1, n if ex.thorough else 1):
                k = s.count("a")-(bad >= 0 and s[bad] == "a")
                for a in [(str(i),) for i in range(k)]+[("skip",), ("S",), (str(k), "-1", "", "all", "0")]:
                    for e in (0, 1):
                        if s.count("b") > 1 and e: continue
                        cs.append((s, bad, a, e))
    if not ex.thorough: cs = [c for i, c in enumerate(cs) if c[0].count("b") < 2 or i % 2 == 0]

    def one(c):
        s, bad, a, e = c
        rows, nb = [], 0
        for j, q in enumerate(s):
            # other positioners are distinct
            rows.append(row("M00001", 3, j) if q == "a" else row("M0001%d" % nb, [10, 11, 12, 13][nb], j)); nb += q == "b"
        if bad >= 0: rows[bad].update(FIT_ERROR_STATIC=0.3)
        na = s.count("a")-(bad >= 0 and s[bad] == "a" and not e)
        return prepare(rows, straight(e, dup=a if na > 1 else ()), e)
    sweep(ex, "duplicates", cs, one, lambda c: "rows %s, failing %d, answers %s, set-enabling %d" % c)
    # two positioners with two rows each (their order is not specified: same answer)
    cs = [(p, a, e) for p in sorted(set(itertools.permutations("aabb"))) for a in ("0", "1", "s") for e in (0, 1)]
    sweep(ex, "duplicates", cs, lambda c: prepare([row({"a": "M00001", "b": "M00002"}[q], {"a": 3, "b": 10}[q], j) for j, q in enumerate(c[0])], straight(c[2], dup=[c[1]]*2), c[2]), lambda c: "rows %s, answers %s, set-enabling %d" % c)


def commits(ex):
    """every choice of the parameters to commit, nothing left to commit, one row only"""
    cs = [(p, e) for p in itertools.product("yn", repeat=7) for e in (0, 1)]
    if not ex.thorough: cs = [c for i, c in enumerate(cs) if i % 3 == 0 or c[0].count("y") in (0, 1, 6, 7)]
    rows = [row("M00001", 3), row("M00002", 10, 1, FLAGS=1), row("M00003", 11, 2)]
    sweep(ex, "commits", cs, lambda c: prepare(rows, straight(c[1], c[0]), c[1]), lambda c: "answers %s, set-enabling %d" % c)
    cs = [(n, e, b) for n in (1, 2, 3) for e in (0, 1) for b in itertools.product((0, 1), repeat=n)]
    sweep(ex, "few rows", cs, lambda c: prepare([row("M0000%d" % i, [3, 10, 11][i], i, FIT_ERROR_STATIC=[0.01, 0.1][c[2][i]]) for i in range(c[0])], straight(c[1]), c[1]), lambda c: "%d rows, set-enabling %d, failing %s" % c)


# ---------------------------------------------------------------------
def merged(ex):
    """merge_posparams: rows of all the files in order, with the locations of the metrology, mismatches refused"""
    met = io.load_metrology()
    ids = {}
    for i, (p, t) in enumerate(zip(met["DEVICE_ID"], met["DEVICE_TYPE"])):
        if str(t) == "POS" and str(p) != "N/A": ids.setdefault(int(met["PETAL_LOC"][i]), []).append(i)
    pick = [ids[2][5], ids[3][7], ids[9][1]]
    M = [{k: (str if k == "DEVICE_ID" else int)(met[k][i]) for k in ("DEVICE_ID", "LOCATION", "DEVICE_LOC", "PETAL_LOC", "PETAL_ID")} for i in pick]
    KINDS = ["full", "two", "nolocs", "failed", "empty", "unknown", "wrongpetal", "wrongdevice"]
    n = 3
    cs = [(s, o) for k in range(1, n+1) for s in itertools.product(range(len(KINDS)), repeat=k) for o in ((), ("--no-check",), ("--no-metrology",))]
    if not ex.thorough: cs = [c for i, c in enumerate(cs) if len(c[0]) < 3 or i % 7 == 0]
    L = ["DEVICE_LOC", "PETAL_LOC", "PETAL_ID"]

    def one(c):
        s, opts = c
        want, err, mixed = [], False, set()
        with mc.scratch() as d:
            files = []
            for q, kk in enumerate(s):
                k, m = KINDS[kk], M[q]
                fn = d+"/f%d.csv" % q; files.append(fn)
                if k == "failed":
                    import contextlib, io as _io
                    with contextlib.redirect_stdout(_io.StringIO()): write_failed_fit(m["DEVICE_ID"], d, 4)
                    os.rename(d+"/%s_paramfits.csv" % m["DEVICE_ID"], fn)
                    want.append(dict(POS_ID=m["DEVICE_ID"], FLAGS=4, loc=None, m=m)); mixed.add(0)
                    continue
                rows = []
                for j in range(2 if k == "two" else 0 if k == "empty" else 1):
                    r = row(m["DEVICE_ID"] if k != "unknown" else "M9999%d" % q, 3, 2*q+j)
                    r.update({n: m[n] for n in L})
                    if k == "wrongpetal": r["PETAL_LOC"] = (m["PETAL_LOC"]+1) % 10; err = True
                    if k == "wrongdevice": r["DEVICE_LOC"] = m["DEVICE_LOC"]+1; err = True
                    if k == "nolocs":
                        for n in L: r.pop(n)
                    mixed.add(0 if k == "nolocs" else 1)
                    rows.append(r); want.append(dict(r, loc=None if k == "nolocs" else tuple(r[n] for n in L), m=m if k != "unknown" else None))
                if rows: write(fn, rows)
                else:
                    with open(fn, "w") as f: f.write("POS_ID,FLAGS\n")
            rc, text = prog.run("merge_posparams", ["-i"]+files+["-o", d+"/o.csv"]+list(opts))
            if not want: return "output without rows" if os.path.exists(d+"/o.csv") else None
            if err and not opts:
                return None if rc == 12 and not os.path.exists(d+"/o.csv") else "locations different from the metrology accepted (code %d)" % rc
            if rc: return "ended with code %d: %s" % (rc, text.strip().splitlines()[-1])
            with open(d+"/o.csv", newline="") as f: got = list(csv.DictReader(f))
        if len(got) != len(want): return "%d rows instead of %d" % (len(got), len(want))
        for g, w in zip(got, want):
            for k, v in w.items():
                if k not in ("loc", "m") and not (k in g and num(g[k], v)): return "%s: %s is %s instead of %s" % (w["POS_ID"], k, g.get(k), v)
            if w["loc"] is not None: l = w["loc"]
            elif "--no-metrology" in opts: l = (None,)*3
            else: l = tuple(w["m"][k] for k in L) if w["m"] else (None,)*3
            for k, v in zip(L, l):
                if v is None and g.get(k) in (None, "", "-1"): continue
                if v is None or not num(g.get(k, ""), v): return "%s: %s is %s instead of %s" % (w["POS_ID"], k, g.get(k), v)
            lo = g.get("LOCATION")
            if l[0] is None:
                if lo not in (None, "", "-1"): return "%s: location %s" % (w["POS_ID"], lo)
            elif lo is None or int(float(lo)) != 1000*l[1]+l[0]: return "%s: location %s instead of %d" % (w["POS_ID"], lo, 1000*l[1]+l[0])
        return None
    sweep(ex, "merged", cs, one, lambda c: "%s %s" % ([KINDS[i] for i in c[0]], c[1]))


def fits(ex):
    """fit_posparams: every positioner file is fitted once with the options given; one that cannot be fitted is reported and does not prevent the others"""
    import inspect, json
    from desimeter.posparams import fithandler
    sig = inspect.signature(fithandler.run_best_fits)
    names = ["M00001.csv", "M00002_x.csv", "M00003.csv"]
    junk = ["M0004.csv", "M00005.txt", "00006M.csv", "notes.csv"]
    OPTS = [(), ("--data_window", "30", "--period_days", "3"), ("--static_quantile", "0.5", "--outlier-rejection"), ("--force-recent-rehome", "--log-note-selection", "a&b"), ("-v",)]
    cs = [(b, n, o, d) for b in itertools.product((0, 1), repeat=3) for n in ((None, 1, 2, 3) if ex.thorough else (None, 1, 2)) for o in range(len(OPTS)) for d in range(6) if (d == 0 or (o == 0 and n in (None, 3))) and (o == 0 or sum(b) < 2)]
    if not ex.thorough: cs = [c for i, c in enumerate(cs) if c[2] == 0 or i % 2 == 0]

    def one(c):
        bad, n, o, order = c
        rank = list(itertools.permutations(range(3)))[order]
        with mc.scratch() as d:
            os.mkdir(d+"/in"); os.mkdir(d+"/calls")
            for f in names+junk: open(d+"/in/"+f, "w").close()

            def setup():
                def run_best_fits(*a, **k):
                    import time
                    v = sig.bind(*a, **k); v.apply_defaults(); v = v.arguments
                    j = int(v["posid"][5])-1
                    time.sleep(0.02*rank[j] if order else 0)
                    with open(d+"/calls/%s" % v["posid"], "a") as f: f.write(json.dumps({q: w for q, w in v.items() if q != "printf"})+"\n")
                    if bad[j]: raise RuntimeError("no data of "+v["posid"])
                    return "done %s" % v["posid"]
                run_best_fits.__module__, run_best_fits.__qualname__ = "desimeter.posparams.fithandler", "run_best_fits"
                fithandler.run_best_fits = run_best_fits
            rc, text = prog.run("fit_posparams", ["-i", d+"/in/M*", d+"/in/[0n]*", "-o", d+"/out/sub"]+(["-np", str(n)] if n else [])+list(OPTS[o]), setup=setup)
            if rc: return "ended with code %d: %s" % (rc, text.strip().splitlines()[-1])
            if not os.path.isdir(d+"/out/sub"): return "no output directory"
            if sorted(os.listdir(d+"/calls")) != ["M00001", "M00002", "M00003"]: return "fitted %s" % sorted(os.listdir(d+"/calls"))
            for j, f in enumerate(names):
                with open(d+"/calls/M0000%d" % (j+1)) as fh: L = [json.loads(l) for l in fh]
                w = dict(posid=f[:6], path=os.path.realpath(d+"/in/"+f), period_days=3 if o == 1 else 1000000, data_window=30 if o == 1 else 1000000, static_quantile=0.5 if o == 2 else 0.05,
                         log_note_selection="a&b" if o == 3 else None, force_recent_rehome=o == 3, outlier_rejection=o == 2)
                if len(L) != 1: return "%s fitted %d times" % (f, len(L))
                for k, v in w.items():
                    if L[0][k] != v: return "%s: %s is %s instead of %s" % (f, k, L[0][k], v)
                if os.path.realpath(L[0]["savedir"]) != os.path.realpath(d+"/out/sub"): return "results to %s" % L[0]["savedir"]
                said = [l for l in text.splitlines() if f[:6] in l]
                if not said: return "%s, which %s, is not reported" % (f[:6], "failed" if bad[j] else "was fitted")
                if bad[j] and not any("ERROR" in l.upper() or "fail" in l.lower() for l in said): return "failure of %s is not reported" % f[:6]
        return None
    sweep(ex, "fits", cs, one, lambda c: "failing %s, processes %s, options %d, delays %d" % c)


SECTIONS = [subsets, edges, dialogues, duplicates, commits, merged, fits]
