"""C25: the programs that extract positioner moves, calibrations and coordinates from the telescope database."""
import csv, datetime, itertools, os
import numpy as np
import fitsio
import mc, prog, fakedb
from fakedb import Database, date
from astropy.table import Table
from desimeter import io
from desimeter.dbutil import dbquery, get_petal_ids, get_pos_ids, get_petal_loc
from desimeter.transform.pos2ptl import int2ptl
from desimeter.transform.ptl2fp import ptl2fp, fp2ptl

PROPERTY = "C25"
LEVEL = "exploration"
RULE = ("databases with several petals and positioners holding every kind of row (measured or not, with or without a move, exposure, note, "
        "tracking update, enabled or not, before and after calibrations and re-homing): every combination of the programs' selection options "
        "against an independent selection of the rows; every sequence of enabled states; every arrangement of images, spot tables and moves. "
        "Non-trivial: distinct combinations.")
ASSUMPTIONS = ["a stand-in for the database (sqlite) understands the queries", "a calibration precedes every move", "one row per positioner and time"]
CALIB = ["length_r1", "length_r2", "offset_x", "offset_y", "offset_t", "offset_p", "physical_range_t", "physical_range_p", "gear_calib_t", "gear_calib_p",
         "total_limit_seeks_t", "total_limit_seeks_p", "last_primary_hardstop_dir_t", "last_primary_hardstop_dir_p", "keepout_expansion_phi_radial",
         "keepout_expansion_phi_angular", "keepout_expansion_theta_radial", "keepout_expansion_theta_angular", "classified_as_retracted"]
PLOC = {0: 0, 1: 0, 2: 7, 3: 3, 4: 0, 5: 1, 6: 2, 7: 8, 8: 4, 9: 9, 10: 5, 11: 6}
DAY = 1440


def move(i, p, petal, pid, dloc, t, obs=True, cmd="posintTP", exp=10, it=0, note="", en=True):
    return dict(petal_id=petal, device_loc=dloc, pos_id=pid, pos_move_index=i, time_recorded=date(t), bus_id=10+p, pos_t=10.*i-p, pos_p=90.+3*i, last_meas_obs_x=1., last_meas_obs_y=2.,
                last_meas_peak=3., last_meas_fwhm=2.5, total_move_sequences=i, total_cruise_moves_t=2*i, total_cruise_moves_p=i, total_creep_moves_t=1, total_creep_moves_p=2, ctrl_enabled=en,
                move_cmd=cmd, move_val1="t=%d" % i, move_val2="p=%d" % (2*i), log_note=note, exposure_id=exp, exposure_iter=it, flags=4+i,
                obs_x=(50.+i+0.25*p) if obs else None, obs_y=(-20.+i) if obs else None, ptl_x=(150.+0.5*(i//2)+p) if obs else None, ptl_y=5. if obs else None, ptl_z=-1.5)


def calib(p, petal, pid, dloc, k, t, nonf=False, intact=True):
    r = dict(petal_id=petal, device_loc=dloc, pos_id=pid, pos_calib_index=k, time_recorded=date(t), bus_id=10+p, device_classified_nonfunctional=nonf, fiber_intact=intact, calib_note="cal, %d" % k)
    for j, c in enumerate(CALIB):
        r[c] = 3.+0.01*j+0.001*k+0.0001*p if c.startswith(("length", "gear", "keep")) else float(10*j+k+p)
    r["classified_as_retracted"] = (k+p) % 2 == 1
    r["offset_x"], r["offset_y"] = 100.+20*p+k, 50.+k
    return r


def kinds(p, petal, pid, dloc):
    """every kind of row"""
    n = [0]

    def m(t, **k):
        n[0] += 1
        return move(n[0], p, petal, pid, dloc, t+p, **k)
    return [m(5, note="arc, part 1"), m(20, exp=10, it=1, cmd=""), m(21, obs=False, exp=None, it=None, cmd=None, note="tp_update, after 10"), m(40, exp=11, it=0, en=False),
            m(60, exp=11, it=1, obs=False), m(DAY-30, exp=12, it=0, note=None), m(DAY, exp=12, it=1, cmd=None), m(DAY+3, obs=False, exp=None, it=None, cmd="", note="x tp_update"),
            m(DAY+30, exp=13, it=0, en=False, cmd=""), m(3*DAY, exp=14, it=2, cmd="" if p == 1 else "dTdP")]


def standard(shuffle=1):
    t = {}
    for petal, ids in ((5, ["M00501", "M00502"]), (6, ["M00601"]), (11, [])):
        mv, cb = [], []
        for q, pid in enumerate(ids):
            p, dloc = q+2*(petal == 6), 100*q+petal
            rows = kinds(p, petal, pid, dloc)
            if pid == "M00502":       # never commanded to move, and not in exposure 10
                for r in rows: r["move_cmd"] = [None, ""][r["pos_move_index"] % 2]
                rows = [r for r in rows if r["exposure_id"] != 10]
            mv += rows
            cb += [calib(p, petal, pid, dloc, 0, -9*DAY), calib(p, petal, pid, dloc, 1, 40+p, nonf=True), calib(p, petal, pid, dloc, 2, DAY+10, intact=p == 0), calib(p, petal, pid, dloc, 3, 90*DAY)]
        if shuffle and mv:
            mv = [mv[i] for i in np.argsort(np.cos(np.arange(len(mv))*(1.3+shuffle)))]
            cb = [cb[i] for i in np.argsort(np.cos(np.arange(len(cb))*(2.1+shuffle)))]
        t["positioner_moves_p%d" % petal] = mv or move(1, 0, petal, "x", 1, 1)
        t["positioner_calibration_p%d" % petal] = cb or calib(0, petal, "x", 1, 0, 1)
    return t


def rows_of(t, what, petal):
    r = t["positioner_%s_p%d" % (what, petal)]
    return r if isinstance(r, list) else []


def same(a, b):
    """value read from a csv file and value of the database"""
    if b is None: return a in ("None", "")
    if isinstance(b, bool): return a in (str(b), str(int(b)))
    if isinstance(b, (int, float, np.number)):
        try: return abs(float(a)-float(b)) <= 1e-9*max(1, abs(float(b)))
        except ValueError: return False
    return a == str(b)


def read(fn):
    with open(fn, newline="") as f:
        return list(csv.DictReader(f))


def diff(got, want):
    if len(got) != len(want): return "%d rows instead of %d" % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        for k, v in w.items():
            if k not in g: return "no column %s" % k
            if not same(g[k], v): return "row %d: %s is %r instead of %r" % (i, k, g[k], v)
    return None


def on(text):
    return None if text is None else [int(v) for v in text.split(",")]


def selected(t, petal, pid, o):
    """rows of one positioner that the options of get_posmoves ask for"""
    if o["latest"]:
        r = sorted([r for r in rows_of(t, "moves", petal) if r["pos_id"] == pid], key=lambda r: r["time_recorded"], reverse=True)
        return r[:o["latest"]]
    lo, hi = [datetime.datetime.fromisoformat(v).replace(tzinfo=fakedb.UTC) for v in (o["dmin"] or "2019-01-01", o["dmax"] or "2050-01-01")]
    mine = [r for r in rows_of(t, "moves", petal) if r["pos_id"] == pid and lo <= r["time_recorded"] <= hi]

    def e(r):
        return (o["exp"] is None or r["exposure_id"] in on(o["exp"])) and (o["it"] is None or r["exposure_iter"] in on(o["it"]))
    out = [r for r in mine if e(r)]
    if not out: return []
    if o["tp"] and (o["exp"] or o["it"]):
        a, b = min(r["pos_move_index"] for r in out), max(r["pos_move_index"] for r in out)+1
        out = [r for r in mine if e(r) or (r["log_note"] and "tp_update" in r["log_note"] and a <= r["pos_move_index"] <= b)]
    return sorted(out, key=lambda r: r["time_recorded"], reverse=True)


def want_moves(t, petal, pid, o):
    comma = o.get("comma") or "||"
    r = selected(t, petal, pid, o)
    if not r: return None
    if o["pos"] == "movers" and not any(q["move_cmd"] for q in r): return None
    cal = sorted([c for c in rows_of(t, "calibration", petal) if c["pos_id"] == pid], key=lambda c: c["time_recorded"])
    out = []
    for q in r:
        w = {dict(obs_x="X_FP", obs_y="Y_FP", time_recorded="DATE").get(k, k.upper()): v for k, v in q.items()}
        if w["LOG_NOTE"] is not None: w["LOG_NOTE"] = w["LOG_NOTE"].replace(",", comma)
        w["PETAL_LOC"] = PLOC[petal]
        if o["calib"] or o["latest"]:
            c = [c for c in cal if c["time_recorded"] <= q["time_recorded"]][-1]
            w.update({dict(time_recorded="CALIB_DATE").get(k, k.upper()): v for k, v in c.items()})
        w["RECENT_REHOME"] = int(o["rehome"] is not None and not o["latest"] and q["exposure_id"] in on(o["rehome"]))
        out.append(w)
    if o["hist"] and not o["latest"]:
        out = out[::-1]
        K = ["CTRL_ENABLED"]+(["DEVICE_CLASSIFIED_NONFUNCTIONAL", "FIBER_INTACT"] if o["calib"] else [])
        out = [w for i, w in enumerate(out) if i == 0 or any(w[k] != out[i-1][k] for k in K)]
        keep = "DATE POS_ID PETAL_ID DEVICE_LOC BUS_ID CTRL_ENABLED MOVE_CMD MOVE_VAL1 MOVE_VAL2 LOG_NOTE EXPOSURE_ID EXPOSURE_ITER FLAGS PETAL_LOC RECENT_REHOME".split()
        keep += ["CALIB_DATE", "CALIB_NOTE"]+K
        return [{k: w[k] for k in keep if k in w} for w in out]
    if not o["tp"] and not o["latest"]:
        out = [w for w in out if w["X_FP"] is not None]
    return out


def argv(o, d):
    a = ["-o", d+"/out"]
    for k, f in (("petals", "--petal-ids"), ("exp", "--exposure-ids"), ("it", "--exposure-iters"), ("dmin", "--date-min"), ("dmax", "--date-max"), ("pos", "--pos-ids"), ("rehome", "--recent-rehome-exposure-ids")):
        if o[k] is not None: a += [f, o[k]]
    for k, f in (("calib", "-c"), ("tp", "-t"), ("hist", "-e"), ("merge", "-m")):
        if o[k]: a.append(f)
    if o["latest"]: a += ["-l", str(o["latest"])]
    if o.get("comma"): a += ["-comma", o["comma"]]
    return a


def petals_of(t, s):
    if s is None:
        return sorted(int(k[18:]) for k in t if k.startswith("positioner_moves_p"))
    if s == "5:7": return [5, 6]
    return on(s)


def run_moves(t, o, extra=()):
    db = Database(t, extra)
    with mc.scratch() as d:
        rc, text = prog.run("get_posmoves", argv(o, d), modules=dict(psycopg2=db.module()))
        want = {}
        for petal in petals_of(t, o["petals"]):
            for pid in sorted({r["pos_id"] for r in rows_of(t, "moves", petal)}):
                if o["pos"] not in (None, "movers") and pid not in o["pos"].split(","): continue
                w = want_moves(t, petal, pid, o)
                if w is not None: want[pid] = w
        total = sum(len(w) for w in want.values())
        if o["merge"] and total == 0:
            return None         # nothing to merge
        if rc: return "ended with code %d: %s" % (rc, text.strip().splitlines()[-1] if text.strip() else "")
        files = sorted(os.listdir(d+"/out")) if os.path.isdir(d+"/out") else []
        if o["merge"]:
            if len(files) != 1 or not files[0].endswith("_posdata.csv"): return "files %s" % files
            g = read(d+"/out/"+files[0])
            got = {p: [r for r in g if r["POS_ID"] == p] for p in want}
            if len(g) != total: return "%d merged rows instead of %d" % (len(g), total)
            if [(int(r["PETAL_ID"]), r["POS_ID"]) for r in g] != sorted((int(r["PETAL_ID"]), r["POS_ID"]) for r in g): return "not sorted by petal and positioner"
            for p in want:      # the order within a positioner is not specified
                got[p].sort(key=lambda r: r["DATE"]); want[p] = sorted(want[p], key=lambda r: str(r["DATE"]))
        else:
            if files != sorted(p+".csv" for p in want): return "files %s instead of %s" % (files, sorted(want))
            got = {p: read(d+"/out/%s.csv" % p) for p in want}
        for p in want:
            e = diff(got[p], want[p])
            if e: return "%s: %s" % (p, e)
    return None


def guarded(f):
    def g(c):
        try:
            return f(c)
        except Exception as e:
            if not mc.under_test(e): raise
            return "%s: %s" % (type(e).__name__, e)
    return g


def sweep(ex, tag, cases, one, describe=str):
    for c, e in zip(cases, mc.pmap(guarded(one), cases, chunksize=2)):
        ex.ran(1, sample=dict(case=describe(c)))
        ex.state(tag+str(c))
        if e:
            ex.fail(tag, "%s, with %s" % (e, describe(c)), case=str(c))


OPT = dict(petals=(None, "5", "5:7", "6,5"), exp=(None, "10", "11,13"), it=(None, "0", "1,2"), dates=((None, None), ("2020-03-01", "2020-03-02"), ("2020-03-02", "2020-03-02")),
           pos=(None, "M00501", "M00601,M00502,M99999", "movers"), rehome=(None, "10,12"), calib=(0, 1), tp=(0, 1), hist=(0, 1), merge=(0, 1), latest=(0, 1, 7),
           comma=(None, ";"))


def options(o):
    o = dict(o); o["dmin"], o["dmax"] = o.pop("dates")
    return o


def moves(ex):
    """get_posmoves: the selection options"""
    N = list(OPT)
    if ex.thorough:
        cs = [c for c in itertools.product(*[range(len(OPT[n])) for n in N]) if not (c[N.index("latest")] and (c[N.index("exp")] == 1 or c[N.index("it")] == 1 or c[N.index("tp")] == 1 or c[N.index("dates")] == 2))
              and (sum(c) % 3 == 0 or c[N.index("merge")] == 0) and (c[N.index("petals")] in (0, 2) or sum(c) % 5 == 0) and (c[N.index("comma")] == 0 or sum(c) % 7 == 0)]
    else:       # every triple of values (greedy, deterministic), and all combinations of the switches
        cs = cover([len(OPT[n]) for n in N], 3)
        for sw in itertools.product((0, 1), (0, 1), (0, 1), (0, 1, 2), (0, 1)):
            c = [0]*len(N)
            for n, v in zip(("calib", "tp", "hist", "exp", "pos"), sw): c[N.index(n)] = v if n != "pos" else 3*v
            cs.append(tuple(c))
    cs = list(dict.fromkeys(cs))
    sweep(ex, "moves", cs, lambda c: run_moves(standard(1+sum(c) % 3), options({n: OPT[n][i] for n, i in zip(N, c)}), ("pg_x", "sql_y", "positioner_moves_p77", "positioner_moves_pxx", "old_positioner_moves_p5")),
          lambda c: str({n: OPT[n][i] for n, i in zip(N, c) if i}))


def cover(sizes, strength):
    """deterministic covering array: every combination of values of any two (or more) options occurs"""
    need = {(cols, vals) for cols in itertools.combinations(range(len(sizes)), strength) for vals in itertools.product(*[range(sizes[c]) for c in cols])}
    out = []
    while need:
        cols, vals = min(need)
        row = [None]*len(sizes)
        for c, v in zip(cols, vals): row[c] = v
        for c in range(len(sizes)):
            if row[c] is None:
                best, bv = -1, 0
                for v in range(sizes[c]):
                    v = (v+len(out)) % sizes[c]
                    row[c] = v
                    n = sum(1 for q in itertools.combinations([i for i in range(len(sizes)) if row[i] is not None], strength) if c in q and (q, tuple(row[i] for i in q)) in need)
                    if n > best: best, bv = n, v
                row[c] = bv
        need -= {(q, tuple(row[i] for i in q)) for q in itertools.combinations(range(len(sizes)), strength)}
        out.append(tuple(row))
    return out


BASE = dict(petals="5", exp=None, it=None, dmin=None, dmax=None, pos=None, rehome=None, calib=0, tp=0, hist=0, merge=0, latest=0)


def enabled(ex):
    """histories of enabled states: every sequence of moves and calibrations of up to four (six) rows"""
    n = 4 if not ex.thorough else 6
    cs = [(s, c) for k in range(1, n+1) for s in itertools.product((0, 1), repeat=k) for c in ((), (1,), (2,), (1, 3))]

    def one(c):
        s, cal = c
        pid = "M00501"
        t = {"positioner_moves_p5": [move(i+1, 0, 5, pid, 3, 100*i+50, en=bool(e), cmd="x") for i, e in enumerate(s)][::-1],
             "positioner_calibration_p5": [calib(0, 5, pid, 3, 0, -99)]+[calib(0, 5, pid, 3, k, 100*k, nonf=k % 2 == 1, intact=k < 3) for k in cal]}
        for w in (0, 1):
            e = run_moves(t, dict(BASE, hist=1, calib=w))
            if e: return e+" (calibrations %s)" % bool(w)
        return None
    sweep(ex, "enabled", cs, one, lambda c: "enabled states %s, calibration changes before moves %s" % c)


def updates(ex):
    """tracking updates: every sequence of rows (exposure 1, exposure 2, update, other) of up to four (five)"""
    n = 4 if not ex.thorough else 6
    cs = [s for k in range(1, n+1) for s in itertools.product("12uo", repeat=k)]

    def one(s):
        K = {"1": dict(exp=1, it=0), "2": dict(exp=2, it=1), "u": dict(exp=None, it=None, obs=False, note="tp_update: x"), "o": dict(exp=None, it=None, obs=True, note="other")}
        t = {"positioner_moves_p5": [move(i+5, 0, 5, "M00501", 3, 10*i+50, **K[q]) for i, q in enumerate(s)], "positioner_calibration_p5": [calib(0, 5, "M00501", 3, 0, -99)]}
        for o in (dict(exp="1"), dict(exp="2", it="1"), dict(it="0,1")):
            e = run_moves(t, dict(BASE, tp=1, **o))
            if e: return e+" (%s)" % o
        return None
    sweep(ex, "updates", cs, one, lambda s: "rows %s" % "".join(s))


# ---------------------------------------------------------------------
def basics(ex):
    """query helpers: any result as dictionary or table, cursors closed, petal numbers and locations"""
    cs = list(itertools.product((0, 1, 3), (1, 2, 4), (0, 1)))
    for n, k, tab in cs:
        rows = [{"c%d" % j: (i*10+j if j % 2 == 0 else "s%d" % i) for j in range(k)} for i in range(n)]
        db = Database({"t": rows or {"c%d" % j: 0 for j in range(k)}})
        r = dbquery(db, "select * from t", as_table=bool(tab))
        ex.ran(1, sample=dict(rows=n, columns=k)); ex.state((n, k, tab))
        names = list(r.keys())
        if names != ["c%d" % j for j in range(k)] or any(list(r[c]) != [q[c] for q in rows] for c in names) or isinstance(r, Table) != bool(tab):
            ex.fail("basics", "result of a query", rows=n, columns=k)
        if not all(c.closed for c in db.cursors): ex.fail("basics", "cursor left open")
    met = io.load_metrology()
    for s in mc_subsets(["positioner_moves_p%d" % i for i in (0, 3, 11, 19)]+["positioner_moves_p20", "positioner_calibration_p5", "positioner_moves_pX", "pg_positioner_moves_p5"]):
        db = Database({"t": {"a": 1}}, s)
        ex.ran(1); ex.state(("ids", s))
        import contextlib, io as _io
        with contextlib.redirect_stdout(_io.StringIO()): got = get_petal_ids(db)
        want = [int(n[18:]) for n in s if n.startswith("positioner_moves_p") and n[18:].isdigit() and int(n[18:]) < 20]
        if sorted(got) != sorted(want): ex.fail("basics", "petals %s instead of %s" % (got, want), tables=list(s))
    for p, l in PLOC.items():
        ex.ran(1)
        if get_petal_loc(p) != l or get_petal_loc(np.int64(p)) != l: ex.fail("basics", "location of petal %d" % p)
    if "PETAL_ID" in met.colnames:
        for p, l in {(int(a), int(b)) for a, b in zip(met["PETAL_ID"], met["PETAL_LOC"])}:
            if p > 1 and get_petal_loc(p) != l: ex.fail("basics", "location of petal %d differs from the metrology" % p)
    t = standard()
    db = Database(t)
    for petal in (5, 6, 11, np.int64(5)):
        ex.ran(1)
        if sorted(get_pos_ids(db, petal)) != sorted({r["pos_id"] for r in rows_of(t, "moves", int(petal))}): ex.fail("basics", "positioners of petal %s" % petal)
        if not all(c.closed for c in db.cursors): ex.fail("basics", "cursor left open")


def mc_subsets(l):
    return [c for n in range(len(l)+1) for c in itertools.combinations(l, n)]


# ---------------------------------------------------------------------
def coords(ex):
    """get_poscoords: positions expected from the tracked angles and the calibration in force at each move"""
    cs = list(itertools.product((None, "5", "5,6"), ("10", "11", "12", "recent"), (0, 1), range(3)))

    def one(c):
        pet, exp, it, sh = c
        t = standard(sh)
        want = []
        for petal in petals_of(t, pet):
            m = rows_of(t, "moves", petal)
            if not m and exp == "recent" and pet is None: return None      # an empty petal has no last entry
            if exp == "recent": r = [q for q in m if q["time_recorded"] == max(v["time_recorded"] for v in m)]
            else: r = [q for q in m if q["exposure_id"] == int(exp) and q["exposure_iter"] == it]
            want += r
        if not want: return None
        db = Database(t)
        with mc.scratch() as d:
            rc, text = prog.run("get_poscoords", ["-o", d+"/o.csv"]+(["--petal-ids", pet] if pet else [])+(["--exposure-id", exp, "--exposure-iter", str(it)] if exp != "recent" else []), modules=dict(psycopg2=db.module()))
            if rc: return "ended with code %d: %s" % (rc, text.strip().splitlines()[-1])
            got = read(d+"/o.csv")
        if len(got) != len(want): return "%d rows instead of %d" % (len(got), len(want))
        for q in want:
            g = [r for r in got if r["POS_ID"] == q["pos_id"]]
            if len(g) != 1: return "%d rows for %s" % (len(g), q["pos_id"])
            g = g[0]
            k = max((v for v in rows_of(t, "calibration", q["petal_id"]) if v["pos_id"] == q["pos_id"] and v["time_recorded"] < q["time_recorded"]), key=lambda v: v["time_recorded"])
            for n in CALIB+["pos_calib_index", "device_classified_nonfunctional"]:
                if not abs(float(g[n.upper()])-float(k[n])) < 1e-9: return "%s: %s is %s instead of %s" % (q["pos_id"], n, g[n.upper()], k[n])
            x, y = int2ptl(q["pos_t"], q["pos_p"], k["length_r1"], k["length_r2"], k["offset_t"], k["offset_p"], k["offset_x"], k["offset_y"])
            fx, fy, _ = ptl2fp(PLOC[q["petal_id"]], x, y)
            if not np.hypot(float(g["X_FP_EXP"])-fx, float(g["Y_FP_EXP"])-fy) < 1e-6: return "%s: expected position %s %s instead of %.4f %.4f" % (q["pos_id"], g["X_FP_EXP"], g["Y_FP_EXP"], fx, fy)
            if not same(g["LOG_NOTE"], q["log_note"] if q["log_note"] is None else q["log_note"].replace(",", ";")): return "%s: note %r instead of %r" % (q["pos_id"], g["LOG_NOTE"], q["log_note"])
            if not same(g["X_FP_MEAS"], q["obs_x"]) or not same(g["DATE"], q["time_recorded"]) or int(g["PETAL_LOC"]) != PLOC[q["petal_id"]]: return "%s: measured values" % q["pos_id"]
        return None
    sweep(ex, "coords", cs, one, lambda c: "(petals, exposure, iteration, row order) %s" % (c,))


def parameters(ex):
    """get_posparams: the latest calibration of each positioner"""
    cs = list(itertools.product((None, "5", "6,5"), range(4)))

    def one(c):
        pet, sh = c
        t = standard(sh)
        with mc.scratch() as d:
            rc, text = prog.run("get_posparams", ["-o", d+"/o.csv"]+(["--petal-ids", pet] if pet else []), modules=dict(psycopg2=Database(t).module()))
            if not os.path.exists(d+"/o.csv"): return "ended with code %d: %s" % (rc, text.strip().splitlines()[-1])
            got = read(d+"/o.csv")
        want = {}
        for petal in petals_of(t, pet):
            for q in rows_of(t, "calibration", petal):
                if q["pos_id"] not in want or want[q["pos_id"]]["time_recorded"] < q["time_recorded"]: want[q["pos_id"]] = q
        if sorted(g["pos_id"] for g in got) != sorted(want): return "positioners %s" % sorted(g["pos_id"] for g in got)
        for g in got:
            w = want[g["pos_id"]]
            for k in g:
                if not same(g[k], PLOC[w["petal_id"]] if k == "petal_loc" else w[k]): return "%s: %s is %s" % (g["pos_id"], k, g[k])
        return None
    sweep(ex, "parameters", cs, one, lambda c: "petals %s, row order %d" % c)

    # every petal, alone and together
    def everywhere(c):
        only, prg = c
        t = {}
        for petal in range(1, 12):
            pid = "M%05d" % (100*petal+1)
            t["positioner_moves_p%d" % petal] = kinds(0, petal, pid, 30+petal)
            t["positioner_calibration_p%d" % petal] = [calib(0, petal, pid, 30+petal, k, tm) for k, tm in ((0, -9*DAY), (1, 40), (2, DAY+10))]
        sel = [only] if only else list(range(1, 12))
        with mc.scratch() as d:
            rc, text = prog.run(prg, ["-o", d+"/o.csv"]+(["--exposure-id", "10", "--exposure-iter", "1"] if prg != "get_posparams" else [])+(["--petal-ids", str(only)] if only else []), modules=dict(psycopg2=Database(t).module()))
            f = d+"/o.csv"
            if not os.path.exists(f): return "%s ended with code %d: %s" % (prg, rc, text.strip().splitlines()[-1])
            got = read(f)
        loc = {int(g.get("petal_id") or g.get("PETAL_ID")): int(g.get("petal_loc") or g.get("PETAL_LOC")) for g in got}
        if loc != {k: PLOC[k] for k in sel}: return "%s: locations of the petals %s instead of %s" % (prg, loc, {k: PLOC[k] for k in sel})
        return None
    sweep(ex, "petals", list(itertools.product([None]+list(range(1, 12)), ("get_posparams", "get_poscoords"))), everywhere, lambda c: "petal %s, %s" % c)


def moving(ex):
    """check_moving: displacements of consecutive measured moves, in order of the moves"""
    cs = [(s, sh) for n in range(1, 5 if not ex.thorough else 7) for s in itertools.product((0, 1, 2), repeat=n) for sh in ((0, 1) if n < 5 else (1,))]

    def one(c):
        s, sh = c
        # 0: same place as before, 1: moved by 0.1 mm, 2: not measured
        x, rows = 100., []
        for i, k in enumerate(s):
            if k == 1: x += 0.1
            r = move(i+1, 0, 5, "M00501", 3, 10*i, obs=k != 2, exp=1+i % 2)
            if k != 2: r["ptl_x"], r["ptl_y"] = x, 3.
            rows.append(r)
        rows += [dict(r, pos_id="M00502", ptl_x=7., ptl_y=8.) for r in rows[:2]]
        rows = rows[::-1] if sh else rows
        with mc.scratch() as d:
            for exps in (None, "1"):
                rc, text = prog.run("check_moving", ["-o", d+"/o.txt", "--petal-ids", "5"]+(["--exposure-ids", exps] if exps else []), modules=dict(psycopg2=Database({"positioner_moves_p5": rows}).module()))
                if rc: return "ended with code %d: %s" % (rc, text.strip().splitlines()[-1])
                with open(d+"/o.txt") as f: L = [l for l in f.read().splitlines() if l]
                want = []
                for p in ("M00501", "M00502"):
                    m = [r for r in sorted(rows, key=lambda r: r["pos_move_index"]) if r["pos_id"] == p and r["ptl_x"] is not None and (exps is None or r["exposure_id"] == 1)]
                    if len(m) > 1:
                        want.append("%s ploc=1 busid=10 moving=%s" % (p, np.array([int(np.hypot(b["ptl_x"]-a["ptl_x"], b["ptl_y"]-a["ptl_y"]) > 0.05) for a, b in zip(m[:-1], m[1:])])))
                if L != want: return "%s instead of %s" % (L, want)
        return None
    sweep(ex, "moving", cs, one, lambda c: "(0 still, 1 moved, 2 not measured) %s, order %d" % c)


# ---------------------------------------------------------------------
PROC = """#!/usr/bin/python3 -ISs
import sys, os, shutil
a = sys.argv[1:]
i, o = a[a.index("-i")+1], a[a.index("-o")+1]
with open(os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), "calls"), "a") as f: f.write(" ".join(a)+"\\n")
s = i.replace(".fits", ".spots")
if not os.path.exists(s): sys.exit(1)
shutil.copy(s, o)
"""


def spots(fn, k, devid=True, skip=()):
    """spot table of image number k: positions tell image and positioner"""
    L = [(1003, "M00501"), (1103, "M00502"), (2003, "M00601")]
    t = Table(rows=[(l, p, 100.+k+0.1*j, 50.-k+0.2*j) for j, (l, p) in enumerate(L) if p not in skip]+[(-1, "none", 5., 6.)], names=("LOCATION", "DEVICE_ID", "X_FP", "Y_FP"))
    t = t[::-1]
    if not devid: t.remove_column("DEVICE_ID")
    t.write(fn, format="csv", overwrite=True)


def images(ex):
    """get_posmoves_with_fvc_data: moves joined with the spots of their own image"""
    # per image: (processed before, made by the program, failing), header complete or not
    kinds_ = ["csv", "made", "fails", "nohead", "absent"]
    cs = [(k, e, it, pos, miss) for k in itertools.product(kinds_, repeat=3) for e, it, pos, miss in ((None, None, None, 0), ("10", None, "M00501", 0), ("10,11", "0", None, 1), (None, "1", "M00501,M00502", 1))]
    if not ex.thorough: cs = [c for i, c in enumerate(cs) if i % 3 == 0 or len(set(c[0])) == 1]

    def one(c):
        ks, exps, its, pos, miss = c
        E = [(10, 0), (10, 1), (11, 0)]
        with mc.scratch() as d:
            os.mkdir(d+"/bin"); os.mkdir(d+"/data"); os.mkdir(d+"/im")
            with open(d+"/bin/desi_fvc_proc", "w") as f: f.write(PROC)
            os.chmod(d+"/bin/desi_fvc_proc", 0o755)
            good = {}
            for n, (k, (e, i)) in enumerate(zip(ks, E)):
                if k != "absent":
                    h = {} if k == "nohead" else dict(OBSNUM=e, OBSFRM=i)
                    fitsio.write(d+"/im/f%d.fits" % n, np.zeros((2, 2)), header=h, clobber=True)
                skip = ("M00501",) if miss and n == 0 else ()
                if k == "csv": spots(d+"/data/f%d.csv" % n, n, skip=skip)
                if k == "made": spots(d+"/im/f%d.spots" % n, n, skip=skip)
                if k in ("csv", "made") and (exps is None or e in on(exps)) and (its is None or i in on(its)): good[(e, i)] = n
            t = {"positioner_moves_p5": [], "positioner_moves_p6": []}
            for p, (pid, petal, dl) in enumerate((("M00501", 5, 3), ("M00502", 5, 103), ("M00601", 6, 3))):
                for q, (e, i) in enumerate(E+[(12, 0), (10, 7)]):
                    t["positioner_moves_p%d" % petal].append(move(q+1, p, petal, pid, dl, 10*q, exp=e, it=i, obs=q != 1, note="a,b"))
            for k in t: t[k] = t[k][::-1]
            a = ["--fvc-images"]+[d+"/im/f%d.fits" % n for n in (2, 0, 1)]+["--fvc-data-dir", d+"/data", "--outdir", d+"/out", "--recent-rehome-exposure-ids", "11,99", "--petal-ids", "5" if pos else "5:7"]
            for o, v in (("--exposure-ids", exps), ("--exposure-iters", its), ("--pos-ids", pos)):
                if v: a += [o, v]
            rc, text = prog.run("get_posmoves_with_fvc_data", a, modules=dict(psycopg2=Database(t).module()), env=dict(PATH=d+"/bin:/usr/bin:/bin"))
            if not good: return None if rc or not os.path.exists(d+"/out") else "output without images"
            if rc: return "ended with code %d: %s" % (rc, text.strip().splitlines()[-1])
            # only the images that must be processed are
            calls = open(d+"/bin/calls").read().splitlines() if os.path.exists(d+"/bin/calls") else []
            need = [n for n, k in enumerate(ks) if k in ("made", "fails") and (exps is None or E[n][0] in on(exps)) and (its is None or E[n][1] in on(its))]
            if sorted(calls) != sorted("-i %s/im/f%d.fits -o %s/data/f%d.csv" % (d, n, d, n) for n in need): return "programs run: %s" % calls
            for pid, petal, j in (("M00501", 5, 0), ("M00502", 5, 1), ("M00601", 6, 2)):
                if pos and (pid not in pos.split(",")): 
                    if os.path.exists(d+"/out/%s.csv" % pid): return "%s was not asked for" % pid
                    continue
                got = read(d+"/out/%s.csv" % pid)
                want = []
                for r in t["positioner_moves_p%d" % petal]:
                    e = (r["exposure_id"], r["exposure_iter"])
                    if r["pos_id"] != pid or e not in good or (miss and good[e] == 0 and pid == "M00501"): continue
                    n = good[e]
                    x, y = 100.+n+0.1*j, 50.-n+0.2*j
                    X, Y, Z = fp2ptl(PLOC[petal], np.array([x]), np.array([y]))
                    want.append(dict(POS_ID=pid, PETAL_LOC=PLOC[petal], EXPOSURE_ID=e[0], EXPOSURE_ITER=e[1], X_FP=x, Y_FP=y, PTL_X=X[0], PTL_Y=Y[0], PTL_Z=Z[0], POS_T=r["pos_t"], POS_P=r["pos_p"],
                                     RECENT_REHOME=int(e[0] == 11), LOG_NOTE="a;b", DATE=r["time_recorded"]))
                k = lambda r: (int(r["EXPOSURE_ID"]), int(r["EXPOSURE_ITER"]))
                e = diff(sorted(got, key=k), sorted(want, key=k))
                if e: return "%s: %s" % (pid, e)
        return None
    sweep(ex, "images", cs, one, lambda c: "(images, exposures, iterations, positioners, missing spot) %s" % (c,))


def dates(ex):
    """get_posmoves_with_fvc_data_using_dates: each move joined with the first image after it, within the delay, petal by petal"""
    # gaps between events: sequences of moves (m) and images (i), of one petal or two
    cs = [(s, pet, off, cal) for n in range(1, 5 if not ex.thorough else 6) for s in itertools.product("mMi", repeat=n) if "i" in s for pet in ("5", "5,6", None) for off, cal in ((0, 0), (0, 1), (40, 0)) if n < 4 or pet != "5" or ex.thorough]
    if not ex.thorough: cs = [c for i, c in enumerate(cs) if len(c[0]) < 4 or i % 4 == 0]

    def one(c):
        s, pet, off, cal = c
        # m: move of petal 5, M: move of petal 6; i: image; steps of 10 or 30 s
        t0 = datetime.datetime(2020, 3, 1, 12, 0, 0, tzinfo=fakedb.UTC)
        sec, ev = 0, []
        for k, q in enumerate(s):
            sec += 10 if (k % 3) < 2 else 30
            ev.append((q, sec))
        t = {"positioner_moves_p5": [], "positioner_moves_p6": [], "positioner_calibration_p5": [], "positioner_calibration_p6": []}
        for petal, pids, ch in ((5, (("M00501", 3), ("M00502", 103)), "m"), (6, (("M00601", 3),), "M")):
            for p, (pid, dl) in enumerate(pids):
                for k, (q, sc) in enumerate(ev):
                    if q == ch:
                        r = move(k+1, p, petal, pid, dl, 0); r["time_recorded"] = t0+datetime.timedelta(seconds=sc); r["log_note"] = "u,v"
                        t["positioner_moves_p%d" % petal].append(r)
                t["positioner_calibration_p%d" % petal] += [calib(p, petal, pid, dl, 0, -DAY), calib(p, petal, pid, dl, 1, 90*DAY)]
            if not t["positioner_moves_p%d" % petal]:
                t["positioner_moves_p%d" % petal] = move(1, 0, petal, "x", 1, 1)
            else: t["positioner_moves_p%d" % petal].reverse()
        with mc.scratch() as d:
            rows, im = [], []
            for k, (q, sc) in enumerate(ev):
                if q == "i":
                    w = t0+datetime.timedelta(seconds=sc-off)
                    spots(d+"/i%d.csv" % k, k, skip=("M00502",) if k % 2 else ())
                    rows.append((d+"/i%d.csv" % k, w.strftime("%Y-%m-%dT%H:%M:%S"))); im.append((sc, k))
            Table(rows=rows[::-1], names=("FILE", "DATE")).write(d+"/list.csv")
            a = ["--fvc-file-list", d+"/list.csv", "--outdir", d+"/out", "--clock-offset", str(off)]+(["--petal-ids", pet] if pet else [])+([] if cal else ["--nocalib"])
            rc, text = prog.run("get_posmoves_with_fvc_data_using_dates", a, modules=dict(psycopg2=Database(t).module()))
            if any(not rows_of(t, "moves", p) for p in petals_of(t, pet)): 
                return None      # a petal without any move
            if rc: return "ended with code %d: %s" % (rc, text.strip().splitlines()[-1])
            for petal, pid, j in ((5, "M00501", 0), (5, "M00502", 1), (6, "M00601", 2)):
                want = []
                if petal in petals_of(t, pet):
                    for r in sorted([r for r in rows_of(t, "moves", petal) if r["pos_id"] == pid], key=lambda r: r["time_recorded"]):
                        sc = (r["time_recorded"]-t0).seconds
                        later = [(u, k) for u, k in im if u > sc]
                        if not later or later[0][0]-sc > 25: continue
                        k = later[0][1]
                        if k % 2 and pid == "M00502": continue
                        w = dict(POS_ID=pid, PETAL_LOC=PLOC[petal], POS_T=r["pos_t"], X_FP=100.+k+0.1*j, Y_FP=50.-k+0.2*j, DELTAT=later[0][0]-sc, LOG_NOTE="u;v", POS_MOVE_INDEX=r["pos_move_index"])
                        if cal: w.update(POS_CALIB_INDEX=0)
                        want.append(w)
                got = read(d+"/out/%s.csv" % pid) if os.path.exists(d+"/out/%s.csv" % pid) else []
                e = diff(got, want)
                if e: return "%s: %s" % (pid, e)
        return None
    sweep(ex, "dates", cs, one, lambda c: "(events, petals, clock offset, calibration) %s" % (c,))


SECTIONS = [basics, moves, enabled, updates, coords, parameters, moving, images, dates]
