"""C29: performance of positioners from recorded moves."""
import csv, itertools, json, math, os, re
import numpy as np
import mc, prog
import warnings
warnings.simplefilter("ignore")
from astropy.table import Table
from desimeter.transform.pos2ptl import int2ptl, ptl2flat, flat2ptl
from desimeter.transform.ptl2fp import fp2ptl, ptl2fp
from desimeter.transform.xy2qs import qs2xy, xy2qs

PROPERTY = "C29"
LEVEL = "exploration"
RULE = ("every history of up to 3 recorded rows of a positioner over an alphabet of row kinds (first and correction moves in each coordinate system, orphans, unmatched, frozen, "
        "rejected, special, avoided, without command, measurement, request or notes, other dates, scales and calibrations, exposures out of order), many positioners per run, in every arrangement of files, row "
        "orders and options, against an independent selection and statistics. Non-trivial: distinct histories with their options.")
ASSUMPTIONS = ["no row on the last day of a date range", "plots are not judged"]
prog.preload("analyze_pos_performance", "analyze_pos_performance_legacy")
import astropy.visualization, astropy.stats

KINDS = ["B", "C", "O", "Bu", "Cu", "Bx", "Cx", "Bs", "Bf", "Cf", "Br", "Bi", "Bd", "Bg", "Bp", "Ba", "Bm", "b", "Bn", "Cn", "Cj", "Be", "Bk", "Bo"]
SPECIAL = ["homing theta", "MOTORTEST run", "move_to_range 3", "disambiguate_theta", "limit seek phi"]
COLS = ["POS_ID", "DATE", "PETAL_ID", "PETAL_LOC", "DEVICE_LOC", "EXPOSURE_ID", "EXPOSURE_ITER", "POS_MOVE_INDEX", "MOVE_CMD", "LOG_NOTE", "FLAGS", "PTL_X", "PTL_Y", "POS_T", "POS_P",
        "LENGTH_R1", "LENGTH_R2", "OFFSET_X", "OFFSET_Y", "OFFSET_T", "OFFSET_P", "GEAR_CALIB_T", "GEAR_CALIB_P", "POSTSCRIPT", "CALIB_NOTE", "CTRL_ENABLED"]


def rows_of(hist, n, legacy=False):
    """the rows recorded for positioner number n"""
    res = []
    pid = "M%05d" % (100+n)
    p = dict(LENGTH_R1=3.+0.01*(n % 7), LENGTH_R2=3.1-0.01*(n % 5), OFFSET_X=20.*(n % 11)-60, OFFSET_Y=15.+9.*(n % 23), OFFSET_T=-170.+13.*n % 300, OFFSET_P=2.+n % 9)
    exp, it, clock, move = 5000+(n % 3)*40, -1, 60*n % 3000, 0
    last = None
    for k, kind in enumerate(hist):
        first = kind[0] in "Bb"
        if kind == "Bk": p = dict(LENGTH_R1=p["LENGTH_R1"]+0.05, LENGTH_R2=p["LENGTH_R2"]-0.04, OFFSET_X=p["OFFSET_X"]+0.3, OFFSET_Y=p["OFFSET_Y"]-0.2, OFFSET_T=p["OFFSET_T"]+1.5, OFFSET_P=p["OFFSET_P"]-1.1)
        if kind[0] == "B" or exp % 40 == 0: exp += 1; it = -1 if kind != "Be" else 2; move = 0
        it += 1+(k+n) % 2 if it >= 0 else 1
        if first: move += 1
        clock += 97
        t, h = 20.+31.*k+1.7*n % 140, 60.+23.*k+3.1*n % 70
        a = (p["LENGTH_R1"], p["LENGTH_R2"], p["OFFSET_T"], p["OFFSET_P"], p["OFFSET_X"], p["OFFSET_Y"])
        x, y = int2ptl(t, h, r1=a[0], r2=a[1], t_offset=a[2], p_offset=a[3], x_offset=a[4], y_offset=a[5])
        e = 0.01+0.004*((7*n+3*k) % 13)+0.0003*n
        mx, my = float(x)+e*math.cos(n+2*k), float(y)+e*math.sin(n+2*k)
        rx, ry = float(x)+0.02*math.cos(3*n+k), float(y)-0.015*math.sin(n+5*k)
        dx, dy = 0.03*math.cos(k+n), 0.04*math.sin(2*k+n)
        note = []
        r = dict(p, POS_ID=pid, DATE="2021-03-%02d %02d:%02d:%02d" % (2+k+(n % 2), clock//3600, clock//60 % 60, clock % 60), PETAL_ID=4, PETAL_LOC=(n+7) % 10, DEVICE_LOC=10+n, EXPOSURE_ID=exp, EXPOSURE_ITER=it, POS_MOVE_INDEX=100+k,
                 FLAGS=1+4+(1 << 6), PTL_X=mx, PTL_Y=my, POS_T=t, POS_P=h, GEAR_CALIB_T=1., GEAR_CALIB_P=1., POSTSCRIPT="", CALIB_NOTE="note" if n % 4 == 1 else "", CTRL_ENABLED=1)
        r["MOVE_CMD"] = "posintTP=[%.3f, %.3f]; auto_creep=False" % (t, h) if first else "poslocdXdY=[%.6f, %.6f]; x" % (dx, dy) if kind != "O" else "obsdXdY=[%.6f, %.6f]" % (dx, dy)
        if first and legacy:
            # commanded in each coordinate system, a little off the position tracked
            c = (n+k) % 6
            fx, fy = float(a[4]+a[0]*math.cos(math.radians(t+0.3+a[2]))+a[1]*math.cos(math.radians(t+0.3+a[2]+h-0.4+a[3]))), float(a[5]+a[0]*math.sin(math.radians(t+0.3+a[2]))+a[1]*math.sin(math.radians(t+0.3+a[2]+h-0.4+a[3])))
            qx, qy = (float(v) for v in flat2ptl(fx, fy))
            ox, oy, _ = (float(v) for v in ptl2fp((n+7) % 10, qx, qy))
            qs = [float(v) for v in xy2qs(ox, oy)]
            r["MOVE_CMD"] = ["posintTP=[%.9f, %.9f]" % (t+0.3, h-0.4), "poslocTP=[%.9f, %.9f]" % (t+0.3+a[2], h-0.4+a[3]), "poslocXY=[%.9f, %.9f]" % (fx-a[4], fy-a[5]), "ptlXY=[%.9f, %.9f]" % (qx, qy),
                             "obsXY=[%.9f, %.9f]" % (ox, oy), "QS=[%.9f, %.9f]" % tuple(qs)][c]+["", "; auto_creep=False", "; "][n % 3]
            r["_want"] = fx, fy
            # (the inverses used above are approximate)
            if c == 3: r["_want"] = tuple(float(v) for v in ptl2flat(qx, qy))
            if c > 3: r["_want"] = tuple(float(v) for v in ptl2flat(*fp2ptl((n+7) % 10, *(qs2xy(*qs) if c == 5 else (ox, oy)))[:2]))
            if kind == "Ba" and n % 3 == 0: r["MOVE_CMD"] = "avoid=x; more"; r["_want"] = None
        elif kind == "Bp": r["MOVE_CMD"] = "ptlXY=[%.3f, %.3f]" % (rx, ry)
        if kind == "Cj": r["MOVE_CMD"] = "dTdP=[%.3f, %.3f]" % (dx, dy)
        sub = 0 if first else 1+sum(1 for q in res[::-1] if q["_sub"] and q["EXPOSURE_ID"] == exp)
        r["_sub"] = sub
        if kind == "Bo": r["EXPOSURE_ID"] = exp-20
        if not kind.endswith("n"): note += ["move %d" % move, "submove %d" % sub]
        note += ["sequence: seq%d" % (n % 3)] if n % 4 else []
        if n % 5 == 2: note += ["sequence_move_idx %d" % (k+4)]
        if kind == "Bs": note.insert(0, SPECIAL[n % 5])
        sep = [",", " || ", "|"][n % 3]
        if kind != "Bi": note += ["req_posintTP=(%.6f%s%.6f)" % (t, sep, h)]
        if kind != "Bi" or n % 2: note += ["req_ptlXYZ=(%s)" % sep.join("%.6f" % v for v in (rx, ry, 1.5))]
        if kind == "Ba": note += ["collision avoidance: ['M01', 'M02 stop']"]; note += ["collision avoidance: ['M03']"] if n % 2 else []
        if kind == "Bm": note = [" "+q+" " for q in note]
        if kind[1:] == "u": r["FLAGS"] = 4
        if kind[1:] == "f": r["FLAGS"] |= 1 << 20
        if kind[1:] == "r": r["FLAGS"] |= 1 << 25
        if kind[1:] == "x": r[("MOVE_CMD", "PTL_X", "PTL_Y", "EXPOSURE_ID", "EXPOSURE_ITER")[(n+k) % 5]] = "" if n % 4 else ("" if (n+k) % 5 else "None")
        if kind[1:] == "d": r["DATE"] = ("2020-01-05" if n % 2 else "2022-01-05")+r["DATE"][10:]
        if kind[1:] == "g": r["GEAR_CALIB_"+"TP"[(n+k) % 2]] = 0.5+0.1*(k % 3)
        if kind == "Bg" and n % 3 == 0: r["GEAR_CALIB_T"] = 0.4; r["GEAR_CALIB_P"] = 0.8
        r["LOG_NOTE"] = "; ".join(note)
        r["_i"] = k
        res.append(r)
    return res


def null(v): return v in ("", None, "None", "none", "(null)", "null", "--")


def select(rows, o):
    """rows that are analysed, with what is known about the moves; by positioner"""
    keep = {}
    for r in rows:
        if not o["legacy"] and (r["DATE"] < o["dmin"] or r["DATE"] > o["dmax"]): continue
        t, p = r["GEAR_CALIB_T"] != 1., r["GEAR_CALIB_P"] != 1.
        if o["legacy"]: pass
        elif not {"include": True, "exclude": not t and not p, "t_only": t and not p, "p_only": p and not t, "t_or_p": t or p, "t_and_p": t and p}[o["scl"]]: continue
        if any(null(r[c]) for c in ("MOVE_CMD", "PTL_X", "PTL_Y", "EXPOSURE_ID", "EXPOSURE_ITER")): continue
        if not r["FLAGS"] & 1: continue
        if not o["legacy"] and not o["spec"] and any(s in r["LOG_NOTE"] for s in ("MOTORTEST", "move_to_range", "disambiguate_theta", "homing", "limit seek")): continue
        keep.setdefault(r["POS_ID"], []).append(dict(r))
    res = []
    for pid, rs in sorted(keep.items()):
        rs.sort(key=lambda r: r["DATE"])
        prev, sub, cnt = None, -1, -1
        for i, r in enumerate(rs):
            if r["EXPOSURE_ID"] != prev: sub = cnt = -1
            prev = r["EXPOSURE_ID"]; cnt += 1
            kind = r["MOVE_CMD"].split("=")[0]
            sub = sub+1 if kind in ("dQdS", "obsdXdY", "poslocdXdY", "dTdP") else 0
            tk = [q.strip() for q in r["LOG_NOTE"].split(";")]
            def num(name): return next((int(q.split()[1]) for q in tk if re.match(name+r" \d+$", q)), None)
            sub = num("submove") if num("submove") is not None else sub
            r.update(SUBMOVE=sub, MOVE=num("move"), MOVE_COUNTER=cnt, SEQ_IDX=num("sequence_move_idx"))
            r["SEQUENCE"] = next((q[10:] for q in tk if q.startswith("sequence: ")), "")
            r["AVOID"] = sum(len(q.split(",")) for q in tk if q.startswith("collision avoidance: "))
            if o["legacy"] and r["SEQ_IDX"] is None and r["MOVE"] is not None and "sequence" in r["LOG_NOTE"]: r["SEQ_IDX"] = r["MOVE"]-1
            def req(name): return next(([float(v) for v in re.split(r"\|\||\||,", q.split("=")[1].strip("()"))] for q in tk if q.startswith(name+"=")), None)
            tp, xy = req("req_posintTP"), req("req_ptlXYZ")
            r["REQ"] = None if tp is None or xy is None else xy[:2]
            if xy is not None and tp is not None and "dXdY" in kind and sub > 0:
                d = [float(v) for v in r["MOVE_CMD"].split("[")[1].split("]")[0].split(",")]
                if kind.startswith("obs"):
                    a = -(r["PETAL_LOC"]-3)*math.radians(36)
                    d = [math.cos(a)*d[0]-math.sin(a)*d[1], math.sin(a)*d[0]+math.cos(a)*d[1]]
                r["REQ"] = [rs[i-1]["PTL_X"]+d[0], rs[i-1]["PTL_Y"]+d[1]]
        rs = [r for r in rs if r["SUBMOVE"] == 0 or any(q["SUBMOVE"] == 0 and q["EXPOSURE_ID"] == r["EXPOSURE_ID"] and q["MOVE"] == r["MOVE"] for q in rs)]
        if not o["legacy"]: rs = [r for r in rs if r["REQ"] is not None]
        if not rs: continue
        for i, r in enumerate(rs):
            x, y = int2ptl(r["POS_T"], r["POS_P"], r1=r["LENGTH_R1"], r2=r["LENGTH_R2"], t_offset=r["OFFSET_T"], p_offset=r["OFFSET_P"], x_offset=r["OFFSET_X"], y_offset=r["OFFSET_Y"])
            m, t, q = ([float(v) for v in ptl2flat(*u)] for u in ((r["PTL_X"], r["PTL_Y"]), (x, y), r["REQ"] or (0, 0)))
            if o["legacy"]:
                # (requests are kept in flat coordinates)
                if r["SUBMOVE"] == 0: last = r["_want"] or [float(r["OFFSET_"+"XY"[v]]+r["LENGTH_R1"]*f(math.radians(r["POS_T"]+r["OFFSET_T"]))+r["LENGTH_R2"]*f(math.radians(r["POS_T"]+r["OFFSET_T"]+r["POS_P"]+r["OFFSET_P"]))) for v, f in enumerate((math.cos, math.sin))]
                q = last; r["REQ"] = [float(v) for v in flat2ptl(*q)]
            r["TRACKED"], r["REQUESTED"] = math.hypot(m[0]-t[0], m[1]-t[1]), math.hypot(m[0]-q[0], m[1]-q[1])
            r["RT"], r["RR"] = (math.hypot(u[0]-r["OFFSET_X"], u[1]-r["OFFSET_Y"]) for u in (t, q))
            r["OK"] = not r["FLAGS"] & (1 << 20 | 1 << 25)
            r["EXY"] = m[0]-t[0], m[1]-t[1], m[0]-q[0], m[1]-q[1]
        byiter = sorted(rs, key=lambda r: (r["EXPOSURE_ID"], r["EXPOSURE_ITER"]))
        for a, b in zip([None]+byiter, byiter):
            b["NUM"] = -1 if b["EXPOSURE_ITER"] == 0 or a is None or a["EXPOSURE_ID"] != b["EXPOSURE_ID"] else b["EXPOSURE_ITER"]-a["EXPOSURE_ITER"]
        # a positioner without any accepted move for one of its submoves is left out
        if all(any(r["OK"] for r in rs if r["SUBMOVE"] == s) for s in {r["SUBMOVE"] for r in rs}): res += rs
    return res


FUNCS = dict(MAX=max, MIN=min, MEAN=lambda v: math.fsum(v)/len(v), MEDIAN=lambda v: (sorted(v)[(len(v)-1)//2]+sorted(v)[len(v)//2])/2,
             STD=lambda v: math.sqrt(math.fsum((x-math.fsum(v)/len(v))**2 for x in v)/len(v)), RMS=lambda v: math.sqrt(math.fsum(x*x for x in v)/len(v)))
SIGMAS = [1, 2, 3, 4, 5, math.inf]


def ceilings(rs, tag):
    """number of sigma within which each error is, of its submove"""
    res = [math.inf]*len(rs)
    for s in {r["SUBMOVE"] for r in rs}:
        idx = [i for i, r in enumerate(rs) if r["SUBMOVE"] == s and (tag != "ACCEPTED" or r["OK"])]
        v = [rs[i]["REQUESTED" if tag == "ACCEPTED" else tag] for i in idx]; w = sorted(v)
        for g in SIGMAS[::-1]:
            q = (1-math.exp(-g))*(len(w)-1)
            lo, hi = math.floor(q), math.ceil(q)
            cut = (w[lo]+w[hi])/2
            for i, e in zip(idx, v):
                if e <= cut: res[i] = g
    return res


def close(a, b, tol=1e-9): return abs(float(a)-b) <= tol+1e-9*abs(b) or (math.isinf(b) and math.isinf(float(a)))


def fast():
    """plots are not judged: make them cheap"""
    astropy.visualization.hist = lambda *a, **k: (None, 5, None)
    astropy.stats.knuth_bin_width = lambda d, **k: (1., list(range(9)))


def compare(files, o, code, text, out, argv_top, sparse):
    rows = [r for f in files for r in f]
    want = select(rows, o)
    if not want:
        if code == 0 and not any(f.endswith(".csv") for f in os.listdir(out)): return None
        if code == 250 and "No data to analyze" in text: return None
        return "nothing can be analysed, but the program ends with %d and writes %s" % (code, os.listdir(out))
    if code: return "the program ends with %d: %s" % (code, text[-500:])
    mv = [f for f in os.listdir(out) if f.endswith("_moves.csv")]
    if len(mv) != 1: return "tables of moves: %s" % mv
    stem = os.path.join(out, mv[0][:-len("_moves.csv")])
    def table(suffix):
        with open(stem+suffix, newline="") as f: return list(csv.DictReader(f))
    got = table("_moves.csv")
    key = lambda r: (r["POS_ID"], r["DATE"])
    if sorted(map(key, got)) != sorted(map(key, want)):
        a, b = set(map(key, got)), set(map(key, want))
        return "rows analysed in excess: %s, missing: %s" % (sorted(a-b)[:3], sorted(b-a)[:3])
    if [(r["DATE"], r["POS_ID"]) for r in got] != sorted((r["DATE"], r["POS_ID"]) for r in got): return "the moves are not in order"
    W = {key(r): r for r in want}
    for g in got:
        r = W[key(g)]
        bad = [c for c in COLS[:-1] if c not in ("PTL_X", "PTL_Y", "POSTSCRIPT", "LOG_NOTE") and str(g[c]).strip() != str(r[c]).strip() and not (isinstance(r[c], (int, float)) and g[c] != "" and close(g[c], r[c]))]
        if bad: return "%s of %s is %r instead of %r" % (bad[0], key(r), g[bad[0]], r[bad[0]])
        if g["LOG_NOTE"].strip() != r["LOG_NOTE"].strip(): return "LOG_NOTE is %r instead of %r" % (g["LOG_NOTE"], r["LOG_NOTE"])
        if not sparse and g.get("CTRL_ENABLED") != "1": return "the other columns are lost"
        for c, v in (("SUBMOVE", r["SUBMOVE"]), ("MOVE_COUNTER", r["MOVE_COUNTER"]), ("NUM_COLLISION_AVOIDANCES", r["AVOID"]), ("NUM_IMAGES", r["NUM"])):
            if int(g[c]) != v: return "%s of %s is %s instead of %s" % (c, key(r), g[c], v)
        for c, v in (("MOVE", r["MOVE"]), ("SEQUENCE_MOVE_IDX", r["SEQ_IDX"])):
            if g[c] not in (str(v), "" if v is None else str(v)): return "%s of %s is %s instead of %s" % (c, key(r), g[c], v)
        if g["SEQUENCE"] != r["SEQUENCE"]: return "SEQUENCE of %s is %s instead of %s" % (key(r), g["SEQUENCE"], r["SEQUENCE"])
        for c, v in (("ACCEPTED", r["OK"]), ("FROZEN", bool(r["FLAGS"] & 1 << 20))):
            if g[c] != str(v): return "%s of %s is %s" % (c, key(r), g[c])
        for c, v in (("ERR_XY_TRACKED", r["TRACKED"]), ("ERR_XY_REQUESTED", r["REQUESTED"]), ("RADIUS_TRACKED", r["RT"]), ("RADIUS_REQUESTED", r["RR"]), ("PTL_X_REQUESTED", r["REQ"][0]), ("PTL_Y_REQUESTED", r["REQ"][1]),
                     ("ERR_X_TRACKED", r["EXY"][0]), ("ERR_Y_TRACKED", r["EXY"][1]), ("ERR_X_REQUESTED", r["EXY"][2]), ("ERR_Y_REQUESTED", r["EXY"][3])):
            if not close(g[c], v, 2e-6): return "%s of %s (%s, submove %d) is %s instead of %.6f" % (c, key(r), r["MOVE_CMD"], r["SUBMOVE"], g[c], v)
        # (these were converted to the focal surface and back, by approximate formulas)
        for c, v in (("PTL_X_MEASURED", r["PTL_X"]), ("PTL_Y_MEASURED", r["PTL_Y"])):
            if not close(g[c], v, 2e-3): return "%s of %s is %s instead of %.6f" % (c, key(r), g[c], v)
    subs = sorted({r["SUBMOVE"] for r in want})
    st = table("_stats_by_positioner.csv")
    if sorted((r["POS_ID"], int(r["SUBMOVE"])) for r in st) != sorted({(r["POS_ID"], r["SUBMOVE"]) for r in want}): return "statistics are for other positioners or submoves than those analysed"
    def values(rs, tag): return [r["REQUESTED" if tag == "ACCEPTED" else tag] for r in rs if tag != "ACCEPTED" or r["OK"]]
    for g in st:
        rs = [r for r in want if r["POS_ID"] == g["POS_ID"] and r["SUBMOVE"] == int(g["SUBMOVE"])]
        for ax in "TP" if not o["legacy"] else "":
            if not close(g["GEAR_CALIB_%s_MIN" % ax], min(r["GEAR_CALIB_"+ax] for r in rs)): return "GEAR_CALIB_%s_MIN of %s is %s" % (ax, g["POS_ID"], g["GEAR_CALIB_%s_MIN" % ax])
        for tag in ("TRACKED", "REQUESTED", "ACCEPTED"):
            v = values(rs, tag)
            if int(g["N_TARGETS_"+tag]) != len(v): return "%s has %s instead of %d %s targets" % (g["POS_ID"], g["N_TARGETS_"+tag], len(v), tag.lower())
            for n, f in FUNCS.items():
                if not close(g[n+"_"+tag], f(v), 2e-6): return "%s error of %s with respect to %s targets is %s instead of %.6f" % (n, g["POS_ID"], tag.lower(), g[n+"_"+tag], f(v))
    for tag in ("TRACKED", "REQUESTED", "ACCEPTED"):
        cl = ceilings(want, tag)
        sg = sorted(set(cl))
        ex_ = []
        for s in subs:
            for g in sg:
                v = [r["REQUESTED" if tag == "ACCEPTED" else tag] for r, c in zip(want, cl) if c <= g and r["SUBMOVE"] == s and (tag != "ACCEPTED" or r["OK"])]
                ex_.append((s, g, v))
        sm = table("_stats_summary_%s.csv" % tag)
        if [(int(r["SUBMOVE"]), float(r["SIGMA"])) for r in sm] != [(s, g) for s, g, _ in ex_]: return "the summary for %s targets is for %s" % (tag.lower(), [(r["SUBMOVE"], r["SIGMA"]) for r in sm])
        for r, (s, g, v) in zip(sm, ex_):
            if int(r["N_TARGETS"]) != len(v): return "%s of %d %s targets are within %s sigma in submove %d" % (r["N_TARGETS"], len(v), tag.lower(), g, s)
            if not close(r["QUANTILE"], 1-math.exp(-g)): return "%s sigma are the quantile %s" % (g, r["QUANTILE"])
            for n, f in FUNCS.items():
                if not close(r[n], f(v), 2e-6): return "%s error of %s targets within %s sigma in submove %d is %s instead of %.6f" % (n, tag.lower(), g, s, r[n], f(v))
        meta = Table.read(stem+"_stats_summary_%s.ecsv" % tag).meta
        nm = [r["NUM"] for r in want if r["NUM"] != -1]
        rad = [r["RT" if tag == "TRACKED" else "RR"] for r in want if tag != "ACCEPTED" or r["OK"]]
        first = sum(r["SUBMOVE"] == subs[0] for r in want)
        for k, v in dict(n_positioners=len({r["POS_ID"] for r in want}), n_targets=first, mean_corr_moves=len(want)/first-1, mean_num_images=math.fsum(nm)/len(nm) if nm else math.nan, max_radius=max(rad), min_radius=min(rad)).items():
            if not (close(meta[k], v, 2e-6) or (math.isnan(v) and math.isnan(meta[k]))): return "%s for %s targets is %s instead of %s" % (k, tag.lower(), meta[k], v)
    with open(stem+"_report.txt") as f: rep = f.read()
    for tag in ("ACCEPTED", "TRACKED", "REQUESTED"):
        m = re.search(r"Top %d errors for %s targets\.\.\.\n(.*?)(?:\n\n|\Z)" % (argv_top, tag), rep+"\n\n", re.S)
        if not m: return "the report lacks the worst %s errors" % tag.lower()
        lines = [l for l in m.group(1).split("\n") if re.match(r"\s*20\d\d-", l)]
        rs = sorted([r for r in want if tag != "ACCEPTED" or r["OK"]], key=lambda r: -r["REQUESTED" if tag == "ACCEPTED" else tag])[:argv_top]
        if len(lines) != len(rs): return "%d instead of %d of the worst %s errors are reported" % (len(lines), len(rs), tag.lower())
        # equal errors may be in any order
        for l, r in zip(lines, rs):
            e = 1000*r["REQUESTED" if tag == "ACCEPTED" else tag]
            if (not abs(float(l.split()[-1])-e) <= 0.051): return "the worst %s errors are wrong: %r should have %.1f" % (tag.lower(), l, e)
        have = sorted(l.split()[3] for l in lines)
        cut = rs[-1]["REQUESTED" if tag == "ACCEPTED" else tag]
        sure = [r["POS_ID"] for r in rs if r["REQUESTED" if tag == "ACCEPTED" else tag] > cut+1e-6]
        for p in set(sure):
            if have.count(p) < sure.count(p): return "%s is missing among the worst %s errors" % (p, tag.lower())
    return None


def histories(depth, kinds):
    return [h for n in range(1, depth+1) for h in itertools.product(kinds, repeat=n)]


def run_case(j):
    hists, n0, layout, opts = j
    o = dict(dmin="2021-01-01", dmax="2021-12-31", scl="include", spec=False, legacy=False); o.update({k: v for k, v in opts.items() if k in o})
    every = [rows_of(h, n0+i, o["legacy"]) for i, h in enumerate(hists)]
    # arrangement of the rows in files
    if layout == 0: files = every[0::2] and [sum(every, [])]
    elif layout == 1: files = every
    elif layout == 2: files = [sum([r[0::2] for r in every], []), sum([r[1::2] for r in every], [])]
    else: files = [sum(every[i::3], [])[::-1] for i in range(3)]
    files = [f for f in files if f]
    with mc.scratch() as d:
        out = os.path.join(d, "out"); ind = os.path.join(d, "in_csv" if n0 % 2 else "in"); os.mkdir(ind)
        fns = []
        for i, f in enumerate(files):
            fns.append(os.path.join(ind, "M%05d.csv" % i))
            with open(fns[-1], "w", newline="") as fh:
                w = csv.DictWriter(fh, COLS, extrasaction="ignore"); w.writeheader(); w.writerows(f)
        with open(os.path.join(ind, "readme.txt"), "w") as fh: fh.write("not data")
        with open(os.path.join(ind, "other.csv"), "w") as fh: fh.write("POS_ID,X\nM1,3\n")
        with open(os.path.join(ind, "empty.csv"), "w") as fh: fh.write(",".join(COLS)+"\n")
        arg = {0: fns+[os.path.join(ind, "other.csv"), os.path.join(ind, "empty.csv")], 1: [ind], 2: [os.path.join(ind, "*")]}[opts.get("how", 0)]
        a = ["-i"]+arg+["-o", out, "-np", opts.get("np", 1), "-top", opts.get("top", 10)]+(["-dmin", o["dmin"], "-dmax", o["dmax"], "-scl", o["scl"]] if not o["legacy"] else [])
        if o["spec"]: a += ["-spec"]
        if opts.get("sparse"): a += ["-sout"]
        code, text = prog.run("analyze_pos_performance"+"_legacy"*o["legacy"], a, setup=fast, env=dict(DESI_LOGLEVEL="CRITICAL"))
        if not os.path.isdir(out): return "no output directory; the program ends with %d: %s" % (code, text[-300:])
        return compare(files, o, code, text, out, opts.get("top", 10), opts.get("sparse"))


def sweep(ex, tag, jobs):
    def job(j):
        bad = run_case(j)
        if bad and len(j[0]) > 1:       # the shortest part that fails
            h, n0 = j[0], j[1]
            for i in range(len(h)):
                b = run_case(([h[i]], n0+i, j[2], j[3]))
                if b: return b, h[i]
        return bad, j[0][:3] if bad else None
    for j, (bad, which) in zip(jobs, mc.pmap(job, jobs)):
        ex.ran(1, sample=dict(histories=j[0][:3], layout=j[2], options=j[3]), trans=sum(map(len, j[0])))
        ex.trace(len(j[0]))
        for h in j[0]: ex.state((h, repr(j[3])))
        if bad: ex.fail(tag, bad, history=which, layout=j[2], options=j[3])


def moves(ex):
    """every history of rows"""
    hs = histories(3 if ex.thorough else 2, KINDS)
    if not ex.thorough: hs += [h for i, h in enumerate(itertools.product(KINDS, repeat=3)) if i % 9 == 4]
    size = 36
    hs = sorted(hs, key=lambda h: sum((q+1)*(ord(c) % 31) for q, c in enumerate("".join(h))) % 97)
    jobs = [(hs[i:i+size], i % 41, (i//size) % 4, {}) for i in range(0, len(hs), size)]
    sweep(ex, "moves", jobs)


def single(ex):
    """positioners alone, so that nothing hides behind the statistics of others"""
    hs = histories(2, KINDS)
    if ex.thorough: hs = hs+[h for i, h in enumerate(itertools.product(KINDS, repeat=3)) if i % 13 == 5]
    else: hs = hs[::3]
    jobs = [([h], (7*i) % 30, i % 4, {}) for i, h in enumerate(hs)]
    sweep(ex, "single", jobs)


def options(ex):
    """every option"""
    hs = [h for h in histories(2, KINDS) if len(h) == 2]
    dims = dict(scl=["include", "exclude", "t_only", "p_only", "t_or_p", "t_and_p"], spec=[False, True], dates=[("2021-01-01", "2021-12-31"), ("2021-03-03", "2100-01-01"), ("2000-01-01", "2021-06-01"), ("2021-03-04", "2021-03-09"), ("2020-01-05", "2020-02-01")],
                sparse=[False, True], np=[1, 2], top=[1, 10, 500], how=[0, 1, 2], layout=[0, 1, 2, 3])
    cases = []
    full = list(itertools.product(*dims.values()))
    if ex.thorough: full = full[::5]
    else:
        # every pair of values
        need = {(a, b, x, y) for a, b in itertools.combinations(range(len(dims)), 2) for x in map(repr, list(dims.values())[a]) for y in map(repr, list(dims.values())[b])}
        pick = []
        while need:
            best, bc = None, -1
            for c in full[len(pick) % 7::7]:
                k = sum((a, b, repr(c[a]), repr(c[b])) in need for a, b in itertools.combinations(range(len(dims)), 2))
                if k > bc: best, bc = c, k
            pick.append(best)
            need -= {(a, b, repr(best[a]), repr(best[b])) for a, b in itertools.combinations(range(len(dims)), 2)}
        full = pick
    for i, c in enumerate(full):
        v = dict(zip(dims, c)); lay = v.pop("layout"); v["dmin"], v["dmax"] = v.pop("dates")
        cases.append((hs[(5*i) % 17::17], i % 23, lay, v))
    sweep(ex, "options", cases)


def legacy(ex):
    """requests in every coordinate system, as recorded in older data"""
    kinds = ["B", "C", "Bu", "Bx", "Bf", "Cf", "Br", "Ba", "Bn", "Be", "Bk", "Bo", "O", "b"]
    hs = histories(3, kinds) if ex.thorough else histories(2, kinds)+[h for i, h in enumerate(itertools.product(kinds, repeat=3)) if i % 9 == 4]
    hs = [h for h in hs if "b" not in h[:1]]
    hs = sorted(hs, key=lambda h: sum((q+1)*(ord(c) % 31) for q, c in enumerate("".join(h))) % 97)
    size = 12
    jobs = [(hs[i:i+size], i % 41, (i//size) % 4, dict(legacy=True, np=1+(i//size) % 2, top=[1, 10, 500][i % 3], how=(i//size) % 3)) for i in range(0, len(hs), size)]
    sweep(ex, "legacy", jobs)


SECTIONS = [moves, single, options, legacy]
