"""C27: the programs that build the metrology tables, petal alignments, optics fit and camera transform of the instrument."""
import csv, itertools, json, os, re, shutil, sqlite3, sys, types
import numpy as np
import yaml
import mc, prog
import warnings
warnings.simplefilter("ignore")
import pkg_resources
from astropy.table import Table
from desimeter import io
from desimeter.transform.fvc2fp import FVC2FP
from desimeter.transform.ptl2fp import ptl2fp, fp2ptl
from desimeter.transform.pos2ptl import flat2ptl, ptl2flat
from desimeter.transform.xy2qs import xy2uv, uv2xy

PROPERTY = "C27"
LEVEL = "exploration"
RULE = ("the shipped tables regenerated from the shipped measurements; every combination of row orders, replaced and added rows, camera corners and options of the metrology program, "
        "against a plain selection; every arrangement of matched, repeated and missing entries in up to 3 tables that update the patch; every arrangement of defects (too few "
        "measurements, immobile, far from expected, repeated or unmatched spots) in series of exposures; every combination of outliers, excluded rows, tables and polynomials in fits of "
        "the camera transform with a known answer; every history of up to 3 snapshots of the alignment database. Non-trivial: distinct combinations.")
ASSUMPTIONS = ["up to 4% outliers of 0.15 to 1.5 mm", "a stand-in for the database (sqlite)"]
prog.preload("write_focal_plane_metrology", "update_focal_plane_metrology_patch", "desi_fit_circles", "desi_fit_fvc2fp_using_theta_centers", "desi_fit_fvc2fp_using_posparams", "load_petal_alignments_from_db", "write_gfa_patch")
DATA = os.path.join(mc.REPO, "py", "desimeter", "data")


def read(fn):
    with open(fn, newline="") as f: return list(csv.DictReader(f))


def num(s):
    return np.nan if s in ("", "nan", "None", None) else float(s)


def differ(a, b, tol=1e-9):
    """first difference of two lists of csv rows, or None; cells may be numbers or text"""
    if len(a) != len(b): return "%d rows instead of %d" % (len(a), len(b))
    for i, (r, s) in enumerate(zip(a, b)):
        if set(r) != set(s): return "columns %s" % sorted(set(r) ^ set(s))
        for c in s:
            if r[c] == s[c]: continue
            try: u, v = num(r[c]), num(s[c])
            except ValueError: return "row %d column %s is %r instead of %r" % (i, c, r[c], s[c])
            if not (u == v or (np.isnan(u) and np.isnan(v)) or abs(u-v) <= tol*max(1., abs(v))): return "row %d column %s is %r instead of %r" % (i, c, r[c], s[c])
    return None


def shipped(ex):
    """a table written by a program from the shipped measurements is the shipped table"""
    with mc.scratch() as d:
        gd = os.path.join(d, "gfa"); shutil.copytree(DATA, gd, ignore=shutil.ignore_patterns("UMT*", "raytrace*", "guide*"))
        os.remove(os.path.join(gd, "fp-metrology-gfa_patch.csv"))
        jobs = [("write_focal_plane_metrology", ["-o", "fp.csv"], {}, "fp.csv", "fp-metrology.csv"),
                ("write_petal0_metrology", ["-o", "p0.csv"], dict(DESIMETER_DATA=os.path.join(DATA, "lbl-petal0")), "p0.csv", "lbl-petal0/fp-metrology.csv"),
                ("write_petal1_metrology", ["-o", "p1.csv"], dict(DESIMETER_DATA=os.path.join(DATA, "lbl-petal1")), "p1.csv", "lbl-petal1/fp-metrology.csv"),
                ("write_gfa_patch", [], dict(DESIMETER_DATA=gd), "gfa/fp-metrology-gfa_patch.csv", "fp-metrology-gfa_patch.csv"),
                ("fit_raytrace_tan2fp", ["-i", os.path.join(DATA, "raytrace-tan2fp-4957-v18.csv"), "-o", "rt.json"], {}, "rt.json", "raytrace-tan2fp.json"),
                ("fit_raytrace_tan2fp", ["-o", "rtd.json"], {}, "rtd.json", "raytrace-tan2fp.json"),
                ("fit_raytrace_tan2fp", ["-i", os.path.join(DATA, "raytrace-tan2fp-4957-v18-6560A.csv"), "-o", "rt6.json", "--test"], {}, "rt6.json", "raytrace-tan2fp-6560A.json"),
                ("dump_fiducial_centers", [], {}, None, None), ("desi_fit_field_rotation_rate", [], dict(DESI_LOGLEVEL="CRITICAL"), None, None)]

        def job(j):
            return prog.run(j[0], j[1], env=j[2], cwd=d, setup=lambda: os.environ.pop("DESIMETER_DATA", None) if "DESIMETER_DATA" not in j[2] else None)
        for j, (code, text) in zip(jobs, mc.pmap(job, jobs, chunksize=1)):
            ex.ran(1, sample=j[:2]); ex.state(j[:2].__repr__())
            if code != 0:
                ex.fail("shipped", "%s %s ends with %d: %s" % (j[0], j[1][-2:], code, text[-300:])); continue
            if j[3] and j[3].endswith("csv"):
                bad = differ(read(os.path.join(d, j[3])), read(os.path.join(DATA, j[4])))
                ex.check(bad is None, "shipped", "%s does not give the table %s: %s" % (j[0], j[4], bad))
            elif j[3]:
                with open(os.path.join(d, j[3])) as f: a = json.load(f)
                with open(os.path.join(DATA, j[4])) as f: b = json.load(f)
                for k in b:
                    try: ok = np.allclose(np.array(a[k], float), np.array(b[k], float), rtol=0, atol=1e-11)
                    except (TypeError, ValueError, KeyError): ok = a.get(k) == b[k]
                    ex.check(ok, "shipped", "%s does not give %s: entry %s differs" % (j[0], j[4], k))
            elif j[0].startswith("dump"):
                m = [r for r in read(os.path.join(DATA, "fp-metrology.csv")) if r["DEVICE_TYPE"] in ("FIF", "GIF")]
                want = {}
                for r in m: want.setdefault(int(r["LOCATION"]), []).append(r)
                lines = [l for l in text.splitlines() if re.match(r"^[A-Za-z0-9]+,\d+,-?[\d.]+,-?[\d.]+,-?[\d.]+$", l.strip())]
                ex.check(len(lines) == len(want), "dump", "%d fiducials are listed instead of %d" % (len(lines), len(want)))
                for loc, l in zip(sorted(want), lines):
                    did, dev, x, y, z = l.strip().split(",")
                    rs = want[loc]
                    ok = did == rs[0]["DEVICE_ID"] and int(dev) == int(rs[0]["DEVICE_LOC"]) and all(abs(float(v)-np.mean([float(r[c]) for r in rs])) < 6e-4 for v, c in ((x, "X_PTL"), (y, "Y_PTL"), (z, "Z_PTL")))
                    ex.check(ok, "dump", "fiducial %d is listed as %r" % (loc, l)); ex.ran(1)
            else:
                rotation_rate(ex, text)


def rotation_rate(ex, text):
    rows = read(os.path.join(DATA, "guide_data_20200415.csv"))
    from astropy.time import Time
    split = Time("2020-02-19 12:32:13.414007", format="iso", scale="utc").mjd
    g = lambda r, c: num(r[c])
    rows = [r for r in rows if (g(r, "mjd") if "mjd" in r else Time(r["date"], format="iso", scale="utc").mjd) < split and g(r, "field_rotation_rate") != 0 and g(r, "guide_rms") < 200
            and g(r, "n_iterations") > 30 and g(r, "field_rotation_rate_slope_std") < 0.2]
    x = np.sin(np.deg2rad([g(r, "mountha") for r in rows])); y = (np.array([g(r, "dec") for r in rows])-30)/30.
    p = np.linalg.lstsq(np.array([x*0+1, x, y, x*y, x**2, y**2, x**3, x**2*y, y**2*x, y**3]).T, np.array([g(r, "field_rotation_rate") for r in rows]), rcond=None)[0]
    line = [l for l in text.splitlines() if " x**2 y" in l]
    got = [float(v) for v in re.findall(r"(?:^|\+ )(-?[\d.]+(?:e-?\d+)?)", line[0])] if line else []
    ex.check(len(got) == 10 and np.max(np.abs(np.array(got)-p)) < 1.5e-3, "rotation-rate", "the rotation rate polynomial is %s" % (line or text[-300:]), expected=p); ex.ran(1)


# ------------------------------------------------------------------------------------------------
PATCH = ["PETAL_ID", "PETAL_LOC", "DEVICE_LOC", "DEVICE_TYPE", "PINHOLE_ID", "X_PTL", "Y_PTL", "Z_PTL", "X_MNT", "Y_MNT", "Z_MNT", "PTL_SOURCE", "PROJ_DISTANCE", "PROVENANCE", "NOTES", "X_FP", "Y_FP", "Z_FP", "LOCATION"]


def package(d):
    """a copy of the package with room for other data"""
    pk = os.path.join(d, "pkg")
    shutil.copytree(os.path.join(mc.REPO, "py", "desimeter"), os.path.join(pk, "desimeter"),
                    ignore=shutil.ignore_patterns("test", "__pycache__", "UMT*", "lbl-*", "raytrace-tan2fp-4957*", "guide*", "fp-metrology*", "canon*", "single*"))
    return pk


def use(pk):
    for n in [n for n in sys.modules if n.split(".")[0] == "desimeter"]: del sys.modules[n]
    sys.path.insert(0, pk)
    os.environ.pop("DESIMETER_DATA", None)


def write(fn, cols, rows):
    with open(fn, "w", newline="") as f:
        w = csv.writer(f); w.writerow(cols)
        for r in rows: w.writerow([r.get(c, "") for c in cols])


_umt = {}


def base():
    """a few devices of four petals, and of a test petal, from the shipped measurements"""
    if not _umt:
        rows = read(os.path.join(DATA, "UMT-DESI-5421.csv"))
        cols = list(rows[0])
        keep, count = [], {}
        for r in rows:
            p = int(float(r["PETAL_LOC"]))
            k = (p, r["DEVICE_TYPE"])
            count[k] = count.get(k, 0)+1
            if p in (0, 3, 6, 998, 9) and count[k] <= dict(POS=4, FIF=8, GIF=4, GFA=4, ETC=1).get(r["DEVICE_TYPE"], 1) and (p not in (998, 9) or count[k] <= 1): keep.append(r)
        _umt["rows"], _umt["cols"] = keep, cols
        _umt["ids"] = read(os.path.join(DATA, "desi_positioner_indexes.csv"))
        _umt["gfa"] = read(os.path.join(DATA, "fp-metrology-gfa_patch.csv"))
        _umt["gfacols"] = list(_umt["gfa"][0])
    return _umt


def patch_rows(which, umt):
    pos = [r for r in umt if r["DEVICE_TYPE"] == "POS"]; fif = [r for r in umt if r["DEVICE_TYPE"] == "FIF"]
    res = []

    def row(r, **k):
        q = dict((c, r.get(c, "")) for c in PATCH)
        q["PETAL_LOC"] = int(float(r["PETAL_LOC"])); q["LOCATION"] = q["PETAL_LOC"]*1000+int(float(r["DEVICE_LOC"]))
        q.update(PTL_SOURCE="interp", PROVENANCE="none", NOTES="none", X_MNT=0.0, Y_MNT=0.0, Z_MNT=0.0, PROJ_DISTANCE=0.0)
        q.update(k)
        p = q["PINHOLE_ID"]
        q["PINHOLE_ID"] = int(p[1]) if str(p)[:1] == "M" else int(p) if str(p).isdigit() else 0
        return q
    f = [r for r in fif if int(float(r["PETAL_LOC"])) == 3]
    res.append(row(f[1], X_FP=111.25, Y_FP=-77.5, Z_FP=-1.25))                        # moved pinhole
    res.append(row([r for r in pos if int(float(r["PETAL_LOC"])) == 6][2], X_FP=11.25, Y_FP=7.5, Z_FP=-2.25, X_PTL=1.5))   # moved positioner
    res.append(row(f[0], PINHOLE_ID=6, X_FP=5.5, Y_FP=6.5, Z_FP=0.5))                   # pinhole that was not measured
    res.append(row([r for r in fif if int(float(r["PETAL_LOC"])) == 0][0], X_FP=-5.5, Y_FP=-6.5, Z_FP=-0.5))
    res.append(row(f[0], PINHOLE_ID=6, X_FP=5.75, Y_FP=6.75, Z_FP=0.75))                # a later row for the same pinhole
    return [r for i, r in enumerate(res) if which >> i & 1]


def gfa_rows(which):
    b = base()["gfa"]
    return [r for r in b if int(r["PETAL_LOC"]) in [p for i, p in enumerate((0, 3)) if which >> i & 1]]


def cheat_rows(which, umt):
    res = []
    if which:
        for p in (9, 3)[:which]:
            for k in (1, 2):
                if p == 9 and k == 2: continue
                res.append(dict(DEVICE_TYPE="GFA", PINHOLE_ID=k, PETAL_LOC=p, X_FP=300.+p+k, Y_FP=-260.25-k))
    return res


def reference(umt, patch, gfa, cheat, keep_old):
    out = []
    for r in umt:
        p = int(float(r["PETAL_LOC"]))
        if p >= 10 or not np.hypot(num(r["X_PTL"]), num(r["Y_PTL"])) > 1.: continue       # not measured
        q = {c: v for c, v in r.items() if c not in ("", "col0")}
        s = r["PINHOLE_ID"]
        q["PINHOLE_ID"] = int(s[1]) if s[:1] == "M" else int(s) if re.match(r"^-?\d+$", s) else 0
        q["PETAL_LOC"] = p
        x, y, z = (v[0] for v in ptl2fp(p, np.array([num(r["X_PTL"])]), np.array([num(r["Y_PTL"])]), np.array([num(r["Z_PTL"])])))
        q.update(X_FP=x, Y_FP=y, Z_FP=z, LOCATION="" if r["DEVICE_LOC"] == "" else p*1000+int(float(r["DEVICE_LOC"])))
        out.append(q)
    for r in patch:
        same = [q for q in out if str(q["LOCATION"]) == str(r["LOCATION"]) and q["PINHOLE_ID"] == r["PINHOLE_ID"]]
        if not same: out.append(dict(r))
        elif not keep_old:
            for q in same: q.update(r)
    for r in gfa:
        r = dict(r)
        if np.isnan(num(r["X_PTL"])):
            out = [q for q in out if not (q["DEVICE_TYPE"] == "GFA" and q["PETAL_LOC"] == int(r["PETAL_LOC"]) and not q.get("new"))]
            x, y, _ = fp2ptl(int(r["PETAL_LOC"]), np.array([num(r["X_FP"])]), np.array([num(r["Y_FP"])]), np.array([num(r["Z_FP"])]))
            r.update(X_PTL=x[0], Y_PTL=y[0], Z_PTL=r["Z_FP"])
        r.update(new=True, PETAL_LOC=int(r["PETAL_LOC"]), PINHOLE_ID=int(r["PINHOLE_ID"]))
        out.append(r)
    for r in cheat:
        q, = [q for q in out if q["DEVICE_TYPE"] == "GFA" and q["PINHOLE_ID"] == r["PINHOLE_ID"] and q["PETAL_LOC"] == r["PETAL_LOC"]]
        q.update(X_FP=r["X_FP"], Y_FP=r["Y_FP"])
    ids = {(int(r["PETAL_LOC"]), int(r["DEVICE_LOC"])): r for r in base()["ids"]}
    pid = {int(r["PETAL_LOC"]): int(r["PETAL_ID"]) for r in base()["ids"]}
    for q in out:
        q.pop("new", None)
        q.update(DEVICE_ID="unknown", BUS_ID=-1, CAN_ID=-1)
        if q["DEVICE_TYPE"] in ("POS", "FIF", "GIF"):
            i = ids[(q["PETAL_LOC"], int(q["LOCATION"]) % 1000)]
            q.update(DEVICE_ID=i["DEVICE_ID"], BUS_ID=i["BUS_ID"], CAN_ID=i["CAN_ID"])
        q["PETAL_ID"] = pid[q["PETAL_LOC"]]
        if q["DEVICE_LOC"] == "" or not num(q["DEVICE_LOC"]) >= 0: q["DEVICE_LOC"] = q["LOCATION"] = -1
    return out


def key(q):
    return (int(float(q["PETAL_LOC"])), str(q["DEVICE_TYPE"]), int(float(q["DEVICE_LOC"] or -1)), int(float(q["PINHOLE_ID"])))


def metrology(ex):
    b = base()
    combos = list(itertools.product((0, 1), (0, 1), range(1, 32), (1, 2, 3), (0, 1, 2), (0, 1)))
    if not ex.thorough:
        combos = [c for i, c in enumerate(combos) if (c[2] in (1, 2, 7, 31, 20) or c[3:] == (3, 1, 0))]
    with mc.scratch() as d:
        pk = package(d)

        def job(c):
            order, keep_old, pw, gw, cw, bad = c
            umt = [dict(r) for r in b["rows"]]
            if bad:       # measurements that failed are (0,0)
                for r in umt[3::17]:
                    if r["DEVICE_TYPE"] == "POS": r["X_PTL"], r["Y_PTL"] = "0.2", "-0.1"
            if order: umt = umt[::-1]
            patch, gfa, cheat = patch_rows(pw, b["rows"]), gfa_rows(gw), cheat_rows(cw, umt)
            have = {(int(float(r["PETAL_LOC"])), str(r["PINHOLE_ID"])) for r in umt if r["DEVICE_TYPE"] == "GFA" and np.hypot(num(r["X_PTL"]), num(r["Y_PTL"])) > 1}
            cheat = [r for r in cheat if (r["PETAL_LOC"], str(r["PINHOLE_ID"])) in have or (r["PETAL_LOC"] == 3 and gw & 2)]
            if any(sum(1 for p, k in have if p == r["PETAL_LOC"] and k == str(r["PINHOLE_ID"])) and r["PETAL_LOC"] == 3 for r in cheat): cheat = [r for r in cheat if r["PETAL_LOC"] != 3]
            with mc.scratch() as e:
                my = os.path.join(e, "pkg"); os.makedirs(os.path.join(my, "desimeter"))
                for n in os.listdir(os.path.join(pk, "desimeter")):
                    if n != "data": os.symlink(os.path.join(pk, "desimeter", n), os.path.join(my, "desimeter", n))
                shutil.copytree(os.path.join(pk, "desimeter", "data"), os.path.join(my, "desimeter", "data"))
                dd = os.path.join(my, "desimeter", "data")
                write(os.path.join(dd, "UMT-DESI-5421.csv"), b["cols"], umt)
                write(os.path.join(dd, "fp-metrology-patch.csv"), PATCH, patch)
                write(os.path.join(dd, "fp-metrology-gfa_patch.csv"), b["gfacols"], gfa)
                write(os.path.join(dd, "fp-metrology-cheat-patch.csv"), PATCH, cheat)
                o = os.path.join(e, "out.csv")
                code, text = prog.run("write_focal_plane_metrology", ["-o", o]+["--no-replacement"]*keep_old, cwd=e, setup=lambda: use(my))
                if code: return "the program ends with %d: %s" % (code, text[-400:])
                got = read(o)
            want = reference(umt, patch, gfa, cheat, keep_old)
            g, w = {}, {}
            for r in got: g.setdefault(key(r), []).append(r)
            for r in want: w.setdefault(key(r), []).append(r)
            if set(g) != set(w): return "devices %s are missing, %s are not expected" % (sorted(set(w)-set(g))[:4], sorted(set(g)-set(w))[:4])
            for k in w:
                if len(g[k]) != len(w[k]): return "device %s has %d rows instead of %d" % (k, len(g[k]), len(w[k]))
                for r, s in zip(g[k], w[k]):
                    for c in s:
                        u, v = r.get(c), s[c]
                        if u is None: return "column %s is missing" % c
                        if str(u).strip() == str(v).strip(): continue
                        try: ok = abs(num(u)-num(v)) < 1e-9 or (np.isnan(num(u)) and np.isnan(num(v)))
                        except ValueError: ok = False
                        if not ok: return "device %s: column %s is %r instead of %r" % (k, c, u, v)
            return None
        for c, bad in zip(combos, mc.pmap(job, combos)):
            ex.ran(1, sample=c); ex.state(c)
            if bad: ex.fail("metrology", bad, combination=dict(zip(("order", "no-replacement", "patch", "gfa", "cheat", "bad"), c)))


# ------------------------------------------------------------------------------------------------
def patches(ex):
    """every arrangement of 2 pinholes in up to 3 tables: absent, once (two values), twice; both ways of giving the location"""
    b = base()
    patch = patch_rows(0b1111, b["rows"])
    keys = [(r["PETAL_LOC"], int(float(r["DEVICE_LOC"])), r["PINHOLE_ID"]) for r in patch]
    states = ["-", "a", "b", "c", "aa"]
    combos = [t for n in (1, 2, 3) for t in itertools.product(itertools.product(states, repeat=2), repeat=n)]
    if not ex.thorough: combos = [t for t in combos if len(t) < 3 or (t[0][1] == "a" and t[1][1] in "-b" and t[2][1] in ("a", "aa"))]
    val = dict(a=0.1, b=0.35, c=-1.)

    def job(t):
        with mc.scratch() as d:
            dd = os.path.join(d, "data"); os.mkdir(dd)
            write(os.path.join(dd, "fp-metrology-patch.csv"), PATCH, patch)
            files, meas = [], {k: [] for k in keys}
            for i, st in enumerate(t):
                rows = []
                for k, s in zip((0, 2), st):
                    for j, c in enumerate(s if s != "-" else ""):
                        rows.append(dict(PETAL_LOC=keys[k][0], DEVICE_LOC=keys[k][1], PINHOLE_ID=keys[k][2], LOCATION=1000*keys[k][0]+keys[k][1],
                                         X_FP=float(patch[k]["X_FP"])+val[c]+0.001*i+j, Y_FP=float(patch[k]["Y_FP"])-val[c]-0.002*i))
                    if len(s) == 1 and s != "-": meas[keys[k]].append((rows[-1]["X_FP"], rows[-1]["Y_FP"]))
                rows += [dict(PETAL_LOC=7, DEVICE_LOC=400+q, PINHOLE_ID=q, LOCATION=7400+q, X_FP=1., Y_FP=2.) for q in (0, 1)]
                rows.append(dict(PETAL_LOC=keys[0][0], DEVICE_LOC=keys[0][1], PINHOLE_ID=9, LOCATION=1000*keys[0][0]+keys[0][1], X_FP=1., Y_FP=2.))
                if i % 2: rows = rows[::-1]
                fn = os.path.join(d, "in%d.csv" % i)
                write(fn, (["LOCATION"] if (i+len(t)) % 2 else ["PETAL_LOC", "DEVICE_LOC"])+["PINHOLE_ID", "X_FP", "Y_FP"], rows)
                files.append(fn)
            o = os.path.join(d, "out.csv")
            code, text = prog.run("update_focal_plane_metrology_patch", ["-i"]+files+["-o", o], env=dict(DESIMETER_DATA=dd))
            if code: return "the program ends with %d: %s" % (code, text[-300:])
            want = []
            for k, r in zip(keys, patch):
                r = dict(r)
                if meas[k]: r["X_FP"], r["Y_FP"] = np.median([m[0] for m in meas[k]]), np.median([m[1] for m in meas[k]])
                want.append({c: str(r[c]) for c in PATCH})
            return differ(read(o), want)
    for t, bad in zip(combos, mc.pmap(job, combos)):
        ex.ran(1, sample=t, trans=len(t)); ex.state(t)
        if bad: ex.fail("patch", "the updated patch is wrong: %s" % bad, tables=t)


# ------------------------------------------------------------------------------------------------
KINDS = ["circle", "fid", "few", "still", "far", "twice", "late", "gap", "tiny"]


def circles(ex):
    """positioners and fiducials with every pair of behaviours in series of 5 to 9 exposures"""
    m = Table.read(os.path.join(DATA, "fp-metrology.csv"))
    pos = m[m["DEVICE_TYPE"] == "POS"]; fif = m[(m["DEVICE_TYPE"] == "FIF") & (m["PINHOLE_ID"] == 2)]
    kinds = list(itertools.product(KINDS, KINDS, (5, 6, 9)))
    if ex.thorough: kinds += list(itertools.product(KINDS, KINDS, (7, 8, 12)))

    def job(c):
        k1, k2, n = c
        exps = [[] for _ in range(n)]
        want = {}
        for slot, kind in enumerate((k1, k2, "circle", "fid")):
            fid = kind == "fid"
            src = fif if fid else pos
            r = src[(97*slot+n*31) % len(src)]
            loc, ph = int(r["LOCATION"]), int(r["PINHOLE_ID"]) if fid else 0
            x0, y0 = float(r["X_FP"]), float(r["Y_FP"])
            off = dict(far=(2.2, 2.1)).get(kind, (0.31+0.1*slot, -0.22))
            u0, v0 = (float(q) for q in xy2uv(x0+off[0], y0+off[1]))
            ang = 2*np.pi*np.arange(n)/n+0.3*slot
            rad = dict(still=0., tiny=0.02).get(kind, 2.7+0.2*slot)
            if fid:
                dx = 0.01*np.cos(7*np.arange(n)); dy = 0.02*np.sin(5*np.arange(n))
                xs, ys = x0+off[0]+dx, y0+off[1]+dy
            else:
                xs, ys = uv2xy(u0+rad*np.cos(ang), v0+rad*np.sin(ang))
            skip = {"few": set(range(5, n)), "late": {0, 1}, "gap": {n//2}}.get(kind, set())
            used = []
            for i in range(n):
                if i in skip: continue
                row = dict(LOCATION=loc, PINHOLE_ID=ph, X_FP=float(xs[i]), Y_FP=float(ys[i]), X_FP_EXP=x0, Y_FP_EXP=y0)
                exps[i].append(row)
                if kind == "twice" and i in (0, 3): exps[i].append(dict(row, X_FP=x0+9., Y_FP=y0-9.))
                else: used.append(i)
            if len(used) >= 6 and kind not in ("still", "far", "tiny"):
                want[(loc, ph)] = (x0, y0)+((np.median(xs[used]), np.median(ys[used])) if fid else tuple(float(q) for q in uv2xy(u0, v0)))
        with mc.scratch() as d:
            fns = []
            for i, rows in enumerate(exps):
                rows = rows+[dict(LOCATION=-1, PINHOLE_ID=0, X_FP=3.*i, Y_FP=55., X_FP_EXP=0., Y_FP_EXP=0.)]*2
                if i % 3 == 1: rows = rows[::-1]
                fns.append(os.path.join(d, "e%d.csv" % i))
                write(fns[-1], ["LOCATION", "PINHOLE_ID", "X_FP", "Y_FP", "X_FP_EXP", "Y_FP_EXP"], rows)
            o = os.path.join(d, "out.csv")
            code, text = prog.run("desi_fit_circles", ["-i"]+fns+["-o", o])
            if code: return "the program ends with %d: %s" % (code, text[-300:])
            got = read(o)
        keys = [(int(r["LOCATION"]), int(r["PINHOLE_ID"])) for r in got]
        if len(set(keys)) != len(keys) or set(keys) != set(want): return "devices %s instead of %s" % (sorted(keys), sorted(want))
        for k, r in zip(keys, got):
            w = want[k]
            if (not max(abs(float(r["X_FP_METRO"])-w[0]), abs(float(r["Y_FP_METRO"])-w[1])) <= 1e-9): return "the expected position of %s is changed" % (k,)
            if np.hypot(float(r["X_FP"])-w[2], float(r["Y_FP"])-w[3]) > 1e-4: return "the centre of %s is %s,%s instead of %.5f,%.5f" % (k, r["X_FP"], r["Y_FP"], w[2], w[3])
        return None
    for c, bad in zip(kinds, mc.pmap(job, kinds)):
        ex.ran(1, sample=c, trans=c[2]); ex.state(c)
        if bad: ex.fail("circles", bad, kinds=c[:2], exposures=c[2])


# ------------------------------------------------------------------------------------------------
ZB = ["0,1,2,3,4,5,6,9,20,27,28,29,30", "0,1,2,27", "27,0:7,20,9"]


def truth(k, zb):
    """the camera transform of the day: the default one, moved, and with the distortions that the program may fit"""
    t = FVC2FP.read(io.fvc2fp_filename())
    t.scale *= 1+2e-4*k; t.rotation += 1e-3*(k-1); t.offset_x += 2e-4*k; t.offset_y -= 3e-4
    have = dict(zip([int(i) for i in t.zbpolids], t.zbcoeffs))
    t.zbpolids = np.array(zb_list(zb))
    t.zbcoeffs = np.array([have.get(i, 1e-6*i if day_has(k, i) else 0.) for i in zb_list(zb)])
    return t


def day_has(k, i):
    return i in (3, 4, 6, 20) and k


def fit_case(c, program, m):
    zb, day, outl, files, opt = c
    t0, t1 = FVC2FP.read(io.fvc2fp_filename()), truth(day, zb)
    x2, y2 = np.array(m["X_FP"], float), np.array(m["Y_FP"], float)
    xp, yp = t1.fp2fvc(x2, y2)
    x1, y1 = t0.fvc2fp(xp, yp)
    bad = np.zeros(len(m), bool); bad[outl] = True
    for q, i in enumerate(outl):
        a = [0.15, 0.4, 1.5, 0.9][q % 4]
        x1[i] += a*np.cos(2.*q+i); y1[i] += a*np.sin(2.*q+i)
    n = len(m)
    rows = [dict(LOCATION=int(m["LOCATION"][i]), PINHOLE_ID=int(m["PINHOLE_ID"][i]), X_FP=x1[i], Y_FP=y1[i], X_FP_METRO=x2[i], Y_FP_METRO=y2[i], POS_ID=str(m["DEVICE_ID"][i]), PETAL_LOC=int(m["PETAL_LOC"][i]))
            for i in range(n)]
    with mc.scratch() as d:
        args = ["--zbpolids", ZB[zb]]
        env = {}
        good = ~bad
        if opt.startswith("other"):
            # a better metrology, in another order; with "part" it lacks some of the devices; what the tables say is wrong
            o = m[::-1] if opt != "otherpart" else m[[i for i in range(n) if i % 7 != 3 or bad[i]]]
            o.write(os.path.join(d, "other.csv")); args += ["--other-metrology", os.path.join(d, "other.csv")]
            for i, r in enumerate(rows): r["X_FP_METRO"] += 0.3*np.cos(i); r["Y_FP_METRO"] -= 0.3
        cols = ["LOCATION", "PINHOLE_ID", "X_FP", "Y_FP", "X_FP_METRO", "Y_FP_METRO"]
        if program.endswith("posparams"):
            for r in rows:
                xt, yt, zt = fp2ptl(r["PETAL_LOC"], np.array([r["X_FP"]]), np.array([r["Y_FP"]]))
                # the offsets whose petal coordinates are at this focal plane position
                for _ in range(6):
                    xf, yf, _z = ptl2fp(r["PETAL_LOC"], xt, yt)
                    xt = xt+0; q = fp2ptl(r["PETAL_LOC"], np.array([r["X_FP"]]), np.array([r["Y_FP"]]), _z)
                    xt, yt = q[0], q[1]
                fx, fy = ptl2flat(xt, yt)
                r["OFFSET_X"], r["OFFSET_Y"] = float(fx[0]), float(fy[0])
            xk = "OFFSET_X" if opt != "static" else "OFFSET_X_STATIC"
            yk = xk.replace("_X", "_Y")
            for i, r in enumerate(rows):
                r[xk], r[yk], r["FLAGS"], r["FIT_ERROR_STATIC"] = r["OFFSET_X"], r["OFFSET_Y"], 0, 0.005+0.00001*i
            if opt in ("flags", "static"):       # rows that must not be used
                for q in range(3, n, 9):
                    r = rows[q]; r[xk] = r[xk]+(40. if q % 2 else 0.4)
                    if q % 4 < 2: r["FLAGS"] = 1+q % 3
                    else: r["FIT_ERROR_STATIC"] = 0.0202+0.0001*q
                    good[q] = False
            if opt == "rms":
                args += ["--max-fit-rms", "0.3"]
                for q in range(0, n, 2): rows[q]["FIT_ERROR_STATIC"] = 0.29
                for q in range(5, n, 11): rows[q]["FIT_ERROR_STATIC"] = 0.31; rows[q][xk] += 30.; good[q] = False
            cols = ["POS_ID", xk, yk]+(["FLAGS", "FIT_ERROR_STATIC"] if opt != "plain" else [])
            if opt == "patch":
                dd = os.path.join(d, "data"); os.mkdir(dd)
                for fn in ("fp-metrology.csv", "petal-alignments.yaml", "init-fvc2fp.json"): shutil.copy(os.path.join(DATA, fn), dd)
                pr = patch_rows(0b1111, base()["rows"]); write(os.path.join(dd, "fp-metrology-patch.csv"), PATCH, pr)
                env["DESIMETER_DATA"] = dd; args += ["--output-metrology-patch", os.path.join(d, "patch.csv")]
        parts = [rows] if files == 1 else [rows[0::2], rows[1::2]]
        fns = []
        for i, p in enumerate(parts):
            fns.append(os.path.join(d, "in%d.csv" % i)); write(fns[-1], cols, p)
        if files == 3: fns.insert(1, os.path.join(d, "absent.csv"))
        o = os.path.join(d, "out.json")
        code, text = prog.run(program, ["-i"]+fns+["-o", o]+args, env=env)
        if code: return "the program ends with %d: %s" % (code, text[-400:])
        t = FVC2FP.read(o)
        if opt == "patch":
            got = read(os.path.join(d, "patch.csv"))
            px, py = t0.fp2fvc(np.array([float(r["X_FP"]) for r in pr]), np.array([float(r["Y_FP"]) for r in pr]))
            px, py = t.fvc2fp(px, py)
            w = [{k: str(v) for k, v in dict(r, X_FP=x, Y_FP=y).items()} for r, x, y in zip(pr, px, py)]
            e = differ(got, w, 1e-7)
            if e: return "the metrology patch is wrong: %s" % e
    xb, yb = t.fvc2fp(xp, yp)
    r = np.hypot(xb-x2, yb-y2)
    inside = np.hypot(x2, y2) < 380
    worst = np.max(r[inside])
    if worst > 6e-3: return "the camera transform is wrong by up to %.4f mm (at a %s point)" % (worst, "bad" if bad[np.argmax(r*inside)] else "good")
    if [int(z) for z in t.zbpolids] != [z for z in zb_list(zb)]: return "the polynomials are %s" % list(t.zbpolids)
    return None


def zb_list(i):
    res = []
    for s in ZB[i].split(","):
        a = s.split(":")
        res += range(int(a[0]), int(a[1])) if len(a) == 2 else [int(s)]
    return res


def transforms(ex):
    m = Table.read(os.path.join(DATA, "fp-metrology.csv"))
    pos = m[(m["DEVICE_TYPE"] == "POS")]
    pos = pos[::41]
    fif = m[(m["DEVICE_TYPE"] == "FIF") & (m["PINHOLE_ID"] == 1)][::3]
    from astropy.table import vstack
    both = vstack([pos, fif])
    outs = [(), (0,), (17,), (60,), (5, 80), (33, 34), (2, 50, 90, 110)]
    if ex.thorough: outs = [()]+[(i,) for i in range(0, len(pos), 3)]+[c for c in itertools.combinations((0, 17, 35, 60, 80, 111), 2)]+[(2, 50, 90, 110), (20, 21, 22, 23)]
    jobs = []
    for zb, day, outl, files in itertools.product((0, 1, 2), (0, 1, 3) if ex.thorough else (0, 3), outs, (1, 2, 3)):
        if not ex.thorough and files != 1 and len(outl) != 1: continue
        for opt in ("plain", "other", "otherpart"): jobs.append(("desi_fit_fvc2fp_using_theta_centers", (zb, day, list(outl), files, opt)))
        for opt in ("plain", "flags", "static", "rms", "patch", "other"): jobs.append(("desi_fit_fvc2fp_using_posparams", (zb, day, list(outl), files, opt)))

    def job(j):
        return fit_case(j[1], j[0], both if j[0].endswith("centers") else pos)
    for j, bad in zip(jobs, mc.pmap(job, jobs)):
        ex.ran(1, sample=j); ex.state(repr(j))
        if bad: ex.fail("transform/"+j[0].split("_")[-1]+"/"+j[1][4], "%s: %s" % (j[0], bad), polynomials=ZB[j[1][0]], day=j[1][1], outliers=j[1][2], files=j[1][3], option=j[1][4])
    with mc.scratch() as d:
        fn = os.path.join(d, "in.csv"); write(fn, ["X_FP", "Y_FP", "X_FP_METRO", "Y_FP_METRO"], [dict(X_FP=1., Y_FP=2., X_FP_METRO=1., Y_FP_METRO=2.)]*4)
        for p in ("desi_fit_fvc2fp_using_theta_centers", "desi_fit_fvc2fp_using_posparams"):
            for ids in ("0,1,2", "1,2,27", "0,2,27,3", "0,1,27"):
                code, _ = prog.run(p, ["-i", fn, "-o", os.path.join(d, "x.json"), "--zbpolids", ids])
                ex.check(code not in (0,) and not os.path.exists(os.path.join(d, "x.json")), "mandatory", "%s accepts the polynomials %s without translation, scale or rotation" % (p, ids)); ex.ran(1)


# ------------------------------------------------------------------------------------------------
def alignments(ex):
    """every history of up to 3 snapshots with versions of the metrology group, in every order of the tables"""
    import datetime
    sqlite3.register_converter("JSONDOC", lambda b: json.loads(b))

    def value(v, p, k):
        return round(0.001*v+0.1*p+k, 6)
    KEYS = ["petal_offset_x", "petal_offset_y", "petal_offset_z", "petal_rot_1", "petal_rot_2", "petal_rot_3"]

    def module(snaps, order):
        con = sqlite3.connect(":memory:", detect_types=sqlite3.PARSE_DECLTYPES, check_same_thread=False)
        con.execute("attach ':memory:' as constants")
        e = con.execute
        e("create table constants.snapshots (name text, version integer)")
        e("create table constants.groups (name text, version integer)")
        e("create table constants.group_to_snapshot (group_name text, group_version integer, snapshot_name text, snapshot_version integer)")
        e("create table constants.elements (name text, version integer, constants JSONDOC)")
        e("create table constants.element_to_group (element_name text, element_version integer, group_name text, group_version integer)")
        rows = []
        for v in range(1, 4):
            rows.append(("groups", ("focal_plane_metrology", v)))
            for p in range(3):
                ev = v if p != 1 else 1       # one petal never changed
                if (p != 1 or v == 1): rows.append(("elements", (str(p), v, json.dumps({k: value(v, p, i) for i, k in enumerate(KEYS)}))))
                rows.append(("element_to_group", (str(p), ev, "focal_plane_metrology", v)))
        rows += [("groups", ("other", 1)), ("elements", ("9", 1, json.dumps({k: 99. for k in KEYS}))), ("element_to_group", ("9", 1, "other", 1))]
        for s, v in snaps:
            rows.append(("snapshots", ("DESI", s))); rows.append(("group_to_snapshot", ("focal_plane_metrology", v, "DESI", s))); rows.append(("group_to_snapshot", ("other", 1, "DESI", s)))
            rows.append(("group_to_snapshot", ("focal_plane_metrology", 1 if v != 1 else 2, "TEST", s)))
        if order: rows = rows[::-1]
        for t, r in rows: e("insert into constants.%s values (%s)" % (t, ",".join("?"*len(r))), r)
        m = types.ModuleType("psycopg2")
        m.connect = lambda **k: con
        return m
    hist = [h for n in (1, 2, 3) for h in itertools.permutations([(7, 1), (9, 2), (10, 3), (11, 1), (100, 2)], n)]

    def job(j):
        h, order = j
        with mc.scratch() as d:
            o = os.path.join(d, "a.yaml")
            code, text = prog.run("load_petal_alignments_from_db", ["-o", o], modules=dict(psycopg2=module(h, order)))
            if code: return "the program ends with %d: %s" % (code, text[-300:])
            with open(o) as f: got = yaml.safe_load(f)
        v = dict(h)[max(s for s, _ in h)]
        want = {p: dict(zip(("Tx", "Ty", "Tz", "alpha", "beta", "gamma"), [value(v if p != 1 else 1, p, i) for i in range(6)])) for p in range(3)}
        if got != want: return "the alignments are %s" % str(got)[:300]
    jobs = list(itertools.product(hist, (0, 1)))
    for j, bad in zip(jobs, mc.pmap(job, jobs)):
        ex.ran(1, sample=j, trans=len(j[0])); ex.state(j)
        if bad: ex.fail("alignment", bad, snapshots=j[0])
    with mc.scratch() as d:
        code, _ = prog.run("load_petal_alignments_from_db", ["-o", os.path.join(d, "a.txt")], modules=dict(psycopg2=module([(7, 1)], 0)))
        ex.check(code != 0 and not os.path.exists(os.path.join(d, "a.txt")), "extension", "another format is written without notice"); ex.ran(1)


SECTIONS = [shipped, metrology, patches, circles, transforms, alignments]
