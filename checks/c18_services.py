"""C18: shared services: lists of integers, bit masks, log files, header values and the data directory."""
import importlib.util, io as sio, itertools, logging, os, re, shutil, sys
import numpy as np
import yaml
import mc, prog
from astropy.table import Table
from desimeter.util import parse_fibers
from desimeter.bitmask import BitMask
from desimeter.posparams.movemask import movemask
from desimeter.posparams.posflags_mask import posflags_mask
from desimeter import io

PROPERTY = "C18"
LEVEL = "model_checking"
RULE = ("lists: every string of up to 5 (thorough 6) tokens over digits, range symbols, commas, blanks and junk against a regular grammar; masks: every set of bits "
        "and every value; log files: every sequence of up to 2 (thorough 3) requests for a logger (level, file, time stamps), with a message of every "
        "severity through every logger obtained so far after each request; data: a battery of answers with the data directory given in the environment against "
        "a copy of the package holding that data. Non-trivial: distinct token strings accepted, masks, histories.")
ASSUMPTIONS = ["the data directory is chosen before the first use in a process", "no other logging configuration is active"]

TOKENS = ["0", "7", "12", "3", ":", "..", "-", ",", " ", ".", "a"]
ITEM = re.compile(r"^([0-9]+)(?:(?::|\.\.|-)([0-9]+))?$")


def grammar(s):
    """None: refused"""
    if not s.strip(" \t"): return []
    res = []
    for item in s.replace(" ", "").split(","):
        m = ITEM.match(item)
        if m is None: return None
        if m.group(2) is None: res.append(int(m.group(1)))
        else: res += range(int(m.group(1)), int(m.group(2)))
    return res


def parse(s):
    try:
        return "ok", parse_fibers(s)
    except SystemExit as e:
        return "exit", e.code
    except Exception as e:
        return "raise", repr(e)


def judge_list(s):
    kind, got = parse(s)
    want = grammar(str(s) if s is not None else "")
    if want is None:
        if kind != "exit" or got in (0, None):
            return "%r is no list of integers or ranges, but the answer is %s %r" % (s, kind, got)
    elif kind != "ok" or not isinstance(got, np.ndarray) or got.ndim != 1 or list(got) != want:
        return "%r reads as %r instead of %r" % (s, got, want)
    elif len(want) and got.dtype.kind not in "iu":
        return "%r does not give integers" % s


def lists(ex):
    nmax = 6 if ex.thorough else 5

    def part(first):
        out, n, good = [], 0, set()
        stdout, sys.stdout = sys.stdout, sio.StringIO()
        try:
            for k in range(0, nmax):
                for rest in itertools.product(TOKENS, repeat=k):
                    s = first+"".join(rest)
                    bad = judge_list(s)
                    n += 1
                    if grammar(s): good.add(s)
                    if bad and len(out) < 3: out.append(bad)
        finally:
            sys.stdout = stdout
        return out, n, len(good)
    for first, (bad, n, good) in zip(TOKENS, mc.pmap(part, TOKENS, chunksize=1)):
        ex.ran(n, sample=dict(first=first, accepted=good)); ex.states(good)
        for b in bad:
            ex.fail("list", b)
    for s in [None, "", "   ", " \t", 5, 0, np.int64(3), "0:500", "10..15,3", "4998-5002,0:2", "1:4,2:6,1"]:
        bad = judge_list(s); ex.ran(1); ex.state(repr(s))
        if bad: ex.fail("special", bad)


# ------------------------------------------------------------------------------------------------
MOVEBITS = dict(THETA_STUCK=0, PHI_STUCK=1, FAILED_FIT=2, INVALID_TABLE=3, INVALID_AFTER_FILTER=4)
POSBITS = dict(MATCHED=0, PINHOLE=1, POSITIONER=2, FIDUCIAL=3, FVCERROR=4, BADPOSFID=5, MOVED=6, GIF=7, ETC=8, FITTEDPINHOLE=9, MATCHEDCENTER=10, AMBIGUOUS=11, FVCPROC=12, ASSIGNED=14,
               CONVERGED=15, NOTCTLENABLED=16, BROKENFIBER=17, COMERROR=18, OVERLAP=19, FROZEN=20, UNREACHABLE=21, BOUNDARYVIOLATION=22, MULTIPLEREQUESTS=23, NONFUNCTIONAL=24, REJECTED=25,
               EXPERTLIMIT=26, BADNEIGHBOR=27, MISSINGSPOT=28, BADPERFORMANCE=29)


def names_of(bits, value):
    by = {b: n for n, b in bits.items()}
    return [by.get(b, "UNKNOWN%d" % b) for b in range(value.bit_length()) if value >> b & 1]


def raises(f, *kinds):
    try:
        f()
    except kinds or Exception:
        return True
    return False


def judge_mask(ex, m, bits, tag, values, sets, comments=None):
    full = sorted(bits, key=bits.get)
    ex.check(m.names() == full, tag+"-names", "the names of all bits are %r" % (m.names(),), expected=full)
    for n, b in bits.items():
        with ex.guard(tag+"-bit", bit=n):
            ok = (m[n] == m[b] == getattr(m, n) == m.mask(n) == m.mask(b) == 2**b and m.bitnum(n) == b and m.bitname(b) == n and m[n].name == n and m[n].bitnum == b and m[n].mask == 2**b
                  and m.comment(n) == m.comment(b) == m[n].comment and int(m[n]) | 0 == 1 << b)
            if comments is not None: ok = ok and m.comment(n) == comments[n]
            ok = ok and n in str(m[n])
        ex.check(ok, tag+"-bit", "bit %s is not consistent: %r" % (n, [m[n], m.bitnum(n)])); ex.ran(1); ex.state(n)
    for v in values:
        for t in (int,)+((np.int32, np.int64, np.uint64) if v < 2**31 else (np.int64, np.uint64)):
            got = m.names(t(v))
            ex.check(got == names_of(bits, v), tag+"-value", "value %d (%s) reads as %r" % (v, t.__name__, got)); ex.ran(1)
        ex.state((tag, v))
    for s in sets:
        v = m.mask("|".join(s))
        ex.check(v == sum(1 << bits[n] for n in set(s)), tag+"-set", "%r gives mask %r" % (s, v))
        ex.check(m.names(v) == sorted(set(s), key=bits.get), tag+"-round", "%r comes back as %r" % (s, m.names(v)))
        v = 0
        for n in s: v |= m[n]
        ex.check(v == m.mask("|".join(s)), tag+"-or", "combining %r gives %r" % (s, v)); ex.ran(3); ex.state((tag, s))
    for bad in ("NOSUCH", full[0]+"|NOSUCH", ""):
        ex.check(raises(lambda: m.mask(bad), KeyError), tag+"-unknown", "an unknown name %r has a mask" % bad)
    ex.check(raises(lambda: m.NOSUCH, AttributeError) and raises(lambda: m["NOSUCH"], KeyError) and raises(lambda: m.bitnum("NOSUCH"), KeyError) and raises(lambda: m.comment(63), KeyError)
             and raises(lambda: m.bitname(63), KeyError) and raises(lambda: m.mask(63), KeyError), tag+"-unknown", "an unknown bit is accepted"); ex.ran(4)
    again = yaml.safe_load(repr(m))
    (name, rows), = again.items()
    ex.check({r[0]: r[1] for r in rows} == bits and all(r[2] == m.comment(r[0]) for r in rows), tag+"-text", "the printed definition reads back as %r" % again); ex.ran(1)


def masks(ex):
    names = list(MOVEBITS)
    judge_mask(ex, movemask, MOVEBITS, "movemask", range(256), [s for k in range(1, 6) for s in itertools.permutations(names, k)]+[("PHI_STUCK", "PHI_STUCK"), ("FAILED_FIT", "PHI_STUCK", "FAILED_FIT")])
    names = list(POSBITS)
    values = [0, 2**30-1, 2**31-1, 2**40]+[1 << b for b in range(33)]+[(1 << a) | (1 << b) for a, b in itertools.combinations(range(32), 2)]
    if ex.thorough: values += [(1 << a) | (1 << b) | (1 << c) for a, b, c in itertools.combinations(range(32), 3)]
    judge_mask(ex, posflags_mask, POSBITS, "posflags", values, [s for k in (1, 2) for s in itertools.permutations(names, k)]+[tuple(names), tuple(names[::-1])])


def definitions(ex):
    """every definition with a subset of 6 bits, in every order for up to 3 bits"""
    pool = [("BAD", 0, "bad"), ("HOT", 1, "hot, really"), ("A_B", 2, "c: d"), ("E", 5, ""), ("FAR", 31, "far"), ("HUGE", 40, "huge")]
    for k in range(1, 7):
        for sel in itertools.combinations(pool, k):
            for order in (itertools.permutations(sel) if k <= 3 else [sel, sel[::-1]]):
                for extra in (0, 1):
                    bits = {n: b for n, b, c in order}
                    rows = [[n, b, c]+([dict(size=b+1, tag="t"+n)] if extra and i % 2 == 0 else []) for i, (n, b, c) in enumerate(order)]
                    with ex.guard("definition", rows=rows):
                        m = BitMask("mymask", dict(mymask=rows, other=[["X", 7, "x"]]))
                        tops = sorted(bits.values())
                        vals = [sum(1 << b for b in c) for j in range(len(tops)+1) for c in itertools.combinations(tops, j)]+[8, 1 << 33]
                        judge_mask(ex, m, bits, "defined", vals, [tuple(s) for j in (1, 2) for s in itertools.combinations(bits, j)], {n: c for n, b, c in order})
                        back = yaml.safe_load(repr(m))["mymask"]
                        ex.check({r[0]: r[3:] for r in rows} == {r[0]: r[3:] for r in back}, "extra-text", "the printed definition of %r reads back as %r" % (rows, back))
                        for i, r in enumerate(rows):
                            if len(r) == 4:
                                ex.check(m[r[0]].size == r[1]+1 and m[r[0]].tag == "t"+r[0] and m[r[1]].size == r[1]+1, "extra", "the extra values of %r are lost" % r)
    ex.check(raises(lambda: BitMask("m", dict(m=[["A", 0, "a", 5]])), ValueError), "extra-type", "extra values which are no dictionary are accepted")
    for key in ("real", "name", "mask", "bitnum", "comment"):
        ex.check(raises(lambda: BitMask("m", dict(m=[["A", 0, "a", {key: 1}]])), AttributeError), "extra-clash", "an extra value may replace %r" % key)
    ex.ran(6)


# ------------------------------------------------------------------------------------------------
LEVELS = dict(DEBUG=10, INFO=20, WARN=30, WARNING=30, ERROR=40, FATAL=50, CRITICAL=50)
SEVERITIES = [("debug", 10), ("info", 20), ("warning", 30), ("error", 40), ("critical", 50)]


def fresh():
    root = logging.Logger.manager.loggerDict
    for n in [n for n in root if n.split(".")[0] == "desimeter"]:
        for h in getattr(root[n], "handlers", [])[:]:
            root[n].removeHandler(h); h.close()
        del root[n]
    spec = importlib.util.spec_from_file_location("desimeter_log_fresh", os.path.join(mc.REPO, "py", "desimeter", "log.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def history(ops, d, form=0):
    """ops: (level argument, environment, file, time stamps); form: how the file is named; returns None or what is wrong"""
    here = os.getcwd()
    os.chdir(d)
    try:
        return history_in(ops, d, form)
    finally:
        os.chdir(here)


def spelled(d, path, form, k):
    """the same file by its full name or relative to the current directory"""
    kind = form if form < 3 else (form+k) % 3
    return (os.path.join(d, path), path, os.path.join(".", path))[kind]


def history_in(ops, d, form):
    m = fresh()
    for f in ("a.log", "b.log"):
        if os.path.exists(os.path.join(d, f)): os.remove(os.path.join(d, f))
    handles, n = [], 0
    err, sys.stderr = sys.stderr, sio.StringIO()
    try:
        for level, env, path, ts in ops:
            if env is None: os.environ.pop("DESI_LOGLEVEL", None)
            else: os.environ["DESI_LOGLEVEL"] = env
            want = level if level is not None else (env or "INFO").upper()
            try:
                lg = m.get_logger(level=level, path=path and spelled(d, path, form, len(handles)), timestamps=ts) if path or ts or level else m.get_logger()
            except ValueError:
                if want in LEVELS: return "level %r is refused" % want
                continue
            if want not in LEVELS: return "level %r is accepted" % want
            handles.append((lg, LEVELS[want], path, ts, not any(p == path for _, _, p, _, _ in handles)))
            for k, (lg, lv, p, ts_, first) in enumerate(handles):
                for sev, num in SEVERITIES:
                    n += 1
                    tag = "<m%d>" % n
                    before = {f: content(os.path.join(d, f)) for f in ("a.log", "b.log")}
                    c0 = len(sys.stderr.getvalue())
                    getattr(lg, sev)("hello \u00e9\u03b8 %s", tag)
                    con = sys.stderr.getvalue()[c0:]
                    wanted = 1 if num >= lv else 0
                    if con.count(tag) != wanted: return "a message of severity %s appears %d times on the console at level %d" % (sev, con.count(tag), lv)
                    if wanted and (sev.upper() not in con or "history" not in con or "c18_services" not in con): return "the console message %r misses its severity or origin" % con
                    for f in ("a.log", "b.log"):
                        new = content(os.path.join(d, f))
                        if not new.startswith(before[f]): return "earlier content of a log file is lost"
                        new = new[len(before[f]):]
                        count = new.count(tag)
                        if f == p and count != wanted: return "a message of severity %s appears %d times in the requested file at level %d" % (sev, count, lv)
                        if f not in [h[2] for h in handles] and new: return "a file that was never requested has messages"
                        if count > 1 or (count and not wanted): return "a message of severity %s appears %d times in a file at level %d" % (sev, count, lv)
                        if f == p and count and first:
                            line = new.splitlines()[-1]
                            if sev.upper() not in line or "hello \u00e9\u03b8" not in line or "c18_services" not in line: return "the line %r misses its severity or origin" % line
                            if ts_ != bool(re.match(r"^\d{8}T\d{6}", line)): return "time stamps %s, but the line is %r" % (ts_, line)
    finally:
        sys.stderr = err
    return None


def content(p):
    if not os.path.exists(p): return ""
    with open(p, encoding="utf-8") as f: return f.read()


def logs(ex):
    levels = [(None, None), (None, "debug"), ("DEBUG", None), ("INFO", "ERROR"), ("WARNING", None), ("ERROR", None), ("CRITICAL", "INFO")]
    ops = [(l, e, p, ts) for l, e in levels for p in (None, "a.log", "b.log") for ts in (False, True)]
    hist = [(o,) for o in ops]+list(itertools.product(ops, repeat=2))
    extra = [(l, e, p, False) for l, e in ((None, "warn"), ("WARN", None), ("FATAL", None), ("BOGUS", None), (None, "bogus"), (None, "Critical")) for p in (None, "a.log")]
    hist += [(o,) for o in extra]+[(a, b) for o in extra for q in ops[:6] for a, b in ((o, q), (q, o))]
    if ex.thorough:
        hist += list(itertools.product([o for o in ops if o[2] or not o[3]], repeat=3))

    def part(hs):
        with mc.scratch() as d:
            return [history(h, d, len(str(h))*7 % 5) for h in hs]
    n = 64
    for hs, res in zip([hist[i::n] for i in range(n)], mc.pmap(part, [hist[i::n] for i in range(n)], chunksize=1)):
        for h, bad in zip(hs, res):
            ex.ran(1, trans=len(h), sample=h); ex.state(h); ex.trace(1)
            if bad: ex.fail("log", bad, history=h)


# ------------------------------------------------------------------------------------------------
def headers(ex):
    """the hexapod rotation is the sixth focus parameter in arcsec"""
    pools = [[0., 120., -3.5], [1e-3, 7.], [0., -61.25, 3600., 1e-4, -0.]]
    for rot in pools[2]:
        for pos in range(6):
            for a in pools[0]:
                vals = [a+0.1*i for i in range(5)]+[rot]
                if pos < 5: vals[pos] = 999.
                for h in (",".join("%r" % v for v in vals), ", ".join("%.6f" % v for v in vals), tuple(vals), tuple(str(v) for v in vals)):
                    with ex.guard("focus", header=h):
                        got = io.read_hexrot_deg(dict(FOCUS=h, OTHER=1.))
                    ex.check(abs(got-rot/3600.) < 1e-9, "focus", "FOCUS=%r gives a rotation of %r degrees" % (h, got), expected=rot/3600.); ex.ran(1); ex.state((h, rot))
    for n in list(range(0, 6))+[7, 8, 12]:
        vals = [float(i) for i in range(n)]
        for h in (tuple(vals), ",".join("%r" % v for v in vals)):
            ex.check(raises(lambda: io.read_hexrot_deg(dict(FOCUS=h))), "focus-length", "%d focus parameters are accepted: %r" % (n, h)); ex.ran(1); ex.state(h)
    for h in (5., None, 3, b"1,2,3,4,5,6"):
        ex.check(raises(lambda: io.read_hexrot_deg(dict(FOCUS=h))), "focus-type", "FOCUS=%r is accepted" % (h,)); ex.ran(1); ex.state(repr(h))
    ex.check(raises(lambda: io.read_hexrot_deg(dict(OTHER="1,2,3,4,5,6"))), "focus-missing", "a header without FOCUS has a rotation"); ex.ran(1)


# ------------------------------------------------------------------------------------------------
BATTERY = r"""
import sys, os, pickle, json, logging
import numpy as np
sys.path.insert(0, sys.argv[1])
import desimeter
assert os.path.abspath(desimeter.__file__).startswith(os.path.abspath(sys.argv[1])), desimeter.__file__
from desimeter import io
out = {}
def do(name, f):
    try: out[name] = f()
    except BaseException as e: out[name] = "%s" % type(e).__name__
m = None
def tab(t): return {c: np.asarray(np.ma.filled(np.ma.asarray(t[c]), -1 if t[c].dtype.kind in "if" else "")).tolist() for c in t.colnames}
def text(p):
    with open(p) as f: return f.read()
do("metrology", lambda: tab(io.load_metrology()))
do("alignment", io.load_petal_alignement)
do("fvc2fp-file", lambda: text(io.fvc2fp_filename()))
do("dm2pm-file", lambda: text(io.dm2pm_filename()))
do("bias-file", lambda: os.path.basename(io.fvc_bias_filename()))
do("nominal", lambda: tab(io.load_nominal_positioner_locations()))
x, y = np.array([10., 200., -150.]), np.array([3., -20., 55.])
def ptl():
    from desimeter.transform.ptl2fp import ptl2fp, fp2ptl
    return [np.array(ptl2fp(p, x, y, x*0)).tolist() for p in (0, 3, 8)]+[np.array(fp2ptl(5, x, y, x*0)).tolist()]
do("ptl2fp", ptl)
def gfa():
    from desimeter.transform.gfa2fp import gfa2fp, fp2gfa
    return [np.array(gfa2fp(p, x+500, y+500)).tolist() for p in (0, 4)]
do("gfa2fp", gfa)
def fvc():
    from desimeter.transform.fvc2fp import FVC2FP
    return np.array(FVC2FP.read(io.fvc2fp_filename()).fvc2fp(x+2500, y+3000)).tolist()
do("fvc2fp", fvc)
def fidu():
    from astropy.table import Table
    from desimeter.transform.fvc2fp import FVC2FP
    from desimeter.findfiducials import findfiducials
    t = FVC2FP.read(io.fvc2fp_filename())
    m = io.load_metrology()
    m = m[(m["DEVICE_TYPE"] == "FIF") & (m["PETAL_LOC"] < 3)]
    xp, yp = t.fp2fvc(np.asarray(m["X_FP"]), np.asarray(m["Y_FP"]))
    s = Table(dict(XPIX=xp, YPIX=yp, COUNTS=np.ones(len(m))*1e4))
    r = findfiducials(s)
    return np.asarray(r["LOCATION"]).tolist()
do("fiducials", fidu)
def assign():
    from desimeter import fiberassign as fa
    return np.array(fa.fiberassign_radec2xy_cs5(np.array([30., 30.5]), np.array([10., 10.4]), 30.1, 10.1, 59000., 5., 0.)).tolist() + \
           np.array(fa.fiberassign_cs5_xy2radec(np.array([20., 300.]), np.array([11., -50.]), 30.1, 10.1, 59000., 5., 0.)).tolist()
do("fiberassign", assign)
def fm():
    from desimeter.fieldmodel import FieldModel
    f = FieldModel(); f.ra = 10.; f.dec = 30.; f.lst = 20.; f.mjd = 59000.; f.adc1 = 20.; f.adc2 = 40.; f.hexrot_deg = 0.01; f.fieldrot_zp_deg = 0.
    return np.array(f.all_gfa2fp(x+500, y+500, petal_loc=np.array([0, 3, 5]))).tolist() if hasattr(f, "all_gfa2fp") else None
do("fieldmodel", fm)
pickle.dump(out, open(sys.argv[2], "wb"))
"""


def altered(d, k):
    """a data directory with everything different; k chooses the differences"""
    src = os.path.join(mc.REPO, "py", "desimeter", "data")
    m = Table.read(os.path.join(src, "fp-metrology.csv"))
    m["X_FP"] = m["X_FP"]+0.1*k; m["Y_FP"] = m["Y_FP"]-0.2*k
    m.write(os.path.join(d, "fp-metrology.csv"))
    with open(os.path.join(src, "petal-alignments.yaml")) as f: a = yaml.safe_load(f)
    for p in a:
        for c in a[p]:
            if c.lower() in ("tx", "ty", "tz"): a[p][c] = float(a[p][c])+0.3*k
    with open(os.path.join(d, "petal-alignments.yaml"), "w") as f: yaml.safe_dump(a, f)
    for n, keys in (("init-fvc2fp.json", ("xfp_offset", "yfp_offset", "offset_x", "offset_y", "xoff", "yoff")), ("dm2pm.json", ("offset_x", "offset_y", "scale", "rotation"))):
        import json
        with open(os.path.join(src, n)) as f: j = json.load(f)
        for q in keys:
            if q in j and isinstance(j[q], (int, float)): j[q] = j[q]+0.01*k*(j[q] or 1.)
        for q in ("dm2pm_zbcoeffs", "pm2dm_zbcoeffs", "zbcoeffs"):
            if q in j: j[q] = [v*(1+0.5*k) for v in j[q]]
        j["comment"] = "altered %d" % k
        with open(os.path.join(d, n), "w") as f: json.dump(j, f)


def data_directory(ex):
    import pickle, subprocess
    with mc.scratch() as d:
        src = os.path.join(mc.REPO, "py", "desimeter")
        with open(os.path.join(d, "battery.py"), "w") as f: f.write(BATTERY)
        jobs = [("default", os.path.join(mc.REPO, "py"), None)]
        for k in (1, 2):
            a = os.path.join(d, "data%d" % k); os.mkdir(a); altered(a, k)
            pk = os.path.join(d, "pkg%d" % k)
            shutil.copytree(src, os.path.join(pk, "desimeter"), ignore=shutil.ignore_patterns("test", "__pycache__", "UMT*", "lbl-*"))
            for n in os.listdir(a): shutil.copy(os.path.join(a, n), os.path.join(pk, "desimeter", "data", n))
            jobs += [("env%d" % k, os.path.join(mc.REPO, "py"), a), ("pkg%d" % k, pk, None)]

        def job(j):
            name, path, data = j
            env = dict(os.environ, DESI_LOGLEVEL="CRITICAL", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
            env.pop("DESIMETER_DATA", None); env.pop("PYTHONPATH", None)
            if data: env["DESIMETER_DATA"] = data
            out = os.path.join(d, name+".pkl")
            p = subprocess.run([sys.executable, os.path.join(d, "battery.py"), path, out], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if p.returncode: return p.stdout.decode()[-500:]
            with open(out, "rb") as f: return pickle.load(f)
        res = dict(zip([j[0] for j in jobs], mc.pmap(job, jobs, chunksize=1)))
        for n, r in res.items():
            ex.ran(1)
            if not isinstance(r, dict):
                ex.fail("battery", "the answers with data %s are not available: %s" % (n, r)); return
        direct = Table.read(os.path.join(src, "data", "fp-metrology.csv"))
        ex.check(res["default"]["metrology"]["X_FP"] == direct["X_FP"].tolist() and res["default"]["metrology"]["LOCATION"] == np.asarray(np.ma.filled(np.ma.asarray(direct["LOCATION"]), -1)).tolist() and set(direct.colnames) <= set(res["default"]["metrology"]),
                 "default", "the metrology is not the one of the package")
        with open(os.path.join(src, "data", "petal-alignments.yaml")) as f:
            ex.check(res["default"]["alignment"] == yaml.safe_load(f), "default", "the petal alignments are not those of the package")
        nom = Table.read(os.path.join(src, "data", "positioner_locations_0530v18.csv"))
        for a, b in (("device_location_id", "DEVICE_LOC"), ("device_type", "DEVICE_TYPE"), ("X", "X_PTL"), ("Y", "Y_PTL"), ("Z", "Z_PTL"), ("FLAT_X", "X_FLAT"), ("FLAT_Y", "Y_FLAT")):
            ex.check(res["default"]["nominal"].get(b) == nom[a].tolist(), "nominal", "column %s of the nominal positions is wrong" % b); ex.ran(1)
        for k in (1, 2):
            e, p = res["env%d" % k], res["pkg%d" % k]
            for q in p:
                ex.check(repr(e[q]) == repr(p[q]), "environment", "with the data directory chosen in the environment %s is not the answer of a package with that data" % q, got=repr(e[q])[:300], expected=repr(p[q])[:300])
                ex.ran(1); ex.state((k, q))
                if q in ("metrology", "alignment", "fvc2fp-file", "dm2pm-file", "ptl2fp", "gfa2fp", "fvc2fp", "fiberassign"):
                    ex.check(repr(e[q]) != repr(res["default"][q]), "environment", "%s does not depend on the data directory" % q)
        changed = [q for q in res["default"] if repr(res["default"][q]) != repr(res["env1"][q])]
        ex.notes.append("answers that depend on the data directory: %s; errors: %s" % (changed, [q for q, v in res["default"].items() if isinstance(v, str) and q.find("file") < 0]))


SECTIONS = [lists, masks, definitions, logs, headers, data_directory]
