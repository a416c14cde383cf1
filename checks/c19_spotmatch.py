"""C19: matching spots with the external program match_positions."""
import itertools, json, os, pickle, select, signal, sys, tempfile
import numpy as np
import mc
from mc import snapshot
from desimeter import io
from desimeter.transform.fvc2fp import FVC2FP
from desimeter.spotmatch import spotmatch

PROPERTY = "C19"
LEVEL = "fault_enumeration"
RULE = ("a stand-in for match_positions records what it is given and plays every behaviour of an alphabet (right answer, empty answer, "
        "failure, failure for the unknown option only, success without writing anything, absent): every sequence of behaviours over "
        "consecutive calls; every sequence of answer lines of an alphabet; every interleaving of two processes at their file and "
        "process events with one and two preemptions; lattice of spots, expected positions and transformations. "
        "Non-trivial: distinct sequences and schedules.")
ASSUMPTIONS = ["the stand-in follows the command line and file formats documented in spotmatch.py", "two processes sharing one temporary directory and user",
               "scheduling points: files opened, created or removed in the temporary directory and programs started"]
METRO = io.load_metrology()
ISF = (METRO["DEVICE_TYPE"] == "FIF") | (METRO["DEVICE_TYPE"] == "GIF")
POS = METRO[METRO["DEVICE_TYPE"] == "POS"]
FLOC = [int(v) for v in np.unique(METRO["LOCATION"][ISF])]
TXF = [io.fvc2fp_filename(), os.path.join(str(io.desimeter_data_dir()), "canon-lens-fvc2fp.json")]
CEN = {l: (float(np.mean(METRO["X_FP"][METRO["LOCATION"] == l])), float(np.mean(METRO["Y_FP"][METRO["LOCATION"] == l]))) for l in FLOC}
ROW = {int(l): i for i, l in enumerate(METRO["LOCATION"])}

STUB = r'''#!/usr/bin/python3 -ISs
import sys, json, os
a = sys.argv[1:]
here = os.path.dirname(os.path.abspath(sys.argv[0]))
c = json.load(open(os.path.join(here, "conf-" + os.environ.get("STUB_CONF", "0"))))
opt = {}
i = 0
while i < len(a):
    if a[i] == "-positioner_reach" and c["old"]:
        print("ERROR: unexpected command-line argument [ -positioner_reach ]"); sys.exit(3)
    opt[a[i]] = a[i+1]; i += 2
if c.get("log"):
    rec = dict(opt)
    for k in list(opt):
        if k.endswith("_file") and k not in ("-reduced_pos_file", "-pos_save_file"):
            rec["text" + k] = open(opt[k]).read()
    json.dump(rec, open(c["log"], "w"))
if c["how"] == "fail":
    if c.get("partial"):
        open(opt["-reduced_pos_file"], "w").write(c["partial"])
    sys.exit(c.get("status", 1))
if c["how"] == "silent":
    sys.exit(0)
if c["how"] == "text":
    open(opt["-reduced_pos_file"], "w").write(c["text"]); sys.exit(0)
# nearest target or reference pinhole within the radius
R = float(opt["-match_radius"])
T = [l.split() for l in open(opt["-target_pos_file"])]
P = [l.split() for l in open(opt["-reference_pos_file"])]
cand = [(float(v[1]), float(v[2]), int(v[0]), "positioner" if v[5] == "4" else "fiducial") for v in T] + [(float(v[1]), float(v[2]), int(v[0]), "pinhole") for v in P]
with open(opt["-reduced_pos_file"], "w") as f:
    for l in open(opt["-measured_pos_file"]):
        v = l.split(); x, y = float(v[0]), float(v[1])
        best = min(cand, key=lambda q: (q[0]-x)**2 + (q[1]-y)**2)
        if (best[0]-x)**2 + (best[1]-y)**2 > R*R: best = (0, 0, -1, "unknown")
        f.write("%d %.3f %.3f %.3f %d %.3f %s\n" % (best[2], x, y, 12., 4, 0.001, best[3]))
'''


class Bench:
    """scratch directory with the stand-in first in PATH and as temporary directory"""
    def __enter__(self):
        self.cm = mc.scratch(); self.d = self.cm.__enter__()
        self.old = {k: os.environ.get(k) for k in ("PATH", "TMPDIR", "STUB_CONF")}
        self.oldtmp = tempfile.tempdir
        os.mkdir(self.d+"/bin"); os.mkdir(self.d+"/tmp")
        with open(self.d+"/bin/match_positions", "w") as f:
            f.write(STUB)
        os.chmod(self.d+"/bin/match_positions", 0o755)
        os.environ["PATH"] = self.d+"/bin:/usr/bin:/bin"
        os.environ["TMPDIR"] = self.d+"/tmp"
        os.environ["STUB_CONF"] = "0"
        tempfile.tempdir = None
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None: os.environ.pop(k, None)
            else: os.environ[k] = v
        tempfile.tempdir = self.oldtmp
        self.cm.__exit__(*a)

    def conf(self, name="0", how="match", old=False, **kw):
        with open("%s/bin/conf-%s" % (self.d, name), "w") as f:
            json.dump(dict(how=how, old=old, log=self.d+"/log-"+name, **kw), f)
        if os.path.exists(self.d+"/log-"+name):
            os.remove(self.d+"/log-"+name)

    def log(self, name="0"):
        with open(self.d+"/log-"+name) as f:
            return json.load(f)


def quiet(f, *a, **k):
    import contextlib, io as _io
    with contextlib.redirect_stdout(_io.StringIO()):
        return f(*a, **k)


def verdict(t, rows):
    """compare the table with the rows (location, x, y, type) of the answer"""
    if len(t) != len(rows):
        return "%d rows for %d lines of the answer" % (len(t), len(rows))
    npin = {}
    fid = {r[0] for r in rows if r[3] == "fiducial"}
    for i, (loc, x, y, ty) in enumerate(rows):
        if t["LOCATION"][i] != loc or (not abs(t["XPIX"][i]-x) <= 2e-3) or (not abs(t["YPIX"][i]-y) <= 2e-3) or t["SPOTMATCH_DEVICE_TYPE"][i] != ty:
            return "row %d is %s" % (i, [t[k][i] for k in ("LOCATION", "XPIX", "YPIX", "SPOTMATCH_DEVICE_TYPE")])
        if loc >= 0:
            m = METRO[ROW[loc]]
            for k in ("DEVICE_TYPE", "DEVICE_LOC", "DEVICE_ID", "PETAL_LOC", "PETAL_ID", "BUS_ID"):
                if k in METRO.colnames and not np.ma.is_masked(m[k]) and str(t[k][i]) != str(m[k]):
                    return "row %d (location %d): %s is %s instead of %s" % (i, loc, k, t[k][i], m[k])
            if t["PETAL_LOC"][i]*1000+t["DEVICE_LOC"][i] != loc:
                return "row %d: petal and device location inconsistent with the location" % i
        elif t["DEVICE_TYPE"][i] != "unknown" or t["DEVICE_ID"][i] != "unknown" or t["PETAL_LOC"][i] != -1 or t["DEVICE_LOC"][i] != -1:
            return "unmatched row %d has a device" % i
        p = t["PINHOLE_ID"][i]
        want = 99 if ty == "fiducial" else 0
        if ty == "pinhole" and loc in fid:
            npin[loc] = npin.get(loc, 9)+1
            want = npin[loc]
        if p != want:
            return "row %d (%s): pinhole %d instead of %d" % (i, ty, p, want)
    return None


# ---------------------------------------------------------------------
def near(vals, ref, tol):
    return np.max(np.abs(np.array(vals, float)-np.array(ref, float))) <= tol


def files(rec, xp, yp, ex_, ey, el, tx, txdef):
    """the files given to the program against independent values"""
    m = [l.split() for l in rec["text-measured_pos_file"].splitlines()]
    if len(m) != len(xp) or not near([v[0] for v in m], xp, 6e-4) or not near([v[1] for v in m], yp, 6e-4) or [int(v[3]) for v in m] != list(range(1, len(xp)+1)):
        return "measured spots file wrong"
    fx, fy = np.array([CEN[l] for l in FLOC]).T
    px, py = tx.fp2fvc(np.r_[ex_, fx], np.r_[ey, fy])
    t = [l.split() for l in rec["text-target_pos_file"].splitlines()]
    want = {int(l): (x, y, 4 if i < len(ex_) else 8) for i, (l, x, y) in enumerate(zip(list(el)+FLOC, px, py))}
    if len(t) != len(want) or any(int(v[0]) not in want for v in t):
        return "targets file does not list every target and fiducial once"
    for v in t:
        w = want[int(v[0])]
        if not near([v[1], v[2]], w[:2], 1e-3) or int(v[5]) != w[2]:
            return "target %s at %s instead of %s" % (v[0], v[1:3], w)
    g = [l.split() for l in rec["text-device_centers_file"].splitlines()]
    cx, cy = txdef.fp2fvc(np.r_[np.array(POS["X_FP"], float), fx], np.r_[np.array(POS["Y_FP"], float), fy])
    want = {int(l): (x, y) for l, x, y in zip([int(v) for v in POS["LOCATION"]]+FLOC, cx, cy)}
    if len(g) != len(want) or any(int(v[0]) not in want or not near(v[1:3], want[int(v[0])], 1e-3) for v in g):
        return "device centers file wrong"
    r = [l.split() for l in rec["text-reference_pos_file"].splitlines()]
    F = METRO[ISF]
    rx, ry = txdef.fp2fvc(np.array(F["X_FP"], float), np.array(F["Y_FP"], float))
    code = {1: 515, 2: 1027, 3: 259, 4: 771}
    want = {(int(l), code[int(p)]): (x, y) for l, p, x, y in zip(F["LOCATION"], F["PINHOLE_ID"], rx, ry) if int(p) in code}
    if len(r) != len(want) or any((int(v[0]), int(v[4])) not in want or not near(v[1:3], want[int(v[0]), int(v[4])], 1e-3) for v in r):
        return "pinhole reference file wrong"
    c = [l.split() for l in rec["text-fiducial_config_file"].splitlines()]
    seen = {}
    for v in c:
        l, x, y, pin, fl = int(v[0]), float(v[1]), float(v[2]), int(v[5]), int(v[6])
        seen.setdefault(l, []).append(pin)
        if pin == 0:
            if (x, y, fl) != (0., 0., 8): return "fiducial configuration: centre of %d wrong" % l
        else:
            k = np.flatnonzero((METRO["LOCATION"] == l) & (METRO["PINHOLE_ID"] == pin))[0]
            if fl != 2 or not near([x, y], (METRO["X_FP"][k]-CEN[l][0], METRO["Y_FP"][k]-CEN[l][1]), 6e-4):
                return "fiducial configuration: pinhole %d of %d wrong" % (pin, l)
    if {l: sorted(v) for l, v in seen.items()} != {l: [0]+sorted(int(p) for p in METRO["PINHOLE_ID"][METRO["LOCATION"] == l] if p <= 4) for l in FLOC}:
        return "fiducial configuration incomplete"
    # pixel scale: area of a small square in the focal plane, at the centre of the image
    a, b = tx.fvc2fp(np.array([3000., 3000.5, 3000.]), np.array([3000., 3000., 3000.5]))
    s = np.sqrt(abs((a[1]-a[0])*(b[2]-b[0])-(a[2]-a[0])*(b[1]-b[0])))/0.5
    if (not abs(float(rec["-exp_pixel_scale"])-s) <= 1e-5*s):
        return "pixel scale %s instead of %g" % (rec["-exp_pixel_scale"], s)
    if "-positioner_reach" in rec and (not abs(float(rec["-positioner_reach"])-6.6/s) <= 2e-3):
        return "positioner reach %s instead of %g pixels" % (rec["-positioner_reach"], 6.6/s)
    return None


def calls(ex):
    """what the program is given, and the table made of a right answer"""
    cs = list(itertools.product((0, 1), ("none", "moved", "subset", "nothing"), (60., 35., 4.), (False, True)))

    def one(c):
        t, mode, radius, old = c
        tx, txdef = FVC2FP.read(TXF[t]), FVC2FP.read(TXF[0])
        k = np.arange(len(POS))
        x0, y0, l0 = np.array(POS["X_FP"], float), np.array(POS["Y_FP"], float), np.array(POS["LOCATION"], int)
        if mode == "moved":
            x0, y0 = x0+2.*np.cos(k*1.7), y0+2.*np.sin(k*1.7)
        if mode == "subset":
            s = np.argsort(np.cos(k*2.1))[:300]
            x0, y0, l0 = x0[s]+1., y0[s]-1., l0[s]
        if mode == "nothing":       # no expected position at all: only fiducials can be identified
            x0, y0, l0 = x0[:0], y0[:0], l0[:0]
        # measured: a third of the positioners, slightly off; centres and pinholes of some fiducials; spots on nothing
        s = np.arange(len(x0))[::max(1, len(x0)//40)]
        tr = [(int(l0[i]), x0[i]+0.02*np.cos(i), y0[i]+0.02*np.sin(i)) for i in s]+[(l,)+CEN[l] for l in FLOC[::9]]
        mx, my = tx.fp2fvc(np.array([v[1] for v in tr]), np.array([v[2] for v in tr]))
        mx, my, want = np.r_[mx, 10., 5990.], np.r_[my, 20., 5500.], [v[0] for v in tr]+[-1, -1]
        p = np.argsort(np.cos(np.arange(len(mx))*1.3))
        mx, my, want = mx[p], my[p], [want[i] for i in p]
        with Bench() as b:
            b.conf(old=old)
            verb = int(radius == 35.)
            kw = dict(verbose=verb) if mode == "none" else dict(expected_x_fp=x0.copy(), expected_y_fp=y0.copy(), expected_location=l0.copy())
            if t:
                kw["fvc2fp"] = tx
            s0 = snapshot((mx, my, {q: v for q, v in kw.items() if q != "fvc2fp"}))
            res = quiet(spotmatch, mx, my, match_radius_pixels=radius, **kw)
            if snapshot((mx, my, {q: v for q, v in kw.items() if q != "fvc2fp"})) != s0:
                return "arguments modified"
            rec = b.log()
            if float(rec["-match_radius"]) != radius:
                return "match radius not passed on"
            if rec["-verbose"] != ("%d" % verb if mode == "none" else "0"):
                return "verbosity not passed on"
            if old == ("-positioner_reach" in rec):
                return "reach option wrong for this version of the program"
            e = files(rec, mx, my, x0, y0, l0, tx, txdef)
            if e:
                return e
            # identities: positioners matched to what is expected there (fiducial centres or their pinholes otherwise)
            for i, w in enumerate(want):
                if res["LOCATION"][i] != w:
                    return "spot of %d labelled %d" % (w, res["LOCATION"][i])
            return verdict(res, [(int(res["LOCATION"][i]), mx[i], my[i], str(res["SPOTMATCH_DEVICE_TYPE"][i])) for i in range(len(mx))])
    for c, e in zip(cs, mc.pmap(guarded(one), cs, chunksize=1)):
        ex.ran(1, sample=dict(case=c)); ex.state(c)
        if e:
            ex.fail("calls", "%s, with (transformation, expected positions, radius, old program) %s" % (e, c), case=c)


def guarded(f):
    def g(c):
        try:
            return f(c)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e)
    return g


def answers(ex):
    """every sequence of answer lines"""
    L, M = FLOC[3], FLOC[40]
    P1, P2 = int(POS["LOCATION"][5]), int(POS["LOCATION"][900])
    al = {"p": (P1, "positioner"), "q": (P2, "positioner"), "u": (-1, "unknown"), "F": (L, "fiducial"), "h": (L, "pinhole"), "G": (M, "fiducial"), "k": (M, "pinhole"),
          "w": (-7, "pinhole"), "#": None}
    words = [w for n in range(0, 4 if ex.thorough else 3) for w in itertools.product(al, repeat=n)]
    words += [tuple(w) for w in ("hhFhh", "hhhhF", "Fhhkhk", "khGhkFhkhk", "upqu", "FGhkhk", "FFhh", "pF#hq", "hhkk", "Gkkkkkh")]

    def one(w):
        rows, lines = [], []
        for i, c in enumerate(w):
            if al[c] is None:
                lines.append("# a comment")
                continue
            r = (al[c][0], 1000.25+i, 2000.5-i, al[c][1])
            rows.append(r)
            lines.append("%d %.3f %.3f 12.0 4 0.001 %s" % r)
        with Bench() as b:
            b.conf(how="text", text="".join(l+"\n" for l in lines))
            res = quiet(spotmatch, np.array([100., 200.]), np.array([300., 400.]))
            return verdict(res, rows)
    for w, e in zip(words, mc.pmap(guarded(one), words)):
        ex.ran(1, sample=dict(answer="".join(w))); ex.state(w)
        if e:
            ex.fail("answers", "answer with lines %s: %s" % ("".join(w) or "(none)", e), word="".join(w))


def large(ex):
    """answers about every device: every fiducial with 1 to 6 pinholes, before or after its center, all the positioners, flags and errors of all kinds, and other lines in between"""
    k = np.arange(len(POS))
    other = ["", "# comment", "1000 3.0 4.0", "12 3 4 5 6 7 8 9", "a b c d e f g h", "  "]
    cs = list(itertools.product(range(7), (0, 1, 2), (0, 1), (0, 1, 40)))

    def one(c):
        npin, order, pos, junk = c
        rows = []
        for i, l in enumerate(FLOC):
            a = [(l, "fiducial")]+[(l, "pinhole")]*((npin+i) % 7 if npin else 0)
            rows += a if order == 0 else a[::-1]
        if pos: rows += [(int(l), "positioner") for l in POS["LOCATION"]]+[(-1, "unknown")]*20
        if order == 2: rows = [rows[i] for i in np.argsort(np.cos(np.arange(len(rows))*1.7))]
        rows = [(l, 100.25+0.5*i, 5900.5-0.25*i, t) for i, (l, t) in enumerate(rows)]
        text = ""
        for i, r in enumerate(rows):
            if junk and i % junk == 0: text += other[(i//junk) % len(other)]+"\n"
            text += "%d %.3f %.3f %.3f %d %.3f %s\n" % (r[:3]+(10.+(i % 7), i % 5, 0.001*(i % 11), r[3]))
        with Bench() as b:
            b.conf(how="text", text=text)
            res = quiet(spotmatch, np.array([100., 200.]), np.array([300., 400.]))
            e = verdict(res, rows)
            if e: return e
            i = np.arange(len(rows))
            return None if np.array_equal(res["FLAG"], i % 5) and np.max(abs(res["ERR"]-0.001*(i % 11))) < 1e-9 else "flags or errors of the answer changed"
    for c, e in zip(cs, mc.pmap(guarded(one), cs, chunksize=1)):
        ex.ran(1, sample=dict(case=c)); ex.state(("large", c))
        if e:
            ex.fail("large", "%s, with (pinholes, order, positioners, other lines) %s" % (e, c), case=c)


def behave(b, c, k):
    """prepare behaviour c for the k-th call; returns what must happen"""
    t = "%d %.3f %.3f 12.0 4 0.001 positioner\n" % (int(POS["LOCATION"][10+k]), 500.+k, 600.+k)
    rows = [(int(POS["LOCATION"][10+k]), 500.+k, 600.+k, "positioner")]
    os.chmod(b.d+"/bin/match_positions", 0o755)
    if c == "right": b.conf(how="text", text=t)
    if c == "old": b.conf(how="text", text=t, old=True)
    if c == "oldfail": b.conf(how="fail", old=True, partial=t); return "error"
    if c == "fail": b.conf(how="fail"); return "error"
    if c == "crash": b.conf(how="fail", partial=t, status=139); return "error"
    if c == "silent": b.conf(how="silent"); return "error"
    if c == "empty": b.conf(how="text", text=""); return []
    if c == "absent": os.chmod(b.d+"/bin/match_positions", 0o644); return "error"
    return rows


def faults(ex):
    """every sequence of behaviours of the program over consecutive calls"""
    B = ["right", "old", "fail", "crash", "oldfail", "silent", "empty", "absent"]
    seqs = [s for n in ((1, 2, 3) if not ex.thorough else (1, 2, 3, 4)) for s in itertools.product(B, repeat=n)]
    if not ex.thorough:
        seqs = [s for s in seqs if len(s) < 3 or (s[0] in ("right", "crash", "silent") and s[1] != "absent")]
    seqs = [s for s in seqs if len(s) < 4 or (s[0] in ("right", "crash") and s[1] in ("silent", "oldfail", "empty", "right"))]

    def one(s):
        with Bench() as b:
            for k, c in enumerate(s):
                want = behave(b, c, k)
                try:
                    res = quiet(spotmatch, np.array([100., 200.]), np.array([300., 400.]))
                except Exception as e:
                    if want != "error":
                        return "call %d (%s) raises %s: %s" % (k, c, type(e).__name__, e)
                    if c in ("fail", "crash", "oldfail", "absent") and not isinstance(e, RuntimeError):
                        return "call %d (%s) raises %s instead of RuntimeError" % (k, c, type(e).__name__)
                    continue
                if want == "error":
                    return "call %d (%s) returns %d spots" % (k, c, len(res))
                e = verdict(res, want)
                if e:
                    return "call %d (%s): %s" % (k, c, e)
        return None
    for s, e in zip(seqs, mc.pmap(one, seqs)):
        ex.ran(1, sample=dict(behaviours=s), trans=len(s)); ex.state(s); ex.trace(len(s))
        if e:
            ex.fail("faults", "behaviours %s: %s" % ("-".join(s), e), behaviours=s)


# ---------------------------------------------------------------------
# two processes
def actor(b, which, ctl):
    """forked process: one call of spotmatch, stopping before every event in the temporary directory; returns its (pid, fds)"""
    r1, w1 = os.pipe(); r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r1); os.close(w2)
            os.environ["STUB_CONF"] = str(which)
            state = dict(on=True)
            tmp = os.path.realpath(b.d+"/tmp")

            def hook(ev, args):
                if not state["on"]:
                    return
                if ev == "subprocess.Popen" or ((ev in ("open", "os.remove", "os.mkdir", "os.rmdir", "os.rename", "shutil.rmtree", "os.truncate")) and args
                                                and isinstance(args[0], (str, bytes)) and os.fsdecode(args[0]).startswith(tmp)):
                    state["on"] = False
                    os.write(w1, b"p"); os.read(r2, 1)
                    state["on"] = True
            sys.addaudithook(hook)
            try:
                t = quiet(spotmatch, np.array([1000.+which, 2000.]), np.array([3000., 4000.-which]))
                out = ("ok", [(int(r["LOCATION"]), float(r["XPIX"]), float(r["YPIX"])) for r in t])
            except Exception as e:
                out = ("exc", mc.under_test(e) or isinstance(e, OSError), "%s: %s" % (type(e).__name__, e))
            state["on"] = False
            os.write(w1, b"e"+pickle.dumps(out))
        except BaseException:
            pass
        os._exit(0)
    os.close(w1); os.close(r2)
    return [pid, r1, w2, None]


def step(a):
    """let the actor run to its next event; False when it has ended"""
    c = os.read(a[1], 1)
    if c == b"p":
        return True
    data = b""
    if c == b"e":
        while True:
            d = os.read(a[1], 65536)
            if not d: break
            data += d
    os.waitpid(a[0], 0); os.close(a[1]); os.close(a[2])
    a[3] = pickle.loads(data) if data else ("exc", True, "the process died")
    return False


def schedule(plan):
    """plan: list of (actor, number of events, None: to the end). Returns outcomes and number of events of each"""
    with Bench() as b:
        for i in (0, 1):
            b.conf(str(i), how="text", text="%d %.3f %.3f 12.0 4 0.001 positioner\n" % (int(POS["LOCATION"][20+i]), 700.+i, 800.))
        A = [actor(b, 0, None), actor(b, 1, None)]
        alive = [True, True]; n = [0, 0]
        started = [False, False]

        def go(i, k):
            while alive[i] and (k is None or k > 0):
                if started[i]:
                    os.write(A[i][2], b"g")
                started[i] = True
                alive[i] = step(A[i])
                if alive[i]: n[i] += 1
                if k is not None: k -= 1
        for i, k in plan:
            go(i, k)
        for i in (0, 1):
            go(i, None)
        return [a[3] for a in A], n


def processes(ex):
    """two processes matching at the same time"""
    def job(p):
        return schedule(p)
    base, n = schedule([(0, None)])
    plans = [[(i, k), (1-i, None)] for i in (0, 1) for k in range(0, n[i]+1)]
    plans += [[(0, k), (1, j), (0, None)] for k in range(1, n[0]+1) for j in range(1, n[1]+1)]
    if ex.thorough:
        plans += [[(1, k), (0, j), (1, None)] for k in range(1, n[0]+1) for j in range(1, n[1]+1)]
        plans += [[(0, k), (1, j), (0, m), (1, None)] for k in range(1, n[0], 2) for j in range(1, n[1], 2) for m in range(1, n[0]-k+1, 2)]
    for p, (res, cnt) in zip(plans, mc.pmap(job, plans)):
        ex.ran(1, sample=dict(schedule=p, events=cnt), trans=sum(cnt)); ex.trace(1); ex.state(str(p))
        for i in (0, 1):
            want = ("ok", [(int(POS["LOCATION"][20+i]), 700.+i, 800.)])
            if res[i] != want:
                if res[i][0] == "exc" and not res[i][1]:
                    raise RuntimeError(res[i][2])
                ex.fail("processes", "with the schedule %s process %d gets %s instead of %s" % (p, i, res[i][1:], want[1]), schedule=p)


SECTIONS = [calls, answers, large, faults, processes]
