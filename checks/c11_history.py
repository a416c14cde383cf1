"""C11: answers do not depend on what was computed before, or on what another thread computes meanwhile."""
import itertools, os
import numpy as np
import mc, sched
from mc import snapshot
from astropy.table import Table
from desimeter import io
from desimeter.transform import gfa2fp, ptl2fp, pos2ptl, xy2qs, radec2tan, rszn_lookups, xy2tp, zhaoburge
from desimeter import fiberassign
from desimeter.transform.tan2fp import echo22, raytracefit
import desimeter.transform.tan2fp as tan2fp
from desimeter.transform.fvc2fp import FVC2FP
from desimeter.transform.dm2pm import DM2PM
from desimeter.fieldmodel import FieldModel
from desimeter.findfiducials import findfiducials
from desimeter.circles import fit_circle

PROPERTY = "C11"
LEVEL = "model_checking"
RULE = ("histories: every sequence of operations (all of the operation list, adversarial caller overwriting arguments and results "
        "after each call) up to the stated length, each executed in a process forked before any lazily loaded table exists, "
        "compared with the answer of a cold process; threads: every pair of operations of a group, every single preemption "
        "point (each traced line of the code under test, first two visits), both start orders, and every pair of preemption "
        "points for the functions that fill caches. Non-trivial: distinct (last operation, set of previous operations) and "
        "distinct preemption points.")
ASSUMPTIONS = ["preemption at line granularity (opcode granularity inside the functions that store module globals, thorough)",
               "preemption bound 1 (2 where stated), two threads"]
TOL = 1e-9

X = np.array([-300., -120.5, 0.3, 55., 210., 371.])
Y = np.array([12., -260., 0.1, 301., -199., 90.])
XG = np.array([0., 100., 1024.5, 2047.])
YG = np.array([1031., 0., 515.5, 12.])


def spots_for(which):
    """noise free pinhole spots of 3 fiducials per petal in one petal half, projected with one of two input transforms"""
    fn = [io.fvc2fp_filename(), os.path.join(str(io.desimeter_data_dir()), "canon-lens-fvc2fp.json")][which]
    m = io.load_metrology()
    m = m[(m["DEVICE_TYPE"] == "FIF") | (m["DEVICE_TYPE"] == "GIF")]
    loc = np.unique(m["LOCATION"])
    keep = loc[which::4]
    m = m[np.isin(m["LOCATION"], keep)]
    x, y = FVC2FP.read(fn).fp2fvc(np.array(m["X_FP"]), np.array(m["Y_FP"]))
    t = Table()
    t["XPIX"] = x
    t["YPIX"] = y
    t["COUNTS"] = 1000.*np.ones(len(m))
    return fn, t


SP = {}


def prepare():
    """inputs that need the code under test are made in a child and shipped back, so that this process stays cold"""
    r = sched.in_child(lambda: [spots_for(0), spots_for(1)])
    if r[0] != "ok":
        raise RuntimeError("cannot prepare inputs: %s %s" % (r[2], r[3]))
    SP[0], SP[1] = r[1]


def op_gfa_fwd():
    return (5, XG.copy(), YG.copy()), lambda a: gfa2fp.gfa2fp(*a)
def op_gfa_bwd():
    return (2, X[:3].copy(), Y[:3].copy()), lambda a: gfa2fp.fp2gfa(*a)
def op_ptl_fwd():
    return (3, X.copy(), Y.copy(), np.zeros(6)), lambda a: ptl2fp.ptl2fp(*a)
def op_ptl_bwd():
    return (7, X.copy(), Y.copy()), lambda a: ptl2fp.fp2ptl(*a)
def op_ptl_table():
    t = dict(PETAL_LOC=np.array([0, 3, 3, 9, 7, 0]), X_PTL=X.copy(), Y_PTL=Y.copy(), Z_PTL=np.zeros(6))
    return (t,), lambda a: [np.array(ptl2fp.apply_ptl2fp(dict(a[0]))[k]) for k in ("X_FP", "Y_FP", "Z_FP")]
def op_echo_fwd():
    return (X*6.5e-5, Y*6.5e-5), lambda a: echo22.tan2fp(*a)
def op_echo_bwd():
    return (X.copy(), Y.copy()), lambda a: echo22.fp2tan(*a)
def op_rt_fwd():
    return (X*6.5e-5, Y*6.5e-5, 30., 200.), lambda a: tan2fp.tan2fp(*a)
def op_rt_bwd():
    return (X.copy(), Y.copy(), 310., 15.), lambda a: tan2fp.fp2tan(*a)
def op_fid0():
    return (SP[0][1].copy(),), lambda a: fid(a[0].copy(), SP[0][0])
def op_fid1():
    return (SP[1][1].copy(),), lambda a: fid(a[0].copy(), SP[1][0])
def op_int2ptl():
    return (X[:4]/4., Y[:4]/4.+80., 3.0, 3.1, 10., -20., 5., 7., 100., -30.), lambda a: pos2ptl.flat2ptl(*pos2ptl.loc2flat(*pos2ptl.ext2loc(*pos2ptl.int2ext(a[0], a[1], a[6], a[7]), a[2], a[3]), a[8], a[9]))
def op_flat():
    return (X.copy(), Y.copy()), lambda a: pos2ptl.ptl2flat(*a)
def op_qs():
    return (X.copy(), Y.copy()), lambda a: list(xy2qs.xy2qs(*a))+list(xy2qs.xy2uv(*a))
def op_look():
    return (np.abs(X).copy(),), lambda a: [rszn_lookups.r2z(a[0]), rszn_lookups.r2s(a[0])]
def op_fvc():
    return (X.copy(), Y.copy()), lambda a: FVC2FP.read(io.fvc2fp_filename()).fp2fvc(*a)
def op_dm():
    return (X.copy(), Y.copy()), lambda a: DM2PM.read(io.dm2pm_filename()).dm2pm(*a)
def op_sky():
    return (30.+X/300., 20.+Y/300., 30., 20., 58900., 45., 0.1), lambda a: radec2tan.radec2tan(*a)
def op_fm():
    return (X.copy(), Y.copy()), lambda a: make_fm().fp2radec(*a)


def op_load():
    def f(a):
        out = []
        for t in (io.load_metrology(), io.load_nominal_positioner_locations()):
            x, y = t.colnames.index([c for c in t.colnames if c.startswith("X_")][0]), t.colnames.index([c for c in t.colnames if c.startswith("Y_")][0])
            out += [np.array(t.columns[x], float), np.array(t.columns[y], float)]
            t[t.colnames[x]][:5] += 3.          # the table belongs to the caller
            t[t.colnames[y]][-5:] = 0.
            t.remove_column(t.colnames[y])
        d = io.load_petal_alignement()
        out.append(np.array([[float(d[k][q]) for q in sorted(d[k]) if isinstance(d[k][q], (int, float))] for k in sorted(d)]))
        d[3]["alpha"] = 0.5
        del d[5]
        for inv in (False, True):
            m = radec2tan.get_hardcoded_polmis_rotmat(inv)
            out.append(m.copy()); m[...] = 0.
        return out
    return (X.copy(),), f


def fid(t, fn):
    r = findfiducials(t, input_transform=fn)
    return [np.array(r["LOCATION"]), np.array(r["PINHOLE_ID"])]


def make_fm(adc=(12., 340.)):
    fm = FieldModel()
    fm.ra, fm.dec, fm.expid, fm.hexrot_deg = 40., 25., 1, 0.02
    fm.adc1, fm.adc2 = adc
    fm.mjd, fm.lst = 59000.3, 50.
    return fm


OPS = dict(gfa_fwd=op_gfa_fwd, gfa_bwd=op_gfa_bwd, ptl_fwd=op_ptl_fwd, ptl_bwd=op_ptl_bwd, ptl_table=op_ptl_table,
           echo_fwd=op_echo_fwd, echo_bwd=op_echo_bwd, rt_fwd=op_rt_fwd, rt_bwd=op_rt_bwd, fid0=op_fid0, fid1=op_fid1,
           flat=op_flat, qs=op_qs, look=op_look, fvc=op_fvc, dm=op_dm, sky=op_sky, fm=op_fm, load=op_load)
CHEAP = [k for k in OPS if not k.startswith("fid")]


def call(name):
    """(answer, arguments untouched)"""
    args, f = OPS[name]()
    before = snapshot(args)
    out = f(args)
    ans = [np.array(o, dtype=float, copy=True) for o in out]
    same = snapshot(args) == before
    # an adversarial caller: everything it got or gave is overwritten afterwards
    for o in list(out)+list(args):
        if isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind == "f":
            o[...] = np.nan
        elif isinstance(o, dict):
            for v in o.values():
                if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
                    v[...] = np.nan
    return ans, same


def close(a, b):
    if len(a) != len(b):
        return False
    for u, v in zip(a, b):
        if u.shape != v.shape or not np.array_equal(np.isnan(u), np.isnan(v)):
            return False
        if np.any(np.abs(u-v)[~np.isnan(u)] > TOL*(1+np.abs(v[~np.isnan(u)]))):
            return False
    return True


_cold = {}


def cold(ex, names):
    if not SP:
        prepare()
    names = [n for n in names if n not in _cold]
    for n, r in zip(names, mc.pmap(lambda n: sched.in_child(lambda: call(n)), names)):
        if r[0] != "ok":
            ex.fail("cold-"+n, "operation %s fails in a fresh process: %s" % (n, r[2]), traceback=r[3])
            continue
        ex.check(r[1][1], "args-"+n, "operation %s modified its arguments" % n)
        if not all(np.all(np.isfinite(v)) for v in r[1][0]):
            ex.fail("nan-"+n, "operation %s gives undefined answers" % n)
        _cold[n] = r[1][0]


def subtree(prefix, names, depth):
    """in a forked child: run prefix[-1] in the current state, report, then fork one child per next operation"""
    res = []
    n = prefix[-1]
    try:
        ans, same = call(n)
        ok = close(ans, _cold[n])
        if not ok or not same:
            res.append((prefix, "answer differs from that of a fresh process" if not ok else "arguments modified", repr([a.tolist() for a in ans])[:300]))
    except BaseException as e:
        if not mc.under_test(e):
            raise
        res.append((prefix, "raises %s: %s" % (type(e).__name__, e), ""))
    cnt = 1
    if depth > 1:
        for m in names:
            r = sched.in_child(lambda: subtree(prefix+[m], names, depth-1), timeout=600)
            if r[0] != "ok":
                if not r[1]:
                    raise RuntimeError(r[2]+r[3])
                res.append((prefix+[m], r[2], r[3]))
            else:
                res += r[1][0]
                cnt += r[1][1]
    return res, cnt


def explore(ex, names, depth, tag):
    cold(ex, names)
    names = [n for n in names if n in _cold]
    work = [[a, b] for a in names for b in names] if depth > 1 else [[a] for a in names]

    def job(w):
        if len(w) == 1:
            return sched.in_child(lambda: subtree(w, names, depth), 600)

        def go():
            call(w[0])
            return subtree(w, names, depth-1)
        return sched.in_child(go, 600)
    tot = 0
    for w, r in zip(work, mc.pmap(job, work, chunksize=1)):
        if r[0] != "ok":
            if not r[1]:
                raise RuntimeError(r[2]+r[3])
            ex.fail("%s-%s" % (tag, "+".join(w)), "history %s: %s" % (w, r[2]), traceback=r[3])
            continue
        fails, n = r[1]
        ex.ran(n, sample=dict(history=w), trans=n)
        ex.trace(n)
        tot += n
        for h, msg, extra in fails:
            ex.fail("%s-%s" % (tag, "+".join(h)), "history %s: last operation %s" % (h, msg), history=h, got=extra)
    for n in names:
        for k in range(1, depth):
            for s in itertools.combinations(names, k):
                ex.state((n, s))


def histories_pairs(ex):
    """all sequences of two operations out of the whole list"""
    explore(ex, list(OPS), 2, "seq2")


def histories_groups(ex):
    """all sequences of three operations among those sharing a lazily filled table (or an optics module)"""
    for g in (["gfa_fwd", "gfa_bwd", "fm"], ["ptl_fwd", "ptl_bwd", "ptl_table", "look"], ["echo_fwd", "echo_bwd", "rt_fwd"],
              ["rt_fwd", "rt_bwd", "fm", "echo_fwd"], ["fid0", "fid1", "fvc"]):
        explore(ex, g, 3, "seq3")


def thorough_histories_all(ex):
    """all sequences of three operations out of the whole list"""
    explore(ex, list(OPS), 3, "seq3all")


# ---------------------------------------------------------------------
# argument variants: a cache with an incomplete or rounded key, a result kept by reference, a table loaded for other arguments
FVCF = [io.fvc2fp_filename(), os.path.join(str(io.desimeter_data_dir()), "single-lens-fvc2fp.json"), os.path.join(str(io.desimeter_data_dir()), "canon-lens-fvc2fp.json")]
XS, YS = X*6.5e-5, Y*6.5e-5
RA, DEC = 30.+X/300., 20.+Y/300.
CX, CY = 3*np.cos(np.arange(6.)*1.1), 3*np.sin(np.arange(6.)*1.1)


def a_fm(x, y, adc1, adc2, ra, dec, hexrot, mjd, lst, fr, back):
    fm = make_fm((adc1, adc2))
    fm.ra, fm.dec, fm.hexrot_deg, fm.mjd, fm.lst, fm.fieldrot_zp_deg = ra, dec, hexrot, mjd, lst, fr
    return fm.radec2fp(40.+x/300., 25.+y/300.) if back else fm.fp2radec(x, y)


def a_fid(which, k, sep, extra):
    t = SP[which][1][k:].copy()
    t["XPIX"] = t["XPIX"]+extra
    return fid(t, SP[which][0])


def a_zb(c0, x, y):
    return zhaoburge.transform(x, y, 1.0+1e-4*c0, 0.01*c0, 0.001, -0.002, [2, 5, 6, 9], np.array([c0, 1e-3, 2e-3, -1e-3]))


# family -> (function, base arguments, step of every number)
ARGS = dict(
    tan2fp=(tan2fp.tan2fp, (XS, YS, 30., 200.), 0.2),
    fp2tan=(tan2fp.fp2tan, (X, Y, 30., 200.), 0.2),
    echo_fwd=(echo22.tan2fp, (XS, YS), 1.),
    echo_bwd=(echo22.fp2tan, (X, Y), 1.),
    gfa_fwd=(gfa2fp.gfa2fp, (5, XG, YG), 1),
    gfa_bwd=(gfa2fp.fp2gfa, (5, X, Y), 1),
    ptl_fwd=(ptl2fp.ptl2fp, (3, X, Y, 0.*X), 1),
    ptl_bwd=(ptl2fp.fp2ptl, (3, X, Y, 0.*X), 1),
    radec2tan=(radec2tan.radec2tan, (RA, DEC, 30., 20., 58900., 45., 0.1), 0.03),
    tan2radec=(radec2tan.tan2radec, (XS, YS, 30., 20., 58900., 45., 0.1), 0.03),
    prec=(radec2tan.apply_precession_from_icrs, (RA, DEC, 58900.), 0.4),
    unprec=(radec2tan.undo_precession_from_icrs, (RA, DEC, 58900.), 0.4),
    aber=(radec2tan.apply_aberration, (RA, DEC, 58900.), 0.4),
    fm=(a_fm, (X, Y, 12., 340., 40., 25., 0.02, 59000.3, 50., 0.1, 0), 0.3),
    fa_fwd=(fiberassign.fiberassign_radec2xy_cs5, (RA, DEC, 30., 20., 58900., 10., 0.1, 25., 190.), 0.3),
    fa_bwd=(fiberassign.fiberassign_cs5_xy2radec, (X, Y, 30., 20., 58900., 10., 0.1, 25., 190.), 0.3),
    fvc=(lambda k, x, y: FVC2FP.read(FVCF[k % 3]).fp2fvc(x, y), (0, X, Y), 1),
    zb=(a_zb, (0.01, X/420., Y/420.), 0.01),
    near=(lambda r: [rszn_lookups.r2z(r), rszn_lookups.r2s(r), rszn_lookups.s2r(r)]+list(xy2qs.xy2qs(r, 0.5*r)), (np.abs(X),), 1),
    look=(lambda r, k: [(rszn_lookups.r2z, rszn_lookups.r2s, rszn_lookups.r2n, rszn_lookups.s2r)[k % 4](r)], (np.abs(X), 0), 1),
    circle=(fit_circle, (CX, CY), 1.),
    arms=(lambda x, y, r1, r2, ot, op, ox, oy: list(pos2ptl.ptl2int(*pos2ptl.int2ptl(x/2, y/4+90, r1, r2, ot, op, ox, oy), r1, r2, ot, op, ox, oy)[:2])+list(pos2ptl.int2ptl(x/2, y/4+90, r1, r2, ot, op, ox, oy)),
          (X, Y, 3., 3.1, 10., 2., 100., 50.), 0.02),
    pose=(lambda x, y, r1, r2, lo, hi, g, k: xy2tp.xy2tp([x, y], [r1, r2], [[-lo, hi], [-20., 200.]], t_guess=g)[0], (2.5, 1.2, 3., 3.1, 180., 200., 15., 0), 0.7),
    fid=(a_fid, (0, 0, 8., 0.), 1),
)


def variants(base, step, one=1):
    """every argument changed alone: numbers by one and by 50 steps, arrays shifted a little, permuted, shortened"""
    out = [base]
    nar = [i for i, v in enumerate(base) if isinstance(v, np.ndarray)]
    for i, v in enumerate(base):
        if isinstance(v, np.ndarray):
            w = v.copy(); w[1] += 1e-3*np.max(np.abs(v)) if np.max(np.abs(v)) else 0.5
            out.append(base[:i]+(w,)+base[i+1:])
            w = v.copy(); w[2] += 1e-6*np.max(np.abs(v)) if np.max(np.abs(v)) else 1e-6
            out.append(base[:i]+(w,)+base[i+1:])
        elif isinstance(v, int):
            out += [base[:i]+(v+1,)+base[i+1:], base[:i]+(v+2,)+base[i+1:]]
        else:
            out += [base[:i]+(v+s*step,)+base[i+1:] for s in (1, -1, 30)]
    if nar:
        p = np.array([3, 0, 5, 1, 4, 2])
        for f in (lambda v: v[p[:len(v)]] if len(v) == 6 else v[::-1], lambda v: v[:4], lambda v: v[:one]):
            out.append(tuple(f(v) if i in nar else v for i, v in enumerate(base)))
    return out


def ask(fn, args, buf):
    """answer to one question, arrays passed in buffers used again by the next question; everything spoiled afterwards"""
    a = []
    for i, v in enumerate(args):
        if isinstance(v, np.ndarray):
            b = buf.setdefault((i, v.size), np.empty(v.size)); b[...] = v
            a.append(b)
        else:
            a.append(v)
    out = fn(*a)
    ans = [np.array(o, dtype=float, copy=True) for o in out]
    for o in out:
        if isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind == "f" and o.ndim:
            o[...] = np.nan
    return ans


def histories_arguments(ex):
    """every ordered pair of calls of one function with different arguments, then the first again"""
    if not SP:
        prepare()
    skip = set()
    fam = [k for k in ARGS if k != "fid"] if not ex.thorough else list(ARGS)
    vs = {k: variants(*ARGS[k][1:], one=5 if k == "circle" else 1) for k in fam}
    jobs = [(k, i) for k in fam for i in range(len(vs[k]))]
    cold_ = {}
    for j, r in zip(jobs, mc.pmap(lambda j: sched.in_child(lambda: ask(ARGS[j[0]][0], vs[j[0]][j[1]], {}), 600), jobs)):
        if r[0] == "ok":
            cold_[j] = r[1]
        else:
            if not r[1]:
                raise RuntimeError(r[2]+r[3])
            ex.fail("cold-"+j[0], "%s%s fails in a fresh process: %s" % (j[0], vs[j[0]][j[1]], r[2]))
    for k in fam:      # the variants must be different questions
        d = len({repr([np.round(a, 13).tolist() for a in cold_[k, i]]) for i in range(len(vs[k])) if (k, i) in cold_})
        if d < 3:
            raise AssertionError("harness: the variants of %s are not distinct" % k)

    def job(j):
        k, i = j

        def go():
            bad = []
            for m in range(len(vs[k])):
                if m == i or (k, m) not in cold_:
                    continue

                def two():
                    buf = {}
                    ask(ARGS[k][0], vs[k][i], buf)
                    b = close(ask(ARGS[k][0], vs[k][m], buf), cold_[k, m])
                    return b, close(ask(ARGS[k][0], vs[k][i], buf), cold_[k, i])
                r = sched.in_child(two, 600)
                if r[0] != "ok":
                    if not r[1]:
                        raise RuntimeError(r[2]+r[3])
                    bad.append((m, "fails: "+r[2]))
                elif not r[1][0]:
                    bad.append((m, "gets another answer than in a fresh process"))
                elif not r[1][1]:
                    bad.append((m, "and the first again: the first changed"))
            return bad
        return sched.in_child(go, 900)
    todo = [j for j in jobs if j in cold_]
    for j, r in zip(todo, mc.pmap(job, todo, chunksize=1)):
        k, i = j
        n = len(vs[k])-1
        ex.ran(n, sample=dict(function=k, first=i), trans=3*n)
        ex.trace(n)
        for m in range(len(vs[k])):
            ex.state((k, i, m))
        if r[0] != "ok":
            if not r[1]:
                raise RuntimeError(r[2]+r[3])
            ex.fail("arguments-"+k, r[2])
            continue
        for m, msg in r[1]:
            ex.fail("arguments-"+k, "%s%s after %s%s %s" % (k, vs[k][m], k, vs[k][i], msg), first=vs[k][i], second=vs[k][m])


# ---------------------------------------------------------------------
# threads
def shared_pair(name):
    """pairs of calls on one shared object"""
    if name == "fvc-object":
        o = FVC2FP.read(io.fvc2fp_filename())
        px, py = o.fp2fvc(X, Y)
        return [lambda: o.fp2fvc(X.copy(), Y.copy()), lambda: o.fvc2fp(px.copy(), py.copy())], [lambda: o.fp2fvc(X, Y), lambda: o.fvc2fp(px, py)]
    if name == "fm-object":
        o = make_fm()
        ra, dec = o.fp2radec(X, Y)
        return [lambda: o.fp2radec(X.copy(), Y.copy()), lambda: o.radec2fp(ra.copy(), dec.copy())], [lambda: o.fp2radec(X, Y), lambda: o.radec2fp(ra, dec)]
    if name == "adc":
        raytracefit.get_raytracefit()
        ops = [lambda: tan2fp.tan2fp(X*6.5e-5, Y*6.5e-5, 30., 200.), lambda: tan2fp.tan2fp(X*6.5e-5, Y*6.5e-5, 0., 90.)]
        return ops, ops
    if name == "adc-bwd":
        raytracefit.get_raytracefit()
        ops = [lambda: tan2fp.fp2tan(X, Y, 30., 200.), lambda: tan2fp.tan2fp(X*6.5e-5, Y*6.5e-5, 0., 90.)]
        return ops, ops
    a, b = name.split("|")
    return [lambda: call(a)[0], lambda: call(b)[0]], None


def execute(name, order, pre, opcodes, visits, files=None):
    """one controlled execution in this (forked, cold) process"""
    thunks, refs = shared_pair(name)
    if refs is None:
        a, b = name.split("|")
        want = [_cold[a], _cold[b]]
    else:
        want = [[np.array(v) for v in r()] for r in refs]
    thunks = [thunks[i] for i in order]
    want = [want[i] for i in order]
    s = sched.Sched(thunks, {p: True for p in pre}, opcodes, visits, files)
    st = s.run()
    bad = []
    if st != "ok":
        bad.append("the threads deadlock")
    else:
        for i in range(2):
            if s.err[i]:
                bad.append("thread %d raises %s" % (i, s.err[i]))
            elif not close([np.asarray(v) for v in s.res[i]], want[i]):
                bad.append("thread %d gets a different answer" % i)
    return bad, [len(p) for p in s.points], s.switches, [p[:4000] for p in s.points]


def run_pair(ex, name, bound2=False, visits=2, opcodes=(), files=None):
    todo = []
    base = {}
    for order in ((0, 1), (1, 0)):
        r = sched.in_child(lambda: execute(name, order, [], opcodes, visits, files))
        if r[0] != "ok":
            if not r[1]:
                raise RuntimeError(r[2]+r[3])
            ex.fail("threads-"+name, r[2], traceback=r[3])
            return
        if r[1][0]:
            ex.fail("threads-"+name, "sequentially: "+r[1][0][0])
            return
        base[order] = r[1]
        for k in range(r[1][1][0]):
            todo.append((order, [(0, k)]))

    def job(t):
        return sched.in_child(lambda: execute(name, t[0], t[1], opcodes, visits, files))

    def judge(todo, res):
        more = []
        for t, r in zip(todo, res):
            if r[0] != "ok":
                if not r[1]:
                    raise RuntimeError(r[2]+r[3])
                ex.fail("threads-"+name, r[2], schedule=t, traceback=r[3])
                continue
            bad, npts, sw, pts = r[1]
            ex.ran(1, trans=sum(npts), sample=dict(pair=name, order=t[0], preempted_at=sw))
            ex.trace(1)
            ex.state((name, t[0], tuple(sw)))
            if bad:
                ex.fail("threads-"+name, "with thread order %s preempted at %s: %s" % (t[0], sw, bad[0]), schedule=t, switches=sw, all=bad)
            for j in range(npts[1]):
                more.append((t[0], t[1]+[(1, j)]))
        return more
    more = judge(todo, mc.pmap(job, todo))
    if bound2 and more:
        judge(more, mc.pmap(job, more))
    # determinism of the scheduler: one schedule replayed must visit the same points
    if todo:
        t = todo[len(todo)//2]
        a, b = job(t), job(t)
        if a[0] == "ok" and b[0] == "ok" and a[1][2:] != b[1][2:]:
            raise RuntimeError("schedule %s of %s is not reproducible" % (t, name))


PAIRS = ["gfa_fwd|gfa_bwd", "ptl_fwd|ptl_bwd", "ptl_table|ptl_fwd", "echo_fwd|echo_bwd", "rt_fwd|rt_bwd"]
# quick tier: preemption points in the modules that keep state
FILES = ("fieldmodel.py", "raytracefit.py", "fvc2fp.py", "gfa2fp.py", "ptl2fp.py", "echo22.py", "simplecorr.py", "io.py")
SHARED = ["fvc-object", "fm-object", "adc", "adc-bwd"]


def threads_caches(ex):
    """two threads filling and using the same lazily loaded table: every preemption point, bound 1"""
    cold(ex, sorted(set(n for p in PAIRS for n in p.split("|"))))
    for p in PAIRS:
        run_pair(ex, p, visits=1)
    for n in ("echo_fwd", "echo_bwd", "gfa_fwd", "gfa_bwd", "rt_fwd", "ptl_fwd"):
        run_pair(ex, n+"|"+n, visits=1, files=FILES)


def threads_objects(ex):
    """two threads using one shared transformation object or model"""
    cold(ex, [])
    for p in SHARED:
        run_pair(ex, p, visits=1, files=FILES)


def threads_fiducials(ex):
    """two threads identifying fiducials with different input transformations"""
    cold(ex, ["fid0", "fid1"])
    run_pair(ex, "fid0|fid1", visits=1, files=("findfiducials.py",))


def thorough_threads_objects(ex):
    """as threads_objects and threads_fiducials, preemption points in every module, first two visits of each line"""
    cold(ex, ["fid0", "fid1"])
    for p in SHARED+["fid0|fid1", "fid0|fid0"]:
        run_pair(ex, p, visits=2)


def thorough_threads_bound2(ex):
    """preemption bound 2"""
    cold(ex, list(OPS))
    for p in ["echo_fwd|echo_bwd", "rt_fwd|rt_bwd", "ptl_fwd|ptl_bwd", "gfa_fwd|gfa_bwd"]+SHARED:
        run_pair(ex, p, bound2=True, visits=1)


def thorough_threads_opcodes(ex):
    """opcode granularity in the functions that fill caches"""
    cold(ex, list(OPS))
    fn = ("radius2theta", "theta2radius", "get_raytracefit", "get_petal_alignment_data", "gfa2fp", "fp2gfa")
    for p in ["echo_fwd|echo_bwd", "rt_fwd|rt_bwd", "rt_fwd|rt_fwd", "ptl_fwd|ptl_bwd", "gfa_fwd|gfa_bwd", "echo_fwd|echo_fwd"]:
        run_pair(ex, p, visits=2, opcodes=fn)


def thorough_threads_all(ex):
    """every pair of operations of the list"""
    cold(ex, list(OPS))
    for a, b in itertools.combinations_with_replacement(CHEAP, 2):
        run_pair(ex, a+"|"+b, visits=2)


SECTIONS = [histories_pairs, histories_groups, histories_arguments, threads_caches, threads_objects, threads_fiducials,
            thorough_histories_all, thorough_threads_objects, thorough_threads_bound2, thorough_threads_opcodes, thorough_threads_all]
