"""C21: average of several lists of spots."""
import itertools, os, subprocess, sys
import numpy as np
import mc
from mc import maxabs
from astropy.table import Table
from desimeter.averagecoord import average_coordinates

PROPERTY = "C21"
LEVEL = "exploration"
RULE = ("every combination of (subset of spots missing in each list, false detections, row orders, shift/rotation/scale between the images, noise "
        "pattern) for one to four lists, against an independent least-squares alignment on known identities; the command line program on the "
        "same lists. Non-trivial: distinct combinations.")
ASSUMPTIONS = ["images less than 4.8 pixels apart everywhere (the program matches within 5)", "at least four common spots, spots 40 pixels apart",
               "false detections at least 5.2 pixels from true spots of the other lists"]
N = 9
PX = np.array([2100., 3900.5, 3010., 1500., 4600., 2600.25, 3500., 2950., 2050.])
PY = np.array([2000., 2200.5, 4100., 3100., 3050., 2999.75, 3600., 1700., 4300.])
DEF = [(0., 0., 0., 1.), (2.5, -1.5, 0., 1.), (-1., 1., 0.03, 1.), (0.3, 0.2, -0.02, 1.0005), (1.5, 2., 0.01, 0.9996)]
FALSE = [(2100., 2008.), (3310., 2500.), (1000., 1000.), (2593., 3001.), (4607., 3056.), (2800., 2400.)]
ORD = [lambda n: np.arange(n), lambda n: np.arange(n)[::-1], lambda n: np.argsort(np.cos(np.arange(n)*2.7)), lambda n: np.roll(np.arange(n), 3)]


def spots(missing, false, order, deform, noise, k):
    """table and identities of its rows (-1: false detection)"""
    ident = np.array([i for i in range(N) if i not in missing]+[-1-f for f in false])
    x = np.array([PX[i] if i >= 0 else FALSE[-1-i][0] for i in ident])
    y = np.array([PY[i] if i >= 0 else FALSE[-1-i][1] for i in ident])
    dx, dy, rot, sc = DEF[deform]
    z = ((x-3000)+1j*(y-3000))*sc*np.exp(1j*np.radians(rot))
    x, y = z.real+3000+dx, z.imag+3000+dy
    a = np.arange(len(x))
    x, y = x+noise*np.cos(ident*(1.3+k)+k), y+noise*np.sin(ident*(2.2+k)-k)
    p = ORD[order](len(x))
    t = Table(dict(ID=ident[p], U=x[p], V=y[p], COUNTS=1e4+a[p]))
    return t


def reference(ts):
    """mean per identity of the first table, None when it is not in all tables"""
    common = [i for i in np.array(ts[0]["ID"]) if all(i in np.array(t["ID"]) for t in ts)]
    f = lambda t, c, ids: np.array([t[c][np.flatnonzero(np.array(t["ID"]) == i)[0]] for i in ids])
    x1, y1 = f(ts[0], "U", common), f(ts[0], "V", common)
    sx, sy = x1.copy(), y1.copy()
    part = list(np.array(ts[0]["ID"]))
    for n, t in enumerate(ts[1:]):
        part = [i for i in part if i in np.array(t["ID"])]       # rows common to the lists seen so far
        u, v = f(t, "U", part), f(t, "V", part)
        A = np.c_[np.ones(len(part)), u-3000., v-3000.]
        cx = np.linalg.lstsq(A, f(ts[0], "U", part), rcond=None)[0]
        cy = np.linalg.lstsq(A, f(ts[0], "V", part), rcond=None)[0]
        k = [part.index(i) for i in common]
        sx += (A @ cx)[k]; sy += (A @ cy)[k]
    return dict(zip(common, zip(sx/len(ts), sy/len(ts))))


def judge(specs):
    ts = [spots(*s, k) for k, s in enumerate(specs)]
    before = [t.copy() for t in ts]
    want = reference(before)
    out = average_coordinates(ts, "U", "V")
    for k, (t, b) in enumerate(zip(ts[1:], before[1:])):
        if any(np.any(np.array(t[c]) != np.array(b[c])) for c in b.colnames):
            return "list %d was modified" % (k+1)
    b = before[0]
    if list(out.colnames) != list(b.colnames) or len(out) != len(b) or np.any(out["ID"] != b["ID"]) or np.any(out["COUNTS"] != b["COUNTS"]):
        return "rows or other columns of the first list changed"
    for r in range(len(b)):
        i = b["ID"][r]
        w = want.get(i, (b["U"][r], b["V"][r]))
        d = np.hypot(out["U"][r]-w[0], out["V"][r]-w[1])
        if not d < 1e-6:
            return "spot %d (%s) ends %.3g pixels from the %s" % (i, "in all lists" if i in want else "not in all lists", d, "average in the first frame" if i in want else "measured position")
    return None


def sweep(ex, tag, cases):
    import contextlib, io as _io

    def one(c):
        try:
            with contextlib.redirect_stdout(_io.StringIO()):
                return judge(c)
        except Exception as e:
            if not mc.under_test(e):
                raise
            return "%s: %s" % (type(e).__name__, e)
    for c, e in zip(cases, mc.pmap(one, cases)):
        ex.ran(1, sample=dict(lists=str(c)), trans=len(c))
        ex.state(str(c))
        if e:
            ex.fail(tag, "%s, with lists (missing, false detections, order, deformation, noise) %s" % (e, c), lists=str(c))


def missing(ex):
    """two lists: every pair of subsets of up to two missing spots"""
    sub = [()]+[(i,) for i in range(N)]+list(itertools.combinations(range(N), 2))
    cs = []
    for n, (a, b) in enumerate(itertools.product(sub, sub)):
        cs.append(((a, (), 0, 0, 0.05), (b, (), n % 4, 1+n % 4, 0.05)))
    sweep(ex, "missing", cs)


def false(ex):
    """every subset of false detections in either list, with and without the true spots around"""
    fs = [c for k in range(4 if not ex.thorough else 7) for c in itertools.combinations(range(len(FALSE)), k)]
    cs = []
    for n, (a, b) in enumerate(itertools.product(fs, fs)):
        if not ex.thorough and len(a)+len(b) > 4:
            continue
        for m in ((), (0,), (4, 5)):
            cs.append(((m if n % 2 else (), a, n % 3, 0, 0.02), (() if n % 2 else m, b, (n+1) % 4, 0, 0.02)))
    sweep(ex, "false", cs)


def lists(ex):
    """one to four lists: all combinations of order, deformation, noise and missing spots of an alphabet, all list orders"""
    al = [((), (), 0, 0, 0.), ((), (1,), 1, 1, 0.1), ((2,), (), 2, 2, 0.1), ((5, 7), (2, 5), 3, 3, 0.05), ((0,), (1,), 0, 4, 0.1)]
    if ex.thorough:
        al += [((3, 8), (), 1, 3, 0.2), ((), (0, 1, 2), 2, 4, 0.)]
    cs = []
    for n in (1, 2, 3, 4):
        for c in itertools.product(range(len(al)), repeat=n):
            l = [al[i] for i in c]
            if n > 1 and len(set(range(N))-set().union(*[set(v[0]) for v in l])) < 4:
                continue
            # the deformations are relative to the undeformed frame: first list and others less than 4 pixels apart
            if any(apart(l[0], v) > 3.9 for v in l):
                continue
            if n == 4 and not ex.thorough and len(set(c)) < 3:
                continue
            cs.append(tuple(l))
    sweep(ex, "lists", cs)


def apart(a, b):
    s = spots((), (), 0, a[3], a[4], 0), spots((), (), 0, b[3], b[4], 1)
    return max(np.hypot(s[0]["U"]-s[1]["U"], s[0]["V"]-s[1]["V"]))


def longer(ex):
    """five to eight lists, and lists of hundreds of spots"""
    al = [((), (), 0, 0, 0.02), ((), (1,), 1, 1, 0.1), ((2,), (), 2, 2, 0.1), ((5, 7), (2, 5), 3, 3, 0.05), ((0,), (1,), 0, 4, 0.1)]
    cs = []
    for n in (5, 6, 8):
        for c in itertools.product(range(len(al)), repeat=n):
            if sum((i+1)*q for i, q in enumerate(c)) % ((11, 41, 401) if not ex.thorough else (3, 7, 61))[(5, 6, 8).index(n)] == 7 % (3 if ex.thorough else 11):
                l = [al[i] for i in c]
                if len(set(range(N))-set().union(*[set(v[0]) for v in l])) >= 4 and all(apart(l[0], v) < 3.9 for v in l):
                    cs.append(tuple(l))
    sweep(ex, "longer", cs)


def near(ex):
    """images almost as far apart as allowed, false detections just beyond, for every missing spot"""
    base, false0 = list(DEF), list(FALSE)
    cs = []
    for a in range(0, 360, 30 if not ex.thorough else 10):
        DEF.append((4.75*np.cos(np.radians(a)), 4.75*np.sin(np.radians(a)), 0., 1.))
        for o, m in itertools.product(range(4), ((), (3,))):
            cs.append(((m, (), 0, 0, 0.02), ((), (), o, len(DEF)-1, 0.02)))
            cs.append((((), (), o, 0, 0.02), (m, (), 0, len(DEF)-1, 0.02), ((), (), 1, 1, 0.02)))
    for i in range(N):
        for a in range(0, 360, 45 if not ex.thorough else 15):
            FALSE.append((PX[i]+5.25*np.cos(np.radians(a)), PY[i]+5.25*np.sin(np.radians(a))))
            f = len(FALSE)-1
            cs.append((((), (), 0, 0, 0.), ((i,), (f,), 1, 0, 0.)))
            cs.append((((i,), (f,), 0, 0, 0.), ((), (), 2, 0, 0.)))
            cs.append((((), (), 0, 0, 0.), ((), (), 2, 0, 0.), ((i,), (f,), 3, 0, 0.)))
    sweep(ex, "near", cs)
    DEF[:], FALSE[:] = base, false0


def large(ex):
    """hundreds of spots, in every order and with every third, fifth... missing or false"""
    global N, PX, PY, FALSE
    keep = N, PX, PY, FALSE
    g = np.arange(900)
    N = 900
    PX, PY = 600.+160.*(g % 30)+9.*np.cos(g*1.9), 600.+160.*(g//30)+9.*np.sin(g*2.3)
    FALSE = [(PX[i]+40., PY[i]-55.) for i in range(0, 900, 3)]
    cs = []
    for s, o, d in itertools.product((2, 3, 7, 50), range(4), range(3)):
        m = tuple(range(s % 4, 900, s)); f = tuple(range(0, 300, s))
        cs.append(((m, (), 0, 0, 0.05), ((), f, o, d, 0.05)))
        cs.append((((), f, o, 0, 0.05), (m, (), (o+1) % 4, d, 0.05), (tuple(range(1, 900, s+8)), f, 2, 0, 0.05)))
    try:
        sweep(ex, "large", cs)
    finally:
        N, PX, PY, FALSE = keep


def program(ex):
    """the command line program writes the same average"""
    cases = [[((), (), 0, 0, 0.)], [((), (1,), 1, 0, 0.1), ((2,), (), 2, 1, 0.1)], [((4,), (), 3, 0, 0.05), ((), (2,), 1, 2, 0.1), ((1,), (5,), 0, 1, 0.1)]]
    prog = os.path.join(mc.REPO, "bin", "average_coordinates")

    def one(c):
        with mc.scratch() as d:
            ts = [spots(*s, k) for k, s in enumerate(c)]
            names = []
            for k, t in enumerate(ts):
                names.append(os.path.join(d, "in%d.csv" % k)); t.write(names[-1])
            p = subprocess.run([sys.executable, prog, "-i"]+names+["-o", os.path.join(d, "out.csv"), "--xkey", "U", "--ykey", "V"], capture_output=True, text=True)
            if p.returncode:
                return "the program fails: "+p.stderr[-300:]
            t = Table.read(os.path.join(d, "out.csv"))
            want = reference(ts)
            for r in range(len(ts[0])):
                w = want.get(ts[0]["ID"][r], (ts[0]["U"][r], ts[0]["V"][r]))
                if len(t) != len(ts[0]) or not np.hypot(t["U"][r]-w[0], t["V"][r]-w[1]) < 1e-6:
                    return "row %d of the output is not the average" % r
            for n, b in zip(names, ts):
                if not np.array_equal(Table.read(n)["U"], b["U"]):
                    return "an input file changed"
        return None
    for c, e in zip(cases, mc.pmap(one, cases)):
        ex.ran(1, sample=dict(program=str(c)))
        ex.state("prog"+str(c))
        if e:
            ex.fail("program", "%s, lists %s" % (e, c), lists=str(c))


SECTIONS = [missing, false, lists, longer, near, large, program]
