"""C02: positioner coordinate chain int<->ext<->loc<->flat<->ptl and angular distances."""
import math, itertools
import numpy as np
import mc
from mc import maxabs, snapshot
from desimeter.transform import pos2ptl as P
from desimeter.transform import xy2tp, xy2qs

PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("every combination of (calibration set, internal angle lattice point, guess mode) is pushed through the chain forward, "
        "backward, elementwise, in batches and in every permitted argument shape (scalar, list, tuple, array, mixed); the "
        "angular-distance function is run on every (start,final,direction) of a half-degree/90-degree lattice out to +-3 turns. "
        "Non-trivial: distinct rounded outputs.")
ASSUMPTIONS = ["angles on the lattice are at least 0.2 deg away from travel limits",
               "positioner centres within the petal radius (25..400 mm)"]

CALIB = []
for (r1, r2) in ((3.0, 3.0), (2.7, 3.3), (3.2, 2.9)):
    for (to, po) in ((0., 0.), (170., -6.5), (-133.3, 9.25), (37.125, -14.)):
        for (xo, yo) in ((28., 5.), (300., 110.), (399., 10.), (120., -60.)):
            CALIB.append((r1, r2, to, po, xo, yo))
CALIB += [(3.0, 3.0, 250., 4., 6.5, 1.5), (3.02, 2.98, -260., 11., 411., 12.)]      # near the axis, at the very edge, turned by more than half a turn


def ref_int2loc(t, p, c):
    T = math.radians(t+c[2]); S = T+math.radians(p+c[3])
    return c[0]*math.cos(T)+c[1]*math.cos(S), c[0]*math.sin(T)+c[1]*math.sin(S)


def lattice(tstep, pstep):
    ts = np.arange(-179.6, 180., tstep)
    ps = np.arange(-19.7, 199.9, pstep)
    T, Pp = np.meshgrid(ts, ps)
    return T.ravel(), Pp.ravel()


def chain(ex):
    """int -> loc -> flat -> ptl against an independent forward model, and back"""
    T, PP = lattice(9.3 if not ex.thorough else 2.3, 8.1 if not ex.thorough else 2.9)
    n = T.size
    for ic, c in enumerate(CALIB):
        r1, r2, to, po, xo, yo = c
        key = "calib%d" % ic
        with ex.guard(key, calib=c):
            xl, yl = P.int2loc(T, PP, r1, r2, to, po)
            ref = np.array([ref_int2loc(t, p, c) for t, p in zip(T, PP)])
            ex.check(maxabs(xl-ref[:, 0]) < 1e-9 and maxabs(yl-ref[:, 1]) < 1e-9, key+"/int2loc",
                     "int2loc differs from the arm geometry", calib=c)
            ex.check(maxabs(P.int2ext(T, to)-(T+to)) < 1e-9 and maxabs(P.ext2int(T, to)-(T-to)) < 1e-9, key+"/int2ext",
                     "int<->ext offset", calib=c)
            ex.check(maxabs(P.loc2flat(xl, xo)-(xl+xo)) < 1e-9 and maxabs(P.flat2loc(xl, xo)-(xl-xo)) < 1e-9,
                     key+"/loc2flat", "loc<->flat offset", calib=c)
            xp, yp = P.int2ptl(T, PP, r1, r2, to, po, xo, yo)
            xf, yf = xl+xo, yl+yo
            # flat -> ptl : same azimuth, radius s2r(s)
            s = np.hypot(xf, yf)
            r = xy2qs.s2r(s)
            ex.check(maxabs(xp-xf*r/s) < 1e-8 and maxabs(yp-yf*r/s) < 1e-8, key+"/int2ptl",
                     "int2ptl is not the composition of its documented steps", calib=c)
            bx, by = P.ptl2flat(xp, yp)
            far = s > 25        # the radial polynomials are only inverse of each other to 4 um near the axis
            ex.check(maxabs(np.hypot(bx-xf, by-yf)[far]) < 2e-3 and maxabs(np.hypot(bx-xf, by-yf)) < 6e-3, key+"/ptl2flat", "ptl2flat(flat2ptl) off by more than 2 um",
                     calib=c, worst=maxabs(np.hypot(bx-xf, by-yf)))
            # back, guess = true theta
            for gname, guess in (("noguess", None), ("guess", T), ("guess+5", T+5.)):
                t2, p2, un = P.loc2int(xl, yl, r1, r2, to, po, guess)
                un = np.asarray(un).astype(bool)
                x2, y2 = P.int2loc(t2, p2, r1, r2, to, po)
                d = np.hypot(x2-xl, y2-yl)
                inr = (t2 > -180-1e-6) & (t2 < 180+1e-6) & (p2 > -20-1e-6) & (p2 < 200+1e-6)
                ex.check(bool(np.all(inr)), key+"/range/"+gname, "internal angles outside the travel range", calib=c)
                bad = (~un) & (d > 1e-6)
                ex.check(not np.any(bad), key+"/back/"+gname, "loc2int declared reachable but misses the target",
                         calib=c, at=[T[bad][:1], PP[bad][:1]])
                if guess is not None:
                    h = np.hypot(xl, yl)     # a stretched or folded arm: the last digit decides whether the point counts as reachable
                    bad = (un & (h < r1+r2-1e-9) & (h > abs(r1-r2)+1e-9)) | ~(d <= 1e-6)
                    ex.check(not np.any(bad), key+"/reach/"+gname, "loc2int with a good guess does not reach the point it came from",
                             calib=c, at=[T[bad][:1], PP[bad][:1]])
                if gname == "guess":
                    # phi far enough from the singular poses: the very same angles must come back
                    nonsing = (np.abs(np.sin(np.radians(PP+po))) > 0.02)
                    bad = nonsing & ((~(np.abs(t2-T) <= 1e-4)) | (~(np.abs(p2-PP) <= 1e-4)))
                    ex.check(not np.any(bad), key+"/identity", "int->loc->int with the true theta as guess changed the angles",
                             calib=c, at=[T[bad][:1], PP[bad][:1], t2[bad][:1], p2[bad][:1]])
                t3, p3, un3 = P.ptl2int(xp, yp, r1, r2, to, po, xo, yo, guess)
                x3, y3 = P.int2ptl(t3, p3, r1, r2, to, po, xo, yo)
                bad = (~np.asarray(un3).astype(bool)) & (~(np.hypot(x3-xp, y3-yp) <= np.where(far, 3e-3, 7e-3)))
                if guess is None:
                    ok_needed = np.zeros(n, bool)
                else:
                    ok_needed = np.abs(np.sin(np.radians(PP+po))) > 0.05
                bad |= ok_needed & (~(np.hypot(x3-xp, y3-yp) <= np.where(far, 3e-3, 7e-3)))
                ex.check(not np.any(bad), key+"/ptl2int/"+gname, "ptl2int -> int2ptl does not close", calib=c,
                         at=[T[bad][:1], PP[bad][:1]])
            # int and ext versions agree
            te, pe, une = P.loc2ext(xl, yl, r1, r2, to, po)
            ti, pi, uni = P.loc2int(xl, yl, r1, r2, to, po)
            ex.check(maxabs(te-to-ti) < 1e-9 and maxabs(pe-po-pi) < 1e-9 and np.array_equal(np.asarray(une), np.asarray(uni)),
                     key+"/extint", "loc2int is not loc2ext followed by ext2int", calib=c)
            xe, ye = P.ext2loc(T+to, PP+po, r1, r2)
            ex.check(maxabs(xe-xl) < 1e-9 and maxabs(ye-yl) < 1e-9, key+"/ext2loc", "ext2loc(ext) != int2loc(int)", calib=c)
        ex.ran(n*8, sample=dict(calib=c, n=n), trans=n*12)
        ex.states(n)


def tolerances(ex):
    """guess tolerance is honoured per element"""
    for c in CALIB[::4]:
        r1, r2, to, po, xo, yo = c
        for t in (-150., -40.3, 0.7, 88., 140.):
            for p in (-9., 12., 90., 172., 189.):
                x, y = ref_int2loc(t, p, c)
                for dg in (-40., -20., 0., 20., 40.):
                    for tol in (5., 30., 60.):
                        with ex.guard("t%g/p%g" % (t, p)):
                            a = P.loc2int(x, y, r1, r2, to, po, t+dg, tol)
                            rng = [[-180+to, 180+to], [-20+po, 200+po]]
                            tp, un = xy2tp.xy2tp([x, y], [r1, r2], rng, t+dg+to, tol)
                            ok = abs(a[0][0]+to-tp[0]) < 1e-6 and abs(a[1][0]+po-tp[1]) < 1e-6 and bool(a[2][0]) == bool(un)
                            ex.check(ok, "t%g/p%g/g%g/tol%g" % (t, p, dg, tol),
                                     "loc2int differs from the scalar inverse kinematics", calib=c, got=a, want=(tp, un))
                            ex.ran(1)
                            ex.state((c, t, p, dg, tol))


def shapes(ex):
    """scalar, list, tuple, array and mixed arguments give the same numbers; arguments are left alone"""
    T = [-170., -33.25, 12.5, 101.]
    PP = [-8., 3.5, 77., 186.]
    cols = [T, PP, [3.0, 3.1, 2.9, 3.05], [3.0, 2.8, 3.2, 3.1], [-100., 0., 33., 155.], [-5., 0., 5., 11.],
            [30., 210., 399., 117.], [4., 100., 9., -31.]]
    funcs = {"int2loc": (6, lambda a: P.int2loc(*a)), "int2ptl": (8, lambda a: P.int2ptl(*a)),
             "loc2int": (6, None), "ptl2int": (8, None), "loc2ext": (6, None), "ext2loc": (4, None)}
    ref = {}
    pts = [[cols[k][i] for k in range(8)] for i in range(4)]
    xl = [P.int2loc(*p[:6]) for p in pts]
    xp = [P.int2ptl(*p) for p in pts]
    xloc = [float(v[0][0]) for v in xl]; yloc = [float(v[1][0]) for v in xl]
    xptl = [float(v[0][0]) for v in xp]; yptl = [float(v[1][0]) for v in xp]
    base = {"int2loc": cols[:6], "int2ptl": cols, "loc2int": [xloc, yloc]+cols[2:6], "ptl2int": [xptl, yptl]+cols[2:8],
            "loc2ext": [xloc, yloc]+cols[2:6], "ext2loc": [T, PP]+cols[2:4],
            "loc2int_g": [xloc, yloc]+cols[2:6]+[T], "ptl2int_g": [xptl, yptl]+cols[2:8]+[T],
            "int2ext": [T, cols[4]], "ext2int": [T, cols[4]], "loc2flat": [xloc, cols[6]], "flat2loc": [xloc, cols[6]],
            "ptl2flat": [xptl, yptl], "flat2ptl": [xptl, yptl]}
    kinds = {"list": list, "tuple": tuple, "array": np.array}
    for name, args in base.items():
        f = getattr(P, name.split("_")[0])
        # reference: element by element with scalars
        with ex.guard(name+"/scalar"):
            rows = [f(*[a[i] for a in args]) for i in range(4)]
            rows = [tuple(np.atleast_1d(v)[0] for v in (r if isinstance(r, tuple) else (r,))) for r in rows]
        m = len(args)
        for subset in itertools.product(("list", "tuple", "array"), repeat=min(m, 3)):
            ks = [subset[i % len(subset)] for i in range(m)]
            aa = [kinds[k](a) for k, a in zip(ks, args)]
            before = snapshot(aa)
            key = "%s/%s" % (name, "-".join(ks))
            with ex.guard(key):
                r = f(*aa)
                r = r if isinstance(r, tuple) else (r,)
                for j in range(len(r)):
                    v = np.asarray(r[j], float)
                    ex.check(v.shape == (4,) and maxabs(v-np.array([float(row[j]) for row in rows])) < 1e-9, key,
                             "output %d differs from scalar calls" % j, got=v, want=[row[j] for row in rows])
                ex.check(snapshot(aa) == before, key+"/mutated", "an argument was modified in place")
            ex.ran(1, sample=key)
            ex.state(key)
        # every subset of the calibration arguments given as one scalar for all points
        nlead = 2 if name not in ("int2ext", "ext2int", "loc2flat", "flat2loc") else 1
        trail = list(range(nlead, m))
        for mask in range(1 << len(trail)):
            aa, want_args = list(args), [list(a) for a in args]
            for b, k in enumerate(trail):
                if mask >> b & 1:
                    aa[k] = args[k][1]
                    want_args[k] = [args[k][1]]*4
            key = "%s/scalarmask%d" % (name, mask)
            for cast in (list, np.array):
                a2 = [cast(a) if isinstance(a, list) else a for a in aa]
                with ex.guard(key):
                    rows2 = [f(*[a[i] for a in want_args]) for i in range(4)]
                    rows2 = [tuple(np.atleast_1d(v)[0] for v in (r if isinstance(r, tuple) else (r,))) for r in rows2]
                    r = f(*a2)
                    r = r if isinstance(r, tuple) else (r,)
                    for j in range(len(r)):
                        v = np.asarray(r[j], float)
                        ex.check(v.shape == (4,) and maxabs(v-np.array([float(x[j]) for x in rows2])) < 1e-9, key,
                                 "a scalar calibration value is not applied to all points (output %d)" % j)
                ex.ran(1)
                ex.state((key, cast.__name__))
        # permutations of the points
        for perm in itertools.permutations(range(4)):
            with ex.guard(name+"/perm"):
                r = f(*[[a[i] for i in perm] for a in args])
                r = r if isinstance(r, tuple) else (r,)
                for j in range(len(r)):
                    ex.check(maxabs(np.asarray(r[j], float)-np.array([float(rows[i][j]) for i in perm])) < 1e-9,
                             name+"/perm", "result depends on the position of the point in the list", perm=perm)
            ex.ran(1)
            ex.state((name, perm))


def elements(ex):
    """every point is converted with its own calibration, guess and tolerance: any number of points, any subset of arguments common to all, single and double precision and integers"""
    #      t,     p,    r1,  r2,   to,    po,  xo,   yo,  guess off, tolerance
    rows = [(-150., 91., 3.0, 3.0, -100., -5., 30., 4., 0., 30.), (0., 45., 3.1, 2.8, 0., 0., 210., 100., 20., 5.), (179., 12., 2.9, 3.2, 33., 5., 399., 9., 20., 60.),
            (-179., 8., 3., 3., 155., 11., 117., -31., -8., 30.), (20., -9., 3.2, 3., -60., -14., 300., 2., 25., 5.), (150., 190., 3., 3.05, 170., 9., 50., 60., 0., 1.)]
    gen = []
    for r in rows:
        x, y = [float(v[0]) for v in P.int2loc(*r[:6])]
        xp, yp = [float(v[0]) for v in P.int2ptl(*r[:8])]
        gen.append(dict(loc=[x, y]+list(r[2:6]), ptl=[xp, yp]+list(r[2:8]), g=r[0]+r[8], tol=r[9]))
    # a point at zero theta guess, and one whose guess matters
    def ref(name, k, guess, tol):
        q = gen[k]
        a = q["loc"]
        to, po = a[4], a[5]
        if name == "ptl2int":
            f = P.ptl2flat(*[float(v) for v in q["ptl"][:2]])
            a = [float(f[0])-q["ptl"][6], float(f[1])-q["ptl"][7]]+a[2:]
        off = (0., 0.) if name == "loc2ext" else (to, po)
        (t, p), un = xy2tp.xy2tp(a[:2], a[2:4], [[-180.+to, 180.+to], [-20.+po, 200.+po]], None if guess is None else guess+off[0], 30. if tol is None else tol)
        return t-off[0], p-off[1], bool(un)
    for name in ("loc2int", "loc2ext", "ptl2int"):
        base = [g["ptl" if name == "ptl2int" else "loc"] for g in gen]
        for n in (1, 2, 6):
            for perm in (itertools.permutations(range(6), n) if n < 6 else [tuple(range(i, 6))+tuple(range(i)) for i in range(6)]):
                for mode in ("none", "guess", "tol", "onetol"):
                    for cast in (list, tuple, np.array):
                        args = [cast([base[k][j] for k in perm]) for j in range(len(base[0]))]
                        gs = [gen[k]["g"]+(gen[k]["loc"][4] if name == "loc2ext" else 0.) for k in perm]
                        if mode == "onetol" and perm[0] == 4: gs[0] = 0. if name != "loc2ext" else gs[0]
                        extra = {"none": [], "guess": [cast(gs)], "tol": [cast(gs), cast([gen[k]["tol"] for k in perm])], "onetol": [cast(gs), 45.]}[mode]
                        with ex.guard("elements/%s" % name, points=perm, mode=mode, kind=cast.__name__):
                            r = getattr(P, name)(*args, *extra)
                            for i, k in enumerate(perm):
                                w = ref(name, k, gs[i] if extra else None, {"none": None, "guess": None, "tol": gen[k]["tol"], "onetol": 45.}[mode])
                                ok = len(r[0]) == n and abs(float(r[0][i])-w[0]) < 1e-6 and abs(float(r[1][i])-w[1]) < 1e-6 and bool(r[2][i]) == w[2]
                                if not ex.check(ok, "elements/"+name, "point %d of %d: %s instead of %s" % (i, n, [np.asarray(v).tolist() for v in r], w), points=perm, mode=mode, kind=cast.__name__): break
                        ex.ran(1, sample=dict(function=name, points=perm, mode=mode)); ex.state((name, perm, mode, cast.__name__))
    # one argument differs, all the others are common to all points (also a common point)
    def both(f, args, j, vals, cast, key):
        with ex.guard(key, argument=j):
            a = list(args); a[j] = cast(vals)
            r = f(*a)
            r = r if isinstance(r, tuple) else (r,)
            for i, v in enumerate(vals):
                w = f(*[v if k == j else x for k, x in enumerate(args)])
                w = w if isinstance(w, tuple) else (w,)
                for q in range(len(w)):
                    u = np.atleast_1d(r[q])
                    if not ex.check(u.size == len(vals) and abs(float(u[i])-float(np.atleast_1d(w[q])[0])) < 1e-9, key, "argument %d given per point: output %d is %s" % (j, q, np.asarray(r[q]).tolist()), argument=j, values=vals): return
        ex.ran(1); ex.state((key, j, cast.__name__))
    g0 = gen[1]
    for name, args in (("int2loc", rows[1][:6]), ("int2ptl", rows[1][:8]), ("ext2loc", rows[1][:4]), ("loc2int", g0["loc"]+[0., 30.]), ("loc2ext", g0["loc"]+[5., 30.]), ("ptl2int", g0["ptl"]+[3., 30.])):
        for j in range(len(args)):
            for cast in (list, tuple, np.array):
                for d in ((0.,), (0., 0.1), (0., 0.05, -0.03)):
                    both(getattr(P, name), list(args), j, [args[j]+v for v in d], cast, "common/"+name)
    # other number types
    for name, args in (("int2loc", (10, 40, 3, 3, -20, 5)), ("int2ptl", (10, 40, 3, 3, -20, 5, 200, 30)), ("loc2int", (2, 3, 3, 3, 20, -5)), ("ptl2int", (204, 33, 3, 3, 20, -5, 200, 30)), ("ptl2flat", (204, 33)), ("flat2ptl", (204, -33)), ("int2ext", (20, 7)), ("loc2flat", (3, 200)), ("delta_angle", (15, -40, 1)), ("delta_angle", (15, -400, 1))):
        w = getattr(P, name)(*[float(a) for a in args])
        w = w if isinstance(w, tuple) else (w,)
        for dt, tol in ((np.float32, 2e-4), (np.int64, 1e-9), (np.int32, 1e-9), (int, 1e-9)):
            for form in range(3):
                a = [dt(v) if form == 0 else np.array([v, v+0], dtype=dt) if form == 1 else [dt(v)] for v in args]
                with ex.guard("types/"+name, type=dt.__name__, form=form):
                    r = getattr(P, name)(*a)
                    r = r if isinstance(r, tuple) else (r,)
                    ex.check(all(maxabs(np.asarray(u, float)-float(np.atleast_1d(v)[0])) < tol for u, v in zip(r, w)), "types/"+name, "numbers of type %s give %s instead of %s" % (dt.__name__, r, w), form=form)
                ex.ran(1); ex.state((name, dt.__name__, form))


def ref_delta(u0, u1, d):
    n = u1-u0
    sgn = (d > 0)-(d < 0)
    if sgn == 0:
        return n
    if n % 360 == 0:
        return abs(n)*sgn
    if (n > 0) == (sgn > 0):
        return n
    return n % 360 if sgn > 0 else -((-n) % 360)


def angular_distance(ex):
    """delta_angle on every (start, final, direction), scalars, vectors and broadcasting"""
    step = 22.5 if not ex.thorough else 7.5
    us = sorted(set(list(np.arange(-540, 540.1, step)) + [-179., 179., -1., 1., 719.5, -720.5, 1080., -1080., 400., 800.]))
    A, B = np.meshgrid(us, us)
    A, B = A.ravel(), B.ravel()
    for d in (0, 1, -1, 2.5, -7):
        want = np.array([ref_delta(a, b, d) for a, b in zip(A, B)])
        with ex.guard("vec/%g" % d):
            a0, b0 = A.copy(), B.copy()
            got = P.delta_angle(A, B, d)
            bad = ~(np.abs(got-want) <= 1e-9)
            ex.check(not np.any(bad), "vec/%g" % d, "delta_angle wrong", direction=d,
                     cases=[(A[i], B[i], got[i], want[i]) for i in np.where(bad)[0][:3]])
            ex.check(np.array_equal(a0, A) and np.array_equal(b0, B), "vec/%g/mutated" % d, "arguments modified")
            dv = np.full(A.size, float(d))
            got2 = P.delta_angle(A, B, dv)
            ex.check(maxabs(got2-want) < 1e-9, "vecdir/%g" % d, "delta_angle with a vector of directions differs")
            ex.check(np.all(dv == d), "vecdir/%g/mutated" % d, "direction vector modified")
        ex.ran(A.size*2, sample=dict(direction=d, n=A.size))
        ex.states(A.size)
    # scalar/vector mixtures
    S = [-179., 0., 90., 400.]
    for d in (0, 1, -1):
        for sv in (0, 1, 2, 3, 4, 5, 6, 7):
            a = S if sv & 1 else 15.
            b = [45., -30., 361., 15.] if sv & 2 else 45.
            dd = [d, 1, -1, 0] if sv & 4 else d
            L = 4 if (sv & 3) or (sv & 4) else 1
            want = [ref_delta(a[i] if sv & 1 else a, b[i] if sv & 2 else b, dd[i] if sv & 4 else dd) for i in range(L)]
            for cast in (list, np.array):
                aa, bb, cc = [cast(v) if isinstance(v, list) else v for v in (a, b, dd)]
                key = "shape/%d/%d" % (sv, d)
                with ex.guard(key, start=a, final=b, direction=dd):
                    got = np.atleast_1d(P.delta_angle(aa, bb, cc))
                    ex.check(got.shape == (L,) and maxabs(got-np.array(want)) < 1e-9, key,
                             "delta_angle with mixed scalars and vectors", start=a, final=b, direction=dd, got=got, want=want)
                ex.ran(1)
                ex.state((sv, d, cast.__name__))


def long(ex):
    """long lists are converted point by point"""
    n = 12
    i = np.arange(n)
    t, p = -170.+29.*i, -9.+17.*i
    r1, r2, to, po, xo, yo = 3.+0.03*np.cos(i), 3.+0.04*np.sin(i), -150.+26.*i, 9.*np.cos(2*i), 60.+28.*i, -30.+11.*i
    xl, yl = [np.array([float(np.ravel(P.int2loc(t[k], p[k], r1[k], r2[k], to[k], po[k])[j])[0]) for k in i]) for j in (0, 1)]
    xp, yp = [np.array([float(np.ravel(P.int2ptl(t[k], p[k], r1[k], r2[k], to[k], po[k], xo[k], yo[k])[j])[0]) for k in i]) for j in (0, 1)]
    S = (1, 2, 3, 511, 1025, 5003) if not ex.thorough else (1, 2, 3, 511, 1025, 5003, 20011)
    for name, f, a in (("int2loc", P.int2loc, (t, p, r1, r2, to, po)), ("int2ptl", P.int2ptl, (t, p, r1, r2, to, po, xo, yo)), ("ext2loc", P.ext2loc, (t, p, r1, r2)),
                       ("loc2int", P.loc2int, (xl, yl, r1, r2, to, po)), ("loc2ext", P.loc2ext, (xl, yl, r1, r2, to, po)), ("ptl2int", P.ptl2int, (xp, yp, r1, r2, to, po, xo, yo)),
                       ("loc2int-guess", P.loc2int, (xl, yl, r1, r2, to, po, t+5.)), ("ptl2int-guess", P.ptl2int, (xp, yp, r1, r2, to, po, xo, yo, t-5.)),
                       ("int2ext", P.int2ext, (t, to)), ("ext2int", P.ext2int, (t, to)), ("loc2flat", P.loc2flat, (xl, xo)), ("flat2loc", P.flat2loc, (xp, xo)),
                       ("ptl2flat", P.ptl2flat, (xp, yp)), ("flat2ptl", P.flat2ptl, (xp, yp)), ("delta_angle", P.delta_angle, (t, 2*p)), ("delta_angle-dir", P.delta_angle, (t, 2*p, np.where(i % 2, 1., -1.)))):
        mc.long_lists(ex, name, f, a, 1e-8, S)


SECTIONS = [long, chain, tolerances, shapes, elements, angular_distance]
