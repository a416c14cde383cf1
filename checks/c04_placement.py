"""C04: petal and guide-camera placement on the focal plane (ptl <-> fp, gfa <-> fp)."""
import os, itertools
import numpy as np
import yaml
import mc
from mc import maxabs, snapshot
from astropy.table import Table
from desimeter import io
from desimeter.transform import ptl2fp as PF, gfa2fp as G, rszn_lookups as L

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("every petal (0-9) x a full polar lattice of petal positions x with/without z; every ordered pair of petals for call-order "
        "independence; every GFA petal x the complete CCD corner/edge/interior lattice; every mixed-petal table of <=4 rows over 3 "
        "petals for the table form, and large permuted tables. Non-trivial: distinct rounded outputs.")
ASSUMPTIONS = ["positions within 419 mm of the petal axis (domain of the focal-surface table)"]

DATA = str(io.desimeter_data_dir())
ALIGN = yaml.safe_load(open(os.path.join(DATA, "petal-alignments.yaml")))


def ref_rot(a, b, g):
    ca, sa, cb, sb, cg, sg = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(g), np.sin(g)
    # closed form of yaw-pitch-roll (not a product of the module's matrices)
    return np.array([[cg*cb, cg*sb*sa-sg*ca, cg*sb*ca+sg*sa],
                     [sg*cb, sg*sb*sa+cg*ca, sg*sb*ca-cg*sa],
                     [-sb, cb*sa, cb*ca]])


def ref_ptl2fp(p, x, y, z):
    d = ALIGN[p]
    R = ref_rot(d["alpha"], d["beta"], d["gamma"])
    v = np.array([x, y, z])
    return R.dot(v)+np.array([d["Tx"], d["Ty"], d["Tz"]])[:, None]


def pts(ex):
    r = np.arange(0., 418.1, 22. if not ex.thorough else 5.5)
    a = np.radians(np.arange(-180., 180., 15. if not ex.thorough else 5.))
    Rr, A = np.meshgrid(r, a)
    return (Rr*np.cos(A)).ravel(), (Rr*np.sin(A)).ravel()


def petals(ex):
    x, y = pts(ex)
    zn = np.interp(np.hypot(x, y), L.R, L.Z)
    order = list(itertools.permutations(range(10), 2))
    for p in range(10):
        for zname, z in (("none", None), ("nominal", zn), ("zero", np.zeros_like(x)), ("off", zn-7.3)):
            key = "p%d/%s" % (p, zname)
            with ex.guard(key):
                b = snapshot([x, y, z])
                X, Y, Z = PF.ptl2fp(p, x, y) if z is None else PF.ptl2fp(p, x, y, z)
                ref = ref_ptl2fp(p, x, y, zn if z is None else z)
                ex.check(maxabs(X-ref[0]) < 1e-9 and maxabs(Y-ref[1]) < 1e-9 and maxabs(Z-ref[2]) < 1e-9, key+"/ref",
                         "ptl2fp is not the petal's measured rigid motion", worst=maxabs(np.array([X, Y, Z])-ref))
                bx, by, bz = PF.fp2ptl(p, X, Y, Z)
                ex.check(max(maxabs(bx-x), maxabs(by-y), maxabs(bz-(zn if z is None else z))) < 1e-9, key+"/inverse",
                         "fp2ptl does not undo ptl2fp", worst=max(maxabs(bx-x), maxabs(by-y)))
                # isometry: pairwise distances to a fixed point
                d0 = np.sqrt((x-x[5])**2+(y-y[5])**2+((zn if z is None else z)-(zn if z is None else z)[5])**2)
                d1 = np.sqrt((X-X[5])**2+(Y-Y[5])**2+(Z-Z[5])**2)
                ex.check(maxabs(d1-d0) < 1e-9, key+"/rigid", "distances change from petal to focal plane", worst=maxabs(d1-d0))
                for i in range(0, x.size, 23):
                    one = PF.ptl2fp(p, float(x[i]), float(y[i])) if z is None else PF.ptl2fp(p, float(x[i]), float(y[i]), float(z[i]))
                    ex.check(max(abs(float(np.ravel(o)[0])-w[i]) for o, w in zip(one, (X, Y, Z))) < 1e-9, key+"/scalar",
                             "scalar and array answers differ", x=x[i], y=y[i])
                k = np.arange(x.size)[::-1]
                rev = PF.ptl2fp(p, x[k], y[k]) if z is None else PF.ptl2fp(p, x[k], y[k], z[k])
                ex.check(max(maxabs(o-w[k]) for o, w in zip(rev, (X, Y, Z))) < 1e-9, key+"/order", "answer depends on row order")
                ex.check(snapshot([x, y, z]) == b, key+"/mutated", "inputs modified in place")
                if z is None:
                    keep = np.hypot(X, Y) < 419.5
                    fx, fy, fz = PF.fp2ptl(p, X[keep], Y[keep])
                    # without z the nominal focal surface height is used
                    zf = np.interp(np.hypot(X[keep], Y[keep]), L.R, L.Z)
                    w = PF.fp2ptl(p, X[keep], Y[keep], zf)
                    ex.check(max(maxabs(a-c) for a, c in zip((fx, fy, fz), w)) < 1e-9, key+"/fp-noz",
                             "fp2ptl without z does not use the nominal focal surface height")
                    ex.check(max(maxabs(fx-x[keep]), maxabs(fy-y[keep])) < 0.05, key+"/fp-noz-close",
                             "ptl -> fp -> ptl without z is off by more than 50 um", worst=max(maxabs(fx-x[keep]), maxabs(fy-y[keep])))
            ex.ran(3*x.size, sample=dict(petal=p, z=zname))
            ex.states(x.size)
    # azimuth: petal p covers its own sector (36 deg * p + const), i.e. the centres are all distinct and ordered
    with ex.guard("sector"):
        az = []
        for p in range(10):
            X, Y, Z = PF.ptl2fp(p, 200., 0.)
            az.append(float(np.degrees(np.arctan2(np.ravel(Y)[0], np.ravel(X)[0]))))
        d = np.diff(np.unwrap(np.radians(az)))
        ex.check(maxabs(np.degrees(d)-36.) < 0.2, "sector", "petal locations are not 36 deg apart in increasing order", az=az)
    # history: every ordered pair of petals and directions gives the same second answer
    base = {p: np.array(PF.ptl2fp(p, x[:40], y[:40])) for p in range(10)}
    for p, q in order:
        with ex.guard("pair"):
            PF.ptl2fp(p, x[:3], y[:3]); PF.fp2ptl(p, x[:3], y[:3])
            ex.check(np.array_equal(np.array(PF.ptl2fp(q, x[:40], y[:40])), base[q]), "pair/%d-%d" % (p, q),
                     "answer for one petal depends on the petal used before")
        ex.ran(1)
        ex.state((p, q))


def table_form(ex):
    """apply_ptl2fp on every table of <=4 rows over 3 petals, and permuted large tables"""
    base = [(210., 15., -5.), (330.5, 80.25, -11.), (44., -3., -0.3), (390., 100., -13.)]

    def tab(pet, rows, kind):
        a = np.array(rows)
        d = dict(PETAL_LOC=np.array(pet), X_PTL=a[:, 0], Y_PTL=a[:, 1], Z_PTL=a[:, 2])
        if kind == "table":
            return Table(d)
        if kind == "dict":
            return d
    for trio in ((0, 3, 9), (2, 7, 5)):
        for n in (1, 2, 3, 4):
            for pet in itertools.product(trio, repeat=n):
                for kind in ("table", "dict"):
                    key = "%s/%s" % (kind, "".join(map(str, pet)))
                    with ex.guard(key):
                        t = tab(pet, base[:n], kind)
                        o = PF.apply_ptl2fp(t)
                        got = np.array([o["X_FP"], o["Y_FP"], o["Z_FP"]])
                        want = np.array([ref_ptl2fp(p, [b[0]], [b[1]], [b[2]])[:, 0] for p, b in zip(pet, base)]).T
                        ex.check(got.shape == want.shape and maxabs(got-want) < 1e-9, key, "row not placed by its own petal's motion",
                                 petals=pet)
                        ex.check(np.array_equal(np.asarray(o["PETAL_LOC"]), np.array(pet)) and
                                 np.array_equal(np.asarray(o["X_PTL"]), np.array(base)[:n, 0]) and
                                 np.array_equal(np.asarray(o["Z_PTL"]), np.array(base)[:n, 2]), key+"/inputs",
                                 "input columns changed")
                    ex.ran(1, sample=dict(petals=pet, kind=kind))
                    ex.state((kind, pet))
    x, y = pts(ex)
    rng_p = (np.arange(x.size)*7) % 10
    z = -np.hypot(x, y)/40.
    ref = np.zeros((3, x.size))
    for p in range(10):
        k = rng_p == p
        ref[:, k] = ref_ptl2fp(p, x[k], y[k], z[k])
    for perm in (np.arange(x.size), np.arange(x.size)[::-1], np.argsort(rng_p, kind="stable"), np.argsort((np.arange(x.size)*37) % x.size)):
        with ex.guard("big"):
            o = PF.apply_ptl2fp(Table(dict(PETAL_LOC=rng_p[perm], X_PTL=x[perm], Y_PTL=y[perm], Z_PTL=z[perm])))
            ex.check(maxabs(np.array([o["X_FP"], o["Y_FP"], o["Z_FP"]])-ref[:, perm]) < 1e-9, "big", "mixed-petal table misplaced")
            for p in range(10):
                k = rng_p[perm] == p
                a = PF.ptl2fp(p, x[perm][k], y[perm][k], z[perm][k])
                ex.check(maxabs(np.array(a)-np.array([o["X_FP"][k], o["Y_FP"][k], o["Z_FP"][k]])) < 1e-9, "big/agree",
                         "table form and function form disagree", petal=p)
        ex.ran(x.size)
        ex.states(x.size)


NX, NY = 2048, 1032


def gfa(ex):
    met = Table.read(os.path.join(DATA, "fp-metrology.csv"))
    met = met[met["DEVICE_TYPE"] == "GFA"]
    petals_ = sorted(set(int(p) for p in met["PETAL_LOC"]))
    ex.check(len(petals_) == 10, "metrology", "not ten guide cameras in the metrology")
    gx = np.unique(np.concatenate([np.linspace(0, NX-1, 24 if not ex.thorough else 90), [0, 1, NX-2, NX-1, -0.5, NX-0.5, -1500., 4100.]]))
    gy = np.unique(np.concatenate([np.linspace(0, NY-1, 14 if not ex.thorough else 50), [0, 1, NY-2, NY-1, -0.5, NY-0.5, -900., 2900.]]))
    GX, GY = [v.ravel() for v in np.meshgrid(gx, gy)]
    first = {}
    for p in petals_:
        key = "p%d" % p
        m = met[met["PETAL_LOC"] == p]
        m = m[np.argsort(m["PINHOLE_ID"])]
        cx, cy, cz = [np.asarray(m[c], float) for c in ("X_FP", "Y_FP", "Z_FP")]
        with ex.guard(key):
            b = snapshot([GX, GY])
            X, Y = G.gfa2fp(p, GX, GY)
            first[p] = (X, Y)
            bx, by = G.fp2gfa(p, X, Y)
            ex.check(max(maxabs(bx-GX), maxabs(by-GY)) < 1e-6, key+"/inverse", "fp2gfa does not undo gfa2fp",
                     worst=max(maxabs(bx-GX), maxabs(by-GY)))
            # the four corners land on the measured corners, shifted by the documented correction for the CCD lying
            # 2.23 mm below the surface, along the CCD normal
            KX, KY = np.array([0, NX-1, NX-1, 0.]), np.array([0, 0, NY-1, NY-1.])
            X4, Y4 = G.gfa2fp(p, KX, KY)
            # independent affine least squares of pixel corners to the metrology
            A = np.stack([np.ones(4), KX, KY]).T
            zf = cx+1j*cy
            fit = A.dot(np.linalg.lstsq(A, zf, rcond=None)[0])
            n = np.cross([cx[1]-cx[0], cy[1]-cy[0], cz[1]-cz[0]], [cx[2]-cx[1], cy[2]-cy[1], cz[2]-cz[1]])
            sh = 2.23*(n[0]+1j*n[1])/n[2]
            ex.check(maxabs(np.abs(X4+1j*Y4-fit-sh)) < 5e-4, key+"/corners",
                     "CCD corners not on the metrology (+ documented depth correction)", got=[X4, Y4], want=[(fit+sh).real, (fit+sh).imag])
            ex.check(maxabs(np.abs(X4+1j*Y4-sh-zf)) < 5e-3, key+"/corners5um", "CCD corners more than 5 um from the metrology")
            # the transform is a similarity with 15 um pixels, x->y handedness preserved
            dx = np.hypot(X4[1]-X4[0], Y4[1]-Y4[0])/(NX-1); dy = np.hypot(X4[3]-X4[0], Y4[3]-Y4[0])/(NY-1)
            ex.check(abs(dx-0.015) < 1.5e-4 and abs(dy-0.015) < 1.5e-4, key+"/scale", "pixel scale is not 15 um", scale=[dx, dy])
            mid = 0.25*(X4.sum()+1j*Y4.sum())
            c = G.gfa2fp(p, 0.5*(NX-1), 0.5*(NY-1))
            ex.check(abs(complex(np.ravel(c[0])[0], np.ravel(c[1])[0])-mid) < 1e-9, key+"/linear", "not linear in pixels")
            want = X4[0]+(X4[1]-X4[0])*GX/(NX-1)+(X4[3]-X4[0])*GY/(NY-1)
            wanty = Y4[0]+(Y4[1]-Y4[0])*GX/(NX-1)+(Y4[3]-Y4[0])*GY/(NY-1)
            ex.check(max(maxabs(X-want), maxabs(Y-wanty)) < 1e-8, key+"/affine", "not an affine map of the pixels")
            for i in range(0, GX.size, 41):
                sx, sy = G.gfa2fp(p, float(GX[i]), float(GY[i]))
                ex.check(abs(float(np.ravel(sx)[0])-X[i]) < 1e-9 and abs(float(np.ravel(sy)[0])-Y[i]) < 1e-9, key+"/scalar",
                         "scalar and array answers differ")
            ex.check(snapshot([GX, GY]) == b, key+"/mutated", "inputs modified")
        ex.ran(3*GX.size, sample=dict(petal=p, corner=[X[0], Y[0]]))
        ex.states(GX.size)
    # independence of the order of metrology rows and of what was asked before
    full = Table.read(os.path.join(DATA, "fp-metrology.csv"))
    for name, perm in (("rev", np.arange(len(full))[::-1]), ("stride", np.argsort((np.arange(len(full))*7919) % len(full), kind="stable"))):
        with ex.guard("fit/"+name):
            b = full[perm]
            snap = (list(b.colnames), len(b), snapshot(np.asarray(b["X_FP"])), [str(v) for v in b["DEVICE_TYPE"][:50]])
            tr = G.fit_gfa2fp(b)
            ex.check((list(b.colnames), len(b), snapshot(np.asarray(b["X_FP"])), [str(v) for v in b["DEVICE_TYPE"][:50]]) == snap, "fit/%s/mutated" % name,
                     "metrology table modified by the fit")
            ex.check(sorted(tr) == petals_, "fit/%s/keys" % name, "not one transform per guide camera", keys=sorted(tr))
            for p in petals_:
                X, Y = tr[p].apply(GX, GY)
                ex.check(max(maxabs(X-first[p][0]), maxabs(Y-first[p][1])) < 1e-9, "fit/%s/p%d" % (name, p),
                         "placement depends on the row order of the metrology")
        ex.ran(10)
        ex.state(name)
    # every subset of 1..3 cameras only affects which keys exist
    g = met
    for n in (1, 2):
        for sub in itertools.combinations(petals_, n):
            with ex.guard("subset"):
                tr = G.fit_gfa2fp(g[np.isin(g["PETAL_LOC"], sub)])
                ex.check(sorted(tr) == sorted(sub), "subset/%s/keys" % (sub,), "wrong cameras", got=sorted(tr))
                for p in sub:
                    X, Y = tr[p].apply(GX[:5], GY[:5])
                    ex.check(max(maxabs(X-first[p][0][:5]), maxabs(Y-first[p][1][:5])) < 1e-9, "subset/%s" % (sub,),
                             "one camera's placement depends on the other cameras present")
            ex.ran(1)
            ex.state(sub)
    for p, q in itertools.permutations(petals_, 2):
        with ex.guard("pair"):
            G.gfa2fp(p, 3., 4.)
            X, Y = G.gfa2fp(q, GX[:7], GY[:7])
            ex.check(np.array_equal(X, first[q][0][:7]) and np.array_equal(Y, first[q][1][:7]), "pair/%d-%d" % (p, q), "depends on the previous call")
            bx, by = G.fp2gfa(p, *first[p]); ex.check(max(maxabs(bx-GX), maxabs(by-GY)) < 1e-6, "pairinv/%d" % p, "inverse depends on the previous call")
        ex.ran(2)
        ex.state((p, q))


def long(ex):
    """long lists are placed point by point"""
    r, a = np.array([0., 3., 57., 120., 199., 260.5, 333.3, 390., 413.]), np.arange(9)*0.777
    x, y = r*np.cos(a), r*np.sin(a)
    z = np.interp(r, L.R, L.Z)-0.1*np.cos(a)
    g, h = np.linspace(-5., 2060., 9), np.linspace(1040., -10., 9)
    for p in range(10):
        mc.long_lists(ex, "ptl2fp/%d" % p, lambda *v: PF.ptl2fp(p, *v), (x, y), 1e-9)
        mc.long_lists(ex, "ptl2fp-z/%d" % p, lambda *v: PF.ptl2fp(p, *v), (x, y, z), 1e-9)
        mc.long_lists(ex, "fp2ptl/%d" % p, lambda *v: PF.fp2ptl(p, *v), (x, y), 1e-9)
        mc.long_lists(ex, "fp2ptl-z/%d" % p, lambda *v: PF.fp2ptl(p, *v), (x, y, z), 1e-9)
        mc.long_lists(ex, "gfa2fp/%d" % p, lambda *v: G.gfa2fp(p, *v), (g, h), 1e-9)
        mc.long_lists(ex, "fp2gfa/%d" % p, lambda *v: G.fp2gfa(p, *v), (-300.+g/1e3, 200.+h/1e3), 1e-6)

    def table(p, x, y, z):
        o = PF.apply_ptl2fp(Table(dict(PETAL_LOC=p.astype(int), X_PTL=x, Y_PTL=y, Z_PTL=z)))
        return o["X_FP"], o["Y_FP"], o["Z_FP"]
    mc.long_lists(ex, "apply_ptl2fp", table, (np.array([3, 0, 9, 1, 5, 4, 8, 2, 7]), x, y, z), 1e-9)


SECTIONS = [long, petals, table_form, gfa]
