"""C01: inverse kinematics of the two-arm positioner, on a lattice of arms x ranges x targets x guesses."""
import math, itertools
import mc
from desimeter.transform import xy2tp as M

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("every (arm pair, travel range, target, guess, guess tolerance) of a finite lattice: targets are the images of a "
        "(theta,phi) lattice covering the whole travel range plus an (x,y) polar lattice that crosses both edges of the "
        "annulus; guesses sweep the full theta range. A case is non-trivial when its answer (theta,phi,flag) is distinct "
        "for its arm pair and range. The reference enumerates all elbow configurations and theta wraps in closed form.")
ASSUMPTIONS = ["travel ranges span at most 540 deg in theta and less than 360 deg in phi",
               "targets closer than 1e-6 deg to a travel limit are not judged for reachability"]

ARMS = [(3.0, 3.0), (3.0, 3.1), (2.6, 3.3), (3.4, 2.5)]
RANGES = [[[-200.0, 200.0], [-20.0, 200.0]],
          [[-180.0, 180.0], [-20.0, 200.0]],
          [[-195.95685, 195.95685], [-3.92183, 185.0]],
          [[-110.0, 265.0], [-3.5, 184.0]],
          [[-170.0, 170.0], [-20.0, 200.0]],
          [[-30.0, 130.0], [20.0, 160.0]],
          [[100.0, 460.0], [-190.0, 30.0]],
          [[200.0, -200.0], [200.0, -20.0]],
          [[-200.0, 200.0], [-190.0, -5.0]],
          [[-260.0, 260.0], [-60.0, 100.0]]]
EPS = 1e-6


def fwd(t, p, r):
    t = math.radians(t); s = t + math.radians(p)
    return r[0]*math.cos(t)+r[1]*math.cos(s), r[0]*math.sin(t)+r[1]*math.sin(s)


def solutions(x, y, r, rng, eps):
    """all (t,p) in the (eps-enlarged) ranges that put the fibre at x,y"""
    r1, r2 = r
    h = math.hypot(x, y)
    c = (h*h-r1*r1-r2*r2)/(2*r1*r2)
    if c > 1+1e-12 or c < -1-1e-12:
        return []
    c = max(-1., min(1., c))
    a = math.atan2(y, x)
    tlo, thi = min(rng[0])-eps, max(rng[0])+eps
    plo, phi_ = min(rng[1])-eps, max(rng[1])+eps
    res = []
    for sgn in (1, -1):
        P = sgn*math.acos(c)
        T = a-math.atan2(r2*math.sin(P), r1+r2*math.cos(P))
        for i in (-2, -1, 0, 1, 2):
            t = math.degrees(T)+360*i
            if not tlo <= t <= thi:
                continue
            for j in (-1, 0, 1):
                p = math.degrees(P)+360*j
                if plo <= p <= phi_:
                    res.append((t, p, sgn))
    return res


def judge(r, rng, x, y, guess, tol, res, kind, plain=None):
    """returns None or a message"""
    (t, p), unreach = res
    lo_t, hi_t, lo_p, hi_p = min(rng[0]), max(rng[0]), min(rng[1]), max(rng[1])
    if not (lo_t-1e-9 <= t <= hi_t+1e-9 and lo_p-1e-9 <= p <= hi_p+1e-9):
        return "angles (%.6f,%.6f) outside the travel range" % (t, p)
    fx, fy = fwd(t, p, r)
    d = math.hypot(fx-x, fy-y)
    h = math.hypot(x, y)
    outer, inner = r[0]+r[1], abs(r[0]-r[1])
    if not unreach and d > 2e-6:
        return "declared reachable but lands %.6f mm away" % d
    strict = solutions(x, y, r, rng, -EPS)
    loose = solutions(x, y, r, rng, EPS)
    annulus = h > outer+1e-9 or h < inner-1e-9
    if annulus and not unreach:
        return "target outside the annulus declared reachable"
    if not annulus and not loose and not unreach:
        return "no arm configuration in range reaches the target, yet declared reachable"
    near_edge = abs(h-outer) < 1e-6 or abs(h-inner) < 1e-6
    if near_edge:
        if d > 1e-5 and [s for s in strict if s[2] > 0]:
            return "target on the edge of the annulus missed by %g mm" % d
        return None
    # principal configuration: phi in [0,180]
    prin = [s for s in strict if s[2] > 0]
    if not annulus and prin and unreach:
        return "reachable target declared unreachable"
    if guess is None:
        if not annulus and prin and not (-1e-6 <= p <= 180+1e-6 or lo_p > 0 or hi_p < 180) :
            return "without a guess phi=%.6f is not in [0,180]" % p
        if not annulus and prin and not any(abs(t-s[0]) < 1e-5 and abs(p-s[1]) < 1e-5 for s in loose if s[2] > 0):
            return "without a guess the answer is not the phi in [0,180] configuration"
    else:
        strict_in = [s for s in strict if abs(s[0]-guess) < tol-EPS]
        if not annulus and strict_in and h > 1e-3:
            best = min(abs(s[0]-guess) for s in loose)
            if (not abs(t-guess) <= best+1e-4):
                return "guess %.3f ignored: theta=%.5f, but an equivalent configuration is %.5f deg away" % (guess, t, best)
        if not annulus and loose and h > 1e-3 and not any(abs(s[0]-guess) < tol+EPS for s in loose):
            # a guess that is too far from everything possible is ignored
            if len(strict) == len(loose) and ((not abs(t-plain[0][0]) <= 1e-6) or (not abs(p-plain[0][1]) <= 1e-6) or bool(unreach) != bool(plain[1])):
                return "guess %.3f is too far from every possible theta, but changes the answer from %s to %s" % (guess, plain, res)
    if annulus:
        # closest approach: straight towards the target, at full extension / full retraction
        ang = math.atan2(y, x)
        R = outer if h > outer else inner
        if R < 1e-9:
            if h > 0 and math.hypot(fx, fy) > 1e-5 and lo_p <= 180 <= hi_p:
                return "not a closest approach"
        elif solutions(R*(1-1e-13)*math.cos(ang) if h > outer else R*(1+1e-13)*math.cos(ang),
                       R*(1-1e-13)*math.sin(ang) if h > outer else R*(1+1e-13)*math.sin(ang), r, rng, -1e-2):
            P0 = 0. if h > outer else 180.
            if lo_p+1e-2 <= P0 <= hi_p-1e-2 and d > abs(h-R)+1e-5:
                return "unreachable target: best approach is %.6f mm, answer is %.6f mm away" % (abs(h-R), d)
    return None


def work(job):
    r, rng, tstep, pstep, guess_step, xy_step = job
    fails, n, seen, samples = [], 0, set(), []
    lo_t, hi_t, lo_p, hi_p = min(rng[0]), max(rng[0]), min(rng[1]), max(rng[1])

    def one(x, y, g, tol, kind):
        nonlocal n
        n += 1
        if g is None:
            res = M.xy2tp([x, y], list(r), rng) if tol is None else M.xy2tp([x, y], list(r), rng, None, tol)
        elif tol is None:
            res = M.xy2tp([x, y], list(r), rng, g)
            tol = 30.
        else:
            res = M.xy2tp([x, y], list(r), rng, g, tol)
        seen.add((round(res[0][0], 5), round(res[0][1], 5), bool(res[1])))
        m = judge(r, rng, x, y, g, tol, res, kind, None if g is None else M.xy2tp([x, y], list(r), rng))
        if m and len(fails) < 3:
            fails.append(dict(msg=m, r=r, ranges=rng, xy=(x, y), t_guess=g, t_guess_tol=tol, answer=res))
        if n < 2:
            samples.append(dict(r=r, ranges=rng, xy=(x, y), t_guess=g, answer=res))

    nt = int((hi_t-lo_t)/tstep)
    np_ = int((hi_p-lo_p)/pstep)
    for i in range(nt+1):
        t = lo_t+0.37+(hi_t-lo_t-0.74)*i/max(nt, 1)
        for j in range(np_+1):
            p = lo_p+0.21+(hi_p-lo_p-0.42)*j/max(np_, 1)
            x, y = M.tp2xy([t, p], list(r))
            ref = fwd(t, p, r)
            if (not abs(ref[0]-x) <= 1e-9) or (not abs(ref[1]-y) <= 1e-9):
                fails.append(dict(msg="forward map wrong", r=r, tp=(t, p), answer=(x, y)))
                return fails, n, len(seen), samples
            one(x, y, None, None, "tp")
            for d in (0., 3., -12., 29.):
                one(x, y, t+d, None, "tp")
            one(x, y, t-4., 5., "tp")
            one(x, y, t+7., 5., "tp")
            one(x, y, 0., 300., "tp")
            for g in (lo_t+3., hi_t-3.): one(x, y, g, 10., "tp")
    # polar lattice across both edges of the annulus, guesses over the whole range
    outer, inner = r[0]+r[1], abs(r[0]-r[1])
    radii = sorted({0., 1e-9, 1e-4, inner*0.5, inner*(1-1e-6), inner, inner*(1+1e-6), inner+0.01, 1., 2.5, r[0], r[0]+r[1]*0.5,
                    outer-0.01, outer*(1-1e-6), outer, outer*(1+1e-6), outer+0.01, outer+1., 10., 40.})
    na = int(360/xy_step)
    gl = [None]+[lo_t+guess_step*i for i in range(int((hi_t-lo_t)/guess_step)+1)]
    for h in radii:
        for i in range(na):
            a = math.radians(-180+xy_step*i)
            for g in gl:
                one(h*math.cos(a), h*math.sin(a), g, None, "xy")
            # exact axes, where quotients of coordinates degenerate
    for h in (0.5, 2.5, r[0], outer, outer+1):
        for x, y in ((h, 0.), (0., h), (-h, 0.), (0., -h), (-h, -0.)):
            for g in gl:
                one(x, y, g, None, "axis")
    return fails, n, len(seen), samples


def _drive(ex, jobs):
    for job, (fails, n, seen, samples) in zip(jobs, mc.pmap(safe, jobs)):
        ex.ran(n, sample=samples[0] if samples else None)
        ex.states(seen)
        for f in fails:
            msg = f.pop("msg")
            ex.fail("r=%s,ranges=%s" % (job[0], job[1]), msg, **f)


def safe(job):
    try:
        return work(job)
    except Exception as e:
        if not mc.under_test(e):
            raise
        import traceback
        return [dict(msg="raises %s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-1500:])], 1, 0, []


def lattice(ex):
    if ex.thorough:
        jobs = [(a, r, 3., 4., 7., 3.) for a in ARMS+[(2.51, 3.49), (3.3, 2.9)] for r in RANGES]
    else:
        jobs = [(a, r, 7., 6., 17., 15.) for a in ARMS for r in RANGES]
    _drive(ex, jobs)


SECTIONS = [lattice]
