"""
Shared harness: bounded exhaustive exploration of the real desimeter code.

A check is a Python module in /verif/checks with PROPERTY, LEVEL, RULE, a list
SECTIONS of functions taking one Explorer.  Each section enumerates a finite
space of inputs / histories / schedules / faults *completely* and tells the
Explorer about every execution (ex.ran), every distinct state or outcome
(ex.state), every transition of the real code (ex.trans) and every failure
(ex.fail).  Nothing is sampled; VERIF_SEED only permutes the order in which a
space is visited where the order is irrelevant.
"""
import errno, resource
import os, sys, json, time, hashlib, traceback, io, contextlib, warnings, itertools, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DESIMETER_REPO", "/repo")
MAX_REPORT = 5


def under_test(exc):
    """does the traceback of exc pass through the code under test?"""
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(REPO + os.sep):
            return True
    return False


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        o = float(o)
    if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
        return repr(o)
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)


class Stop(Exception):
    pass


class Explorer:
    def __init__(self, prop, level, tier, seed):
        self.prop, self.level, self.tier, self.seed = prop, level, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.evals = 0
        self.transitions = 0
        self.traces = 0
        self.distinct = set()
        self.extra_distinct = 0
        self.samples = []
        self.sections = {}
        self.failures = []      # not in the known file
        self.known_hits = {}
        self.known = load_known(prop)
        self._section = None
        self._sec_samples = 0
        self.notes = []

    # -- bookkeeping ---------------------------------------------------
    def begin(self, name):
        self._section = name
        self._sec_samples = 0
        self._fail_here = 0
        self.sections[name] = dict(executions=0, distinct=0, transitions=0, wall_s=0.0)
        self._tsec = time.time()

    def end(self):
        self.sections[self._section]["wall_s"] = round(time.time() - self._tsec, 2)
        self._section = None

    def ran(self, n=1, sample=None, trans=None):
        """n complete executions of the real code were checked"""
        self.evals += n
        t = n if trans is None else trans
        self.transitions += t
        s = self.sections[self._section]
        s["executions"] += n
        s["transitions"] += t
        if sample is not None and self._sec_samples < 2:
            self._sec_samples += 1
            self.samples.append(dict(section=self._section, case=jsonable(sample)))

    def state(self, key):
        """a distinct non-trivial state / outcome (hashable); returns True when new"""
        k = (self._section, key)
        h = hash(k)
        if h in self.distinct:
            return False
        self.distinct.add(h)
        self.sections[self._section]["distinct"] += 1
        return True

    def states(self, n):
        """n distinct non-trivial states that are distinct by construction"""
        n = int(n)
        self.extra_distinct += n
        self.sections[self._section]["distinct"] += n

    def trace(self, n=1):
        """n traces of the reference model were replayed against the real code"""
        self.traces += n

    # -- verdicts ------------------------------------------------------
    def fail(self, key, msg, **witness):
        """key: short stable fingerprint of the failing input / call site / history"""
        full = "%s/%s" % (self._section, key)
        for pat, what in self.known:
            if pat == full:
                if full not in self.known_hits:
                    self.known_hits[full] = what
                return
        self._fail_here += 1
        self.failures.append(dict(section=self._section, key=full, message=msg, witness=jsonable(witness)))
        if self._fail_here >= MAX_REPORT:
            raise Stop()

    def check(self, ok, key, msg, **witness):
        if not ok:
            self.fail(key, msg, **witness)
        return bool(ok)

    @contextlib.contextmanager
    def guard(self, key, **witness):
        """an exception escaping from the real code in here is a violation"""
        try:
            yield
        except Stop:
            raise
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            if not under_test(e):
                raise
            self.fail(key, "unexpected %s: %s" % (type(e).__name__, e),
                      traceback=traceback.format_exc()[-2000:], **witness)

    # -- end -----------------------------------------------------------
    def finish(self, rule, assumptions, exhaustive=True):
        n = len(self.distinct) + self.extra_distinct
        cov = dict(rule=rule, samples=self.samples[:40], exhaustive=bool(exhaustive),
                   sections=self.sections)
        if self.level == "model_checking":
            cov.update(states=n, transitions=self.transitions,
                       traces_validated_against_impl=self.traces if self.traces else self.evals)
            cov["evaluations"] = self.evals
            cov["distinct_nontrivial"] = n
        else:
            cov.update(evaluations=self.evals, distinct_nontrivial=n)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.failures))
        if self.notes:
            cov["notes"] = self.notes
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.json.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, "%s.json" % self.prop))
        for full, what in sorted(self.known_hits.items()):
            out("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        rd = os.path.join(d, "replay")
        os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(self.prop + "-"):
                os.remove(os.path.join(rd, f))
        for i, fl in enumerate(self.failures):
            p = os.path.join(rd, "%s-%d.json" % (self.prop, i))
            fl = dict(fl)
            fl["property"] = self.prop
            fl["how_to_replay"] = "cd /verif && bin/check %s --section %s" % (self.prop, fl["section"])
            with open(p, "w") as f:
                json.dump(fl, f, indent=1)
            out("  %s: %s" % (fl["key"], " ".join(fl["message"][:400].split())))
            out("  witness: %s" % json.dumps(fl["witness"])[:800])
            out("VIOLATION property=%s replay=%s" % (self.prop, p))
        out("%s: %d executions, %d distinct states/outcomes, %d transitions, %.1f s, %d violation(s)" % (
            self.prop, self.evals, n, self.transitions, time.time() - self.t0, len(self.failures)))
        return 1 if self.failures else 0


_real_stdout = None


def out(s):
    _real_stdout.write(s + "\n")
    _real_stdout.flush()


def load_known(prop):
    """lines 'known: property=C07 key=<section/key> <what fails>' (see known_findings.txt)"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return res
    for line in open(p):
        line = line.strip()
        if not line.startswith("known: property=%s " % prop):
            continue
        rest = line.split(" ", 2)[2]
        assert rest.startswith("key="), line
        key, what = rest[4:].split(" ", 1)
        res.append((key, what))
    return res


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vmc_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(module, tier, seed, only=None):
    global _real_stdout
    # the code under test prints and logs a lot: keep our own handle on stdout
    fd = os.dup(1)
    _real_stdout = os.fdopen(fd, "w")
    devnull = open(os.devnull, "w")
    os.dup2(devnull.fileno(), 1)
    if not os.environ.get("VERIF_STDERR"):
        os.dup2(devnull.fileno(), 2)
        err = _real_stdout
    else:
        err = sys.stderr
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    # code that never stops asking for memory must not take the machine with it
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    ex = Explorer(module.PROPERTY, module.LEVEL, tier, seed)
    broken = None
    for sec in module.SECTIONS:
        name = sec.__name__
        if only and name not in only:
            continue
        if name.startswith("thorough_") and tier != "thorough":
            continue
        ex.begin(name)
        try:
            np.random.seed(seed)
            sec(ex)
        except Stop:
            pass
        except (Exception, SystemExit) as e:
            # anything else that stops a check comes from results it cannot even read
            # (it never happens on code where the property holds)
            if under_test(e) or not isinstance(e, (MemoryError, ImportError)) and getattr(e, "errno", None) not in (errno.ENOSPC, errno.ENOMEM, errno.EAGAIN):
                try:
                    ex.fail("crash", "unexpected %s %s: %s" % (type(e).__name__, "escaped" if under_test(e) else "on reading the results", e),
                            traceback=traceback.format_exc()[-3000:])
                except Stop:
                    pass
            else:
                broken = traceback.format_exc()
                err.write("harness error in %s:\n%s\n" % (name, broken))
        ex.end()
    rc = ex.finish(module.RULE, module.ASSUMPTIONS, exhaustive=broken is None)
    if rc == 0 and broken is not None:
        out("HARNESS-ERROR in %s" % module.PROPERTY)
        rc = 2
    sys.stdout.flush()
    _real_stdout.flush()
    os._exit(rc)


# ---------------------------------------------------------------------
# helpers for numeric comparisons
def maxabs(a):
    import numpy as np
    a = np.asarray(a, dtype=float)
    if a.size == 0:
        return 0.0
    if not np.all(np.isfinite(a)):
        return float("inf")
    return float(np.max(np.abs(a)))


def long_lists(ex, key, f, arrays, tol, sizes=(1, 2, 3, 511, 1025, 5003, 20011), periods=()):
    """f(*arrays) transforms point by point: rows taken from a short list, repeated in long lists of every size, get the answers of the short list"""
    import numpy as np
    arrays = [np.asarray(a, float) for a in arrays]
    n = arrays[0].size

    def call(a):
        r = f(*a)
        return [np.asarray(v, float) for v in (r if isinstance(r, (tuple, list)) else (r,))]
    with ex.guard("long/"+key):
        one = [call([a[i:i+1] for a in arrays]) for i in range(n)]
        ref = [np.array([float(np.ravel(o[j])[0]) for o in one]) for j in range(len(one[0]))]
        for N in sizes:
            for step, first in ((7, 0), (0, 1)):      # all kinds of points; one different point at the end of many equal ones
                k = (np.arange(N)*step+first) % n
                if step == 0: k[-1] = n-1
                r = call([a[k] for a in arrays])
                for j, v in enumerate(r):
                    d = np.abs(v.ravel()-ref[j][k]) if v.size == N else None
                    if d is not None and j in periods: d = np.minimum(d, np.abs(d-360.))
                    w = np.inf if d is None else float(np.max(np.where(np.isnan(v.ravel()) & np.isnan(ref[j][k]), 0, np.where(np.isnan(d), np.inf, d))))
                    ex.check(w <= tol, "long/%s/%d/%d" % (key, N, step), "output %d of a list of %d differs from the answers for each of its points alone" % (j, N), worst=w)
                ex.ran(1, sample=dict(function=key, n=N)); ex.state((key, N, step))


def angdiff(a, b):
    """|a-b| modulo 360, degrees"""
    import numpy as np
    d = np.abs((np.asarray(a, float) - np.asarray(b, float)) % 360.0)
    return np.minimum(d, 360.0 - d)


def snapshot(o):
    """deep, comparable snapshot of an argument"""
    import numpy as np, copy
    try:
        from astropy.table import Table
        if isinstance(o, Table):
            return ("T", tuple(o.colnames), tuple(snapshot(np.ma.filled(np.ma.asarray(o[c]), 0) if hasattr(o[c], 'mask') else np.asarray(o[c])) for c in o.colnames))
    except ImportError:
        pass
    if isinstance(o, np.ndarray):
        if o.dtype.names:
            return ("S", o.dtype.names, tuple(snapshot(o[n]) for n in o.dtype.names))
        return ("A", o.shape, str(o.dtype), o.tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snapshot(v) for v in o))
    if isinstance(o, dict):
        return ("D", tuple(sorted((str(k), snapshot(v)) for k, v in o.items())))
    return repr(o)


_pmap_func = None


def guarded(func):
    """func with an exception of the code under test as the text of its result"""
    def call(x):
        try:
            return func(x)
        except Exception as exc:
            if not under_test(exc):
                raise
            return "%s: %s" % (type(exc).__name__, exc)
    return call


def _pmap_call(i):
    return _pmap_func(i)


def pmap(func, items, nproc=8, chunksize=None):
    """fork-parallel map preserving order; func may be a closure, its results must be picklable"""
    global _pmap_func
    items = list(items)
    import multiprocessing as mp
    if len(items) <= 1 or nproc == 1:
        return [func(i) for i in items]
    _pmap_func = func
    ctx = mp.get_context("fork")
    if chunksize is None:
        chunksize = max(1, len(items)//(8*nproc))
    with ctx.Pool(min(nproc, len(items))) as pool:
        return pool.map(_pmap_call, items, chunksize=chunksize)
