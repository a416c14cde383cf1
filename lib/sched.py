"""
Controlled scheduler for real threads running the real code, and forked executions.

Exactly one thread runs at a time.  A scheduling point is a traced line (or
opcode) event in a frame of the code under test; a schedule is the list of
points at which the running thread is preempted.  A thread that makes no
progress (for instance because it waits for a lock the preempted thread holds)
is declared blocked and the other one is resumed.
"""
import os, sys, threading, pickle, time, traceback, select
import mc

PREFIX = os.path.join(mc.REPO, "py", "desimeter") + os.sep
BLOCK_S = 5.0
TOOL = 3


def target_codes(files=None):
    """code objects of every function of the loaded modules under test"""
    import types, inspect
    out, seen = [], set()

    def add(c):
        if c in seen or not c.co_filename.startswith(PREFIX):
            return
        seen.add(c)
        if files is None or os.path.basename(c.co_filename) in files:
            out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    def walk(o, depth):
        o = inspect.unwrap(o) if callable(o) else o
        if isinstance(o, property):
            for f in (o.fget, o.fset):
                if f is not None:
                    walk(f, depth)
        elif isinstance(o, (staticmethod, classmethod)):
            walk(o.__func__, depth)
        elif isinstance(o, types.FunctionType):
            add(o.__code__)
        elif isinstance(o, type) and depth < 3 and o.__module__.startswith("desimeter"):
            for v in vars(o).values():
                walk(v, depth+1)
    for name, m in sorted(sys.modules.items()):
        if name.startswith("desimeter") and m is not None:
            for v in list(vars(m).values()):
                walk(v, 0)
    return out


class Sched:
    def __init__(self, thunks, preempt, opcodes=(), visits=2, files=None):
        """preempt: dict {(thread, index of point): True}; opcodes: code names traced per opcode"""
        self.thunks, self.preempt, self.visits = thunks, preempt, visits
        self.opcodes, self.files = opcodes, files
        self.ids = {}
        self.fin = threading.Event()
        n = len(thunks)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False]*n
        self.res = [None]*n
        self.err = [None]*n
        self.points = [[] for _ in range(n)]
        self.seen = [dict() for _ in range(n)]
        self.progress = 0
        self.free = False      # scheduler gave up controlling (blocked thread): let everything run
        self.current = 0
        self.switches = []

    def on_line(self, code, line):
        i = self.ids.get(threading.get_ident())
        if i is not None:
            self.point(i, code, line)

    def on_op(self, code, off):
        i = self.ids.get(threading.get_ident())
        if i is not None:
            self.point(i, code, ("op", off))

    def point(self, i, code, where):
        self.progress += 1
        if self.free:
            return
        key = (code, where)
        c = self.seen[i].get(key, 0)
        self.seen[i][key] = c+1
        if c >= self.visits:
            return
        k = len(self.points[i])
        self.points[i].append("%s:%s" % (code.co_name, key[1]))
        if (i, k) in self.preempt:
            other = 1-i
            if not self.done[other]:
                self.switches.append((i, self.points[i][k]))
                self.current = other
                self.go[other].release()
                self.go[i].acquire()
                self.current = i

    def body(self, i):
        self.go[i].acquire()
        self.current = i
        self.ids[threading.get_ident()] = i
        try:
            self.res[i] = self.thunks[i]()
        except BaseException as e:
            self.err[i] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        finally:
            self.ids.pop(threading.get_ident(), None)
            self.done[i] = True
            self.progress += 1
            if all(self.done):
                self.fin.set()
            other = 1-i
            if other < len(self.thunks) and not self.done[other]:
                self.go[other].release()

    def run(self):
        M = sys.monitoring
        M.use_tool_id(TOOL, "verif-sched")
        M.register_callback(TOOL, M.events.LINE, self.on_line)
        M.register_callback(TOOL, M.events.INSTRUCTION, self.on_op)
        for c in target_codes(self.files):
            M.set_local_events(TOOL, c, M.events.LINE | (M.events.INSTRUCTION if c.co_name in self.opcodes else 0))
        ths = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.thunks))]
        for t in ths:
            t.start()
        self.go[0].release()
        last, t_last = -1, time.time()
        while not all(self.done):
            if self.fin.wait(0.5):
                break
            if self.progress != last:
                last, t_last = self.progress, time.time()
            elif time.time()-t_last > BLOCK_S:
                # the running thread is stuck: let both run freely
                if self.free:
                    return "deadlock"
                self.free = True
                for g in self.go:
                    g.release()
                t_last = time.time()
        return "ok"


def in_child(func, timeout=120):
    """run func() in a forked child (cold copy of this process); returns its result or raises"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 0
        try:
            os.close(r)
            try:
                out = ("ok", func())
            except BaseException as e:
                out = ("exc", mc.under_test(e), "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-2500:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            rc = 1
        os._exit(rc)
    os.close(w)
    data = b""
    t0 = time.time()
    with os.fdopen(r, "rb") as f:
        while True:
            left = timeout-(time.time()-t0)
            if left <= 0 or not select.select([f], [], [], left)[0]:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                return ("exc", True, "no answer within %d s" % timeout, "")
            b = os.read(f.fileno(), 1 << 20)
            if not b:
                break
            data += b
    os.waitpid(pid, 0)
    if not data:
        return ("exc", True, "the process died", "")
    return pickle.loads(data)
