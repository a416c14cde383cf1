"""Run one of the command line programs of desimeter in a forked copy of this process."""
import builtins, os, runpy, sys, tempfile, traceback, types
import mc


class _Anything(types.ModuleType):
    """module whose every attribute can be called, indexed, and so on (plots)"""
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return _any


class _Any:
    def __call__(self, *a, **k): return self
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return self
    def __getitem__(self, i): return self
    def __setitem__(self, i, v): pass
    def __iter__(self): return iter((self, self))


_any = _Any()


def plots():
    m = {}
    for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.ticker"):
        m[n] = _Anything(n); m[n].__path__ = []
    m["matplotlib"].pyplot = m["matplotlib.pyplot"]
    return m


def preload(*names):
    """import what the programs import, so that not every run has to"""
    import ast, importlib
    mods = ["scipy.optimize", "scipy.spatial", "astropy.table", "astropy.io.ascii", "astropy.io.misc.yaml"]
    for n in names:
        try:
            with open(os.path.join(mc.REPO, "bin", n)) as f: tree = ast.parse(f.read())
        except (OSError, SyntaxError): continue         # reported when the program is run
        for e in ast.walk(tree):
            mods += [a.name for a in e.names] if isinstance(e, ast.Import) else [e.module] if isinstance(e, ast.ImportFrom) and e.module else []
    for m in mods:
        if m.split(".")[0] in ("desimeter", "scipy", "astropy", "numpy", "fitsio", "yaml"):
            try: importlib.import_module(m)
            except Exception: pass


def run(name, argv, modules=None, answers=None, env=None, cwd=None, setup=None):
    """returns (exit code, printed text); 250: uncaught exception (the text ends with it)"""
    path = name if os.path.isabs(name) else os.path.join(mc.REPO, "bin", name)
    fd, out = tempfile.mkstemp(prefix="vmc_prog_", dir=os.environ.get("TMPDIR") or "/tmp")
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 251
        try:
            os.dup2(fd, 1); os.dup2(fd, 2)
            sys.stdout = os.fdopen(os.dup(1), "w", buffering=1); sys.stderr = os.fdopen(os.dup(2), "w", buffering=1)
            import multiprocessing
            multiprocessing.current_process()._config["daemon"] = False     # the program may have processes of its own
            if cwd: os.chdir(cwd)
            os.environ.update(env or {})
            sys.modules.update(plots()); sys.modules.update(modules or {})
            sys.argv = [path]+[str(a) for a in argv]
            it = iter(answers or [])

            def ask(prompt=""):
                try: return next(it)
                except StopIteration: raise EOFError("no more answers")
            builtins.input = ask
            if setup: setup()
            try:
                runpy.run_path(path, run_name="__main__")
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException:
                traceback.print_exc(); code = 250
            sys.stdout.flush(); sys.stderr.flush()
        finally:
            os._exit(code & 255)
    _, st = os.waitpid(pid, 0)
    os.close(fd)
    with open(out) as f: text = f.read()
    os.remove(out)
    return (os.WEXITSTATUS(st) if os.WIFEXITED(st) else 252), text
