import sys, os, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.path.dirname(here), "checks"))
import mc
def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = []
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"): tier = x
        elif x == "--section": only.append(a.pop(0))
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import glob
    path = glob.glob(os.path.join(os.path.dirname(here), "checks", prop.lower() + "_*.py"))[0]
    spec = importlib.util.spec_from_file_location(os.path.basename(path)[:-3], path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = m
    spec.loader.exec_module(m)
    mc.run(m, tier, seed, only)
main()
