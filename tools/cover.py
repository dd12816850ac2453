"""Line coverage of the code under test by the checks (development tool, not a check).

  cover.py OUTDIR PROP...   writes OUTDIR/PROP.json: {file: [lines executed inside functions]}
Run with the environment of run.sh (see tools/cover.sh)."""
import json, os, sys, tempfile, threading
import vlib.main as M

out, props = os.path.abspath(sys.argv[1]), sys.argv[2:]
repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
roots = (repo + "/src/python/", repo + "/steps/")
real = M.worker


def traced(check, tier, seed, w, *rest):
    seen = {}

    def glob(frame, ev, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(roots):
            return None
        s = seen.setdefault(fn, set())
        s.add(frame.f_lineno)

        def loc(frame, ev, arg):
            s.add(frame.f_lineno)
            return loc

        return loc

    sys.settrace(glob)
    threading.settrace(glob)
    try:
        real(check, tier, seed, w, *rest)
    finally:
        sys.settrace(None)
        with open(f"{out}/{check.id}.{w}", "w") as f:
            json.dump({k[len(repo) + 1:]: sorted(v) for k, v in seen.items()}, f)


M.worker = traced
os.environ["VERIF_EVIDENCE"] = out + "/ev"
for p in props:
    tempfile.tempdir = "/tmp"
    sys.argv = ["run", p]
    M.main()
    tot = {}
    for w in range(8):
        f = f"{out}/{p}.{w}"
        with open(f) as g:
            for k, v in json.load(g).items():
                tot.setdefault(k, set()).update(v)
        os.remove(f)
    with open(f"{out}/{p}.json", "w") as g:
        json.dump({k: sorted(v) for k, v in tot.items()}, g)
