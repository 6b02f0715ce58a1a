import os, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
PROPS = {}

def prop(pid, gen):
    def deco(f):
        PROPS[pid] = (gen, f)
        return f
    return deco

_m = None
def lib():
    global _m
    if _m is None:
        import simplemseed
        assert os.path.realpath(simplemseed.__file__).startswith(os.path.realpath(REPO) + os.sep), simplemseed.__file__
        _m = simplemseed
    return _m

def run_main(main, argv, files, out):
    """run a command's main() on scratch files; gives (error or None, bytes of the output file)"""
    import tempfile, io, contextlib
    with tempfile.TemporaryDirectory() as d:
        for nm, b in files.items():
            with open(os.path.join(d, nm), "wb") as f: f.write(b)
        old = sys.argv
        sys.argv = ["command"] + [os.path.join(d, a[1:]) if a.startswith("@") else a for a in argv]
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    rc = main()
                    err = f"exit {rc}" if rc else None
                except SystemExit as e: err = f"exit {e.code}" if e.code else None
                except Exception as e: err = f"{type(e).__name__}: {e}"
        finally: sys.argv = old
        q = os.path.join(d, out)
        b = None
        if os.path.exists(q):
            with open(q, "rb") as f: b = f.read()
        return err, b
