"""Discharge the contracts of one property: python3-vt prove.py PID [--tier T] [--out FILE] [--budget S] [--unit NAME]"""
import sys, os, json, time, importlib, glob, argparse, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "contracts"))
sys.setrecursionlimit(20000)

BROKEN = []
def load():
    import vc, re
    BROKEN.clear()
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
        name = os.path.basename(f)[:-3]
        try: importlib.import_module(name)
        except Exception as e:
            # contracts that do not fit the code any more: the properties they are for are not decided
            BROKEN.append((name, set(re.findall(r"\bC\d\d\b", open(f).read())), f"{type(e).__name__}: {e}"))
            vc.UNITS[:] = [u for u in vc.UNITS if u.fn.__module__ != name]
    return vc

def child(conn, i, budget):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        vc = load()
        r = vc.run_unit(vc.UNITS[i], budget)
    except BaseException as e:
        r = {"name": str(i), "error": f"{type(e).__name__}: {e}"}
    conn.send(r); conn.close()

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default="quick"); ap.add_argument("--out"); ap.add_argument("--budget", type=float, default=600)
    ap.add_argument("--unit"); ap.add_argument("--procs", type=int, default=0); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    try: vc = load()
    except Exception as e:
        # the code under verification cannot even be loaded
        res = {"z3": "", "cvc5": "", "trusted_base": [], "units": [{"name": "load", "functions": [], "obligations": [{"name": "the library can be imported", "status": "undecided", "backend": "python", "secs": 0, "count": 1, "detail": f"{type(e).__name__}: {e}", "case": None}], "assumptions": [], "secs": 0, "paths": 0, "covers": []}]}
        if a.out: json.dump(res, open(a.out, "w"))
        print(json.dumps(res)[:2000]); return
    idx = [i for i, u in enumerate(vc.UNITS) if (a.pid == "all" or a.pid in u.pids) and (a.unit is None or a.unit in u.name) and (a.tier == "thorough" or not u.thorough)]
    idx.sort(key=lambda i: -vc.UNITS[i].weight)
    procs = a.procs or min(8, max(1, (os.cpu_count() or 4)))
    ctx = mp.get_context("fork")
    todo, running, done = list(idx), [], {}
    while todo or running:
        while todo and len(running) < procs:
            i = todo.pop(0)
            left = a.budget - (time.time() - t0)
            if left < 5:
                done[i] = None; continue
            p, c = ctx.Pipe()
            pr = ctx.Process(target=child, args=(c, i, left)); pr.start(); c.close()
            running.append((i, pr, p, time.time()))
        for r in list(running):
            i, pr, p, st = r
            if p.poll(0.01):
                try: done[i] = p.recv()
                except EOFError: done[i] = {"error": "the prover process died"}
                pr.join(); running.remove(r)
                if a.v:
                    d = done[i]
                    print(f"{time.time()-t0:7.1f}s {vc.UNITS[i].name}: " + (d.get("error") or f"{sum(o['status']=='discharged' for o in d['obligations'])}/{len(d['obligations'])} in {d['secs']}s, {d['paths']} paths, {d['branch_checks']} checks"), flush=True)
            elif not pr.is_alive() and not p.poll(0):
                done[i] = {"error": "the prover process died"}; running.remove(r)
            elif time.time() - t0 > a.budget + 15:
                pr.kill(); pr.join(); done[i] = {"error": "time budget exhausted"}; running.remove(r)
        time.sleep(0.02)
    units = []
    for i in idx:
        r = done.get(i) or {"error": "time budget exhausted"}
        u = vc.UNITS[i]
        if "error" in r:
            r = {"name": u.name, "functions": [], "obligations": [{"name": f"{u.name}: proof completes", "status": "undecided", "backend": "pyvc", "secs": 0, "count": 1, "detail": r["error"], "case": None}], "assumptions": u.assume, "secs": 0, "paths": 0, "covers": []}
        units.append(r)
    for name, pids, why in BROKEN:
        if a.pid == "all" or a.pid in pids:
            units.append({"name": name, "functions": [], "obligations": [{"name": f"{name}: the contracts fit the code", "status": "undecided", "backend": "python", "secs": 0, "count": 1, "detail": why, "case": None}], "assumptions": [], "secs": 0, "paths": 0, "covers": []})
    import z3
    try:
        import cvc5; cv = cvc5.__version__
    except Exception: cv = "absent"
    tb = ["pyvc: AST interpreter and verification condition generator in /verif/pyvc (cross-checked against CPython by pyvc/selftest.py)", f"z3 {z3.get_version_string()}", f"cvc5 {cv} (second opinion when z3 answers unknown)"]
    res = {"z3": z3.get_version_string(), "cvc5": cv, "trusted_base": tb, "units": units, "secs": round(time.time() - t0, 1)}
    if a.out: json.dump(res, open(a.out, "w"), default=str)
    n = bad = 0
    for u in units:
        for o in u["obligations"]:
            n += 1
            if o["status"] != "discharged":
                bad += 1
                print(f"NOT DISCHARGED [{u['name']}] {o['name']}: {o['status']} {o.get('detail') or ''} {o.get('model') or ''}"[:1500])
            elif a.v: print(f"  ok {o['name']} x{o['count']} {o['backend']} {o['secs']}s")
    print(f"{a.pid}: {n} obligations, {bad} not discharged, {len(units)} units, {res['secs']} s")

if __name__ == "__main__": main()
