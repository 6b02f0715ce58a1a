#!/opt/venv/bin/python
"""Contract-driven concrete search on the real code (bounded, labelled so).
run.py PID --seed S --secs T --cases N --out FILE [--replay CASEFILE]"""
import sys, os, json, time, random, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

def load():
    import importlib
    for m in ("steimp", "ms3p", "sidp", "ms2p"):
        importlib.import_module(m)

def run_case(f, case):
    return f(case)

def shrink(f, case, secs=5.0):
    """greedy: drop list elements / shorten while the violation persists"""
    t0 = time.time()
    def bad(c):
        try: return f(c)
        except Exception: return None
    cur = case
    improved = True
    while improved and time.time() - t0 < secs:
        improved = False
        for k, v in list(cur.items()):
            if isinstance(v, list) and len(v) > 1:
                step = len(v) // 2
                while step >= 1 and time.time() - t0 < secs:
                    i = 0
                    while i < len(cur[k]) and len(cur[k]) > 1:
                        c = dict(cur); c[k] = cur[k][:i] + cur[k][i + step:]
                        if c[k] and bad(c): cur = c; improved = True
                        else: i += step
                        if time.time() - t0 > secs: break
                    step //= 2
    return cur

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--secs", type=float, default=20); ap.add_argument("--cases", type=int, default=10**9)
    ap.add_argument("--start", type=int, default=0); ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--out"); ap.add_argument("--replay"); ap.add_argument("--extra")
    a = ap.parse_args()
    load()
    gen, f = common.PROPS[a.pid]
    if a.replay:
        case = json.load(open(a.replay))
        case = case.get("case", case)
        r = f(case)
        print(r if r else "no violation")
        sys.exit(1 if r else 0)
    t0 = time.time(); n = 0; seen = set(); samples = []; viol = None; known = {}
    extra = json.load(open(a.extra)) if a.extra and os.path.exists(a.extra) else []
    i = a.start; errs = 0
    import hashlib
    queue = [(c, "verifier") for c in extra]
    while n < a.cases and time.time() - t0 < a.secs:
        if queue: case, src = queue.pop(0)
        else:
            rng = random.Random(f"{a.seed}:{a.pid}:{i}")
            case, src = gen(rng, i), "search"
            case = json.loads(json.dumps(case))
            i += a.stride
        try:
            r = f(case)
        except Exception as e:
            import traceback
            r = f"unexpected {type(e).__name__}: {e} :: " + traceback.format_exc()[-600:].replace("\n", " | ")
        n += 1
        h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).digest()
        if h not in seen:
            seen.add(h)
            if len(samples) < 3 and n > 3 * (len(samples) + 1): samples.append(json.dumps(case)[:400])
        if isinstance(r, dict):     # known finding candidate {"known": key, "msg": ...}
            known.setdefault(r["known"], {"case": case, "msg": r["msg"], "count": 0})["count"] += 1
            r = None
        if r:
            viol = {"case": case, "message": r, "source": src, "index": i - a.stride}
            break
    if viol:
        try:
            s = shrink(f, viol["case"])
            m = f(s)
            if isinstance(m, str): viol.update(case=s, message=m, original=viol["case"] if s != viol["case"] else None)
        except Exception: pass
    res = {"pid": a.pid, "evaluations": n, "distinct": len(seen), "samples": samples, "violation": viol, "known": known, "secs": time.time() - t0}
    if a.out: json.dump(res, open(a.out, "w"))
    else: print(json.dumps(res, indent=1)[:3000])
    sys.exit(0)

if __name__ == "__main__": main()
