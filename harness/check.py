"""./check <property> [--replay FILE]: decide one property on /repo's working tree."""
import importlib, json, os, sys, time, hashlib, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import warnings
warnings.simplefilter("ignore")
import tlc, pool


class Ctx(object):
    """What a property module gets: tier, seed, and bookkeeping of TLC runs."""
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.quick = tier == "quick"
        self.states = self.transitions = 0
        self.tlc_runs = []
        self.assumptions = []

    def tlc(self, module, constants=None, **kw):
        t = time.time()
        r = tlc.run(module, constants, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.tlc_runs.append({"module": module, "constants": {k: repr(v) for k, v in (constants or {}).items()},
                              "distinct_states": r.distinct, "generated_states": r.states,
                              "records": len(r.records), "s": round(time.time() - t, 1)})
        return r


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    a = sys.argv[1:]
    pid = a[0]
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.chdir(REPO)
    t0 = time.time()
    mod = importlib.import_module("props." + pid.lower())
    try:
        import pynare  # before forking; a failing import is observed by every case
    except BaseException:
        pass
    ctx = Ctx(tier, seed)
    if replay:
        rec = json.load(open(replay))
        if rec["case"].get("ctx"):
            ctx.seed, ctx.tier = rec["case"]["ctx"]
        cases = [rec["case"]]
    else:
        cases = mod.cases(ctx)
    results, n_run = pool.run(mod.run, cases, timeout=getattr(mod, "TIMEOUT", 20.0),
                              stop_after=None if replay else getattr(mod, "STOP_AFTER", 400))
    # trace validation: run() may return {"trace": ...} observations judged by TLC afterwards
    if hasattr(mod, "judge"):
        results = mod.judge(ctx, cases, results)
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "open"]
    bad, seen = [], {}
    for c, r in zip(cases, results):
        if not r:
            continue
        k = next((k for k in known if c.get("id") == k.get("id") and
                  (not k.get("observed_contains") or k["observed_contains"] in str(r))), None)
        if k:
            seen[k["id"]] = k
        else:
            bad.append((c, r))
    if not replay:
        cov = {"states": ctx.states, "transitions": ctx.transitions,
               "traces_validated_against_impl": n_run,
               "samples": [mod.sample(c) if hasattr(mod, "sample") else c
                           for c in cases[:: max(1, len(cases) // 3)][:4]],
               "tlc_runs": ctx.tlc_runs}
        if hasattr(mod, "coverage"):
            cov.update(mod.coverage(cases))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": cov,
              "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
              "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in seen.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s: %d cases run, %d states, %.1fs" % (pid, n_run, ctx.states, time.time() - t0))
    if n_run == 0 and not replay:
        print("no case was run"); return 2
    if bad:
        od = os.path.join(ROOT, "out", pid)
        os.makedirs(od, exist_ok=True)
        for c, r in bad[:5]:
            h = hashlib.sha1(json.dumps(c, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(od, h + ".json")
            with open(path, "w") as f:
                json.dump({"property": pid, "case": c, "observed": r}, f, indent=1, default=str)
            print("--- case %s" % c.get("id"))
            print(str(r)[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, ROOT)))
        print("%d failing cases" % len(bad))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
