#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  - decides one property of the code in /repo.

Plays scenarios of the property's profiles (seeded random ones and exhaustive
message trees) on the real code and lets TLC check that what it did is a
behaviour of the TLA+ specification on which all property invariants hold.
check.py --replay <file> repeats a recorded violation."""
import json, os, random, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import conf
from conf import *
from registry import PROPS, models

def rejected(work, p, binary, scs, res=None):
    res = res or p.drive(binary, scs)
    traces = [(s.name, s.trace(res[s.name])) for s in scs if s.name in res]   # after hangs, not all are played
    bad, st, tr = check_traces(work, p.module, traces, order=p.order)
    return bad, st, tr, traces, res

def explore(work, p, tier):
    """The specification alone: every word of the property's alphabets, its invariants in every state."""
    ms = models(p, 20000 if tier == "thorough" else 250)
    if not ms: return None
    path = work.path("model.json")
    with open(path, "w") as fh: json.dump(ms, fh)
    rc, out = tlc(work, "NavModel.tla", env={"MODEL": path}, workers=JOBS, heap="8g", timeout=7200 if tier == "thorough" else 600)
    if rc: raise HarnessError("the specification does not have its own properties:\n" + out[-3000:])
    g, d = (int(x.replace(",", "")) for x in STATS.findall(out)[-1])
    return {"models": len(ms), "word_lengths": [m["depth"] for m in ms], "states": d, "transitions": g}

def run(pid, tier, seed):
    t0 = time.time(); p = PROPS[pid]
    with Work() as work:
        binary = build(work, p.target)
        scs = p.scenarios(tier, seed)
        bad, st, tr, traces, res = rejected(work, p, binary, scs)
        confirmed, tried = {}, []
        for name in list(bad)[:3]:      # a rejection counts when the real code repeats it
            again = [s for s in scs if s.name == name]; tried.append(name)
            for _ in range(3):
                b2 = rejected(work, p, binary, again)[0]
                if b2: confirmed[name] = b2[name]; break
            if name in confirmed: break
        model = explore(work, p, tier) if not bad else None
        if model: st += model["states"]; tr += model["transitions"]
        lines = sum(len(t) for _, t in traces)
        sample = traces[0][1][:1] + traces[0][1][-1:]
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": st, "transitions": tr, "traces_validated_against_impl": len(traces) - len(bad),
                           "scenarios": len(scs), "trace_lines": lines, **({"specification_alone": model} if model else {}), **p.counts(scs, traces),
                           "samples": [{"scenario": scs[0].name, "first_and_last_line": sample}]},
              "assumptions": p.assumptions, "violations": len(confirmed), "wall_s": round(time.time() - t0, 1)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh: json.dump(ev, fh, indent=1)
        for name, why in confirmed.items():
            d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{pid}-{name}.json")
            s = next(s for s in scs if s.name == name)
            with open(path, "w") as fh:
                json.dump({"property": pid, "tier": tier, "seed": seed, "scenario": name, "driver_input": s.driver_text(),
                           "trace_line": why["line"], "detail": why["detail"], "observed": res[name][max(0, why["line"] - 4):why["line"]]}, fh, indent=1)
            print(f"{pid}: scenario {name}, trace line {why['line']} is not a behaviour of the specification:\n{why['detail'][:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        for name in tried:
            if name not in confirmed: print(f"{pid}: note: {name} rejected once, not repeated" , file=sys.stderr)
        if not confirmed:
            print(f"{pid} {tier}: ok, {len(scs)} scenarios, {lines} trace lines, {st} states, {time.time()-t0:.1f} s")
        return 1 if confirmed else 0

def replay(path):
    r = json.load(open(path)); p = PROPS[r["property"]]
    with Work() as work:
        binary = build(work, p.target)
        scs = [s for s in p.scenarios(r["tier"], r["seed"]) if s.name == r["scenario"]]
        bad = rejected(work, p, binary, scs)[0]
        for n, why in bad.items():
            print(why["detail"]); print(f"VIOLATION property={r['property']} replay={path}")
        return 1 if bad else 0

def setup():
    """The tools are there, the overrides compile, and every specification parses."""
    with Work() as work:
        cls = overrides(work)
        spec = os.path.join(VERIF, "spec")
        for m in sorted(os.listdir(spec)):
            if not m.endswith(".tla"): continue
            p = sh(["java", "-cp", f"{CP}:{cls}", "tla2sany.SANY", m], cwd=spec)
            if p.returncode or "rror" in p.stdout: raise HarnessError(f"{m} does not parse:\n{p.stdout[-2000:]}")
    print("setup: ok"); return 0

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
        if sys.argv[1] == "--setup": sys.exit(setup())
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(run(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
    except HarnessError as e:
        print(f"check error: {e}", file=sys.stderr); sys.exit(2)
