"""Driver: ./check <ID> [tier]  |  ./check --replay FILE"""

from __future__ import annotations

import base64
import glob
import importlib
import json
import os
import pickle
import sys
import time

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")  # overridden only while developing
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)

TRUSTED = [
    "pyvc symbolic semantics of Python and numpy/numpy.ma (pyvc/*.py); cross-checked against CPython on concrete inputs in every run",
    "z3 5.3.2 / cvc5 1.1.2",
    "CPython, numpy and libraries reached through native calls",
]
ASSUME = [
    "float arithmetic is treated as exact real arithmetic in proofs (rounding, overflow and infinities are not modelled; NaN is modelled)",
    "integers are mathematical integers in proofs (numpy fixed-width wrap-around is not modelled)",
    "log10/exp/sqrt/cos/... are uninterpreted functions constrained by the axioms in pyvc/runner.py:math_axioms",
]


def load(pid):
    m = importlib.import_module(f"contracts.{pid.lower()}")
    return m


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:") and f"property={pid} " in line + " ":
                out.append(line)
    return out


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import pyvc  # noqa: F401
    from pyvc import runner
    evp = os.path.join(HERE, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    for f in glob.glob(os.path.join(HERE, "evidence", f"replay_{pid}_*.json")):
        os.unlink(f)
    try:
        mod = load(pid)
    except Exception as e:  # noqa: BLE001
        # the tree under test cannot be imported as the contracts need it
        rp = os.path.join(HERE, "evidence", f"replay_{pid}_0.json")
        json.dump({"property": pid, "obligation": "functions under contract can be imported", "error": f"{type(e).__name__}: {e}"}, open(rp, "w"))
        print(f"{pid}: cannot load: {type(e).__name__}: {e}")
        print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        json.dump(dict(property=pid, tier=tier, seed=seed, level="proof", coverage=dict(obligations=0, discharged=0, checker_cmd=f"./check {pid}", trusted_base=TRUSTED), wall_s=time.time() - t0, violations=1), open(evp, "w"))
        return 1
    contracts = mod.CONTRACTS
    names = set()
    for c in contracts:
        assert c.name not in names, f"duplicate contract {c.name}"
        names.add(c.name)
    total = 700 if tier == "quick" else 3300
    results = runner.run_all(contracts, tier, seed, total)
    viol = []
    for r in results:
        if r.get("crash"):
            continue
        for v in r["violations"]:
            viol.append((r, v))
    viol.sort(key=lambda rv: not rv[1]["confirmed"])
    # --- extra checks (bounded/other) registered by the module
    findings = known_findings(pid)
    nf = 0
    for key, fn in getattr(mod, "FINDINGS", {}).items():
        listed = any(f"id={key} " in line + " " for line in findings)
        try:
            what = fn()
        except Exception as e:  # noqa: BLE001
            what = f"{key}: {type(e).__name__}: {e}"
        if what:
            if listed:
                nf += 1
                print(f"KNOWN-FINDING: property={pid} {key}: {what}")
            else:
                viol.append((dict(contract=key, target=key, variant=0), dict(obligation=key, confirmed=True, how=what, input=None)))
    code = 0
    for i, (r, v) in enumerate(viol[:6]):
        rp = os.path.join(HERE, "evidence", f"replay_{pid}_{i}.json")
        json.dump(dict(property=pid, contract=r["contract"], target=r["target"], variant=r["variant"], **v), open(rp, "w"), indent=1, default=str)
        tail = "" if v["confirmed"] else " no-failing-input-found"
        print(f"{pid} {r['contract']}[{r['variant']}]: obligation failed: {v['obligation']} ({v.get('how')}) {v.get('solver', '')}")
        print(f"VIOLATION property={pid} replay={rp}{tail}")
        code = 1
    ok = [r for r in results if not r.get("crash")]
    nob = sum(r["obligations"] for r in ok if r["mode"] == "proved")
    ndis = sum(r["discharged"] for r in ok if r["mode"] == "proved")
    proved, standin = {}, {}
    for r in results:
        key = f"{r['contract']}[{r['variant']}]"
        if r.get("crash"):
            standin[key] = f"{r['target']}: not decided: {r['crash']}"
        elif r["mode"] == "proved":
            proved[key] = r
        elif r["mode"] == "bounded":
            standin[key] = f"{r['target']}: bounded, {r['evals']} inputs ({r['distinct']} distinct): {r['unsupported'] or 'declared bounded'}"
    if not nob and not any(r.get("mode") == "bounded" for r in results) and not viol:
        rp = os.path.join(HERE, "evidence", f"replay_{pid}_0.json")
        json.dump(dict(property=pid, obligation="at least one obligation is generated", results=[{k: v for k, v in r.items() if k != "undischarged"} for r in results]), open(rp, "w"), default=str)
        print(f"{pid}: nothing was decided")
        print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        code = 1
    back = {}
    for r in ok:
        for k, n in r["backends"].items():
            back[k] = back.get(k, 0) + n
    level = getattr(mod, "LEVEL", "proof")
    cov = dict(
        obligations=nob, discharged=ndis,
        undischarged=sum(len(r["undischarged"]) for r in ok),
        checker_cmd=f"./check {pid} {tier}",
        trusted_base=TRUSTED + list(getattr(mod, "TRUSTED", [])),
        backends=back, solver_s=round(sum(r["solver_s"] for r in ok), 2),
        functions_under_contract=sorted({r["target"] for r in ok if r["mode"] == "proved"}),
        functions_interpreted=sorted({f for r in ok for f in r["functions"]}),
        contracts_used_at_call_sites=sorted({f for r in ok for f in r["contract_calls"]}),
        contract_variants_proved=len(proved), paths=sum(r["paths"] for r in ok),
        bounded_standins=standin,
        evaluations=sum(r["evals"] for r in ok), distinct_nontrivial=sum(r["distinct"] for r in ok),
        rule="random inputs drawn from each contract's input descriptors, satisfying its precondition; distinct by content hash",
        engine_crosschecks=sum(r["xcheck"] for r in ok),
        engine_crosscheck_mismatches=sum(len(r["xdiff"]) for r in ok),
        samples=[dict(contract=r["contract"], input=r["sample"]) for r in ok[:2]],
        known_findings=nf,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUME + list(getattr(mod, "ASSUMPTIONS", [])) + [f"{r['contract']}: {r['note']}" for r in ok if r.get("note") and r["variant"] == 0],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(evp, "w"), indent=1, default=str)
    print(f"{pid}: {ndis}/{nob} obligations discharged in {len(proved)} contract variants; {len(standin)} bounded; "
          f"{cov['evaluations']} concrete evaluations; {cov['engine_crosschecks']} engine cross-checks; {time.time() - t0:.1f}s")
    if os.environ.get("PYVC_VERBOSE"):
        for k, v in standin.items():
            print("   stand-in", k, v)
        for r in ok:
            if r["xdiff"]:
                print("   xdiff", r["contract"], r["variant"], r["xdiff"][:2])
            if r.get("xunsup"):
                print("   xunsup", r["contract"], r["variant"], r["xunsup"])
            for u in r["undischarged"]:
                print("   undischarged", r["contract"], r["variant"], u)
            if r["vacuous"]:
                print("   VACUOUS", r["contract"], r["variant"], r["vacuous"])
        for r in sorted(ok, key=lambda r: -r.get("wall", 0))[:5]:
            print("   slow", r["contract"], r["variant"], round(r.get("wall", 0), 1), "solver", round(r["solver_s"], 1), "paths", r["paths"], "obl", r["obligations"])
    return code


def replay(path):
    from pyvc import runner
    d = json.load(open(path))
    mod = load(d["property"])
    c = next((c for c in mod.CONTRACTS if c.name == d["contract"]), None)
    if c is None or not d.get("pick"):
        print(json.dumps({k: v for k, v in d.items() if k != "pick"}, indent=1))
        print("no concrete input to replay")
        return 1
    dims, args = pickle.loads(base64.b64decode(d["pick"]))
    bad = runner.failing(c, dims, args)
    print("input:", json.dumps(d.get("input"))[:2000])
    print("failed obligations:", bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
