#!/usr/bin/env python3
"""Decides one property on /repo's current tree.

    check.py --property C05 [--tier quick|thorough]     exit 0: held; exit 1: VIOLATION line
    check.py --replay evidence/replays/C05-....json      runs a recorded failing input again

The deciding step is the deductive verifier (pyvc): contracts of /verif/contracts over the source of /repo, discharged
function by function.  The same contracts are evaluated at run time on generated inputs (rt): this replays refuted
obligations on the real code and stands in, labelled bounded, for what is out of the verifier's reach.
"""
import argparse
import json
import os
import subprocess
import sys
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
PY = "python3-vt"
EVIDENCE = HERE / "evidence"
REPLAYS = EVIDENCE / "replays"

BUDGET = {"quick": dict(shards=3, search=24, directed=45), "thorough": dict(shards=7, search=240, directed=120)}


def environment(hashseed):
    e = dict(os.environ)
    e["PYTHONPATH"] = str(HERE)
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def start_search(prop, seed, shards, budget, offset=0):
    out = []
    for k in range(shards):
        cmd = [PY, "-m", "rt.worker", "--property", prop, "--seed", str(seed), "--budget", str(budget), "--start", str(offset + k * 1000000)]
        out.append((k + offset, subprocess.Popen(cmd, cwd=HERE, env=environment(k + 1), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), time.time()))
    return out


def collect_search(procs, budget):
    total = {"evaluations": 0, "skipped": 0, "per_case": {}, "failures": [], "problems": []}
    for k, p, t0 in procs:
        try:
            out, err = p.communicate(timeout=max(5, budget + 150 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            total["problems"].append("a shard of the run-time search did not end")
            continue
        try:
            st = json.loads(out.strip().splitlines()[-1])
        except (IndexError, ValueError):
            total["problems"].append("a shard of the run-time search broke: " + err[-600:])
            continue
        if "import_error" in st:
            total["failures"].append({"case": "import", "index": 0, "seed": 0, "message": "the code cannot be imported\n" + st["import_error"], "hashseed": k + 1})
            continue
        total["evaluations"] += st["evaluations"]
        total["skipped"] += st["skipped"]
        for n, v in st["per_case"].items():
            total["per_case"][n] = total["per_case"].get(n, 0) + v
        for f in st["failures"]:
            total["failures"].append(dict(f, hashseed=k + 1))
    return total


def rerun(prop, f):
    """The failing input again, in a fresh process."""
    cmd = [PY, "-m", "rt.worker", "--property", prop, "--seed", str(f["seed"]), "--case", f["case"], "--index", str(f["index"])]
    try:
        r = subprocess.run(cmd, cwd=HERE, env=environment(f.get("hashseed", 1)), capture_output=True, text=True, timeout=150)
        return json.loads(r.stdout.strip().splitlines()[-1]).get("message")
    except (subprocess.TimeoutExpired, IndexError, ValueError):
        return None


def write_replay(prop, kind, body):
    REPLAYS.mkdir(parents=True, exist_ok=True)
    path = REPLAYS / f"{prop}-{kind}.json"
    path.write_text(json.dumps(dict(body, property=prop, kind=kind), indent=1, default=str))
    return path


def known_findings(prop):
    out = []
    f = HERE / "KNOWN_FINDINGS.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith(f"finding: property={prop} "):
                out.append(line[len(f"finding: property={prop} "):])
    return out


def start_proof(prop, tier, seed):
    if not (HERE / "pyvc" / "verify.py").exists():
        return None
    out = EVIDENCE / f".proof-{prop}.json"
    if out.exists():
        out.unlink()
    cmd = [PY, "-m", "pyvc.verify", "--property", prop, "--tier", tier, "--out", str(out)]
    return subprocess.Popen(cmd, cwd=HERE, env=environment(1), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), out, time.time()


def collect_proof(job, limit):
    if job is None:
        return None
    p, out, t0 = job
    try:
        _, err = p.communicate(timeout=max(5, limit - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"error": "the verifier did not end in time"}
    try:
        d = json.loads(out.read_text())
        out.unlink()
        return d
    except (OSError, ValueError):
        return {"error": "the verifier broke: " + err[-2000:]}


def replay(path):
    d = json.loads(Path(path).read_text())
    if d["kind"] == "obligation":
        print(json.dumps(d.get("failed"), indent=1))
        print("no failing input was found for these obligations")
        return 1
    for _ in range(4):
        m = rerun(d["property"], d["input"])
        if m is not None:
            print(m)
            return 1
    print("the recorded input does not fail on this tree")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop, tier = a.property, a.tier if a.tier in BUDGET else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    b = BUDGET[tier]
    EVIDENCE.mkdir(exist_ok=True)
    proof_job = start_proof(prop, tier, seed)
    st = collect_search(start_search(prop, seed, b["shards"], b["search"]), b["search"])
    proof = collect_proof(proof_job, 430 if tier == "quick" else 800)

    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")

    failures = [f for f in st["failures"]]
    undischarged = []
    if proof is not None and "error" not in proof:
        undischarged = [o for o in proof["obligations"] if o["status"] in ("refuted", "unknown")]
    if undischarged and not failures:
        # replay: look for a concrete input on which a contract fails on the real code
        more = collect_search(start_search(prop, seed + 1000, 7, b["directed"], offset=50), b["directed"])
        for k in ("evaluations", "skipped"):
            st[k] += more[k]
        for n, v in more["per_case"].items():
            st["per_case"][n] = st["per_case"].get(n, 0) + v
        failures = more["failures"]
    confirmed = None
    if failures:
        f = failures[0]
        again = f["message"] if f["case"] == "import" else rerun(prop, f)
        confirmed = dict(f, confirmed_again=again is not None)
        if again is None and f["message"].startswith("no termination"):
            confirmed = None  # a slow machine, not the code
    status = 0
    if confirmed:
        path = write_replay(prop, "input", {"input": confirmed, "failed": undischarged, "how": "check.py --replay <this file>"})
        print(confirmed["message"][:1500])
        print(f"VIOLATION property={prop} replay={path}")
        status = 1
    elif undischarged:
        path = write_replay(prop, "obligation", {"failed": undischarged})
        for o in undischarged[:5]:
            print("undischarged obligation:", o["name"], "at", o.get("where"), "-", o["status"], str(o.get("detail", ""))[:400])
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        status = 1
    evidence(prop, tier, seed, st, proof, status, time.time() - t0)
    return status


def evidence(prop, tier, seed, st, proof, status, wall):
    bounded = {
        "evaluations": st["evaluations"],
        "distinct_nontrivial": st["evaluations"] - st["skipped"],
        "rule": "every case is generated from (seed, case, index): random places, requests, vehicles, routes and operations; "
                "it is non-trivial when the generated input meets the preconditions of the contract",
        "per_case": st["per_case"],
        "problems": st["problems"],
        "samples": [f"{n}: indices 0..{v - 1} per shard, seed {seed}" for n, v in list(st["per_case"].items())[:6]] or ["none"],
    }
    coverage = dict(bounded)
    level = "exploration"
    assumptions = [
        "Python's data model, the standard library and the libraries in use behave as documented",
    ]
    if proof is not None and "error" not in proof and proof.get("obligations"):
        obs = proof["obligations"]
        level = "proof"
        coverage = {
            "obligations": len(obs),
            "discharged": sum(o["status"] == "proved" for o in obs),
            "checker_cmd": f"{PY} -m pyvc.verify --property {prop} --tier {tier} --out OUT.json",
            "trusted_base": proof["trusted_base"],
            "functions_under_contract": proof["functions"],
            "back_ends": proof["back_ends"],
            "solver_time_s": proof["solver_time_s"],
            "vacuity_guards": proof.get("guards"),
            "out_of_reach": proof.get("unsupported", []),
            "bounded_run_time_contracts": bounded,
            "samples": [f'{o["name"]} [{o["status"]}]' for o in obs[:8]],
        }
        assumptions = proof["assumptions"] + assumptions
    elif proof is not None and "error" in proof:
        coverage["verifier_error"] = proof["error"]
    (EVIDENCE / f"{prop}.json").write_text(json.dumps({
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage, "assumptions": assumptions,
        "wall_s": round(wall, 2), "violations": status,
    }, indent=1, default=str))


if __name__ == "__main__":
    sys.exit(main())
