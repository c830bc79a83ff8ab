"""One shard of the run-time contract search: prints its statistics as JSON on the last line."""
import argparse
import importlib
import json
import sys
import traceback

MODULES = {
    "models1": "C01 C02 C03 C04 C05 C12 C13 C20 C21",
    "models2": "C06 C07 C08",
    "algos": "C09 C10 C11 C14",
    "io": "C15 C16 C17 C19 C22",
    "milp": "C18",
}


def load(prop):
    for m, ps in MODULES.items():
        if prop in ps.split():
            importlib.import_module("rt." + m)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--case")
    ap.add_argument("--index", type=int)
    a = ap.parse_args()
    try:
        load(a.property)
        from rt import harness
    except Exception:
        print(json.dumps({"import_error": traceback.format_exc()}))
        return
    harness.limit_memory(8)
    if a.case is not None:
        fn = next(f for n, f, _ in harness.CASES[a.property] if n == a.case)
        msg = harness.run_one(a.property, a.case, fn, a.seed, a.index)
        print(json.dumps({"message": msg}))
        return
    st = harness.search(a.property, a.seed, a.budget, start=a.start)
    for f in st["failures"]:
        f["message"] = f["message"][:4000]
    print(json.dumps(st))


if __name__ == "__main__":
    sys.setrecursionlimit(5000)
    main()
