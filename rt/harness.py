"""Run-time evaluation of contracts: cases, their generator, and the search for a failing input.

A case is a function of a random generator; it builds inputs, runs the real code and raises ``Violation`` when a
contract is broken.  Any other exception raised while the real code handles a legal input is a violation as well.
"""
import os
import random
import resource
import signal
import time
import traceback

CASES = {}
CASE_LIMIT_S = 90


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated input does not meet the preconditions."""


class Hang(BaseException):
    pass


def case(prop, weight=1.0, small=False):
    def deco(fn):
        CASES.setdefault(prop, []).append((fn.__name__, fn, weight))
        return fn

    return deco


def check(cond, msg, *details):
    if not cond:
        raise Violation(msg + ("" if not details else " :: " + " ; ".join(repr(d) for d in details)))


def near(a, b, tol=1e-6):
    if a is None or b is None:
        return a is b
    if a == b:
        return True
    try:
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except (TypeError, OverflowError):
        return False


def check_near(a, b, msg, *details):
    check(near(a, b), msg, f"got {a!r}", f"expected {b!r}", *details)


def _alarm(signum, frame):
    raise Hang("the code did not finish in time")


def run_one(prop, name, fn, seed, k):
    """Returns None (held), 'skip', or a message."""
    rng = random.Random(f"{seed}:{prop}:{name}:{k}")
    random.seed(f"global:{seed}:{k}")
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        fn(rng)
        return None
    except Skip:
        return "skip"
    except Violation as e:
        return "contract broken: " + str(e)
    except Hang as e:
        return "no termination: " + str(e)
    except MemoryError:
        return "memory exhausted"
    except RecursionError:
        return "unbounded recursion"
    except BaseException as e:  # the real code raised on a legal input
        if isinstance(e, KeyboardInterrupt):
            raise
        return f"exception {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-6)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def limit_memory(gb=10):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError):
        pass


def search(prop, seed, budget_s, only=None, first_failure=True, start=0):
    """Run the cases of a property round-robin within a time budget."""
    stats = {"evaluations": 0, "skipped": 0, "per_case": {}, "failures": []}
    cases = [c for c in CASES.get(prop, []) if only is None or c[0] in only]
    if not cases:
        return stats
    end = time.time() + budget_s
    counters = {c[0]: start for c in cases}
    spent = {c[0]: 0.0 for c in cases}
    dead = set()
    while time.time() < end:
        alive = [c for c in cases if c[0] not in dead]
        if not alive:
            break
        # the case that has used the least of its share goes next; every case runs at least a few times
        c = min(alive, key=lambda c: spent[c[0]] / c[2] if counters[c[0]] - start >= 5 else -1)
        name, fn, w = c
        k = counters[name]
        counters[name] += 1
        t = time.time()
        r = run_one(prop, name, fn, seed, k)
        spent[name] += time.time() - t + 1e-5
        stats["evaluations"] += 1
        if r == "skip":
            stats["skipped"] += 1
        elif r is not None:
            stats["failures"].append({"case": name, "index": k, "seed": seed, "message": r})
            dead.add(name)
            if first_failure:
                break
    stats["per_case"] = {n: counters[n] - start for n in counters}
    return stats
