"""Runs recorded inputs on the real, unmodified package.  usage: replay.py FILE [--quiet]
FILE: JSON {property, jobs: [{case, inputs}]} or a violation file written by check.py. Prints one JSON line per job (--quiet) or a readable report."""
import importlib
import json
import os
import random
import secrets
import signal
import sys
from time import process_time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("ELGAS_REPO", "/repo"))

from symex.api import ConcE, Out  # noqa: E402


class Hang(BaseException):
    pass


def script_random(E):
    def ri(a, b):
        v = E.next_draw("int", 0)
        return v if a <= v <= b else a

    def pick(seq):
        if len(seq) == 0:
            raise IndexError("empty")
        v = E.next_draw("pick", len(seq))
        return seq[v if 0 <= v < len(seq) else 0]

    E.patch("random", "randint", ri)
    E.patch("random", "randrange", lambda a, b=None, step=1: ri(0, a - 1) if b is None else ri(a, b - 1))
    E.patch("random", "choice", pick)
    E.patch("random", "choices", lambda pop, weights=None, *, cum_weights=None, k=1: [pick(pop) for _ in range(k)])
    E.patch("random", "randbytes", lambda n: bytes(ri(0, 255) for _ in range(n)))
    E.patch("random", "getrandbits", lambda k: ri(0, (1 << k) - 1))
    E.patch("os", "urandom", lambda n: bytes(ri(0, 255) for _ in range(n)))
    E.patch("secrets", "token_bytes", lambda n=32: bytes(ri(0, 255) for _ in range(n)))
    E.patch("secrets", "randbelow", lambda n: ri(0, n - 1))
    E.patch("secrets", "choice", pick)


def run_job(cases, job):
    c = cases[job["case"]]
    E = ConcE(job["inputs"])
    script_random(E)

    used, again = process_time(), [2]

    def alarm(*a):
        # a machine that is busy with something else is no reason
        if again[0] and process_time() - used < 5:
            again[0] -= 1
            signal.setitimer(signal.ITIMER_REAL, 15)
            return
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, 20)
    err = None
    try:
        c.fn(E, **c.kw)
    except ConcE.Stop:
        pass
    except Hang:
        err = "does not terminate"
    except Exception as e:
        import traceback
        err = "uncaught %s: %s" % (type(e).__name__, e)
        E.log.append("check:uncaught")
        E.failed.append("uncaught")
        job["tb"] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        E.unpatch()
    return dict(failed=E.failed, log=E.log, error=err)


def main():
    quiet = "--quiet" in sys.argv
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    mod = importlib.import_module("props." + spec["property"].lower())
    cases = {c.id: c for c in mod.CASES}
    jobs = spec.get("jobs") or [spec]
    real = sys.stdout
    bad = False
    for job in jobs:
        if quiet:
            sys.stdout = open(os.devnull, "w")
        try:
            r = run_job(cases, job)
        finally:
            sys.stdout = real
        bad = bad or bool(r["failed"])
        if quiet:
            print(json.dumps(r))
        else:
            print("case   :", job["case"])
            for n, k, v in job["inputs"]:
                print("  input %-24s %-8s %r" % (n, k, v))
            print("outcome:", r["log"])
            if job.get("tb"):
                print(job["tb"])
            print("RESULT :", "VIOLATED: " + "; ".join(r["failed"]) if r["failed"] else r["error"] or "holds on this input")
    sys.exit(1 if bad and not quiet else 0)


if __name__ == "__main__":
    main()
