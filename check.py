"""Decides one property.  usage: check.py C01 [--tier quick|thorough] [--case ID] [--jobs N] [-v]
exit 0: held on everything explored; exit 1: VIOLATION line, counterexample replayed on the real package."""
import argparse
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ELGAS_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
PY = "/opt/venv/bin/python"

from symex import core, rewrite  # noqa: E402

MARSH = {"C18", "C26", "C28"}


def known_findings(prop):
    out = {}
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("known: property=%s " % prop):
                    head, _, desc = line.strip().partition(" :: ")
                    d = dict(p.split("=", 1) for p in head.split()[1:])
                    out[(d["case"], d["label"].replace("_", " "))] = desc
    except FileNotFoundError:
        pass
    return out


def replay(prop, jobs, timeout=120):
    """run jobs on the real package; list of results (None: no answer)"""
    fd, path = tempfile.mkstemp(suffix=".json", prefix="symex")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(dict(property=prop, jobs=jobs), f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="")
        try:
            p = subprocess.run([PY, "-B", os.path.join(HERE, "replay.py"), path, "--quiet"], capture_output=True, text=True, timeout=timeout, env=env)
            lines = p.stdout.strip().splitlines()
            err = p.stderr
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b"").decode(errors="replace").strip().splitlines()
            err = "timeout"
    finally:
        os.unlink(path)
    out = []
    for i in range(len(jobs)):
        try:
            out.append(json.loads(lines[i]))
        except (IndexError, ValueError):
            out.append(None)
    if len(lines) < len(jobs) and os.environ.get("SYMEX_DEBUG"):
        print("replay stderr:", err[-2000:], file=sys.stderr)
    return out


def run_case(prop, case, secs, known, seed, verbose):
    from symex import rt, snapshot
    from symex.syme import SymE, concrete_inputs
    t0 = time.monotonic()
    eng = core.Engine(t0 + secs, seed=seed)
    E = SymE(eng)
    rng = random.Random(seed)
    res = dict(case=case.id, violations=[], known=[], inconclusive=[], samples=[])
    paths = []
    tried = {}

    def confirm(inputs, label):
        r = replay(prop, [dict(case=case.id, inputs=inputs)])[0]
        if r is None:
            return None
        return r

    def accept(inputs, label, r):
        lab = r["failed"][0]
        key = (case.id, lab)
        if key in known:
            if lab not in [k["label"] for k in res["known"]]:
                res["known"].append(dict(label=lab, desc=known[key], inputs=inputs))
            return
        res["violations"].append(dict(label=lab, symbolic_label=label, inputs=inputs, outcome=r))
        raise core.StopCase()

    def leaves():
        from symex import values as V
        for name, kind, v in eng.inputs:
            if kind in ("bytes",):
                yield from enumerate(V.elems(v))
            elif kind == "text":
                yield from enumerate(V.str_chars(v))
            elif kind == "float":
                yield from enumerate(v.le)
            elif kind == "int":
                yield 0, v
            elif kind == "draw":
                yield 0, v[1]

    def on_violation(m, label):
        if any(k["label"] == label for k in res["known"]):
            return
        n = tried[label] = tried.get(label, 0) + 1
        if n > 12:
            return
        if verbose:
            print("  [%s] counterexample for %r" % (case.id, label), concrete_inputs(m, eng.inputs), getattr(eng, "last_exc", None), file=sys.stderr)
            if verbose > 1 and getattr(eng, "last_exc", None) is not None:
                traceback.print_exception(eng.last_exc)
        inputs = concrete_inputs(m, eng.inputs)
        r = confirm(inputs, label)
        if r and r["failed"]:
            accept(inputs, label, r)
            return
        # another assignment of the same path may be one the real code shows it on
        for attempt in range(3 if n <= 3 else 0):
            m2 = diversify(m, attempt)
            if m2 is None:
                break
            inputs2 = concrete_inputs(m2, eng.inputs)
            r2 = confirm(inputs2, label)
            if r2 and r2["failed"]:
                accept(inputs2, label, r2)
                return
        res["inconclusive"].append(dict(label=label, inputs=inputs, outcome=r))

    def diversify(m, attempt):
        import z3
        from symex.values import SymInt
        s = eng.solver
        pushed = 0
        best = None
        end = time.monotonic() + 5
        pat = [0xA7, 0x5B, 0xE3, 0x3E, 0x91, 0xC4, 0x6D, 0x3F]
        try:
            s.set("timeout", 2000)
            xs = [(i, x) for i, x in leaves() if type(x) is SymInt][:160]
            vals = [(x.z, (pat[i % 8] if attempt == 0 else rng.randrange(1 << min(x.z.size(), 30))) % (1 << x.z.size())) for i, x in xs]
            stack = [vals]
            while stack:
                part = stack.pop()
                if not part or time.monotonic() > end:
                    continue
                s.push()
                pushed += 1
                s.add(*[z == v for z, v in part])
                if s.check() == z3.sat:
                    best = s.model()
                    continue
                s.pop()
                pushed -= 1
                if len(part) > 1:
                    h = len(part) // 2
                    stack.append(part[h:])
                    stack.append(part[:h])
        finally:
            for _ in range(pushed):
                s.pop()
            s.set("timeout", 20000)
        return best

    def on_path_end():
        k = eng.stats["paths"]
        if len(paths) < 3 or (k % 37 == 0 and len(paths) < 12):
            try:
                m = eng._need_model()
            except core.Control:
                return
            if len(paths) % 3 != 2:
                m = diversify(m, len(paths) % 2) or m
            # an arbitrary cipher is not AES: with it the real run may take another path
            comparable = not any(type(x).__name__ == "SymInt" for r in eng.tables.get("aes", ()) for x in r[2])
            paths.append((concrete_inputs(m, eng.inputs), list(eng.log) if comparable else None))

    unsup = []

    def on_unsupported():
        if len(unsup) < 6:
            try:
                eng.dead = None
                m = eng._need_model()
                if len(unsup) % 3 != 2:
                    m = diversify(m, len(unsup) % 2) or m
                unsup.append(concrete_inputs(m, eng.inputs))
            except core.Control:
                pass

    def on_budget():
        """the path that used up the time may be one that never ends"""
        signal.setitimer(signal.ITIMER_REAL, 0)
        eng.dead = None
        if eng.model is None:
            eng.solver.set("timeout", 5000)
            import z3
            if eng.solver.check() != z3.sat:
                return
            eng.model = eng.solver.model()
        inputs = concrete_inputs(eng.model, eng.inputs)
        r = confirm(inputs, "")
        if r and r["error"] == "does not terminate":
            r["failed"] = r["failed"] or [r["error"]]
            accept(inputs, "the path does not end within the time budget", r)

    eng.on_budget = on_budget
    eng.on_violation = on_violation
    eng.on_path_end = on_path_end
    eng.on_unsupported = on_unsupported

    snap = snapshot.Snapshot()

    def wrapper():
        snap.restore()
        try:
            try:
                case.fn(E, **case.kw)
            except Exception as e:
                if eng.dead is not None:
                    raise eng.dead
                eng.last_exc = e
                E.check(False, "uncaught")
        finally:
            E.unpatch()

    def alarm(*a):
        eng.dead = core.Budget()
        raise eng.dead
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, secs + 2)
    rt.FUNCS.clear()
    try:
        eng.explore(wrapper)
    except core.Budget:
        eng.incomplete.add("time budget of the case used up")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    missing = [l for l in case.need if l not in eng.reached]
    if not res["violations"]:
        jobs = [dict(case=case.id, inputs=i) for i, _ in paths] + [dict(case=case.id, inputs=i) for i in unsup]
        rs = replay(prop, jobs) if jobs else []
        ok = 0
        for (i, log), r in zip(paths, rs):
            if r is None:
                continue
            if r["failed"] and len(jobs) > 1:
                r = confirm(i, "") or r
            if r["failed"]:
                try:
                    accept(i, "path sample", r)
                except core.StopCase:
                    break
            elif log is None or r["log"] == log:
                ok += 1
            else:
                res["inconclusive"].append(dict(label="encoding disagrees with the real code on a sampled path", inputs=i, outcome=r, symbolic=log))
        res["validated"] = ok
        if not res["violations"]:
            for i, r in zip(unsup, rs[len(paths):]):
                if r and r["failed"] and len(jobs) > 1:
                    r = confirm(i, "")
                if r and r["failed"]:
                    try:
                        accept(i, "path outside the encoding", r)
                    except core.StopCase:
                        break
    res.update(stats=eng.stats, incomplete=sorted(eng.incomplete), unsupported=eng.unsupported, reached=sorted(eng.reached),
               missing=missing, functions=sorted(rt.FUNCS), wall=time.monotonic() - t0, samples=[i for i, _ in paths[:2]], bound=case.bound)
    return res


def fork_case(prop, case, secs, known, seed, verbose):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                if os.environ.get("SYMEX_PROF"):
                    import cProfile
                    import pstats
                    pr = cProfile.Profile()
                    out = pr.runcall(run_case, prop, case, secs, known, seed, verbose)
                    pstats.Stats(pr, stream=sys.stderr).sort_stats(os.environ["SYMEX_PROF"]).print_stats(45)
                else:
                    out = run_case(prop, case, secs, known, seed, verbose)
            except BaseException:
                out = dict(case=case.id, crash=traceback.format_exc())
            with os.fdopen(w, "w") as f:
                json.dump(out, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    os.set_blocking(r, False)
    return dict(pid=pid, fd=r, buf=b"", case=case, t0=time.monotonic(), secs=secs)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="count", default=0)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(PY, [PY, "-B"] + sys.argv)
    prop = a.property
    sys.setrecursionlimit(200000)
    rewrite.install(["elgas", "props"] + (["marshmallow"] if prop in MARSH else []))
    from symex import env  # noqa: F401
    from symex import snapshot
    snapshot.import_all(REPO)
    mod = importlib.import_module("props." + prop.lower())
    thorough = a.tier == "thorough"
    cases = [c for c in mod.CASES if (thorough or c.tier == "quick") and (not a.case or c.id.startswith(a.case))]
    total = 690 if thorough else 300
    known = known_findings(prop)
    todo = sorted(cases, key=lambda c: -c.secs)
    running, results = [], []
    stop = False
    while todo or running:
        while todo and len(running) < a.jobs and not stop:
            c = todo.pop(0)
            secs = c.secs * (4 if thorough else 1)
            left = total - (time.monotonic() - t0)
            secs = max(5, min(secs, left))
            running.append(fork_case(prop, c, secs, known, seed, a.v))
        if stop and not running:
            break
        time.sleep(0.01)
        for p in list(running):
            try:
                while True:
                    d = os.read(p["fd"], 1 << 20)
                    if not d:
                        break
                    p["buf"] += d
                done = True
            except BlockingIOError:
                done = False
            if not done and time.monotonic() - p["t0"] > p["secs"] + 100:
                os.kill(p["pid"], signal.SIGKILL)
                done = True
            if stop and not done:
                os.kill(p["pid"], signal.SIGKILL)
                done = True
            if done:
                os.waitpid(p["pid"], 0)
                os.close(p["fd"])
                running.remove(p)
                try:
                    r = json.loads(p["buf"])
                except ValueError:
                    r = dict(case=p["case"].id, crash="no result (killed)") if not stop else dict(case=p["case"].id)
                results.append(r)
                if a.v:
                    s = r.get("stats", {})
                    print("%-32s %6.1fs paths=%s aborted=%s inconcl=%s q=%s solver=%.1fs %s%s%s" % (
                        r["case"], r.get("wall", 0), s.get("paths"), s.get("aborted"), s.get("inconclusive"), s.get("queries"), s.get("solver_s", 0),
                        r.get("incomplete") or "", " MISSING %s" % r["missing"] if r.get("missing") else "",
                        " UNSUP %s" % r["unsupported"] if r.get("unsupported") else "") + (" CRASH " + r["crash"] if "crash" in r else ""), flush=True)
                    for i in r.get("inconclusive", [])[:3]:
                        print("    inconclusive:", json.dumps(i)[:600])
                if r.get("violations"):
                    stop = True
                    todo = []
    status = report(prop, a.tier, seed, mod, results, time.monotonic() - t0, cases)
    sys.stdout.flush()
    os._exit(status)


def report(prop, tier, seed, mod, results, wall, cases):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tot = {}
    for r in results:
        for k, v in r.get("stats", {}).items():
            tot[k] = tot.get(k, 0) + v
    viol = [(r["case"], v) for r in results for v in r.get("violations", [])]
    incon = [(r["case"], i) for r in results for i in r.get("inconclusive", [])]
    cov = dict(
        states=tot.get("paths", 0), transitions=tot.get("branches", 0),
        traces_validated_against_impl=sum(r.get("validated", 0) for r in results),
        samples=[dict(case=r["case"], inputs=s) for r in results for s in r.get("samples", [])[:1]][:6],
        method="symbolic execution of the current source of %s; every path and every assertion decided by z3" % REPO,
        functions_encoded=sorted({f for r in results for f in r.get("functions", []) if not f.startswith("props.")}),
        bounds={r["case"]: r.get("bound", "") for r in results},
        solver_queries=tot.get("queries", 0), solver_s=round(tot.get("solver_s", 0), 2),
        assertions_checked=tot.get("checks", 0), assertions_proved_unsat=tot.get("checks_unsat", 0), assertions_true_syntactically=tot.get("checks_trivial", 0),
        assertions_unknown=tot.get("checks_unknown", 0), paths_infeasible=tot.get("aborted", 0), paths_outside_encoding=tot.get("inconclusive", 0),
        incomplete={r["case"]: r["incomplete"] for r in results if r.get("incomplete")},
        unsupported={r["case"]: r["unsupported"] for r in results if r.get("unsupported")},
        unreproduced_counterexamples=len(incon),
        cases={r["case"]: dict(paths=r.get("stats", {}).get("paths"), queries=r.get("stats", {}).get("queries"), wall_s=round(r.get("wall", 0), 2)) for r in results},
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(wall, 2), violations=len(viol))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in results:
        for k in r.get("known", []):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["desc"]))
    for c, i in incon[:5]:
        print("INCONCLUSIVE property=%s case=%s %s: the counterexample does not reproduce on the real code" % (prop, c, i["label"]))
    for r in results:
        if r.get("missing") and not viol:
            print("INCONCLUSIVE property=%s case=%s: assertions never reached: %s" % (prop, r["case"], ", ".join(r["missing"])))
        if r.get("incomplete"):
            print("BOUND property=%s case=%s not exhausted: %s" % (prop, r["case"], "; ".join(r["incomplete"])))
        if r.get("unsupported"):
            print("BOUND property=%s case=%s paths outside the encoding: %s" % (prop, r["case"], json.dumps(r["unsupported"])))
        if "crash" in r:
            print("INCONCLUSIVE property=%s case=%s: engine error\n%s" % (prop, r["case"], r["crash"]))
    if viol:
        c, v = viol[0]
        path = os.path.join(HERE, "evidence", "violation_%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, case=c, label=v["label"], inputs=v["inputs"], outcome=v["outcome"]), f, indent=1)
        print("counterexample (replayed on the real code) in case %s: %s" % (c, v["label"]))
        for n, k, x in v["inputs"][:40]:
            print("  %s = %r" % (n, x))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if any("crash" in r for r in results) or (results and tot.get("checks", 0) == 0):
        print("property=%s: no verdict for some cases" % prop)
        return 0 if tot.get("checks", 0) else 2
    print("property=%s: held on everything explored: %d cases, %d paths, %d assertions, %d solver queries (%.1f s solver), %.1f s" % (
        prop, len(results), tot.get("paths", 0), tot.get("checks", 0), tot.get("queries", 0), tot.get("solver_s", 0), wall))
    return 0


if __name__ == "__main__":
    main()
