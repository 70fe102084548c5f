"""Case scheduling, counterexample replay, evidence."""

import argparse
import importlib.util
import json
import math
import multiprocessing
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(HERE, "harness")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
FINDINGS = os.path.join(HERE, "known_findings.txt")


# -- plain (real) harness ------------------------------------------------------------------
def real_harness(prop):
    name = "harness_" + prop.lower()
    if name in sys.modules:
        return sys.modules[name]
    if HARNESS not in sys.path:
        sys.path.append(HARNESS)
    spec = importlib.util.spec_from_file_location(name, os.path.join(HARNESS, prop.lower() + ".py"))
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    try:
        spec.loader.exec_module(m)
    except BaseException:
        del sys.modules[name]
        raise
    return m


def case_list(prop):
    """CASES of a harness without importing the code under test"""
    import importlib
    if HARNESS not in sys.path:
        sys.path.append(HARNESS)
    m = importlib.import_module("cases_" + prop.lower()) if os.path.exists(
        os.path.join(HARNESS, "cases_" + prop.lower() + ".py")) else real_harness(prop)
    return m.CASES


def real_run(prop, case, values):
    """run one case on the real code -> dict"""
    from .ctx import RealCtx, AssumeFailed
    ctx = RealCtx(values)
    res = {"status": "ok", "failed": [], "exception": None}
    try:
        m = real_harness(prop)
        getattr(m, case["fn"])(ctx, **case.get("args", {}))
    except AssumeFailed:
        res["status"] = "assume"
        if ctx.failed:
            res["status"] = "failed"
    except Exception as exc:
        res["status"] = "exception"
        res["exception"] = "%s: %s" % (type(exc).__name__, str(exc)[:300])
        res["traceback"] = traceback.format_exc()[-1500:]
    res["failed"] = ctx.failed[:20]
    res["passed"] = ctx.passed
    if ctx.failed:
        res["status"] = "failed"
    return res


def forked_real_run(prop, case, values, timeout=60):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(int(timeout) + 5)
            res = real_run(prop, case, values)
            data = json.dumps(res, default=str).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    data = b""
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            break
        ok, _, _ = select.select([r], [], [], left)
        if not ok:
            break
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.waitpid(pid, 0)
    try:
        return json.loads(data)
    except ValueError:
        return {"status": "lost", "failed": [], "exception": None}


# -- one case -------------------------------------------------------------------------------
DEFAULTS = dict(budget=20, timeout_ms=15000, branch_timeout_ms=3000, logic=None, prefer_bv=False, fp_div=False,
                max_paths=100000, div_check=True, witnesses=12, merging=True, algebra=False,
                abstract_solve=False)


def run_case(prop, case, conn, findings):
    import z3
    from . import core, loader
    from .ctx import SymCtx, extract
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except (ValueError, OSError):
        pass
    z3.set_param("memory_max_size", 3500)
    opt = dict(DEFAULTS)
    opt.update(case.get("opts", {}))
    t0 = time.time()
    eng = core.Engine(deadline=t0 + opt["budget"], timeout_ms=opt["timeout_ms"],
                      branch_timeout_ms=opt["branch_timeout_ms"], logic=opt["logic"],
                      max_paths=opt["max_paths"], prefer_bv=opt["prefer_bv"], fp_div=opt["fp_div"],
                      div_check=opt["div_check"])
    eng.merging = opt["merging"]
    eng.algebra = opt["algebra"]
    eng.abstract_solve = opt["abstract_solve"]
    world = loader.SymWorld()
    hname = "harness_" + prop.lower()
    world.paths[hname] = os.path.join(HARNESS, prop.lower() + ".py")
    for f in os.listdir(HARNESS):
        if f.endswith(".py"):
            world.paths.setdefault(f[:-3], os.path.join(HARNESS, f))
    violations, known, seen = [], [], set()
    nearby = [4]
    st = eng.stats

    def body():
        world.fresh()
        m = world.load(hname)
        getattr(m, case["fn"])(SymCtx(eng), **case.get("args", {}))

    def report(label, values, res, how):
        v = {"property": prop, "case": case["name"], "label": label, "values": values, "found_by": how,
             "result": res, "args": repr(case.get("args", {}))}
        for f in findings:
            if f["property"] == prop and f.get("case") in (None, case["name"]) and \
                    (f.get("label") is None or label.startswith(f["label"])) and \
                    all(values.get(k) == x for k, x in f.get("values", {}).items()):
                if f["text"] not in known:
                    known.append(f["text"])
                return
        if not any(x['label'] == label for x in violations) and len(violations) < 3:
            violations.append(v)
        eng.stop = True

    def bad(res):
        return res["status"] in ("failed", "exception")

    def lab(res, default):
        return res["failed"][0] if res["failed"] else (res.get("exception") or default)

    def with_angles(model, values):
        """give angle inputs the values whose sine and cosine the model has chosen (None: nothing to do)"""
        names, whole = {}, set()
        for n, k, t in eng.inputs:
            if k in ("real", "int"):
                a = eng.atom_ids.get(t.get_id())
                if a is not None:
                    names[a.idx] = n
                    if k == "int":
                        whole.add(n)
        done, out = set(), dict(values)
        for x, (sn, cn) in eng.trig_args:
            if x.d is not None or any(len(m) > 1 or (m and (m[0][1] != 1 or m[0][0] not in names)) for m in x.n.d):
                continue
            free = [m[0][0] for m in x.n.d if m and names[m[0][0]] not in done]
            if len(free) != 1:
                continue
            sv, cv = (core.z3_fraction(model.eval(v.zr(), model_completion=True)) for v in (sn, cn))
            if sv is None or cv is None:
                continue
            rest = sum(float(c) * (out[names[m[0][0]]] if m else 1.0) for m, c in x.n.d.items() if not m or m[0][0] != free[0])
            coef = float(x.n.d[((free[0], 1),)])
            v = (math.atan2(sv, cv) - rest) / coef
            out[names[free[0]]] = round(v) if names[free[0]] in whole else v
            done.add(names[free[0]])
        return out if done else None

    def attempts(model, extra):
        """value assignments to try for a counterexample"""
        for m in models(model, extra):
            values = extract(m, eng.inputs)
            yield values
            if eng.trig_args:
                more = with_angles(m, values)
                if more is not None:
                    yield more
                wide = [n for n, k, t in eng.inputs if k == "int" and wide_int(t)]
                if wide:        # sines and cosines of whole numbers are not known to the solver
                    yield dict(values, **{n: (37, 52, 71, 23, 64)[i % 5] for i, n in enumerate(wide)})

    def wide_int(t):
        a = eng.atom_ids.get(t.get_id())
        return a is not None and a.rng is not None and a.rng[0] <= 0 and a.rng[1] >= 100

    def models(model, extra):
        yield model
        reals = [t for _, k, t in eng.inputs if k == "real"]
        for den in (4, 1024):
            if not reals:
                break
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*eng.pc)
            s.add(*extra)
            for i, t in enumerate(reals):
                s.add(t * den == z3.ToReal(z3.Int("dy!%d" % i)))
            if s.check() == z3.sat:
                yield s.model()

    def on_cex(e, expr, label, model):
        k = 0
        for values in attempts(model, [z3.Not(expr)]):
            k += 1
            res = forked_real_run(prop, case, values)
            if bad(res):
                report(lab(res, label), values, res, "solver")
                return True
            if k >= 6:
                break
        if opt["fp_div"] and nearby[0] > 0:
            # the rounding errors of the counterexample are not at hand: look for doubles in its neighbourhood
            nearby[0] -= 1
            names = [n for n, kind, _ in eng.inputs if kind == "real"]
            rnd = random.Random(len(values))
            for k in range(500 if names else 0):
                near = dict(values)
                for n in names:
                    near[n] = values[n] * (1 + 1e-3 * rnd.random() if k % 2 else 2 ** rnd.uniform(-1, 1))
                res = forked_real_run(prop, case, near)
                if bad(res):
                    report(lab(res, label), near, res, "solver")
                    return True
        if os.environ.get("VERIF_DEBUG"):
            print("SPURIOUS", label, values, res["status"])
        if len(st.samples) < 40:
            st.samples.append({"spurious": label, "values": values, "real": res["status"]})
        return False

    def witness(label, force=False):
        if not force and st.replayed >= opt["witnesses"] and st.paths % 16:
            return
        if st.replayed >= 6 * opt["witnesses"]:
            return
        try:
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*eng.pc)
            if s.check() != z3.sat:
                st.replay_skipped += 1
                return
            for values in attempts(s.model(), []):
                res = forked_real_run(prop, case, values)
                if bad(res) or res["status"] == "ok":
                    break
        except z3.Z3Exception:
            st.replay_skipped += 1
            return
        if bad(res):
            report(lab(res, label), values, res, "witness")
        elif res["status"] == "ok":
            st.replayed += 1
            if len(st.samples) < 6:
                st.samples.append({"case": case["name"], "values": values, "checks_passed": res["passed"]})
        else:
            st.replay_skipped += 1

    def on_path(e):
        witness("witness")

    def on_exception(e, exc):
        r, m = e.query([])
        if r != "sat":
            return False
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exception(exc)
        res = None
        for values in attempts(m, []):
            res = forked_real_run(prop, case, values)
            if bad(res):
                report(lab(res, str(exc)), values, res, "exception")
                return True
        return False

    def on_unsupported(e):
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        witness("witness", True)

    pinned = [5, random.Random(1)]

    def on_unknown(e, expr, label):
        """the query was too hard: decide it again with the real inputs at particular values"""
        if pinned[0] <= 0:
            return False
        pinned[0] -= 1
        rnd = pinned[1]
        reals = [(n, t) for n, k, t in eng.inputs if k == "real"]
        end = time.time() + 12
        for k in range(12 if reals else 0):
            if time.time() > end or time.time() > eng.deadline:
                break
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*eng.pc)
            s.add(z3.Not(expr))
            for _, t in reals:
                lo, hi = eng.atom_for(t, False).rng or (-2.0, 2.0)
                lo, hi = max(lo, -8.0), min(hi, 8.0)
                den = (1, 4, 64)[k % 3]
                v = round(rnd.uniform(lo, hi) * den)
                v = core.Fraction(v, den) if lo <= v / den <= hi else core.Fraction(rnd.uniform(lo, hi))
                s.add(t == z3.RealVal(str(v)))
            st.queries += 1
            if s.check() != z3.sat:
                continue
            values = extract(s.model(), eng.inputs)
            for v in (values, with_angles(s.model(), values) if eng.trig_args else None):
                if v is None:
                    continue
                res = forked_real_run(prop, case, v)
                if bad(res):
                    report(lab(res, label), v, res, "solver")
                    return True
        return False

    eng.on_unknown = on_unknown
    eng.on_unsupported = on_unsupported
    try:
        eng.explore(body, on_cex, on_path, on_exception)
    except MemoryError:
        st.complete = False
        st.inconclusive.append("out of memory")
    except BaseException as exc:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        st.complete = False
        st.inconclusive.append("engine: %s: %s" % (type(exc).__name__, str(exc)[:300]))
    if not st.replayed and not violations:
        # nothing validated symbolically: at least run the default input
        res = forked_real_run(prop, case, {})
        if bad(res):
            report(lab(res, "default"), {}, res, "default")
    d = st.as_dict()
    d.update(case=case["name"], wall=time.time() - t0, violations=violations, known=known,
             bounds=case.get("bounds", ""))
    conn.send(json.dumps(d, default=str))
    conn.close()


def load_findings():
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "finding":
                    out.append(d)
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        v = json.load(open(a.replay))
        m = real_harness(v["property"])
        case = next(c for c in m.CASES if c["name"] == v["case"])
        res = real_run(v["property"], case, v["values"])
        print(json.dumps(res, indent=1))
        return 1 if res["status"] in ("failed", "exception") else 0
    t0 = time.time()
    prop = a.prop
    try:
        m = real_harness(prop)
        cases = m.CASES
    except Exception as exc:
        import traceback as tb
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        path = os.path.join(EVID, "replay", prop + "-import.txt")
        with open(path, "w") as f:
            f.write(tb.format_exc())
        write_evidence(prop, a.tier, [], time.time() - t0, ["import failed: %s" % exc], 1)
        print("the code under test cannot be imported: %s: %s" % (type(exc).__name__, exc))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    sel = []
    for c in cases:
        if a.case and a.case not in c["name"]:
            continue
        if a.tier == "quick" and c.get("tier") == "thorough":
            continue
        if a.tier == "thorough" and c.get("tier") == "quick":
            continue
        c = dict(c)
        c["opts"] = dict(c.get("opts", {}))
        if a.tier == "thorough":
            c["opts"]["budget"] = c["opts"].get("tbudget", max(120, 6 * c["opts"].get("budget", DEFAULTS["budget"])))
        sel.append(c)
    findings = load_findings()
    hard = 780 if a.tier == "quick" else 6 * 3600
    results = schedule(prop, sel, findings, a.jobs, t0 + hard, a.v)
    viol = [v for r in results for v in r["violations"]]
    known = []
    for r in results:
        for k in r["known"]:
            if k not in known:
                known.append(k)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    write_evidence(prop, a.tier, results, time.time() - t0, [], len(viol))
    tot = {k: sum(r[k] for r in results) for k in
           ("paths", "queries", "obligations", "discharged", "replayed", "solver_time")}
    inc = sum(len(r["inconclusive"]) + len(r["spurious"]) for r in results)
    print("%s %s: %d cases, %d paths, %d obligations (%d discharged), %d queries, %.1fs solver, "
          "%d replays, %d inconclusive, %.1fs wall" % (
              prop, a.tier, len(results), tot["paths"], tot["obligations"], tot["discharged"], tot["queries"],
              tot["solver_time"], tot["replayed"], inc, time.time() - t0))
    for i, v in enumerate(viol):
        path = os.path.join(EVID, "replay", "%s-%s-%d.json" % (prop, v["case"].replace("/", "_"), i))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        if i >= 5:
            print("  (and %d more)" % (len(viol) - 5))
            break
        print("  case %s: %s  values=%s" % (v["case"], v["label"], json.dumps(v["values"])[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if viol else 0


def lost(c, why):
    return dict(case=c["name"], wall=0, violations=[], known=[], bounds=c.get("bounds", ""), paths=0,
                aborted=0, branches=0, obligations=0, trivial=0, discharged=0, queries=0, solver_time=0.0,
                inconclusive=[why], replayed=0, replay_skipped=0, spurious=[], complete=False,
                functions=[], samples=[], labels={})


def schedule(prop, cases, findings, jobs, hard_end, verbose):
    mp = multiprocessing.get_context("fork")
    todo = sorted(cases, key=lambda c: -c["opts"].get("budget", DEFAULTS["budget"]))
    running, results = [], []
    halt = None
    while todo or running:
        if halt and time.time() > halt:
            # a violation is already established: stop what is left
            for p, r, c, end in running:
                p.kill()
                p.join(5)
                results.append(lost(c, "stopped after a violation in another case"))
            results += [lost(c, "not started: violation in another case") for c in todo]
            break
        while todo and len(running) < jobs:
            c = todo.pop(0)
            left = hard_end - time.time()
            if left < 3:
                results.append(lost(c, "not started: out of time"))
                continue
            c["opts"]["budget"] = min(c["opts"].get("budget", DEFAULTS["budget"]), left - 2)
            r, w = mp.Pipe(False)
            p = mp.Process(target=run_case, args=(prop, c, w, findings))
            p.start()
            w.close()
            running.append((p, r, c, time.time() + c["opts"]["budget"] + 45))
        done = []
        for it in running:
            p, r, c, end = it
            res = None
            if r.poll(0):
                try:
                    res = json.loads(r.recv())
                except EOFError:
                    res = lost(c, "worker died")
            elif not p.is_alive():
                res = lost(c, "worker died")
            elif time.time() > min(end, hard_end + 20):
                p.kill()
                res = lost(c, "worker killed at its time limit")
            if res is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                results.append(res)
                done.append(it)
                if res["violations"] and not verbose and halt is None:
                    halt = time.time() + 5
                if verbose:
                    print("%-34s %6.1fs paths=%d ab=%d obl=%d/%d q=%d st=%.1f rep=%d(%d) %s%s" % (
                        res["case"], res["wall"], res["paths"], res["aborted"], res["discharged"],
                        res["obligations"], res["queries"], res["solver_time"], res["replayed"],
                        res["replay_skipped"], "" if res["complete"] else "INCOMPLETE ",
                        (res["inconclusive"] + ["spurious:" + s for s in res["spurious"]])[:4]), flush=True)
                    if res["violations"]:
                        print("    VIOL", json.dumps(res["violations"][0])[:500], flush=True)
        for it in done:
            running.remove(it)
        if not done:
            time.sleep(0.02)
    return results


def write_evidence(prop, tier, results, wall, assumptions, nviol):
    os.makedirs(EVID, exist_ok=True)
    fns = sorted({f for r in results for f in r["functions"] if f.startswith("HamiltonianPy")})
    samples = [s for r in results for s in r["samples"] if "spurious" not in s][:12]
    inc = [{"case": r["case"], "what": r["inconclusive"][:10],
            "unreproduced_counterexamples": r["spurious"][:10]}
           for r in results if r["inconclusive"] or r["spurious"]]
    cov = {
        "states": sum(r["paths"] for r in results),
        "transitions": sum(r["branches"] for r in results),
        "traces_validated_against_impl": sum(r["replayed"] for r in results),
        "samples": samples or ["(no path completed)"],
        "obligations": sum(r["obligations"] for r in results),
        "discharged": sum(r["discharged"] for r in results),
        "discharged_by_normalisation_alone": sum(r["trivial"] for r in results),
        "queries": sum(r["queries"] for r in results),
        "solver_time_s": round(sum(r["solver_time"] for r in results), 2),
        "infeasible_paths": sum(r["aborted"] for r in results),
        "functions_encoded": fns,
        "bounds": {r["case"]: r["bounds"] for r in results},
        "cases": [{"case": r["case"], "paths": r["paths"], "obligations": r["obligations"],
                   "discharged": r["discharged"], "queries": r["queries"], "replays": r["replayed"],
                   "wall_s": round(r["wall"], 2), "complete_within_bounds": bool(
                       r["complete"] and not r["inconclusive"] and not r["spurious"] and r["paths"] > 0),
                   "checks": r["labels"]} for r in results],
        "inconclusive": inc,
        "explanation": "states = completed symbolic paths, transitions = symbolic branch decisions, "
                       "traces validated = path models replayed on the real code with every check passing",
    }
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking", "coverage": cov,
          "assumptions": assumptions + [
              "real arithmetic stands for IEEE doubles in the encoding (counterexamples and path models are "
              "replayed with doubles)",
              "numpy, scipy and numba primitives behave as modelled in symex/npshim.py and symex/spshim.py"],
          "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
