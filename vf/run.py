"""
Runs the check of one property::

    run.py <property> [--tier quick|thorough] [--case <substr>] [--jobs N]
    run.py --replay <file>
"""

from __future__ import annotations

import os

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")

import sys

sys.dont_write_bytecode = True
_root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if _root not in sys.path:
    sys.path.insert(0, _root)
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(1, REPO)
if "" in sys.path:
    sys.path.remove("")

import argparse
import importlib
import json
import multiprocessing
import pickle
import random
import signal
import shutil
import subprocess
import tempfile
import time
import traceback
from fractions import Fraction

from vf import symx
from vf import harness
from vf.harness import Case, SymH, run_concrete

EVIDENCE = os.path.join(_root, "evidence")


def load_module(prop: str):
    """check module"""
    for fn in sorted(os.listdir(os.path.join(_root, "vf", "checks"))):
        if fn.lower().startswith(prop.lower() + "_") and fn.endswith(".py"):
            return importlib.import_module("vf.checks." + fn[:-3])
    raise SystemExit("no check module for %s" % prop)


# ---- recording of the executed functions of the repo


class FuncRecorder:
    """which functions of the repo were executed"""

    def __init__(self):
        self.funcs = set()

    def start(self):
        """start"""
        mon = sys.monitoring
        self.tool = 4
        mon.use_tool_id(self.tool, "vf")

        def _cb(code, _off):
            fn = code.co_filename
            if fn.startswith(REPO + "/"):
                self.funcs.add("%s:%s" % (fn[len(REPO) + 1 :], code.co_qualname))
            return mon.DISABLE

        mon.register_callback(self.tool, mon.events.PY_START, _cb)
        mon.set_events(self.tool, mon.events.PY_START)


def json_inputs(d):
    """json"""
    res = {}
    for k, v in d.items():
        if isinstance(v, Fraction):
            v = str(v) if v.denominator != 1 else int(v)
        res[k] = v
    return res


def _eval_observed(obs, model):
    z3 = symx.z3
    res = []
    for v in obs:
        if symx.is_sym(v):
            v = symx.decode_z3_value(model.eval(v.e, model_completion=True))
        res.append(v)
    return res


def _same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a == b
    try:
        if isinstance(a, (Fraction, float)) or isinstance(b, (Fraction, float)):
            fa, fb = float(a), float(b)
            return fa == fb or abs(fa - fb) <= 1e-6 * max(1.0, abs(fa), abs(fb))
        return bool(a == b)
    except Exception:
        return str(a) == str(b)


class HarnessError(Exception):
    """the harness does not fit to the code"""


class Splitter:
    """
    Hands parts of the exploration of one case to forked processes, when there are free slots:
    between two paths, the process forks, the child explores the other side of the first open decision,
    the parent everything else. So together exactly the same tree is explored.
    """

    def __init__(self, slots, pending, outdir, idx):
        self.slots = slots
        self.pending = pending
        self.outdir = outdir
        self.idx = idx
        self.children = []
        self.child_results = []
        self.is_child = False
        self.on_child = None
        self.last = time.time() + 2.0

    def result_file(self):
        """where this process writes its result"""
        if self.is_child:
            return os.path.join(self.outdir, "res.%i.%i" % (self.idx, os.getpid()))
        return os.path.join(self.outdir, "res.%i" % self.idx)

    def _reap(self, block: bool):
        for pid in list(self.children):
            r, status = os.waitpid(pid, 0 if block else os.WNOHANG)
            if r == 0:
                continue
            self.children.remove(pid)
            try:
                with open(os.path.join(self.outdir, "res.%i.%i" % (self.idx, pid)), "rb") as f:
                    self.child_results.append(pickle.load(f))
            except OSError:
                self.slots.release()
                self.child_results.append(dict(error="worker died: status %s" % status))

    def __call__(self, eng) -> bool:
        """:return: whether to stop"""
        if self.children:
            self._reap(False)
            if any(r.get("violation") for r in self.child_results):
                return True
        now = time.time()
        if now < self.last + 0.25 or self.pending.value > 0:
            return False
        k = eng.split_point()
        if k is None or not self.slots.acquire(False):
            return False
        self.last = now
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            self.children.append(pid)
            eng.trail[k].alt = False
            return False
        self.is_child = True
        self.children = []
        self.child_results = []
        _own_scratch(self.outdir, self.idx)
        eng.keep_only_alternative(k)
        eng.stats = symx.Stats()
        self.on_child()
        return False

    def finish(self, res: dict) -> dict:
        """wait for the forked processes, merge"""
        self.slots.release()
        if res.get("violation"):
            for pid in self.children:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            self.children.clear()
        self._reap(True)
        for r in self.child_results:
            if r.get("error"):
                res["error"] = (res.get("error") or "") + r["error"]
            if not r.get("stats") or not res.get("stats"):
                continue
            st, st2 = res["stats"], r["stats"]
            for k, v in st2.items():
                if k == "covers":
                    for t, n in v.items():
                        st[k][t] = st[k].get(t, 0) + n
                elif k == "max_query_s":
                    st[k] = max(st[k], v)
                else:
                    st[k] = st[k] + v
            res["samples"] = (res["samples"] + r["samples"])[:2]
            res["mismatches"] = (res["mismatches"] + r["mismatches"])[:5]
            res["num_mismatches"] += r["num_mismatches"]
            res["funcs"] = sorted(set(res["funcs"]) | set(r["funcs"]))
            res["processes"] = res.get("processes", 1) + r.get("processes", 1)
            if r.get("violation") and not res.get("violation"):
                res["violation"] = r["violation"]
        return res


def _own_scratch(outdir, idx):
    scratch = tempfile.mkdtemp(prefix="case%i_" % idx, dir=outdir)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)


def run_case(case: Case, deadline: float, seed: int, splitter=None) -> dict:
    """explore one case"""
    t0 = time.time()
    sys.setrecursionlimit(20000)
    rec = FuncRecorder()
    rec.start()
    eng = symx.Engine(deadline=deadline, seed=seed, query_timeout_ms=int(case.query_timeout * 1000))
    for k, v in case.engine.items():
        setattr(eng, k, v)
    samples = []
    mismatches = []
    validated = 0
    encoding_limits = []
    exc_violations = []
    rng = random.Random(seed)
    state = {"h": None, "path": 0, "validated_before": 0}

    def _on_child():
        samples.clear()
        mismatches.clear()
        state["validated_before"] = validated

    if splitter is not None:
        splitter.on_child = _on_child
        eng.split_hook = splitter

    def _harness(e):
        h = SymH(e)
        state["h"] = h
        try:
            with harness.patched(*harness.math_patches()):
                case.fn(h, **case.kwargs)
        except Exception as exc:
            if isinstance(exc, symx.z3.Z3Exception):
                raise symx.Unsupported("z3: %s" % exc)
            # An exception of the real code (or a limit of the proxies). Decide by concrete replay.
            inputs = e.decode_inputs(e.get_model())
            msg = "unexpected exception %s: %s" % (type(exc).__name__, exc)
            with _no_engine():
                r = run_concrete(case, inputs)
            if _harness_error(exc) and r.status != "violation":
                raise HarnessError("%s: %s" % (type(exc).__name__, exc)) from exc
            if r.status in ("exception", "violation"):
                raise symx.ViolationFound(
                    "unexpected exception " + r.msg if r.status == "exception" else r.msg, inputs
                ) from None
            raise symx.Unsupported(
                "proxy limit: %s at %s" % (msg, traceback.format_exc().strip().splitlines()[-6:-1])
            ) from None
        except symx.Unsupported as exc:
            # cannot encode this path: probe the real code on one model of the path
            try:
                inputs = e.decode_inputs(e.get_model())
            except symx.EngineSignal:
                raise exc from None
            with _no_engine():
                r = run_concrete(case, inputs)
            if r.status in ("exception", "violation"):
                raise symx.ViolationFound(r.msg, inputs) from None
            raise

    def _on_path_end(e):
        nonlocal validated
        state["path"] += 1
        n = state["path"]
        # reservoir-like: the first paths, then with decreasing probability
        if validated < case.validate or rng.random() < case.validate / n / 2:
            model = e.get_model()
            inputs = e.decode_inputs(model)
            obs = _eval_observed(state["h"].observed, model)
            with _no_engine():
                r = run_concrete(case, inputs)
            if r.status != "ok":
                mismatches.append(dict(inputs=json_inputs(inputs), status=r.status, msg=r.msg, tb=r.tb))
                if r.status in ("violation", "exception"):
                    raise symx.ViolationFound("(path validation) %s" % r.msg, inputs)
            elif len(obs) != len(r.observed) or not all(_same(a, b) for a, b in zip(obs, r.observed)):
                mismatches.append(dict(inputs=json_inputs(inputs), status="observed", sym=str(obs), concrete=str(r.observed)))
            else:
                validated += 1
            if len(samples) < 2:
                samples.append(dict(case=case.name, inputs=json_inputs(inputs), observed=str(r.observed)[:300]))

    viol = None
    error = None
    try:
        viol = eng.explore(_harness, _on_path_end)
    except (symx.Nondeterminism, Exception) as exc:
        error = "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc())
    st = eng.stats.as_dict()
    st["validated"] = validated - state["validated_before"]
    return dict(
        case=case.name,
        bounds=case.bounds,
        stats=st,
        samples=samples,
        mismatches=mismatches[:5],
        num_mismatches=len(mismatches),
        funcs=sorted(rec.funcs),
        wall=time.time() - t0,
        error=error,
        violation=None if viol is None else dict(msg=viol.msg, inputs=json_inputs(viol.inputs)),
    )


class _no_engine:
    """concrete code must not see the engine"""

    def __enter__(self):
        self.old = symx._cur
        symx._cur = None

    def __exit__(self, *a):
        symx._cur = self.old


def _worker(case, deadline, seed, slots, pending, idx, outdir):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    out = open(os.path.join(outdir, "out.%i" % idx), "w")
    os.dup2(out.fileno(), 1)
    os.dup2(out.fileno(), 2)
    sys.stdout = os.fdopen(1, "w", closefd=False)
    sys.stderr = os.fdopen(2, "w", closefd=False)
    _own_scratch(outdir, idx)
    splitter = Splitter(slots, pending, outdir, idx)
    try:
        res = run_case(case, deadline, seed, splitter)
    except BaseException as exc:
        res = dict(case=case.name, error="%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()))
    try:
        res = splitter.finish(res)
    except BaseException as exc:
        res["error"] = (res.get("error") or "") + "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc())
    fn = splitter.result_file()
    with open(fn + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(fn + ".tmp", fn)
    sys.stdout.flush()
    os._exit(0)


def replay(path: str) -> int:
    """replay a counterexample on the real code"""
    with open(path) as f:
        d = json.load(f)
    mod = load_module(d["property"])
    case = [c for c in mod.cases(d["tier"]) if c.name == d["case"]][0]
    tmp = tempfile.mkdtemp(prefix="vf_replay_")
    cwd = os.getcwd()
    os.chdir(tmp)
    tempfile.tempdir = tmp
    try:
        r = run_concrete(case, d["inputs"])
        if r.status == "ok" and case.real_rounding:
            # The solver does not know what the uninterpreted functions (exp, sin, ...) really compute,
            # so its values might accidentally give no difference. Same discrete choices, other real values.
            rnd = random.Random(1)
            for _ in range(40):
                inputs = {k: rnd.randint(-12, 12) / 4.0 if type(v) is float else v for k, v in d["inputs"].items()}
                r2 = run_concrete(case, inputs)
                if r2.status == "violation":
                    r = r2
                    d["inputs"] = inputs
                    with open(path, "w") as f:
                        json.dump(d, f, indent=1)
                    break
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    print("replay: property=%s case=%s" % (d["property"], d["case"]))
    print("inputs:", json.dumps(d["inputs"]))
    print("expected:", d["msg"])
    print("result:", r.status, r.msg)
    if r.tb:
        print(r.tb)
    return 1 if r.status in ("violation", "exception") else 0


def main():
    """main"""
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.replay:
        sys.exit(replay(args.replay))
    prop = args.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load_module(prop)
    prop = mod.PROPERTY
    tier = args.tier
    total = getattr(mod, "TOTAL_BUDGET", {}).get(tier, 600 if tier == "quick" else 3400)
    cases = mod.cases(tier)
    assert len({c.name for c in cases}) == len(cases), "case names not unique"
    if args.case:
        cases = [c for c in cases if args.case in c.name]
    assert cases
    outdir = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    ctx = multiprocessing.get_context("fork")
    results = [None] * len(cases)
    running = {}
    pending = list(range(len(cases)))
    slots = ctx.Semaphore(args.jobs)
    num_pending = ctx.Value("i", len(pending))
    end = t0 + total
    default_budget = 150 if tier == "quick" else 1200
    stop = False
    try:
        while pending or running:
            while pending and not stop and slots.acquire(False):
                i = pending.pop(0)
                num_pending.value = len(pending)
                now = time.time()
                if now > end - 1:
                    results[i] = dict(case=cases[i].name, skipped="total time budget")
                    slots.release()
                    continue
                deadline = min(end, now + (cases[i].budget or default_budget))
                p = ctx.Process(target=_worker, args=(cases[i], deadline, seed, slots, num_pending, i, outdir))
                p.start()
                running[i] = (p, deadline)
            if stop:
                pending.clear()
            for i, (p, deadline) in list(running.items()):
                fn = os.path.join(outdir, "res.%i" % i)
                if not p.is_alive():
                    p.join()
                    if os.path.exists(fn):
                        with open(fn, "rb") as f:
                            results[i] = pickle.load(f)
                    else:
                        results[i] = dict(case=cases[i].name, error="worker died: exit code %s" % p.exitcode)
                        _kill(p)
                        slots.release()
                    del running[i]
                    if results[i].get("violation"):
                        _kill(p)
                        v = results[i]["violation"]
                        v["path"], v["reproduced"], v["out"] = _write_and_replay(prop, tier, cases[i].name, v)
                        if v["reproduced"]:
                            stop = True
                    if args.v:
                        r = results[i]
                        st = r.get("stats") or {}
                        print(
                            "%-60s paths %5i asserts %5i queries %6i solver %6.1fs wall %6.1fs %s"
                            % (
                                r["case"],
                                st.get("paths", 0),
                                st.get("assertions", 0),
                                st.get("queries", 0),
                                st.get("solver_s", 0),
                                r.get("wall", 0),
                                "VIOL " + r["violation"]["msg"] if r.get("violation") else (st.get("inconclusive") or ""),
                            ),
                            flush=True,
                        )
                elif time.time() > deadline + max(30.0, 0.2 * total) or (
                    stop and time.time() > deadline
                ):
                    _kill(p)
                    p.join()
                    results[i] = dict(case=cases[i].name, skipped="hard time limit")
                    slots.release()
                    del running[i]
                elif stop:
                    _kill(p)
                    p.join()
                    results[i] = dict(case=cases[i].name, skipped="stopped after violation")
                    del running[i]
            time.sleep(0.02)
    finally:
        for i, (p, _d) in running.items():
            _kill(p)
    code = report(prop, mod, tier, seed, cases, [r for r in results if r], t0, args, outdir)
    shutil.rmtree(outdir, ignore_errors=True)
    sys.exit(code)


def _kill(p):
    """with all its forked processes"""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.kill()


def _write_and_replay(prop, tier, case_name, v):
    """write the counterexample, replay it on the real code in a fresh process"""
    rdir = os.path.join(EVIDENCE, "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s_%s.json" % (prop, "".join(c if c.isalnum() else "_" for c in case_name)[:80]))
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, case=case_name, msg=v["msg"], inputs=v["inputs"]), f, indent=1)
    try:
        p = subprocess.run(
            [sys.executable, os.path.abspath(__file__), "--replay", path],
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=120,
        )
    except subprocess.TimeoutExpired:
        # The symbolic run ended in this violation, the real run does not end. (For harnesses which catch hangs.)
        return path, False, "replay timeout"
    return path, p.returncode == 1, p.stdout.decode(errors="replace")[-3000:]


def _harness_error(exc) -> bool:
    """the harness itself does not fit to the code (e.g. renamed internals)"""
    tb = exc.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    in_vf = tb.tb_frame.f_code.co_filename.startswith(os.path.join(_root, "vf") + "/")
    if not in_vf:
        return False
    if isinstance(exc, (AttributeError, ImportError, NameError)):
        return True
    return isinstance(exc, TypeError) and "argument" in str(exc)


def report(prop, mod, tier, seed, cases, results, t0, args, outdir) -> int:
    """evidence + verdict"""
    by_name = {c.name: c for c in cases}
    tot = dict(paths=0, aborted=0, decisions=0, queries=0, assertions=0, assertions_trivial=0, concretizations=0)
    solver_s = 0.0
    max_q = 0.0
    validated = 0
    covers = set()
    funcs = set()
    samples = []
    inconclusive = []
    errors = []
    notes = []
    violations = []
    per_case = []
    for r in results:
        st = r.get("stats")
        if r.get("error"):
            errors.append("%s: %s" % (r["case"], r["error"]))
        if r.get("skipped"):
            inconclusive.append("%s: %s" % (r["case"], r["skipped"]))
        if not st:
            continue
        for k in tot:
            tot[k] += st[k]
        solver_s += st["solver_s"]
        max_q = max(max_q, st["max_query_s"])
        validated += st["validated"]
        covers.update(st["covers"])
        funcs.update(r["funcs"])
        if len(samples) < 12:
            samples.extend(r["samples"][:1])
        for s in st["inconclusive"][:5]:
            inconclusive.append("%s: %s" % (r["case"], s))
        if r["num_mismatches"] and not r["violation"]:
            if not by_name[r["case"]].real_rounding:
                errors.append("%s: symbolic path not reproduced concretely: %s" % (r["case"], r["mismatches"][:1]))
            else:
                notes.append("%s: %i paths differ by rounding" % (r["case"], r["num_mismatches"]))
        per_case.append(
            dict(
                case=r["case"],
                bounds=r["bounds"],
                paths=st["paths"],
                assertions=st["assertions"],
                queries=st["queries"],
                solver_s=round(st["solver_s"], 2),
                wall_s=round(r["wall"], 2),
                exhaustive=not st["inconclusive"] and not r["error"] and not r["violation"],
            )
        )
        if r["violation"]:
            violations.append((r["case"], r["violation"]))
    required = set(getattr(mod, "COVERS", []))
    missing = sorted(required - covers) if not args.case else []
    out_violations = []
    code = 0
    for case_name, v in violations:
        path = v["path"]
        out_violations.append(dict(case=case_name, msg=v["msg"], replay=path, reproduced=v["reproduced"]))
        if v["reproduced"]:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  case %s: %s" % (case_name, v["msg"]))
            print("  inputs %s" % json.dumps(v["inputs"])[:2000])
            code = 1
        else:
            errors.append("%s: counterexample did not reproduce: %s %s\n%s" % (case_name, v["msg"], v["inputs"], v["out"]))
    exhaustive = not inconclusive and not errors and not violations
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=tot["paths"],
            transitions=tot["decisions"] + tot["concretizations"],
            traces_validated_against_impl=validated,
            samples=samples,
            exhaustive_within_bounds=exhaustive,
            queries_discharged=tot["queries"],
            assertions=tot["assertions"],
            assertions_decided_without_solver_call=tot["assertions_trivial"],
            solver_s=round(solver_s, 2),
            max_query_s=round(max_q, 2),
            solver="z3 %s" % symx.z3.get_version_string(),
            bounds=per_case,
            functions_encoded=sorted(funcs),
            reachability_witnesses=sorted(covers),
            inconclusive=inconclusive[:50],
            errors=errors[:10],
            notes=notes[:20],
            witnesses_missing=missing,
            explanation="states = symbolic paths explored to the end; transitions = solver-decided branch points; "
            "each assertion is decided by the solver for all inputs of its path.",
        ),
        wall_s=round(time.time() - t0, 2),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        violations=out_violations,
    )
    with open(os.path.join(EVIDENCE, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    from vf import findings

    for line in findings.lines(prop, mod):
        print(line)
    print(
        "property %s tier %s: %i cases, %i paths, %i assertions, %i queries (%.1fs solver), %i validated, exhaustive=%s, %.1fs"
        % (prop, tier, len(results), tot["paths"], tot["assertions"], tot["queries"], solver_s, validated, exhaustive, time.time() - t0)
    )
    for s in inconclusive[:10]:
        print("inconclusive:", s[:600])
    for s in errors[:10]:
        print("error:", s[:3000])
    if code == 1:
        return 1
    strict = os.environ.get("VF_STRICT") == "1"  # development
    if missing:
        print("warning: not reached:", missing)
        if strict:
            return 2
    if errors and (strict or len(errors) * 2 > len(results)):
        return 2
    if tot["paths"] == 0:
        print("error: nothing decided")
        return 2
    return 0


if __name__ == "__main__":
    main()
