"""Runner of runtime monitors: seeded cases, forked workers, verdicts, evidence.

A property module (props/cNN.py) defines PROPERTY, RULE, ASSUMPTIONS, WORKLOADS.  A
workload is a function case(ctx) that drives the real library through its public
interface and feeds everything observed to oracles through ctx.  Each case is a
pure function of (seed, property, workload, index).

Verdicts are three-valued:
  exit 0   every oracle evaluation held (known findings are printed, not counted),
  exit 1   at least one violation: "VIOLATION property=<id> replay=<path>",
  exit 2   inconclusive - the monitors observed too little, or the harness broke.
"""
import argparse
import functools
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
N_WORKERS = 8
MEM_LIMIT = 3 << 30
MAX_VIOLATIONS = 6
MIN_HANGS = 3

TIME_BUDGET = {"quick": 75.0, "thorough": 660.0}
HARD_WALL = {"quick": 600.0, "thorough": 860.0}


class Violation(Exception):
    """Raised by ctx.fail; the message is the witness."""


class KnownFinding(Exception):
    """Raised by ctx.known for a failure listed in known-findings.json."""


class Skip(Exception):
    """The case has nothing to decide (inconclusive input)."""


class CaseTimeout(BaseException):
    pass


CURRENT = None  # the context of the running case


def held(fn):
    """The function, with its results kept and looked at again after the case."""

    @functools.wraps(fn)
    def wrapper(*args, **kwargs):
        result = fn(*args, **kwargs)
        if CURRENT is not None:
            CURRENT.hold(result, fn.__name__)
        return result

    return wrapper


def hold_results(namespace, *names):
    """Wrap the named functions of a property module in `held`."""
    for name in names:
        namespace[name] = held(namespace[name])


class Ctx:
    def __init__(self, prop, workload, index, seed, tier, findings):
        self.prop, self.workload, self.index = prop, workload, index
        self.seed, self.tier = seed, tier
        h = hashlib.sha256(f"{seed}/{prop}/{workload}/{index}".encode()).digest()
        self.case_seed = int.from_bytes(h[:8], "big")
        self.rng = random.Random(self.case_seed)
        self._np = None
        self._findings = findings
        self.events = {}
        self.keys = set()
        self.known_hits = {}
        self.trace = []
        self.sample_text = None
        self._tmp = None
        self._held = []

    # -- randomness ---------------------------------------------------------
    @property
    def np(self):
        if self._np is None:
            import numpy as np

            self._np = np.random.default_rng(self.case_seed & 0xFFFFFFFF)
        return self._np

    @property
    def thorough(self):
        return self.tier == "thorough"

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vmon-case-", dir=SCRATCH)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)

    # -- recording ----------------------------------------------------------
    def ev(self, name, n=1):
        """Count an observed event (an oracle evaluation, a call, a state)."""
        self.events[name] = self.events.get(name, 0) + n

    def nontrivial(self, *parts):
        """Register the case as non-trivial, identified by `parts`."""
        self.keys.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest())

    def note(self, *parts):
        """Append a line to the witness trace of this case."""
        if len(self.trace) < 60:
            self.trace.append(" ".join(_short(p) for p in parts))

    def sample(self, *parts):
        self.sample_text = " ".join(_short(p) for p in parts)

    # -- verdicts -----------------------------------------------------------
    def fail(self, message, /, **witness):
        raise Violation(message + _fmt_witness(witness))

    def check(self, condition, message, /, **witness):
        self.ev("oracle")
        if not condition:
            self.fail(message, **witness)

    def close(self, got, want, message, tol=1e-7, /, **witness):
        """Matrices / vectors / numbers equal up to an absolute tolerance."""
        import numpy as np

        self.ev("oracle")
        tol = witness.pop("tol", tol)
        g = np.asarray(got, dtype=complex)
        w = np.asarray(want, dtype=complex)
        if g.shape != w.shape:
            self.fail(f"{message}: shape {g.shape} instead of {w.shape}", **witness)
        if g.size == 0:
            return
        if not np.all(np.isfinite(g)):
            self.fail(f"{message}: non-finite result", **{**witness, "got": g, "want": w})
        err = float(np.max(np.abs(g - w)))
        if not err <= tol:
            pos = np.unravel_index(int(np.argmax(np.abs(g - w))), g.shape)
            self.fail(
                f"{message}: differs by {err:.3g} at {tuple(int(i) for i in pos)}",
                **{**witness, "got": g[pos], "want": w[pos]},
            )

    def raises(self, exc_types, fn, message, /, **witness):
        """fn() has to raise one of exc_types; anything else is a violation."""
        self.ev("oracle")
        try:
            result = fn()
        except exc_types as e:
            self.ev("refusals_observed")
            return e
        except Exception as e:
            self.fail(f"{message}: raised {type(e).__name__}: {e}", **witness)
        self.fail(f"{message}: returned {_short(result)}", **witness)

    def hold(self, obj, label):
        """Keep a result; `check_held` (run after the case) finds it as it was.

        A result that a later call changes (through a shared buffer, a remembered
        object handed out twice) was never really an answer.
        """
        if len(self._held) < 24:
            from vmon.snap import snap

            self._held.append((label, obj, snap(obj)))
        return obj

    def check_held(self):
        if not self._held:
            return
        from vmon.snap import diff, same, snap

        for label, obj, was in self._held:
            now = snap(obj)
            if not same(was, now):
                self.fail(f"an earlier result changed later: {label}", where=diff(was, now))
            self.ev("held_results")

    def known(self, key, message, /, **witness):
        """A failure explained by mechanism `key`: suppressed only if it is listed."""
        if key in self._findings:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            self.ev("known_finding_hits")
            return
        self.fail(f"[{key}] {message}", **witness)


def _short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:
        s = f"<unprintable {type(x).__name__}: {e}>"
    return s if len(s) <= n else s[: n - 3] + "..."


def _fmt_witness(w):
    return "".join(f"\n    {k} = {_short(v, 1500)}" for k, v in w.items())


def _load_findings():
    path = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


SCRATCH = None


def _import_target():
    """Import the third-party stack, then the library from /repo's working tree.

    Bytecode caches of the library are ignored, so that the sources are what runs.
    """
    import numpy  # noqa: F401
    import scipy.linalg  # noqa: F401
    import scipy.sparse.linalg  # noqa: F401
    import sympy  # noqa: F401

    try:
        import rapidjson  # noqa: F401
    except ImportError:
        pass
    sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
    sys.path.insert(0, os.path.join(REPO, "src"))
    import orquestra.quantum as oq

    where = os.path.abspath(list(oq.__path__)[0])
    if not where.startswith(REPO + "/"):
        raise RuntimeError(f"library imported from {where}, not from {REPO}")


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, wl, index, seed, tier, findings):
    """Run one case; return (status, ctx, message)."""
    global CURRENT
    ctx = Ctx(mod.PROPERTY, wl["name"], index, seed, tier, findings)
    limit = wl.get("cpu_limit", 60.0)
    random.seed(ctx.case_seed)
    import numpy as np

    np.random.seed(ctx.case_seed & 0xFFFFFFFF)
    signal.signal(signal.SIGPROF, _alarm)
    # The interval matters: an alarm that lands in a destructor or in a callback
    # of the C code is swallowed there, the next one is not.
    signal.setitimer(signal.ITIMER_PROF, limit, 3.0)
    status, message = "ok", None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            CURRENT = ctx
            wl["case"](ctx)
            CURRENT = None
            ctx.check_held()
    except Skip:
        status = "skip"
    except Violation as e:
        status, message = "violation", str(e)
    except MemoryError:
        status, message = "resource", "MemoryError"
    except CaseTimeout:
        if wl.get("hang", "violation") == "violation":
            # Only a suspicion: sympy can be slow for reasons of its own (its caches
            # depend on what the worker did before).  `_confirm` runs the case again.
            status = "suspect"
            message = (
                f"no result after {limit:.0f} s of CPU time, "
                "such cases normally take milliseconds"
            )
        else:
            # sympy is known to give up on some of these; many such cases are not that
            status, message = "resource", "timeout"
            if wl["hang"] == "inconclusive":
                status = "suspect"
    except RecursionError as e:
        status, message = "suspect", f"RecursionError: {e}"
    except Exception as e:
        tb = traceback.format_exc(limit=-12)
        status = "violation"
        message = f"unexpected {type(e).__name__}: {e}\n{tb}"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        CURRENT = None
        ctx.cleanup()
    return status, ctx, message


def _worker(mod, plan, counter, stop, deadline, seed, tier, findings, out_path, wid):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    from . import cov

    tracer = cov.start(mod)
    res = {
        "status": {},
        "events": {},
        "keys": set(),
        "violations": [],
        "known": {},
        "samples": {},
        "per_workload": {},
        "slow": [],
        "resource": [],
        "suspects": [],
        "lines": None,
    }
    import gc

    gc.freeze()
    while not stop.value and time.monotonic() < deadline:
        with counter.get_lock():
            pos = counter.value
            counter.value += 1
        if pos >= len(plan):
            break
        w, index = plan[pos]
        wl = mod.WORKLOADS[w]
        t0 = time.process_time()
        status, ctx, message = run_case(mod, wl, index, seed, tier, findings)
        dt = time.process_time() - t0
        res["status"][status] = res["status"].get(status, 0) + 1
        pw = res["per_workload"].setdefault(wl["name"], [0, 0, 0.0])
        pw[0] += 1
        pw[2] += dt
        if status == "ok" and ctx.keys:
            pw[1] += 1
        for k, v in ctx.events.items():
            res["events"][k] = res["events"].get(k, 0) + v
        for k, v in ctx.known_hits.items():
            res["known"][k] = res["known"].get(k, 0) + v
        res["keys"] |= {wl["name"][:3].encode() + k for k in ctx.keys}
        if ctx.sample_text and len(res["samples"].setdefault(wl["name"], [])) < 2:
            res["samples"][wl["name"]].append(ctx.sample_text)
        if dt > 5:
            res["slow"].append((round(dt, 1), wl["name"], index))
        if status == "resource":
            res["resource"].append((message, wl["name"], index))
        if status == "suspect":
            res["suspects"].append((wl["name"], index, message, ctx.trace))
        if status == "violation":
            res["violations"].append((wl["name"], index, message, ctx.trace))
            with stop.get_lock():
                stop.value += 1 if len(res["violations"]) >= MAX_VIOLATIONS else 0
    res["lines"] = cov.stop(tracer)
    with open(out_path, "wb") as f:
        pickle.dump(res, f)
    os._exit(0)


def _plan(mod, tier, scale):
    """Interleave workloads so that a cut by the time budget is fair to all."""
    counts = []
    for w, wl in enumerate(mod.WORKLOADS):
        more = getattr(mod, "QUICK_SCALE", 1) if tier == "quick" else 1
        n = int(wl[tier] * (scale * more if not wl.get("fixed") else 1))
        counts.append((w, n))
    keyed = []
    for w, n in counts:
        first = mod.WORKLOADS[w].get("fixed")
        for i in range(n):
            keyed.append(((0 if first else 1), (i + 0.5) / n, w, i))
    keyed.sort()
    return [(w, i) for _, _, w, i in keyed]


def main(argv):
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--case", help="workload:index")
    ap.add_argument("--only", help="comma separated workload names")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=N_WORKERS)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "0") or 0)
        except ValueError:
            seed = 0
    t_start = time.monotonic()
    SCRATCH = tempfile.mkdtemp(prefix="vmon-")
    main_pid = os.getpid()
    try:
        return _main(args, tier, seed, t_start)
    finally:
        if os.getpid() == main_pid:
            shutil.rmtree(SCRATCH, ignore_errors=True)


def _main(args, tier, seed, t_start):
    prop = args.prop.upper()
    all_findings = _load_findings()
    findings = {
        f["key"]: f
        for f in all_findings
        if f["property"] == prop and f["status"] == "known"
    }
    try:
        _import_target()
    except Exception:
        # A library that cannot even be imported is not for these checks to judge.
        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop} the library could not be imported")
        return 2
    mod = importlib.import_module(f"props.{prop.lower()}")
    names = {wl["name"]: wl for wl in mod.WORKLOADS}

    from . import lits

    lits.harvest(mod)
    if args.replay or args.case:
        if args.replay:
            with open(args.replay) as f:
                rec = json.load(f)
            name, index, seed, tier = (
                rec["workload"],
                rec["index"],
                rec["seed"],
                rec["tier"],
            )
        else:
            name, index = args.case.rsplit(":", 1)
            index = int(index)
        status, ctx, message = run_case(
            mod, names[name], index, seed, tier, findings
        )
        print(f"{status}: {name}:{index} seed={seed}")
        for line in ctx.trace:
            print("  |", line)
        if message:
            print(message)
        print("events", ctx.events, "known", ctx.known_hits)
        if ctx.sample_text:
            print("sample", ctx.sample_text)
        if status in ("violation", "suspect"):
            print(f"VIOLATION property={prop} replay={args.replay or args.case}")
            return 1
        return 0

    if args.only:
        keep = set(args.only.split(","))
        mod.WORKLOADS[:] = [wl for wl in mod.WORKLOADS if wl["name"] in keep]

    plan = _plan(mod, tier, args.scale)
    budget = getattr(mod, "TIME_BUDGET", {}).get(tier, TIME_BUDGET[tier])
    deadline = time.monotonic() + budget
    counter = mp.Value("q", 0)
    stop = mp.Value("q", 0)
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for wid in range(args.jobs):
        out_path = os.path.join(SCRATCH, f"w{wid}.pkl")
        pid = os.fork()
        if pid == 0:
            try:
                _worker(
                    mod,
                    plan,
                    counter,
                    stop,
                    deadline,
                    seed,
                    tier,
                    findings,
                    out_path,
                    wid,
                )
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        procs.append((pid, out_path))

    hard = t_start + HARD_WALL[tier]
    pending = dict(procs)
    killed = 0
    while pending:
        for pid in list(pending):
            done, _ = os.waitpid(pid, os.WNOHANG)
            if done:
                del pending[pid]
        if pending and time.monotonic() > hard:
            for pid in pending:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                killed += 1
            break
        time.sleep(0.02)

    results, lost = [], 0
    for pid, out_path in procs:
        if os.path.exists(out_path):
            with open(out_path, "rb") as f:
                results.append(pickle.load(f))
        else:
            lost += 1
    return _report(
        args, mod, prop, tier, seed, t_start, plan, results, lost, killed, findings
    )


def _confirm(mod, suspects, per_workload, seed, tier, findings):
    """Run each case that gave no answer once more, alone in a fresh process.

    Returns (confirmed, unconfirmed).  One slow case is sympy being slow; they count
    as violations when several cases of a workload give no answer, each of them again
    in the second run.
    """
    names = {wl["name"]: wl for wl in mod.WORKLOADS}
    by_wl = {}
    for s in sorted(suspects, key=lambda v: (v[0], v[1])):
        by_wl.setdefault(s[0], []).append(s)
    unconfirmed = [(s[2], s[0], s[1]) for s in suspects]
    for name, group in sorted(by_wl.items(), key=lambda kv: -len(kv[1])):
        need = MIN_HANGS
        if names[name].get("hang"):
            need = max(8, 0.05 * per_workload[name][0])
        if len(group) < need:
            continue
        chosen = group[:MIN_HANGS]
        if _again(mod, names[name], [s[1] for s in chosen], seed, tier, findings):
            return [
                (s[0], s[1], s[2] + " (twice, and so do others)", s[3]) for s in chosen
            ], []
    return [], unconfirmed


def _again(mod, wl, indices, seed, tier, findings):
    """Whether the cases all fail once more, each alone in a fresh process."""
    sys.stdout.flush()
    sys.stderr.flush()
    pids = []
    for index in indices:
        pid = os.fork()
        if pid == 0:
            code = 4
            try:
                resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
                status, _, _ = run_case(mod, wl, index, seed, tier, findings)
                code = 5 if status in ("suspect", "violation") else 4
            finally:
                os._exit(code)
        pids.append(pid)
    limit = time.monotonic() + 2 * wl.get("cpu_limit", 60.0)
    failed = 0
    for pid in pids:
        done = 0
        while not done and time.monotonic() < limit:
            done, st = os.waitpid(pid, os.WNOHANG)
            if done:
                failed += os.waitstatus_to_exitcode(st) == 5
            time.sleep(0.05)
        if not done:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    return failed == len(pids)


def _merge(results):
    m = {
        "status": {},
        "events": {},
        "keys": set(),
        "violations": [],
        "known": {},
        "samples": {},
        "per_workload": {},
        "slow": [],
        "resource": [],
        "suspects": [],
    }
    lines = {}
    for r in results:
        for field in ("status", "events", "known"):
            for k, v in r[field].items():
                m[field][k] = m[field].get(k, 0) + v
        m["keys"] |= r["keys"]
        for field in ("violations", "slow", "resource", "suspects"):
            m[field] += r[field]
        for k, v in r["samples"].items():
            m["samples"].setdefault(k, []).extend(v)
        for k, v in r["per_workload"].items():
            t = m["per_workload"].setdefault(k, [0, 0, 0.0])
            for i in range(3):
                t[i] += v[i]
        for fn, s in (r["lines"] or {}).items():
            lines.setdefault(fn, set()).update(s)
    m["lines"] = lines
    return m


def _report(
    args, mod, prop, tier, seed, t_start, plan, results, lost, killed, findings
):
    from . import cov

    m = _merge(results)
    if m["suspects"] and not m["violations"]:
        confirmed, unconfirmed = _confirm(
            mod, m["suspects"], m["per_workload"], seed, tier, findings
        )
        m["violations"] += confirmed
        m["resource"] += unconfirmed
    evaluations = sum(m["status"].values())
    viol = sorted(m["violations"], key=lambda v: (v[0], v[1]))
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(m["keys"]),
        "rule": mod.RULE,
        "samples": [
            {"workload": k, "case": s} for k, v in sorted(m["samples"].items()) for s in v[:2]
        ][:40],
        "events": dict(sorted(m["events"].items())),
        "case_outcomes": m["status"],
        "planned_cases": len(plan),
        "per_workload": {
            k: {"cases": v[0], "nontrivial": v[1], "cpu_s": round(v[2], 2)}
            for k, v in sorted(m["per_workload"].items())
        },
        "anchor_line_coverage": cov.summary(mod, m["lines"]),
        "known_finding_hits": m["known"],
        "resource_limited_cases": len(m["resource"]),
        "suspected_hangs": [list(s[:2]) for s in m["suspects"]][:10],
        "workers_lost": lost,
    }
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(time.monotonic() - t_start, 2),
        "violations": len(viol),
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True, default=str)

    print(
        f"{prop} tier={tier} seed={seed}: {evaluations}/{len(plan)} cases, "
        f"{len(m['keys'])} distinct non-trivial, "
        f"{m['events'].get('oracle', 0)} oracle evaluations, "
        f"{evidence['wall_s']} s; outcomes {m['status']}"
    )
    if args.only or args.scale != 1 or os.environ.get("VMON_VERBOSE"):
        print(json.dumps(coverage["per_workload"], indent=1))
        print(json.dumps(coverage["events"]))
        print("anchor lines", json.dumps(coverage["anchor_line_coverage"]))
        print("slow", sorted(m["slow"])[-8:], "resource", m["resource"][:8])
    for key, f in findings.items():
        print(f"KNOWN-FINDING: property={prop} {key}: {f['what_fails']}")
    if viol:
        rdir = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for name, index, message, trace in viol[:MAX_VIOLATIONS]:
            path = os.path.join(rdir, f"{prop}-{name}-{index}-{seed}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "workload": name,
                        "index": index,
                        "seed": seed,
                        "tier": tier,
                        "message": message,
                        "trace": trace,
                        "replay_cmd": f"/opt/venv/bin/python /verif/check.py {prop} --replay {path}",
                    },
                    f,
                    indent=1,
                )
            print(f"VIOLATION property={prop} replay={path}")
            print("   ", f"{name}:{index}", (message or "").replace("\n", "\n    "))
        return 1
    if lost or killed:
        print(f"INCONCLUSIVE property={prop} {lost} workers ended without a report")
        return 2
    required = getattr(mod, "REQUIRED_EVENTS", ("oracle",))
    missing = [e for e in required if not m["events"].get(e)]
    if not args.only and (missing or len(m["keys"]) < getattr(mod, "MIN_NONTRIVIAL", 20)):
        print(f"INCONCLUSIVE property={prop} monitors observed too little: {missing}")
        return 2
    resource_cap = getattr(mod, "MAX_RESOURCE_FRACTION", 0.02)
    if len(m["resource"]) > max(3, resource_cap * evaluations):
        print(f"INCONCLUSIVE property={prop} too many cases hit resource limits")
        print(m["resource"][:10])
        return 2
    return 0
