"""Runs the harnesses of one property: exploration, replay, evidence, exit code."""
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"


def import_z3():
    """z3 lives in the tooling venv; nothing else is taken from there."""
    try:
        import z3  # noqa: F401
    except ImportError:
        sys.path.append(VT_SITE)
        import z3  # noqa: F401

        sys.path.remove(VT_SITE)


class H:
    """One harness: fn(h) over symbolic inputs."""

    def __init__(
        self, name, fn, tiers=("quick", "thorough"), finding=None, bounds="", max_paths=4000,
        witnesses=60, **options
    ):
        self.name = name
        self.fn = fn
        self.tiers = tiers
        self.finding = finding
        self.bounds = bounds
        self.max_paths = max_paths
        self.witnesses = witnesses
        self.options = options


def load_check(pid):
    sys.path.insert(0, VERIF)
    try:
        return importlib.import_module(f"checks.{pid}")
    finally:
        sys.path.pop(0)


# ------------------------------------------------------------------------ concrete server
class ConcreteServer:
    def __init__(self, pid):
        self.pid = pid
        self.p = None

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
        self.p = subprocess.Popen(
            [PY, os.path.join(VERIF, "replay.py"), "--serve", self.pid],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
            env=env,
            cwd=VERIF,
        )

    def run(self, harness, env, choices, timeout=60):
        import select

        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(dict(harness=harness, env=env, choices=choices)) + "\n")
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.stop()
                return dict(status="timeout")
            line = self.p.stdout.readline()
            if not line:
                self.stop()
                return dict(status="crash")
            return json.loads(line)
        except (BrokenPipeError, json.JSONDecodeError):
            self.stop()
            return dict(status="crash")

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


# ------------------------------------------------------------------------------- worker
W = {}


def watch(core, stuck):
    while True:
        time.sleep(0.5)
        until = core.Guard.until
        if until is not None and time.time() > until:
            stuck.put(W["job"])
            os._exit(0)
        started = W.get("started")
        if until is None and started is not None and time.time() - started - core.Guard.total > HANG:
            # the symbolic run of one path takes seconds
            signal.pthread_kill(threading.main_thread().ident, signal.SIGUSR1)
            time.sleep(2)


HANG = 100


def on_hang(*_):
    if W.get("started") is not None:
        raise W["core"].Hangs("the code does not end")


def worker_init(pid, seed, stuck):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 * 2**30, 6 * 2**30))
    sys.setrecursionlimit(20000)
    os.environ.setdefault("MPLBACKEND", "Agg")
    logging.disable(logging.CRITICAL)
    import_z3()
    from . import core, loader

    W["core"] = core
    W["pid"] = pid
    signal.signal(signal.SIGUSR1, on_hang)
    threading.Thread(target=watch, args=(core, stuck), daemon=True).start()
    loader.install()
    try:
        import magnopy  # noqa: F401  (analysed version)
    except BaseException as e:  # the workers would be started again and again
        W["broken"] = f"the package can not be loaded symbolically: {type(e).__name__}: {e}"
        return

    W["seed"] = seed
    W["check"] = load_check(pid)
    W["harness"] = {x.name: x for x in W["check"].HARNESSES}
    W["server"] = ConcreteServer(pid)
    W["funcs"] = set()
    src = loader.repo_src()
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, "verif")

    def start(code, off):
        if code.co_filename.startswith(src):
            mod = loader.FILES.get(code.co_filename, "?")
            if not code.co_qualname.startswith("<"):
                W["funcs"].add(f"{mod}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


OVERAPPROX = ("cos!", "sin!", "arccos!", "arctan2!", "arcsin!", "print!", "round!", "cbrt!")


def run_path(job):
    """Execute one path of one harness; returns a JSON-able result."""
    name, prefix, want_witness, attempt = job
    core = W["core"]
    W["job"] = (name, prefix)
    if attempt != W.get("attempt", 0):
        W["attempt"] = attempt
        for k in ("smt.random_seed", "nlsat.seed", "sat.random_seed"):
            core.z3.set_param(k, 7 * attempt)
    from . import harness as hmod

    if "broken" in W:
        return dict(
            harness=name, prefix=prefix, status="unsupported", label=None, detail=W["broken"], trace="", cands=[], alts=[], checked={},
            choices={}, decisions=0, wall=0, nvars=0, overapprox=False, stats=core.Stats().asdict(),
        )
    h = W["harness"][name]
    stats = core.Stats()
    ctx = core.Context(prefix, stats, h.options)
    rng = random.Random(f"{W['seed']}-{name}-{len(prefix)}-{attempt or ''}")
    sh = hmod.Symbolic(ctx, rng)
    core.CUR = ctx
    t0 = time.time()
    out = dict(harness=name, prefix=prefix, status="ok", label=None, detail="", cands=[])
    viol = None
    core.Guard.total = 0
    W["started"] = time.time()
    try:
        try:
            h.fn(sh)
        finally:
            W["started"] = None
    except core.PathInfeasible:
        out["status"] = "infeasible"
    except core.Unsupported as e:
        out["status"] = "unsupported"
        out["detail"] = f"{e}"
        out["trace"] = short_tb()
    except core.PathLimit as e:
        out["hangs"] = True
        out["status"] = "limit"
        out["detail"] = str(e)
    except core.PropertyViolated as e:
        out["status"] = "violation"
        out["label"] = e.label
        out["detail"] = str(e.detail)[:2000]
        viol = e.model
    except MemoryError:
        out["status"] = "unsupported"
        out["detail"] = "out of memory"
    except Exception as e:  # escaped from the code under analysis
        out["status"] = "exception"
        out["label"] = f"unexpected {type(e).__name__}"
        out["detail"] = f"{type(e).__name__}: {str(e)[:500]}"
        out["trace"] = short_tb()
    finally:
        sh.close()
    try:
        if out["status"] in ("violation", "exception"):
            confirm(ctx, h, out, viol, rng)
        elif ctx.soft_labels:
            # undecided obligations: look for a concrete violation all the same
            label, bad, big = ctx.soft_labels[0]
            out["label"] = label
            confirm(ctx, h, out, (bad, big), rng)
            if out.get("replay") is None:
                out["status"] = "unknown"
                out["detail"] = f"solver returned unknown for: {sorted({l for l, _, _ in ctx.soft_labels})}"
            else:
                out["status"] = "violation"
        elif out["status"] in ("ok", "unsupported", "limit") and (want_witness or out.get("hangs")):
            witness(ctx, h, out, rng)
    except core.EngineSignal as e:
        out["detail"] += f" [model: {e}]"
    except MemoryError:
        out["detail"] += " [model: memory]"
    out["overapprox"] = any(v.name.startswith(OVERAPPROX) for v in ctx.vars)
    out["nvars"] = len(ctx.vars)
    out["checked"] = sh.checked
    out["choices"] = ctx.choices
    out["decisions"] = len(ctx.trace)
    out["wall"] = time.time() - t0
    alts = []
    for i in range(len(prefix), len(ctx.trace)):
        kind, val, others = ctx.trace[i]
        for o in others:
            alts.append([list(t[:2]) + [[]] for t in ctx.trace[:i]] + [[kind, o, []]])
    out["alts"] = alts
    core.CUR = None
    stats.functions = set(W["funcs"])
    out["stats"] = stats.asdict()
    return out


def short_tb():
    tb = traceback.format_exc().splitlines()
    return "\n".join(tb[-14:])


def candidates(ctx, viol, rng):
    """Concrete inputs, most specific first."""
    core = W["core"]
    if viol is not None:
        bad, big = viol
        if big:
            b = core.b_or(big)
            nice = []
            for v in ctx.vars:
                if v.base:
                    nice.append(
                        core.SymBool(core.z3.And(v.z <= 20, v.z >= -20), {v.id})
                    )
            if isinstance(b, core.SymBool):
                yield ctx.model([b] + nice, generic=rng, ms=6000)
                yield ctx.model([b] + nice, ms=6000)
                yield ctx.model([b], ms=6000)
        yield ctx.model([bad], generic=rng, ms=6000)
        yield ctx.model([bad], ms=10000)
    many = any(v.name.startswith(OVERAPPROX) for v in ctx.vars)
    for _ in range(16 if many else 4):
        yield ctx.model(generic=rng)
    yield ctx.model()


def confirm(ctx, h, out, viol, rng):
    tried = 0
    t0 = time.time()
    for env in candidates(ctx, viol, rng):
        if env is None:
            continue
        tried += 1
        r = W["server"].run(h.name, env, ctx.choices)
        out.setdefault("replays", []).append((r["status"], str(r.get("detail", ""))[:100], env))
        if r["status"] == "violation":
            out["replay"] = dict(
                property=W["pid"], harness=h.name, env=env, choices=ctx.choices, result=r
            )
            return
        if time.time() - t0 > 120:
            break
    out["tried"] = tried


def witness(ctx, h, out, rng):
    fails = 0
    first = None
    for i in range(3):
        env = ctx.model(generic=rng if i != 2 else None)
        if env is None:
            out["witness"] = "no model"
            return
        r = W["server"].run(h.name, env, ctx.choices)
        if i == 0:
            out["witness"] = r["status"]
            out["witness_env"] = env
            out["witness_checked"] = r.get("checked", 0)
        if out.get("hangs") and r["status"] == "timeout":
            r.update(status="violation", label="the code does not end", detail="no answer in 60 s")
        if r["status"] != "violation":
            return
        fails += 1
        first = first or (env, r)
    env, r = first
    out["label"] = r.get("label")
    out["status"] = "violation"
    out["detail"] = "concrete run of a path the encoding accepted: " + str(r.get("detail"))[:500]
    out["replay"] = dict(property=W["pid"], harness=h.name, env=env, choices=ctx.choices, result=r)


# ----------------------------------------------------------------------------------- main
def main(pid, tier, seed, jobs=None, only=None, verbose=False, budget=None):
    t0 = time.time()
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.environ["OMP_NUM_THREADS"] = "1"
    import_z3()
    check = load_check(pid)
    hs = [x for x in check.HARNESSES if tier in x.tiers and (only is None or x.name in only)]
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    budget = budget or (780 if tier == "quick" else 3 * 3600)
    known = load_known(pid)
    mpc = mp.get_context("fork")
    stuck = mpc.SimpleQueue()
    pool = mpc.Pool(jobs, initializer=worker_init, initargs=(pid, seed, stuck))
    pending, results = [], []
    queue = [(x.name, [], True) for x in hs]
    counts = {x.name: 0 for x in hs}
    maxp = {x.name: x.max_paths for x in hs}
    wit = {x.name: x.witnesses for x in hs}
    capped = {}
    from . import core

    stats = core.Stats()
    violations, problems, inconclusive, findings = [], [], [], {}
    stop = False
    while queue or pending:
        while queue and len(pending) < jobs * 3 and not stop:
            name, prefix, w = queue.pop(0)
            if counts[name] >= maxp[name]:
                capped[name] = capped.get(name, 0) + 1
                continue
            counts[name] += 1
            w = counts[name] <= wit[name] or counts[name] % 10 == 0
            pending.append((pool.apply_async(run_path, ((name, prefix, w, 0),)), name, prefix, w, 0))
        if time.time() - t0 > budget:
            left = len(queue) + len(pending)
            inconclusive.append(
                dict(harness="*", status="budget", label=None, detail=f"time budget {budget}s reached with {left} paths unexplored")
            )
            break
        while not stuck.empty():
            lost = stuck.get()
            for x in [x for x in pending if (x[1], x[2]) == lost]:
                pending.remove(x)
                _, name, prefix, w, n = x
                if n < 2:
                    pending.append((pool.apply_async(run_path, ((name, prefix, w, n + 1),)), name, prefix, w, n + 1))
                else:
                    inconclusive.append(
                        dict(harness=name, status="limit", label=None, detail="the solver does not stop")
                    )
        done = [p for p in pending if p[0].ready()]
        if not done:
            time.sleep(0.01)
            continue
        for p in done:
            pending.remove(p)
            try:
                r = p[0].get()
            except Exception as e:
                problems.append(f"worker error: {type(e).__name__}: {e}")
                continue
            stats.merge(r["stats"])
            results.append(r)
            if verbose:
                print(
                    f"  [{r['harness']}] {r['status']} {r['label'] or ''} {r['detail'][:300]} "
                    f"{r['choices']} dec={r['decisions']} wit={r.get('witness')} t={r['wall']:.1f}"
                    + (("\n" + r.get("trace", "")) if verbose > 1 or r["status"] in ("exception", "unsupported") else ""),
                    flush=True,
                )
                if verbose > 1:
                    for x in r.get("replays", []):
                        print("      replay:", x)
            for a in r["alts"]:
                queue.append((r["harness"], a, True))
            hh = next(x for x in hs if x.name == r["harness"])
            if r["status"] in ("violation", "exception"):
                if r.get("replay"):
                    k = match_known(known, hh, r)
                    if k is not None:
                        findings[k["id"]] = k
                    else:
                        violations.append(r)
                        stop = stop or not verbose
                elif r["status"] == "exception" or r["overapprox"]:
                    inconclusive.append(r)
                else:
                    # the encoding disagrees with the code: nothing is claimed for this path
                    r["detail"] = "counterexample not reproduced on the real code: " + r["detail"]
                    inconclusive.append(r)
            elif r["status"] in ("unsupported", "limit", "unknown"):
                inconclusive.append(r)
        if stop and violations:
            break
    pool.terminate()
    pool.join()
    for x in hs:
        if x.name in capped:
            inconclusive.append(
                dict(harness=x.name, status="capped", label=None, detail=f"{capped[x.name]} paths beyond the cap of {x.max_paths}")
            )
    return finish(
        pid, tier, seed, check, hs, results, stats, violations, problems, inconclusive, findings, t0, verbose
    )


def load_known(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == pid]


def match_known(known, h, r):
    for k in known:
        if k["harness"] != h.name:
            continue
        if k.get("label") and k["label"] != r["replay"]["result"].get("label"):
            continue
        if any(r["choices"].get(c) != v for c, v in k.get("choices", {}).items()):
            continue
        return k
    return None


def finish(pid, tier, seed, check, hs, results, stats, violations, problems, inconclusive, findings, t0, verbose):
    ok = [r for r in results if r["status"] == "ok"]
    witnessed = [r for r in results if r.get("witness") == "ok"]
    vac = [x.name for x in hs if not any(r["harness"] == x.name and r["checked"] for r in results)]
    nowit = [
        x.name for x in hs if not x.finding
        and not any(r["harness"] == x.name and r.get("witness") == "ok" for r in results)
    ]
    code = 0
    replay = None
    if violations:
        v = violations[0]
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{pid}.json")
        v["replay"]["label"] = v["label"]
        v["replay"]["detail"] = v["detail"]
        with open(replay, "w") as f:
            json.dump(v["replay"], f, indent=1)
        code = 1
    elif problems:
        code = 2
    for k in findings.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    samples = []
    seen = set()
    for r in witnessed:
        if r["harness"] in seen:
            continue
        seen.add(r["harness"])
        samples.append(
            dict(
                harness=r["harness"],
                choices=r["choices"],
                concrete_witness={k: r["witness_env"][k] for k in list(r["witness_env"])[:12]},
                obligations=sorted(set(r["checked"]))[:12],
            )
        )
        if len(samples) >= 8:
            break
    if not samples:
        samples = [dict(harness=r["harness"], status=r["status"]) for r in results[:3]]
    paths = {}
    for r in results:
        paths.setdefault(r["harness"], {}).setdefault(r["status"], 0)
        paths[r["harness"]][r["status"]] += 1
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=len(results),
            transitions=sum(r["decisions"] for r in results),
            traces_validated_against_impl=len(witnessed),
            samples=samples,
            explanation=(
                "states = symbolic execution paths of the real code, transitions = branch decisions on "
                "them, traces_validated = paths whose solver model was re-run on the unpatched package"
            ),
            paths_by_harness=paths,
            paths_proved=len(ok),
            obligations=stats.obligations,
            solver_queries=stats.queries,
            solver_unsat=stats.unsat,
            solver_sat=stats.sat,
            solver_unknown=stats.unknown,
            solver_seconds=round(stats.solver_s, 2),
            functions_encoded=sorted(stats.functions),
            bounds={x.name: x.bounds for x in hs},
            inconclusive=[
                f"{r['harness']}: {r['status']}: {r['detail'][:300]}" for r in inconclusive[:20]
            ],
            inconclusive_count=len(inconclusive),
            errors=problems[:10],
            harnesses_without_obligation=vac,
            harnesses_without_concrete_witness=nowit,
            known_findings=sorted(findings),
        ),
        assumptions=list(getattr(check, "ASSUMPTIONS", []))
        + [
            "floating-point numbers are treated as exact real numbers",
            "z3 4.x/5.x is trusted for unsat answers; every counterexample is re-run on the real code",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid} {tier}: {len(results)} paths, {len(ok)} proved, {len(inconclusive)} inconclusive, "
        f"{stats.obligations} obligations, {stats.queries} queries ({stats.solver_s:.1f}s solver), "
        f"{len(witnessed)} replayed, {time.time() - t0:.1f}s"
    )
    for r in inconclusive[:10]:
        print(f"INCONCLUSIVE {r['harness']}: {r['status']} {r.get('label') or ''} {r['detail'][:200]}")
        if verbose and r.get("trace"):
            print(r["trace"])
    for p in problems[:10]:
        print("PROBLEM", p)
    if vac:
        print("VACUOUS harnesses:", vac)
    if nowit:
        print("NO WITNESS for harnesses:", nowit)
    if violations:
        for v in violations[:5]:
            print(
                f"violated: harness={v['harness']} obligation={v['label']!r} "
                f"choices={v['choices']} {v['replay']['result'].get('detail', '')[:400]}"
            )
        print(f"VIOLATION property={pid} replay={replay}")
    sys.stdout.flush()
    return code
