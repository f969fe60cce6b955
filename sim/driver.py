"""Batch driver: generate cases from the seed, run them in worker processes, minimise, report, write evidence."""

import argparse
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Violation(Exception):
    """The property does not hold; `cls` names the way it fails (stable while shrinking)."""

    def __init__(self, cls, detail):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = detail


class Runner:
    """Handed to a property's run(); every simulated job goes through it and is accounted for."""

    def __init__(self, case):
        self.case = case
        self.replay = case.get("choices")
        self.recorded = []
        self.stats = {"runs": 0, "steps": 0, "messages": 0, "sim_seconds": 0.0, "faults": {}, "policies": {}, "ranks": {},
                      "set_reorderings": 0, "outcomes": {}}
        self.digest = hashlib.blake2b(digest_size=12)
        self.traces = []
        self.probes = {}
        self.key = None

    def _spec(self, spec):
        spec = dict(spec)
        k = self.stats["runs"]
        if self.replay is not None and k < len(self.replay) and self.replay[k] is not None:
            spec["choices"] = self.replay[k]
        if os.environ.get("VERIF_TRACE"):
            spec["keep_trace"] = True
        return spec

    def _account(self, n, spec, o):
        sim = o.sim
        s = self.stats
        s["runs"] += 1
        s["steps"] += sim.steps
        s["messages"] += sim.net.sent
        s["sim_seconds"] += sim.sim_seconds
        for k, v in sim.fired.items():
            s["faults"][k] = s["faults"].get(k, 0) + v
        p = sim.policy
        s["policies"][p] = s["policies"].get(p, 0) + 1
        s["ranks"][str(n)] = s["ranks"].get(str(n), 0) + 1
        out = ("hang" if o.hang else "killed" if o.killed else "aborted" if o.aborted else "failed" if o.errors else
               "misuse" if o.misuse else "finished")
        s["outcomes"][out] = s["outcomes"].get(out, 0) + 1
        self.recorded.append(list(sim.choices))
        self.digest.update(sim.digest().encode())
        self.traces.append(sim.digest())
        if sim.keep_trace:
            for line in sim.trace_text:
                print("   ", line)
        return o

    def lib(self, n, spec, program):
        from . import job

        return self._account(n, spec, job.run_lib(n, self._spec(spec), program))

    def script(self, n, spec, module, argv, cwd, redirect=None):
        from . import job

        return self._account(n, spec, job.run_script(n, self._spec(spec), module, argv, cwd, redirect))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def observe(self, *values):
        """Fold an observation into the digest that replay must reproduce."""
        for v in values:
            self.digest.update(repr(v).encode())


def load_prop(pid):
    return importlib.import_module(f"props.{pid}")


def case_rng(seed, pid, index):
    return random.Random(f"{seed}:{pid}:{index}")


def run_case(prop, case):
    """-> (violation or None, Runner).  Harness problems raise."""
    r = Runner(case)
    try:
        prop.run(case, r)
        v = None
    except Violation as e:
        v = e
    return v, r


def result_of(index, case, v, r, wall):
    return {
        "index": index,
        "violation": None if v is None else {"cls": v.cls, "detail": str(v.detail)[:2000]},
        "stats": r.stats,
        "probes": r.probes,
        "digest": r.digest.hexdigest(),
        "traces": r.traces,
        "key": r.key,
        "wall": wall,
        "case": case if (v is not None or index < 3) else None,
        "recorded": r.recorded if v is not None else None,
    }


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def _isolated_child(pid, case, conn):
    try:
        prop = load_prop(pid)
        v, r = run_case(prop, case)
        conn.send({"violation": None if v is None else {"cls": v.cls, "detail": str(v.detail)[:4000]}, "recorded": r.recorded,
                   "digest": r.digest.hexdigest(), "stats": r.stats, "probes": r.probes, "traces": r.traces, "key": r.key})
    except BaseException:
        try:
            conn.send({"error": traceback.format_exc()})
        except Exception:
            pass
    finally:
        sys.stdout.flush()
        os._exit(0)


def isolated(pid, case, timeout=300):
    """Run one case in a forked process of its own: nothing an earlier case did to the process can matter, and if the code under
    test brings the process down that is an observation like any other."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(duplex=False)
    p = ctx.Process(target=_isolated_child, args=(pid, case, b))
    p.start()
    b.close()
    out = None
    try:
        if a.poll(timeout):
            out = a.recv()
    except (EOFError, OSError):
        pass
    if out is None and p.is_alive():
        p.join(timeout=2)
    if p.is_alive() and out is None:
        p.kill()
        p.join()
        return {"error": "does not come back"}
    p.join(timeout=20)
    if p.is_alive():
        p.kill()
        p.join()
    if out is None:
        sig = -p.exitcode if p.exitcode is not None and p.exitcode < 0 else None
        if sig in CRASH:
            return {"violation": {"cls": "process-crash", "detail": f"the process died of {signal.Signals(sig).name}"}, "recorded": None,
                    "digest": "crash", "stats": {}, "probes": {}, "traces": [], "key": None}
        return {"error": f"the process ended with {p.exitcode}"}
    return out


def _worker(wid, pid, seed, tier, start, total, first_bad, conn, deadline):
    try:
        prop = load_prop(pid)
        from . import job

        job.setup_process()
        for index in range(start, total, WORKERS):
            if index > first_bad.value:
                break
            if time.time() > deadline:
                conn.send(("late", index))
                break
            rng = case_rng(seed, pid, index)
            case = prop.generate(rng, index, tier)
            t = time.time()
            conn.send(("start", index))
            try:
                v, r = run_case(prop, case)
            except Exception:
                conn.send(("error", index, traceback.format_exc(), case))
                break
            if v is not None:
                with first_bad.get_lock():
                    first_bad.value = min(first_bad.value, index)
            conn.send(("case", result_of(index, case, v, r, time.time() - t)))
        conn.send(("end", wid))
        conn.close()
    except BaseException:
        try:
            conn.send(("error", -1, traceback.format_exc(), None))
            conn.close()
        except Exception:
            pass
    finally:
        sys.stdout.flush()
        os._exit(0)


def run_batch(pid, seed, tier, total, budget):
    prop = load_prop(pid)
    from . import job

    job.setup_process()
    if hasattr(prop, "warm"):
        prop.warm()
    ctx = mp.get_context("fork")
    first_bad = ctx.Value("q", 1 << 60)
    deadline = time.time() + budget
    results, errors = [], []
    live = []
    restarts = 0

    def spawn(wid, start):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(wid, pid, seed, tier, start, total, first_bad, b, deadline))
        p.start()
        b.close()
        live.append({"p": p, "a": a, "ended": False, "at": None, "wid": wid})

    def died(w):
        """A worker process went down in the middle of a case: decide that case in a process of its own, then carry on."""
        nonlocal restarts
        w["p"].join(timeout=10)
        if w["at"] is None or restarts >= 20:
            errors.append(f"worker died with {w['p'].exitcode}")
            return
        restarts += 1
        index = w["at"]
        case = prop.generate(case_rng(seed, pid, index), index, tier)
        out = isolated(pid, case)
        if "error" in out:
            errors.append(f"case {index}: {out['error']}")
            return
        v = out["violation"]
        if v is not None:
            with first_bad.get_lock():
                first_bad.value = min(first_bad.value, index)
        results.append({"index": index, "violation": v, "wall": 0.0, "case": case, "recorded": out["recorded"],
                        **{k: out[k] for k in ("stats", "probes", "digest", "traces", "key")}})
        spawn(w["wid"], index + WORKERS)

    for wid in range(min(WORKERS, total)):
        spawn(wid, wid)
    while live:
        ready = mp.connection.wait([w["a"] for w in live], timeout=5)
        for w in list(live):
            if w["a"] not in ready:
                continue
            try:
                msg = w["a"].recv()
            except (EOFError, OSError):
                live.remove(w)
                w["p"].join(timeout=5)
                if not w["ended"]:
                    died(w)
                continue
            if msg[0] == "start":
                w["at"] = msg[1]
            elif msg[0] == "case":
                results.append(msg[1])
                w["at"] = None
            elif msg[0] == "error":
                errors.append(f"case {msg[1]}: {msg[2]}")
            elif msg[0] == "late":
                errors.append(f"out of time at case {msg[1]}")
            elif msg[0] == "end":
                w["ended"] = True
        if time.time() > deadline + 60:
            errors.append("a worker does not come back")
            for w in live:
                w["p"].kill()
            break
    results.sort(key=lambda r: r["index"])
    return results, errors


# ---- minimisation -------------------------------------------------------------


def generic_shrinks(case):
    """Simpler simulation settings, before the property's own input shrinks."""
    sims = [k for k in case if isinstance(case[k], dict) and "seed" in case[k]]
    for k in sims:
        spec = case[k]
        for i in range(len(spec.get("faults", ()))):
            c = copy.deepcopy(case)
            del c[k]["faults"][i]
            yield c
        if spec.get("policy", "uniform") != "roundrobin":
            c = copy.deepcopy(case)
            c[k]["policy"] = "roundrobin"
            yield c
        if spec.get("p_sync", 0.3) not in (0, 1):
            c = copy.deepcopy(case)
            c[k]["p_sync"] = 0
            yield c
        if spec.get("perturb_eig"):
            c = copy.deepcopy(case)
            c[k]["perturb_eig"] = False
            yield c
        if spec.get("hash_salts", True):
            c = copy.deepcopy(case)
            c[k]["hash_salts"] = False
            yield c
    if isinstance(case.get("nranks"), int):
        for n in sorted({1, 2, 3, case["nranks"] - 1}):
            if 0 < n < case["nranks"]:
                c = copy.deepcopy(case)
                c["nranks"] = n
                for k in sims:
                    c[k]["faults"] = [f for f in c[k].get("faults", []) if f.get("rank", 0) < n]
                yield c


def minimise(pid, prop, case, cls, budget=45.0):
    """Greedy shrink while the same class of violation persists, then shorten the recorded schedule."""
    t0 = time.time()
    tried = 0

    def fails(c):
        nonlocal tried
        tried += 1
        out = isolated(pid, c, timeout=90)
        v = out.get("violation")
        return out if v is not None and v["cls"] == cls else None

    changed = True
    while changed and time.time() - t0 < budget * 0.6:
        changed = False
        gens = [generic_shrinks(case)]
        if hasattr(prop, "shrink"):
            gens.append(prop.shrink(case))
        for g in gens:
            for c in g:
                if time.time() - t0 > budget * 0.6:
                    break
                if fails(c) is not None:
                    case = c
                    changed = True
                    break
            if changed:
                break
    if cls == "process-crash":
        return case, tried
    # schedule: record the choices, then try to make the tail and chunks of it the trivial choice 0
    r = fails(case)
    if r is None:
        return case, tried
    best = [list(x) for x in r["recorded"]]

    def with_choices(ch):
        c = copy.deepcopy(case)
        c["choices"] = ch
        return c

    if fails(with_choices(best)) is None:
        return case, tried
    for k in range(len(best)):
        for cut in (0, len(best[k]) // 8, len(best[k]) // 4, len(best[k]) // 2):
            if time.time() - t0 > budget:
                break
            trial = [list(x) for x in best]
            trial[k] = trial[k][:cut]
            if fails(with_choices(trial)) is not None:
                best = trial
                break
        size = max(1, len(best[k]) // 4)
        while size >= 1 and time.time() - t0 < budget and len(best[k]) > 0:
            i = 0
            while i < len(best[k]) and time.time() - t0 < budget:
                if any(best[k][i:i + size]):
                    trial = [list(x) for x in best]
                    trial[k][i:i + size] = [0] * len(trial[k][i:i + size])
                    if fails(with_choices(trial)) is not None:
                        best = trial
                i += size
            if size == 1 or len(best[k]) > 400:
                break
            size //= 2
    for k in range(len(best)):
        while best[k] and best[k][-1] == 0:
            best[k].pop()
    final = with_choices(best)
    return (final, tried) if fails(final) is not None else (with_choices(r["recorded"]), tried)


# ---- known findings -------------------------------------------------------------


def open_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: ") and f"property={pid} " in line:
                    out.append(line[len("finding: "):])
    return out


# ---- main -------------------------------------------------------------------


def merge(dst, src):
    for k, v in src.items():
        if isinstance(v, dict):
            merge(dst.setdefault(k, {}), v)
        else:
            dst[k] = dst.get(k, 0) + v


def repo_state():
    from . import loader

    h = hashlib.blake2b(digest_size=12)
    for base, dirs, files in sorted(os.walk(os.path.join(loader.REPO, "impurityModel"))):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "test"))
        for f in sorted(files):
            if f.endswith(".py"):
                with open(os.path.join(base, f), "rb") as fh:
                    h.update(f.encode() + fh.read())
    return h.hexdigest()


def write_evidence(pid, prop, tier, seed, results, wall, violations, errors, replay_info):
    tot, probes = {}, {}
    traces, keys = set(), set()
    for r in results:
        merge(tot, r["stats"])
        merge(probes, r["probes"])
        traces.update(r["traces"])
        if r["key"] is not None:
            keys.add((str(r["key"]), r["digest"]))
    runs = tot.get("runs", 0)
    hours = max(wall, 1e-9) / 3600
    samples = [r["case"] for r in results if r["case"] is not None][:3]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(keys),
            "rule": prop.RULE,
            "samples": [json.loads(json.dumps(s, default=str)) for s in samples],
            "cases": len(results),
            "simulated_runs_per_hour": int(runs / hours),
            "seeds_per_hour": int(len(results) / hours),
            "simulated_seconds": round(tot.get("sim_seconds", 0.0), 3),
            "scheduler_steps": tot.get("steps", 0),
            "messages_delivered": tot.get("messages", 0),
            "faults_injected": tot.get("faults", {}),
            "scheduling_policies": tot.get("policies", {}),
            "ranks_per_run": tot.get("ranks", {}),
            "outcomes": tot.get("outcomes", {}),
            "distinct_interleavings": len(traces),
            "interleaving_measure": "distinct hashes of the full event sequence (rank resumed at which operation, message delivered)",
            "rare_conditions_reached": probes,
            "real_code": prop.REAL,
            "stubbed": prop.STUB,
            "source_digest": repo_state(),
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if errors:
        ev["coverage"]["harness_errors"] = errors[:3]
    if replay_info:
        ev["coverage"]["replay"] = replay_info
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))


def replay(path):
    with open(path) as f:
        data = json.load(f)
    prop = load_prop(data["property"])
    from . import job

    job.setup_process()
    if os.environ.get("VERIF_TRACE"):
        v, r = run_case(prop, data["case"])  # prints the events
    out = isolated(data["property"], data["case"])
    if "error" in out:
        print(f"replay of {path}: no verdict: {out['error']}")
        return 2
    v, dig = out["violation"], out["digest"]
    same = v is not None and v["cls"] == data["violation"]["cls"] and dig == data["digest"]
    print(f"replay of {path}: " + (f"violation {v['cls']}: {v['detail']}" if v else "no violation") + f", digest {dig}"
          + ("" if same else f" (recorded: {data['violation']['cls']}, digest {data['digest']})"))
    if v is not None:
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1 if same else 3
    return 0


def selftest(seed):
    from . import job

    job.setup_process()
    for pid in ("P01", "P03", "P09", "P11"):
        prop = load_prop(pid)
        for i in range(3):
            digs = []
            for _ in range(2):
                _v, r = run_case(prop, prop.generate(case_rng(seed, pid, i), i, "quick"))
                digs.append(r.digest.hexdigest())
            if digs[0] != digs[1]:
                print(f"NOT deterministic: {pid} case {i}")
                return 2
    print("simulator ready, deterministic")
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--index", type=int, help="run one case, print its trace")
    ap.add_argument("--digests", action="store_true", help="print the digest of every case (determinism test)")
    ap.add_argument("--selftest", action="store_true", help="a few cases twice: same digests, no violation")
    a = ap.parse_args(argv)
    if a.selftest:
        return selftest(a.seed)
    if a.replay:
        return replay(a.replay)
    pid = a.property
    prop = load_prop(pid)
    if a.index is not None:
        from . import job

        job.setup_process()
        case = prop.generate(case_rng(a.seed, pid, a.index), a.index, a.tier)
        t = time.time()
        v, r = run_case(prop, case)
        print(json.dumps(case)[:3000])
        print("violation:", v)
        print(r.stats, r.probes, r.key, round(time.time() - t, 3))
        return 1 if v else 0
    t0 = time.time()
    total = a.cases or prop.COUNTS[a.tier]
    budget = 700 if a.tier == "quick" else 6 * 3600
    print(f"{pid}: seed {a.seed}, tier {a.tier}, {total} cases")
    results, errors = run_batch(pid, a.seed, a.tier, total, budget)
    if a.digests:
        for r in results:
            print("DIGEST", r["index"], r["digest"], r["violation"]["cls"] if r["violation"] else "-")
    bad = [r for r in results if r["violation"]]
    known = open_findings(pid)
    fresh = []
    for r in bad:
        hit = [k for k in known if f"class={r['violation']['cls']} " in k + " "]
        if not hit:
            fresh.append(r)
    for k in known:
        print(f"KNOWN-FINDING: {k}")
    info = None
    unconfirmed = []
    for r in list(fresh)[:6]:
        again = isolated(pid, r["case"])
        if again.get("violation") and again["violation"]["cls"] == r["violation"]["cls"]:
            break
        unconfirmed.append(f"case {r['index']} showed {r['violation']['cls']} but not when it was run again on its own: {again.get('error', again.get('violation'))}")
        fresh.remove(r)
    if unconfirmed:
        errors.extend(unconfirmed)
    if fresh:
        r = fresh[0]
        cls = r["violation"]["cls"]
        print(f"case {r['index']} violates {pid}: {cls}: {r['violation']['detail']}")
        case, tried = minimise(pid, prop, r["case"], cls)
        final = isolated(pid, case)
        if not final.get("violation"):
            case, final = r["case"], again
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{pid}-{a.seed}-{r['index']}.json")
        data = {"property": pid, "seed": a.seed, "tier": a.tier, "index": r["index"], "violation": final["violation"],
                "digest": final["digest"], "case": case, "shrink_runs": tried, "source": repo_state()}
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path],
                           capture_output=True, text=True, timeout=300)
        ok = p.returncode == 1
        info = {"file": path, "reproduced_in_fresh_process": ok, "shrink_runs": tried}
        print(f"minimised in {tried} runs: {data['violation']['cls']}: {data['violation']['detail']}")
        print("replay in a fresh process: " + ("reproduced exactly" if ok else "NOT reproduced: " + p.stdout + p.stderr[-500:]))
    wall = time.time() - t0
    write_evidence(pid, prop, a.tier, a.seed, results, wall, len(fresh), errors, info)
    if fresh:
        print(f"VIOLATION property={pid} replay={info['file']}")
        return 1
    if errors:
        print("HARNESS ERROR (no verdict): " + errors[0])
        return 2
    runs = sum(r["stats"].get("runs", 0) for r in results)
    print(f"{pid}: held on {len(results)} cases, {runs} simulated runs, {wall:.1f} s")
    return 0
