"""Entry point of the simulator.

    main.py check PROP        explore seeded runs, write evidence, exit 0 or 1
    main.py replay FILE       execute a replay file again
    main.py selftest PROP N   run N seeds twice and compare the event logs
"""
import hashlib
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
WORKERS = 8
CPU_COUNTS = [4, 1, 2, 8, 3, 4, 2, 5]
CHILD_LIMIT = 150.0     # seconds one simulated run may take (hang detection)
_time = time.time
_sleep = time.sleep


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


# ------------------------------------------------------------------ one run


def setup_process(cpu):
    """import the code under test behind the seams"""
    import warnings
    warnings.simplefilter("ignore")
    from sim import seams
    seams.install(cpu)
    sys.path.insert(0, REPO)
    import PyDynamic
    got = os.path.realpath(PyDynamic.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("PyDynamic imported from " + got)
    for m in ("PyDynamic.signals", "PyDynamic.uncertainty.propagate_MonteCarlo",
              "PyDynamic.misc.testsignals", "PyDynamic.misc.SecondOrderSystem",
              "PyDynamic.misc.impinvar", "PyDynamic.model_estimation.fit_transfer"):
        importlib.import_module(m)
    # silent settings that nobody would choose, so that changes to them show
    warnings.filterwarnings("ignore", message="(?s).*")
    import numpy as np
    np.seterr(all="ignore")
    np.set_printoptions(precision=9)


def blame(tb):
    """is an exception that nobody expected raised below the code under test?"""
    repo = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(repo):
            return True
        tb = tb.tb_next
    return False


def run_one(mod, prop, tier, seed=None, recorded=None):
    """execute one simulated run in this process"""
    import traceback
    from sim import core, seams, simpool
    ch = core.Choices(seed, recorded)
    ctx = core.Ctx(prop, tier)
    out = {}
    try:
        hubseed = ch.subseed()
        seams.HUB.reset(hubseed)
        pol = simpool.reset_policy()
        pol.ctx = ctx
        seams.STDOUT.fail_at = None
        seams.STDOUT.chunks = None
        mod.run(ch, ctx)
        out["status"] = "ok"
    except core.Violation as v:
        out.update(status="violation", kind=v.kind, msg=v.msg, key=v.key)
    except core.Overrun:
        out["status"] = "overrun"
    except core.HarnessError as e:
        out.update(status="harness", msg=traceback.format_exc())
    except BaseException as e:
        if blame(e.__traceback__):
            out.update(status="violation", kind="unexpected-exception",
                       key="unexpected-exception:" + type(e).__name__,
                       msg=traceback.format_exc()[-1500:])
        elif isinstance(e, (OSError, MemoryError, ImportError, RecursionError)) or not isinstance(e, Exception):
            out.update(status="harness", msg=traceback.format_exc())
        else:  # an oracle could not make sense of what the code returned
            out.update(status="violation", kind="malformed-result",
                       key="malformed-result:" + type(e).__name__,
                       msg=traceback.format_exc()[-1500:])
    finally:
        for p in seams.HUB.pools:
            for w in p.all_workers:
                try:
                    w.close()
                except Exception:
                    pass
    ctx.sim_time += max(seams.HUB.clock - 1.0e9, 0.0)
    out.update(ctx.result())
    out["log"] = ctx.log if out["status"] != "ok" else None
    out["choices"] = ch.trace if out["status"] != "ok" else None
    return out


# ------------------------------------------- children: runs in forked processes


def in_child(fn, limit, on_item):
    """fork; the child calls fn(emit); items are delivered as they come.
    Returns 'done', 'timeout' or 'died'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)

            def emit(obj):
                data = json.dumps(obj).encode()
                data = len(data).to_bytes(8, "big") + data
                while data:
                    n = os.write(w, data)
                    data = data[n:]
            fn(emit)
            code = 0
        except BaseException:
            import traceback
            try:
                emit({"status": "harness", "msg": traceback.format_exc()})
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    last = _time()
    result = None
    while True:
        ready, _, _ = select.select([r], [], [], 1.0)
        if ready:
            part = os.read(r, 1 << 20)
            if not part:
                break
            buf += part
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], "big")
                if len(buf) < 8 + n:
                    break
                on_item(json.loads(buf[8:8 + n]))
                buf = buf[8 + n:]
                last = _time()
        elif _time() - last > limit:
            os.kill(pid, signal.SIGKILL)
            result = "timeout"
            break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if result is None:
        result = "done" if st == 0 else "died"
    return result


def run_episodes(mod, prop, tier, episodes, limit=CHILD_LIMIT):
    """episodes: list of {'seed': s} or {'choices': [...]}, all in one fresh child.
    Returns the list of results (the last one may be a hang)."""
    results = []

    def child(emit):
        for ep in episodes:
            emit(run_one(mod, prop, tier, ep.get("seed"), ep.get("choices")))
    end = in_child(child, limit, results.append)
    if end != "done" and hasattr(mod, "prepare"):
        mod.prepare()          # the child may have been in the middle of a request
    if end == "timeout":
        results.append({"status": "violation", "kind": "hang", "key": "hang",
                        "msg": "no progress within %.0f s" % limit, "choices": None,
                        "log": [], "loghash": "", "faults": {}, "probes": {},
                        "sim_time": 0, "steps": 0, "sig": "", "nontrivial": False,
                        "desc": "", "known": []})
    elif end == "died" and (not results or results[-1].get("status") != "harness"):
        results.append({"status": "violation", "kind": "interpreter-died", "key": "died",
                        "msg": "the process was killed while executing the run",
                        "choices": None, "log": [], "loghash": "", "faults": {},
                        "probes": {}, "sim_time": 0, "steps": 0, "sig": "",
                        "nontrivial": False, "desc": "", "known": []})
    return results


def shrink(mod, prop, tier, choices, kind, budget_s, limit):
    """delete and lower recorded choices while the same violation class persists"""
    t_end = _time() + budget_s
    best = list(choices)
    attempts = 0
    cache = set()

    def fails(cand):
        nonlocal attempts
        key = tuple(cand)
        if key in cache:
            return None
        cache.add(key)
        attempts += 1
        res = run_episodes(mod, prop, tier, [{"choices": cand}], limit)
        r = res[-1] if res else {"status": "none"}
        if r["status"] == "violation" and r["kind"] == kind:
            used = r.get("choices")
            return list(used) if used is not None else list(cand)
        return None

    improved = True
    while improved and _time() < t_end:
        improved = False
        n = max(len(best) // 2, 1)
        while n >= 1 and _time() < t_end:        # delete chunks
            i = 0
            while i < len(best) and _time() < t_end:
                cand = best[:i] + best[i + n:]
                got = fails(cand)
                if got is not None and (len(got), got) < (len(best), best):
                    best = got
                    improved = True
                else:
                    i += n
            n //= 2
        i = 0
        while i < len(best) and _time() < t_end:  # lower values
            for v in (0, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i]:
                    cand = best[:i] + [v] + best[i + 1:]
                    got = fails(cand)
                    if got is not None and (len(got), got) < (len(best), best):
                        best = got
                        improved = True
                        break
            i += 1
    return best, attempts


# ------------------------------------------------------------- worker process


def known_keys(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return {k["key"]: k for k in json.load(f)["findings"] if k["property"] == prop}
    except FileNotFoundError:
        return {}


def worker(prop, tier, w, base, runs, deadline, out_fd):
    """execute runs w, w+WORKERS, w+2*WORKERS, ... < runs"""
    setup_process(CPU_COUNTS[w])
    mod = load(prop)
    from sim import core
    known = known_keys(prop)
    batch = getattr(mod, "BATCH", 10)
    limit = getattr(mod, "LIMIT", CHILD_LIMIT)

    def send(obj):
        data = (json.dumps(obj) + "\n").encode()
        while data:
            n = os.write(out_fd, data)
            data = data[n:]

    if hasattr(mod, "prepare"):
        mod.prepare()
    indices = list(range(w, runs, WORKERS))
    pos = 0
    while pos < len(indices) and _time() < deadline:
        todo = indices[pos:pos + batch]
        pos += len(todo)
        eps = [{"seed": core.derive(base, prop, i)} for i in todo]
        done = []

        def child(emit):
            for ep in eps:
                if _time() > deadline:
                    break
                r = run_one(mod, prop, tier, ep["seed"])
                emit(r)
                if r["status"] != "ok":
                    break
        end = in_child(child, limit, done.append)
        for j, r in enumerate(done):
            if r["status"] in ("ok", "overrun"):
                r.pop("log", None)
                r.pop("choices", None)
                r["index"] = todo[j]
                send(r)
        bad = None
        if done and done[-1]["status"] in ("violation", "harness"):
            bad = done[-1]
            j = len(done) - 1
        elif end == "timeout":
            bad = {"status": "violation", "kind": "hang"}
            j = len(done)
        elif end == "died":
            bad = {"status": "violation", "kind": "interpreter-died"}
            j = len(done)
        if bad is None:
            continue
        if end != "done" and hasattr(mod, "prepare"):
            mod.prepare()      # the child may have been in the middle of a request
        if bad["status"] == "harness":
            send({"status": "harness", "msg": bad["msg"], "seed": eps[min(j, len(eps) - 1)]["seed"]})
            return
        # does the run fail alone, in a fresh process?
        alone = run_episodes(mod, prop, tier, [eps[j]], limit)[-1]
        if alone["status"] == "violation":
            rep = {"episodes": [dict(eps[j])], "kind": alone["kind"]}
            if alone.get("choices") is not None:
                best, att = shrink(mod, prop, tier, alone["choices"], alone["kind"],
                                   getattr(mod, "SHRINK", 40.0), limit)
                rep = {"episodes": [{"choices": best}], "kind": alone["kind"],
                       "original_choices": len(alone["choices"]), "shrink_attempts": att}
        else:
            # history dependent: needs the earlier runs of the same process
            eps2 = eps[:j + 1]
            again = run_episodes(mod, prop, tier, eps2, limit)[-1]
            if again["status"] != "violation":
                send({"status": "harness", "seed": eps[j]["seed"],
                      "msg": "violation did not reproduce: %s %s" % (bad.get("kind"), bad.get("msg"))})
                return
            i = 0
            while i < len(eps2) - 1:
                cand = eps2[:i] + eps2[i + 1:]
                r = run_episodes(mod, prop, tier, cand, limit)[-1]
                if r["status"] == "violation" and r["kind"] == again["kind"]:
                    eps2 = cand
                else:
                    i += 1
            rep = {"episodes": eps2, "kind": again["kind"]}
        final = run_episodes(mod, prop, tier, rep["episodes"], limit)[-1]
        if final["status"] != "violation":
            send({"status": "harness", "seed": eps[j]["seed"],
                  "msg": "minimised violation did not reproduce"})
            return
        rep.update(property=prop, tier=tier, cpu_count=CPU_COUNTS[w], index=todo[j],
                   seed=eps[j]["seed"], kind=final["kind"], key=final["key"],
                   message=final["msg"], loghash=final["loghash"], trace=final["log"],
                   description=final["desc"])
        send({"status": "violation", "replay": rep})
        return
    send({"status": "end", "pos": pos})


# --------------------------------------------------------------------- parent


def child_env():
    env = dict(os.environ)
    env.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=VERIF, PYTHONUNBUFFERED="1")
    env.setdefault("PYTHONHASHSEED", "0")
    return env


def run_check(prop):
    t0 = _time()
    tier = os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    print("check %s tier=%s VERIF_SEED=%d" % (prop, tier, base), flush=True)
    spec = json.load(open(os.path.join(HERE, "budget.json")))
    b = dict(spec["default"], **spec.get(prop, {}))
    runs, cap = (b["quick_runs"], b["quick_cap"]) if tier == "quick" else (
        b["thorough_runs"], b["thorough_cap"])
    if os.environ.get("SIM_RUNS"):
        runs = int(os.environ["SIM_RUNS"])
    deadline = t0 + cap
    tmp = tempfile.mkdtemp(prefix="sim-")
    env = child_env()
    env["MPLCONFIGDIR"] = tmp
    env["HOME"] = tmp
    procs = []
    try:
        if b.get("shim"):
            so = os.path.join(tmp, "shim.so")
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so,
                            os.path.join(HERE, "shim.c"), "-ldl"], check=True)
            env["LD_PRELOAD"] = so
        for w in range(WORKERS):
            r, wfd = os.pipe()
            p = subprocess.Popen(
                [sys.executable, "-B", "-W", "ignore", "-m", "sim.main", "_worker", prop, tier, str(w),
                 str(base), str(runs), repr(deadline), str(wfd)],
                cwd=VERIF, env=env, pass_fds=[wfd], stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "err%d" % w), "wb"),
                start_new_session=True)
            os.close(wfd)
            procs.append((p, r, w))
        return collect(prop, tier, base, procs, tmp, env, t0, deadline, b, runs)
    finally:
        for p, r, w in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def collect(prop, tier, base, procs, tmp, env, t0, deadline, b, runs):
    from collections import Counter
    faults, probes = Counter(), Counter()
    sigs, nontrivial = set(), set()
    samples, n, sim_time, steps, overrun = [], 0, 0.0, 0, 0
    harness, violation = None, None
    knownseen = Counter()
    open_fds = {r: [b"", p, w] for p, r, w in procs}
    ended = 0
    hard = deadline + 420
    while open_fds and violation is None and harness is None:
        ready, _, _ = select.select(list(open_fds), [], [], 1.0)
        if _time() > hard:
            harness = "workers did not finish in time"
            break
        for fd in ready:
            part = os.read(fd, 1 << 20)
            if not part:
                buf, p, w = open_fds.pop(fd)
                p.wait()
                if not buf and p.returncode == 0:
                    continue
                err = open(os.path.join(tmp, "err%d" % w), "rb").read()[-3000:].decode("utf8", "replace")
                harness = harness or "worker %d ended with %s\n%s" % (w, p.returncode, err)
                continue
            open_fds[fd][0] += part
            while b"\n" in open_fds[fd][0]:
                line, rest = open_fds[fd][0].split(b"\n", 1)
                open_fds[fd][0] = rest
                m = json.loads(line)
                if m["status"] == "violation":
                    violation = violation or m["replay"]
                elif m["status"] == "harness":
                    harness = harness or (m["msg"] + "\nseed %s" % m.get("seed"))
                elif m["status"] == "end":
                    ended += 1
                else:
                    n += 1
                    overrun += m["status"] == "overrun"
                    faults.update(m["faults"])
                    probes.update(m["probes"])
                    sim_time += m["sim_time"]
                    steps += m["steps"]
                    sigs.add(m["sig"])
                    for k in m["known"]:
                        knownseen[k] += 1
                    if m["nontrivial"]:
                        nontrivial.add(m["sig"])
                    if len(samples) < 3 and m["desc"] and m["nontrivial"]:
                        samples.append(m["desc"])
    wall = _time() - t0
    sys.path.insert(0, VERIF)
    meta = json.load(open(os.path.join(HERE, "meta.json"))).get(prop) or {
        "rule": "", "real": [], "stub": [], "assumptions": [], "level": "exploration"}
    cov = {
        "evaluations": n,
        "distinct_nontrivial": len(nontrivial),
        "rule": meta["rule"],
        "samples": samples or ["(no run completed)"],
        "distinct_runs": len(sigs),
        "simulated_runs_per_hour": round(n / wall * 3600) if wall else 0,
        "simulated_seconds": round(sim_time, 3),
        "simulation_steps": steps,
        "fault_kinds_injected": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "runs_planned": runs,
        "bounded_overruns": overrun,
        "real_components": meta["real"],
        "stub_components": meta["stub"],
    }
    known = known_keys(prop)
    for k in known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    code = 0
    if violation is not None:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (prop, base, violation["index"]))
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        # the replay has to fail the same way in a fresh process
        rc = subprocess.run([sys.executable, "-B", "-m", "sim.main", "replay", path, "--quiet"],
                            cwd=VERIF, env={k: v for k, v in env.items() if k != "LD_PRELOAD"},
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        print("violation class %s: %s" % (violation["kind"], violation["message"]))
        print("run: %s" % violation["description"])
        for line in (violation["trace"] or [])[-30:]:
            print("   |", line)
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            code = 1
        else:
            print("HARNESS-ERROR replay did not reproduce (exit %d)" % rc)
            code = 2
    elif harness is not None:
        print("HARNESS-ERROR", harness)
        code = 2
    elif n == 0:
        print("HARNESS-ERROR no run completed")
        code = 2
    ev = {"property": prop, "tier": tier, "seed": base, "level": meta["level"],
          "coverage": cov, "assumptions": meta["assumptions"], "wall_s": round(wall, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs (%d distinct non-trivial) in %.1f s, %.1f simulated s, faults %s" % (
        prop, n, len(nontrivial), wall, sim_time, dict(faults)))
    if os.environ.get("SIM_VERBOSE"):
        print("probes", dict(sorted(probes.items())))
    return code


# --------------------------------------------------------------------- replay


def run_replay(path, quiet):
    rep = json.load(open(path))
    prop = rep["property"]
    spec = json.load(open(os.path.join(HERE, "budget.json")))
    b = dict(spec["default"], **spec.get(prop, {}))
    tmp = tempfile.mkdtemp(prefix="sim-")
    try:
        env = child_env()
        env["MPLCONFIGDIR"] = tmp
        env["HOME"] = tmp
        if b.get("shim"):
            so = os.path.join(tmp, "shim.so")
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so,
                            os.path.join(HERE, "shim.c"), "-ldl"], check=True)
            env["LD_PRELOAD"] = so
        out = subprocess.run([sys.executable, "-B", "-W", "ignore", "-m", "sim.main", "_replay", path],
                             cwd=VERIF, env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        r = json.loads(out.stdout.decode().strip().splitlines()[-1])
    except Exception:
        print("HARNESS-ERROR", out.stderr.decode()[-2000:])
        return 2
    if r["status"] == "violation" and r["kind"] == rep["kind"]:
        same = r["loghash"] == rep["loghash"]
        print("reproduced: %s: %s" % (r["kind"], r["msg"]))
        print("event log identical: %s" % same)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if same or r["kind"] in ("hang", "interpreter-died") else 3
    print("not reproduced: %s %s" % (r["status"], r.get("msg", "")))
    return 0 if r["status"] == "ok" else 2


def replay_inner(path):
    real_out = os.dup(1)
    rep = json.load(open(path))
    setup_process(rep["cpu_count"])
    mod = load(rep["property"])
    if hasattr(mod, "prepare"):
        mod.prepare()
    res = run_episodes(mod, rep["property"], rep["tier"], rep["episodes"],
                       getattr(mod, "LIMIT", CHILD_LIMIT))[-1]
    os.write(real_out, (json.dumps(res) + "\n").encode())


# ------------------------------------------------------------------ self test


def selftest(prop, count):
    """run seeds twice in different processes; event logs have to be identical"""
    env = child_env()
    tmp = tempfile.mkdtemp(prefix="sim-")
    env["MPLCONFIGDIR"] = tmp
    spec = json.load(open(os.path.join(HERE, "budget.json")))
    if dict(spec["default"], **spec.get(prop, {})).get("shim"):
        so = os.path.join(tmp, "shim.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so,
                        os.path.join(HERE, "shim.c"), "-ldl"], check=True)
        env["LD_PRELOAD"] = so
    procs = []
    for rep, hs in ((0, "0"), (1, "0"), (2, "12345")):
        for w in range(WORKERS):
            e = dict(env, PYTHONHASHSEED=hs)
            procs.append((rep, w, subprocess.Popen(
                [sys.executable, "-B", "-W", "ignore", "-m", "sim.main", "_self", prop, str(w), str(count), str(rep)],
                cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
    res = {}
    for rep, w, p in procs:
        for line in p.communicate()[0].decode().splitlines():
            i, st, h = line.split()
            res.setdefault(int(i), []).append((st, h))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    bad = {i: v for i, v in res.items() if len(v) != 3 or len(set(v)) != 1}
    print("%s: %d seeds x 3, %d differ" % (prop, len(res), len(bad)))
    for i in sorted(bad)[:5]:
        print("  ", i, bad[i])
    return 1 if bad or not res else 0


def selftest_inner(prop, w, count, rep):
    real_out = os.dup(1)
    setup_process(CPU_COUNTS[w])
    mod = load(prop)
    from sim import core
    if hasattr(mod, "prepare"):
        mod.prepare()
    idx = list(range(w, count, WORKERS))
    if rep == 1:
        idx.reverse()  # other order, other batches
    step = 1 if rep == 2 else getattr(mod, "BATCH", 10)
    for k in range(0, len(idx), step):
        part = idx[k:k + step]
        res = run_episodes(mod, prop, "quick", [{"seed": core.derive(1, prop, i)} for i in part])
        for i, r in zip(part, res):
            os.write(real_out, ("%d %s %s\n" % (i, r["status"], r["loghash"] + r["sig"])).encode())


def main(argv):
    if argv[0] == "check":
        return run_check(argv[1])
    if argv[0] == "replay":
        return run_replay(os.path.abspath(argv[1]), "--quiet" in argv)
    if argv[0] == "selftest":
        return selftest(argv[1], int(argv[2]))
    if argv[0] == "_worker":
        prop, tier, w, base, runs, deadline, fd = argv[1:]
        worker(prop, tier, int(w), int(base), int(runs), float(deadline), int(fd))
        return 0
    if argv[0] == "_replay":
        replay_inner(argv[1])
        return 0
    if argv[0] == "_self":
        selftest_inner(argv[1], int(argv[2]), int(argv[3]), int(argv[4]))
        return 0
    raise SystemExit("unknown command")


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
