"""Driver: explore a property's harness symbolically, replay counterexamples, write evidence."""
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

os.environ.setdefault("PYTHONHASHSEED", "0")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REAL_PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
PATH_LIMIT_S = 90


class PathTimeout(Exception):
    pass


def readable(inputs):
    """group char inputs into strings"""
    out = {}
    strs = {}
    for k, v in inputs.items():
        if "." in k and k.rsplit(".", 1)[1].isdigit() and isinstance(v, int) and not isinstance(v, bool):
            a, i = k.rsplit(".", 1)
            strs.setdefault(a, {})[int(i)] = v
        else:
            out[k] = v
    for a, d in strs.items():
        out[a] = "".join(chr(d[i]) for i in sorted(d))
    return out


class Explorer:
    def __init__(self, mod, listed, sample_every=50, profile=False):
        from . import core, ctx, loader
        self.core, self.ctx = core, ctx
        self.mod = mod
        self.listed = listed
        self.eng = core.Engine()
        self.eng.hooks_reset.append(loader.restore_state)
        self.violations = []
        self.samples = []
        self.errors = {}
        self.funcs = set()
        self.n = 0
        self.sample_every = int(os.environ.get("SX_SAMPLE_EVERY", 0)) or (sample_every)
        self.maxchecks = 0
        self.nochk = 0
        self.incomplete = 0

    def run_path(self, case, prefix):
        core, ctx = self.core, self.ctx
        e = self.eng
        e.begin(prefix)
        cx = ctx.SymCtx(e, self.listed)
        self.n += 1
        status = "ok"
        msg = ""
        prof = len(self.funcs) == 0 or self.n % 200 == 1
        if prof:
            sys.setprofile(self._prof)
        signal.setitimer(signal.ITIMER_REAL, PATH_LIMIT_S)
        try:
            self.mod.harness(cx, case)
        except core.PathInfeasible:
            status = "infeasible"
        except core.GiveUp as g:
            status = "giveup"
            msg = str(g)
        except core.Violation as v:
            status = "violation"
            msg = v.msg
        except core.Control as c:
            status = "giveup"
            msg = "hang" if getattr(c, "hang", False) else repr(c)
            if getattr(c, "hang", False):
                status = "hang"
        except (Exception, SystemExit) as ex:
            status = "exception"
            tb = traceback.extract_tb(ex.__traceback__)
            where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]
            msg = "%s: %s @ %s" % (type(ex).__name__, _safe(ex), " < ".join(reversed(where)))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if prof:
                sys.setprofile(None)
        s = e.stats
        if status == "infeasible":
            s.infeasible += 1
        else:
            s.paths += 1
        if e.incomplete:
            self.incomplete += 1
        try:
            if status == "giveup":
                s.giveups += 1
                # the concrete point is still worth a run on the real code
                if len(self.samples) < 400:
                    self.samples.append({"case": case, "inputs": self._inputs(cx), "obs": None, "giveup": msg})
            elif status in ("violation", "exception", "hang"):
                inp = self._inputs(cx)
                self.violations.append({"case": case, "inputs": inp, "msg": msg, "kind": status,
                                        "prefix_len": len(e.trail)})
            elif status == "ok":
                if e.path_checks == 0:
                    self.nochk += 1
                elif (self.n <= 300 or self.n % 8 == 0) and not e.certify():
                    k = "certification failed: assertion decided without the solver is refuted by it"
                    self.errors[k] = self.errors.get(k, 0) + 1
                    self.incomplete += 1
                if self.n % self.sample_every == 1 % self.sample_every or self.n <= 2:
                    m = e.get_model()
                    inp = self._inputs(cx)
                    obs = [ctx.model_value(v, m, e) for v in e.observed]
                    self.samples.append({"case": case, "inputs": inp, "obs": obs})
        except core.Control as c:
            s.giveups += 1
        except Exception as ex:
            k = "post-path: %s: %s" % (type(ex).__name__, _safe(ex))
            self.errors[k] = self.errors.get(k, 0) + 1
        e.active = False
        return e.alts

    def _inputs(self, cx):
        inp = self.eng.inputs()
        inp.update(cx.choices)
        return inp

    def _prof(self, frame, event, arg):
        if event == "call":
            c = frame.f_code
            fn = c.co_filename
            if fn.startswith(REPO) or fn.endswith("/ipaddress.py"):
                q = getattr(c, "co_qualname", c.co_name)
                if "<" not in c.co_name:
                    self.funcs.add("%s:%s" % (os.path.basename(fn)[:-3], q))


def _safe(ex):
    try:
        a = ex.args[0] if ex.args else ""
        return a[:200] if isinstance(a, str) else type(a).__name__
    except BaseException:
        return "?"


def worker(conn, propname, listed, sample_every):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import core

    class Hang(core.Control):
        hang = True

    def on_alarm(signum, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    sys.setrecursionlimit(6000)
    mod = sys.modules["props." + propname.lower()]
    ex = Explorer(mod, listed, sample_every)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            conn.close()
            os._exit(0)
        case, prefixes, slice_s = job
        st = core.Stats()
        ex.eng.stats = st
        ex.violations = []
        ex.samples = []
        t0 = time.time()
        stack = list(prefixes)
        npath = 0
        while stack:
            pre = stack.pop()
            alts = ex.run_path(case, pre)
            stack.extend(alts)
            npath += 1
            if time.time() - t0 > slice_s or len(ex.violations) >= 3:
                break
        if core.FORKSITES:
            for k, n in sorted(core.FORKSITES.items(), key=lambda kv: -kv[1])[:14]:
                print("FORK %6d %s" % (n, k), file=sys.stderr)
        conn.send({"case": case, "left": stack, "stats": st.asdict(), "violations": ex.violations,
                   "samples": ex.samples, "funcs": sorted(ex.funcs), "covers": dict(ex.eng.covers),
                   "giveups": dict(ex.eng.giveup_reasons), "errors": dict(ex.errors), "nochk": ex.nochk,
                   "incomplete": ex.incomplete})
        ex.eng.covers.clear()
        ex.eng.giveup_reasons.clear()
        ex.errors.clear()
        ex.nochk = 0
        ex.incomplete = 0


def replay_one(v, prop, listed, path):
    d = {"property": prop, "case": v["case"], "inputs": v["inputs"], "readable": readable(v["inputs"]),
         "msg": v["msg"], "listed": sorted(listed)}
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    try:
        p = subprocess.run([REAL_PY, os.path.join(HERE, "sx", "replay.py"), path], capture_output=True,
                           text=True, timeout=60, env=dict(os.environ, PYTHONHASHSEED="0"))
    except subprocess.TimeoutExpired:
        return True, "real code did not return within 60 s"
    return p.returncode == 1, (p.stdout.strip() + ("\n" + p.stderr.strip()[-500:] if p.returncode not in (0, 1) else ""))


def replay_batch(samples, prop, listed, tmp):
    with open(tmp, "w") as f:
        json.dump({"property": prop, "samples": samples, "listed": sorted(listed)}, f)
    p = None
    try:
        p = subprocess.run([REAL_PY, os.path.join(HERE, "sx", "replay.py"), "--batch", tmp], capture_output=True,
                           text=True, timeout=200, env=dict(os.environ, PYTHONHASHSEED="0"))
        return json.loads(p.stdout)
    except (subprocess.TimeoutExpired, ValueError):
        return [{"status": "error", "msg": (p.stderr[-300:] if p else "timeout"), "obs": []}] * 0
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") == "known"]


def main(prop, tier, seed, nproc=8, verbose=False, limit_s=None, only=None):
    t0 = time.time()
    sys.path.insert(0, HERE) if HERE not in sys.path else None
    from . import loader, core
    loader.install()
    import importlib
    import_error = None
    try:
        import ciscoconfparse   # noqa: F401  (instrumented, from /repo's current source)
        mod = importlib.import_module("props." + prop.lower())
    except Exception as e:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s: cannot load the code under test: %r" % (prop, e))
        return 2
    loader.snapshot_state()
    known = load_known(prop)
    listed = {k["id"] for k in known}
    meta = mod.META
    deadline = t0 + (limit_s or meta.get("limit_s", {}).get(tier) or (330 if tier == "quick" else 3000))
    cases = list(mod.tasks(tier))
    if only:
        cases = [c for c in cases if only in json.dumps(c)]
    load_s = time.time() - t0

    ctxm = mp.get_context("fork")
    workers = []
    for _ in range(nproc):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker, args=(b, prop, listed, meta.get("sample_every", 50)), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, None])
    pool = [(c, [()]) for c in cases]
    stats = core.Stats()
    violations, samples, funcs, covers, giveups, errors = [], [], set(), {}, {}, {}
    nochk = inc = lost = 0
    per_case = {}
    stop = False
    last = t0
    confirmed = []
    unconfirmed = []
    seen_msgs = {}
    while True:
        now = time.time()
        if now > deadline:
            stop = True
        busy = [w for w in workers if w[2] is not None]
        if not stop:
            idle = [w for w in workers if w[2] is None and w[0].is_alive()]
            for w in idle:
                if not pool:
                    break
                c, pre = pool.pop(0)
                # hand out part of a big frontier
                if len(pre) > 1 and (len(pool) < nproc):
                    k = max(1, len(pre) // (nproc + 1))
                    give, keep = pre[:k], pre[k:]
                    pool.append((c, keep))
                else:
                    give = pre
                w[1].send((c, give, 1.0 if len(pool) < 2 * nproc else 4.0))
                w[2] = (c, give)
                busy.append(w)
        if not busy:
            break
        ready = mp.connection.wait([w[1] for w in busy], timeout=1.0)
        for w in busy:
            if w[1] in ready:
                try:
                    r = w[1].recv()
                except (EOFError, OSError):
                    lost += 1
                    w[2] = None
                    w[0].join(1)
                    continue
                w[2] = None
                stats.add(r["stats"])
                funcs.update(r["funcs"])
                for d, s in ((covers, r["covers"]), (giveups, r["giveups"]), (errors, r["errors"])):
                    for k, n in s.items():
                        d[k] = d.get(k, 0) + n
                nochk += r["nochk"]
                inc += r["incomplete"]
                key = r["case"].get("name", json.dumps(r["case"])) if isinstance(r["case"], dict) else str(r["case"])
                per_case[key] = per_case.get(key, 0) + r["stats"]["paths"]
                samples.extend(r["samples"])
                if r["left"]:
                    pool.append((r["case"], r["left"]))
                for v in r["violations"]:
                    k = (v["kind"], v["msg"][:60])
                    seen_msgs[k] = seen_msgs.get(k, 0) + 1
                    if seen_msgs[k] > 3 or len(confirmed) >= 3 or len(unconfirmed) > 30:
                        unconfirmed.append(v) if len(confirmed) == 0 and seen_msgs[k] <= 3 else None
                        continue
                    path = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (prop, len(confirmed)))
                    ok, out = replay_one(v, prop, listed, path)
                    v["replay"] = out
                    if ok:
                        v["path"] = path
                        confirmed.append(v)
                        stop = True
                    else:
                        unconfirmed.append(v)
        if stop and now > deadline + 30:
            break
        if verbose and now - last > 5:
            last = now
            print("  [%.0fs] paths=%d pool=%d frontier=%d viol=%d/%d" % (
                now - t0, stats.paths, len(pool), sum(len(p[1]) for p in pool), len(confirmed), len(unconfirmed)), file=sys.stderr)
    exhausted = not pool and not stop and lost == 0
    for w in workers:
        try:
            w[1].send(None)
        except (OSError, ValueError):
            pass
    for w in workers:
        w[0].join(2)
        if w[0].is_alive():
            w[0].kill()
    # ---- replay a sample of the explored paths against the real code
    import random
    rnd = random.Random(seed)
    gv = [s for s in samples if s.get("giveup")]
    okv = [s for s in samples if not s.get("giveup")]
    nmax = int(os.environ.get("SX_SAMPLE_MAX", 150))
    if len(okv) > nmax:
        okv = rnd.sample(okv, nmax)
    if len(gv) > 100:
        gv = rnd.sample(gv, 100)
    batch = okv + gv
    val = []
    mism = []
    if batch and not confirmed:
        val = replay_batch(batch, prop, listed, os.path.join(HERE, "evidence", ".batch-%s.json" % prop)) if os.makedirs(
            os.path.join(HERE, "evidence"), exist_ok=True) is None else []
        for s, r in zip(batch, val):
            if r["status"] in ("violation", "exception"):
                path = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (prop, len(confirmed)))
                v = {"case": s["case"], "inputs": s["inputs"], "msg": "on the real code: " + r["msg"], "kind": r["status"]}
                ok, out = replay_one(v, prop, listed, path)
                if ok and len(confirmed) < 3:
                    v["path"] = path
                    v["replay"] = out
                    confirmed.append(v)
            elif s["obs"] is not None and r["status"] == "ok" and r["obs"] != s["obs"]:
                mism.append({"inputs": readable(s["inputs"]), "case": s["case"], "symbolic": s["obs"], "real": r["obs"]})
    # ---- known findings
    for k in known:
        path = os.path.join(HERE, "evidence", "replay", "%s-known-%s.json" % (prop, k["id"]))
        ok, out = replay_one({"case": k["case"], "inputs": k["inputs"], "msg": k["what"]}, prop,
                             set(listed) - {k["id"]}, path)
        if ok:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            print("note: known finding %s no longer reproduces" % k["id"])
    missing = [c for c in meta.get("must_cover", []) if c not in covers]
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": stats.paths, "transitions": stats.forks,
            "traces_validated_against_impl": sum(1 for r in val if r["status"] == "ok"),
            "samples": [{"case": s["case"], "inputs": readable(s["inputs"])} for s in batch[:6]],
            "exhaustive": bool(exhausted and not inc and not stats.giveups and not unconfirmed and not stats.unknown),
            "explanation": "states = complete symbolic paths through the real code (each covers every input "
                           "satisfying its path condition), transitions = solver-decided branch forks",
            "frontier_exhausted": exhausted, "paths_incomplete": inc, "paths_given_up": stats.giveups,
            "giveup_reasons": giveups, "solver_unknown": stats.unknown,
            "solver_queries": stats.queries, "solver_seconds": round(stats.solver_s, 2),
            "assertions_checked": stats.checks, "assertion_queries": stats.check_queries,
            "paths_certified_by_one_z3_query": stats.certified, "certify_seconds": round(stats.certify_s, 1),
            "paths_without_assertion": nochk, "infeasible_paths": stats.infeasible,
            "reachability": covers, "reachability_missing": missing,
            "cases": len(cases), "paths_per_case": dict(sorted(per_case.items(), key=lambda t: -t[1])[:40]),
            "functions_encoded": sorted(funcs), "bounds": meta["bounds"][tier] if isinstance(meta["bounds"], dict) else meta["bounds"],
            "outside": meta.get("outside", ""),
            "unconfirmed_counterexamples": [{"msg": v["msg"], "inputs": readable(v["inputs"]), "case": v["case"]} for v in unconfirmed[:5]],
            "trace_mismatches": mism[:5], "n_trace_mismatches": len(mism), "engine_errors": errors, "load_s": round(load_s, 2),
        },
        "assumptions": meta.get("assumptions", []) + [
            "characters are ASCII code points from the stated domain; strings have the stated lengths",
            "loguru calls have empty bodies (logger.catch keeps its re-raise semantics)",
            "the solver (z3) and the symbolic runtime in /verif/sx are trusted; a sample of paths per run is re-executed on the real code",
        ],
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: paths=%d forks=%d queries=%d solver=%.1fs checks=%d (solver-decided %d) exhausted=%s incomplete=%d giveups=%d unconfirmed=%d mismatches=%d validated=%d wall=%.1fs" % (
        prop, tier, stats.paths, stats.forks, stats.queries, stats.solver_s, stats.checks, stats.check_queries, exhausted,
        inc, stats.giveups, len(unconfirmed), len(mism), ev["coverage"]["traces_validated_against_impl"], wall))
    if missing:
        print("INCONCLUSIVE: not reached: %s" % missing)
    for v in unconfirmed[:3]:
        print("UNCONFIRMED (not reported): %s %s %s -> %s" % (v["msg"], json.dumps(v["case"]), json.dumps(readable(v["inputs"])), v.get("replay", "")))
    for m in mism[:2]:
        print("MISMATCH symbolic/real: %s" % json.dumps(m)[:600])
    if verbose:
        print(json.dumps(per_case), giveups, errors, covers)
    if confirmed:
        for v in confirmed:
            print("counterexample: %s\n  case=%s inputs=%s\n  %s" % (v["msg"], json.dumps(v["case"]), json.dumps(readable(v["inputs"])), v["replay"].splitlines()[0] if v.get("replay") else ""))
            print("VIOLATION property=%s replay=%s" % (prop, v["path"]))
        return 1
    return 0
