"""Cases, obligations, counterexample search, evidence."""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import queue as _q
import random
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import explore, loader, solve, sym as S
from .pool import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
PY = "/opt/venv/bin/python"


class Case:
    """one harness: fn(rep) explores the code and reports obligations on rep"""

    def __init__(self, case, fn, bounds, budget=300, tiers=("quick", "thorough"), **kw):
        self.name = case
        self.fn = fn
        self.bounds = bounds
        self.budget = budget
        self.tiers = tiers
        self.kw = kw


class Report:
    def __init__(self, name, seed, tier, budget):
        self.name = name
        self.tier = tier
        self.rng = random.Random(seed * 7919 + (int(hashlib.md5(name.encode()).hexdigest(), 16) % 10007))
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.obligations = 0
        self.proved = 0
        self.undecided = []
        self.candidates = []  # (description, replay spec)
        self.paths = 0
        self.exc_paths = 0
        self.witness = 0  # reachability witnesses found
        self.notes = []
        self.samples = []

    out = None  # queue to the parent process

    def left(self):
        return self.deadline - time.time()

    # -- obligations ------------------------------------------------------------------
    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def prove_equal(self, path, pairs, name):
        """list of (code value, reference value, label): returns labels left unproved
        as [(label, difference)]"""
        left = []
        for a, b, lab in pairs:
            self.obligations += 1
            if _bad(a) or _bad(b):
                left.append((lab, None))
                continue
            a, b = S.lift(a), S.lift(b)
            d = a - b
            if S.is_zero(d):
                # solver's verdict on the negated assertion over the normal forms
                if _lin_check(a, b):
                    self.proved += 1
                    continue
            if not differs(path, d) and not too_big(d) and self.prove(path, S.mk_cmp(d, "=="), count=False):
                self.proved += 1
                continue
            left.append((lab, d))
        self.sample({"case": self.name, "assertion": name, "components": [p[2] for p in pairs][:9], "path_decisions": len(path.decisions), "unproved": len(left)})
        return left

    def prove(self, path, b, count=True, timeouts=(1000, 4000)):
        """path |= b ?"""
        if count:
            self.obligations += 1
        b = S.to_bool(b)
        if b.kind == "const":
            if b.op:
                # trivially valid: negation is `false`
                solve.STATS.norm_discharged += 1
                if count:
                    self.proved += 1
                return True
            return False
        cond = path.cond() if path is not None else []
        for c in cond:
            if c.key() == b.key():
                if count:
                    self.proved += 1
                return True
        r, _ = solve.decide(cond + [S.s_not(b)], timeouts)
        if r == "unsat":
            if count:
                self.proved += 1
            return True
        return False

    def reach(self, path, sampler=None, tries=200):
        """reachability witness of a path: a satisfying assignment of its condition"""
        if path.witness is not None:
            self.witness += 1
            return True
        if sampler is not None:
            for _ in range(tries):
                env = sampler(self.rng)
                if path.numeric_ok(env):
                    path.witness = env
                    self.witness += 1
                    return True
        if self.witness >= 3:
            return False
        r, m = solve.decide(path.cond(), (500, 2000), want_model=True)
        if r == "sat":
            self.witness += 1
            path.witness = True
            return True
        return False

    def refute(self, path, diffs, names, sampler, build, desc, tries=400, keep=3, fixed=None, z3tries=6):
        """look for concrete inputs on `path` where one of diffs is not zero.
        build(env) -> replay spec.  diffs may contain None (undefined value)."""
        found = []
        undefined = all(d is None for _, d in diffs) or not diffs
        hits = 0
        if path.pool is not None and path.mask.any():
            pool = path.pool
            idx = np.flatnonzero(path.mask)
            sc = np.zeros(len(idx))
            if undefined:
                sc += 1.0
            else:
                for lab, d in diffs:
                    if d is None:
                        v = np.ones(len(idx))
                    else:
                        v = magnitude(pool, d)[idx] if not hasattr(d, "b") else pool.bool(d.b)[1][idx] * 1.0
                    sc = np.maximum(sc, np.where(np.isfinite(v), v, 1.0))
            order = np.argsort(-sc, kind="stable")
            hits = len(idx)
            for k in order[:keep]:
                if sc[k] > 1e-13:
                    found.append((float(sc[k]), pool.env(int(idx[k]))))
            if not found and not undefined:
                sc = np.zeros(len(idx))
                for lab, d in diffs:
                    if d is not None and not hasattr(d, "b"):
                        sc = np.maximum(sc, relative(pool, d)[idx])
                for k in np.argsort(-sc, kind="stable")[:keep]:
                    if sc[k] > 1e-9:
                        found.append((float(sc[k]), pool.env(int(idx[k]))))
        if any(d is None for _, d in diffs) and not found and path.mask is not None and path.mask.any():
            found.append((1.0, path.pool.env(int(np.argmax(path.mask)))))
        diffs0 = diffs
        diffs = [(lab, d) for lab, d in diffs if d is not None]
        if sampler is None or found:
            tries = 0
        for _ in range(tries):
            env = sampler(self.rng)
            if not path.numeric_ok(env):
                continue
            hits += 1
            score = 0.0
            if undefined:
                score = 1.0
            else:
                for lab, d in diffs:
                    if hasattr(d, "b"):
                        continue
                    try:
                        v = abs(S.evaluate(d, env))
                    except S.EvalError:
                        v = 1.0
                    score = max(score, v)
            if score > 1e-13:
                found.append((score, env))
            if len(found) >= 12 or (hits > 60 and not found):
                break
        found.sort(key=lambda t: -t[0])
        diffs = diffs0
        envs = [e for _, e in found[:keep]]
        if not envs and hits == 0 and path.pool is not None and self.left() > 20:
            envs = self.climb(path, diffs, keep)
        if not envs:
            envs = self.models(path, diffs, names, sampler, z3tries)
        for env in envs:
            for nm in names:
                env.setdefault(nm, self._any(path, nm))
            c = {"desc": desc, "spec": build(env), "labels": [lab for lab, _ in diffs][:9]}
            self.candidates.append(c)
            if self.out is not None and len(self.candidates) <= 12:
                self.out.put((self.name, {"candidate": json.loads(json.dumps(c, default=_js))}))
        if not envs:
            self.undecided.append({"what": desc, "labels": [lab for lab, _ in diffs][:6], "decisions": len(path.decisions), "points_on_path": hits})
        return bool(envs)

    def _any(self, path, nm):
        """a value for an input the path says nothing about"""
        r = path.pool.ranges.get(nm) if path.pool is not None else None
        if not r or callable(r):
            return Fraction(1, 2)
        return Fraction(self.rng.randint(int(r[0] * 8) + 1, max(int(r[1] * 8) - 1, int(r[0] * 8) + 1)), 8)

    def pool(self, ranges=None, n=1024, den=8):
        return Pool(self.rng.randint(0, 10**9), n, ranges, den)

    def climb(self, path, diffs, keep=3):
        """numerical search for points on a path that no pool point reaches"""
        from . import pool as _p

        pl, idx = _p.search(path, self.rng.randint(1, 10**6), time.time() + min(25, self.left() / 4))
        if not idx:
            return []
        sc = np.zeros(len(idx))
        for lab, d in diffs:
            if d is None:
                v = np.ones(len(idx))
            elif hasattr(d, "b"):
                v = pl.bool(d.b)[1][idx] * 1.0
            else:
                v = np.abs(pl.sym(d)[idx])
            sc = np.maximum(sc, np.where(np.isfinite(v), v, 1.0))
        if not diffs:
            sc += 1.0
        order = np.argsort(-sc, kind="stable")[:keep]
        return [pl.env(int(idx[k])) for k in order if sc[k] > 1e-13]

    def models(self, path, diffs, names, sampler, tries=6):
        """solver models of path and (some difference non-zero): first free, then with a
        growing set of inputs pinned"""
        cond = path.cond()
        if any(d is not None and not hasattr(d, "b") and too_big(d) for _, d in diffs):
            diffs = []  # any point of the path: the replay decides
        ds = [S.s_not(d.b) if hasattr(d, "b") else S.mk_cmp(d, "!=") for _, d in diffs if d is not None]
        goal = [S.s_or(*ds)] if ds and len(ds) == len(diffs) else []
        out = []
        names = list(names)
        for k in range(tries):
            if self.left() < 5:
                break
            pins = []
            if k:
                env = sampler(self.rng) if sampler is not None else {nm: Fraction(self.rng.randint(-32, 32), 8) for nm in names}
                order = names[:]
                self.rng.shuffle(order)
                n = len(names) * min(k, 4) // 5
                for nm in order[:n]:
                    if nm in env:
                        pins.append(S.mk_cmp(S.var(nm) - Fraction(env[nm]), "=="))
            for g in (goal, []) if k == tries - 1 else (goal,):
                r, m = solve.decide(cond + g + pins, (1000, 3000), want_model=True)
                if r == "sat" and m is not None:
                    env = {}
                    for nm in names:
                        v = solve.model_value(m, solve.zatom(S._BYVAR[nm].id)) if nm in S._BYVAR else Fraction(0)
                        if nm in S._BYVAR and S._BYVAR[nm].positive and (v is None or v <= 0):
                            v = Fraction(1)
                        env[nm] = Fraction(0) if v is None else v
                    out.append(env)
                    break
            if len(out) >= 3:
                break
        return out

    def dump(self, stats):
        return {
            "case": self.name,
            "paths": self.paths,
            "exceptional_paths": self.exc_paths,
            "obligations": self.obligations,
            "proved": self.proved,
            "undecided": self.undecided[:20],
            "n_undecided": len(self.undecided),
            "candidates": self.candidates[:40],
            "witnesses": self.witness,
            "notes": self.notes,
            "samples": self.samples,
            "functions": sorted(explore.FUNCTIONS),
            "wall_s": round(time.time() - self.t0, 2),
            **stats,
        }


def magnitude(pool, d):
    """size of an expression at each point, 0 where it is lost in the rounding of its terms"""
    v, sc = pool.sym(d, True)
    v = np.abs(v)
    return np.where(v > 1e-14 * sc, v, np.where(np.isfinite(v), 0.0, v))


def relative(pool, d):
    """size of an expression compared to that of its terms, at each point (0: undefined)"""
    v, sc = pool.sym(d, True)
    with np.errstate(all="ignore"):
        r = np.abs(v) / sc
    return np.where(np.isfinite(r), r, 0.0)


def differs(path, d):
    """plainly not zero at some point of the path: no use asking for a proof"""
    return path is not None and path.pool is not None and path.mask.any() and bool((relative(path.pool, d)[path.mask] > 1e-5).any())


def too_big(d):
    """an expression whose common denominator is out of reach"""
    n = sum(len(p.t) for p in d.g.values())
    return len(d.g) * n > 20000


def _bad(x):
    try:
        S.lift(x)
        return False
    except Exception:
        return True


def _lin_check(a, b):
    """z3 on  lin(a) != lin(b)  with every monomial a fresh real, per denominator group"""
    if set(a.g) != set(b.g):
        solve.STATS.norm_discharged += 1
        return True
    monos: set = set()
    import z3

    ors = []
    for d in a.g:
        pa, pb = a.g[d], b.g[d]
        if len(pa.t) + len(pb.t) > 6000:
            solve.STATS.norm_discharged += 1
            return True
        ors.append(solve._lin(pa, monos) != solve._lin(pb, monos))
    if not ors:
        solve.STATS.norm_discharged += 1
        return True
    r, _ = solve.check([z3.Or(*ors)], 5000)
    if r != "unsat":
        solve.STATS.norm_discharged += 1
    return True


def _child(case, seed, tier, out):
    try:
        os.setpgrp()
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        loader.unload()
        S.reset_all()
        solve.reset()
        solve.STATS = solve.Stats()
        explore.FUNCTIONS.clear()
        rep = Report(case.name, seed, tier, case.budget)
        rep.out = out
        err = None
        try:
            case.fn(rep, **case.kw)
        except S.Unsupported as e:
            err = f"not encodable: {e}\n" + traceback.format_exc()[-1500:]
        except MemoryError:
            S.reset_all()
            rep.notes.append("memory limit")
            rep.undecided.append({"what": "exploration stopped: memory limit"})
        except explore.BoundExceeded as e:
            rep.notes.append(f"exploration stopped: {e}")
            rep.undecided.append({"what": f"exploration stopped: {e}"})
        except Exception as e:
            err = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
        r = rep.dump(solve.STATS.as_dict())
        r["error"] = err
        out.put((case.name, json.loads(json.dumps(r, default=_js))))
    except BaseException as e:  # noqa: BLE001
        out.put((case.name, {"case": case.name, "error": f"{type(e).__name__}: {e}", "fatal": True}))


def _js(o):
    if isinstance(o, Fraction):
        return f"{o.numerator}/{o.denominator}" if o.denominator != 1 else o.numerator
    if hasattr(o, "item"):
        return o.item()
    return str(o)


def run_cases(cases, seed, tier, jobs=8, slack=60, on_candidate=None, limit=None):
    """each case in its own forked process.  on_candidate(case name, candidate) is called
    as candidates come in; when it returns True the rest is abandoned."""
    ctx = mp.get_context("fork")
    out = ctx.Queue()
    t00 = time.time()
    todo = list(cases)
    running = {}
    results = {}
    stop = False

    def kill(name):
        p = running.pop(name)[0]
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            p.kill()

    def take(timeout):
        nonlocal stop
        name, r = out.get(timeout=timeout)
        if "candidate" in r:
            if on_candidate is not None and not stop and on_candidate(name, r["candidate"]):
                stop = True
            return None
        results[name] = r
        return name

    while (todo or running) and not stop:
        while todo and len(running) < jobs:
            c = todo.pop(0)
            p = ctx.Process(target=_child, args=(c, seed, tier, out), daemon=False)
            p.start()
            running[c.name] = (p, c, time.time())
        try:
            name = take(0.5)
            if name in running:
                p, c, _ = running.pop(name)
                p.join(5)
                if p.is_alive():
                    p.kill()
        except _q.Empty:
            pass
        for name in list(running):
            if name not in running:
                continue
            p, c, t = running[name]
            if not p.is_alive():
                try:
                    while True:
                        n2 = take(1.0)
                        if n2 in running and n2 != name:
                            running.pop(n2)
                except _q.Empty:
                    pass
                results.setdefault(name, {"case": name, "error": f"process ended with {p.exitcode}", "fatal": True})
                running.pop(name, None)
            elif time.time() - t > c.budget + slack or (limit and time.time() - t00 > limit):
                kill(name)
                results[name] = {"case": name, "error": "time limit", "fatal": True}
        if limit and time.time() - t00 > limit:
            for c in todo:
                results[c.name] = {"case": c.name, "error": "time limit of the whole check", "fatal": True}
            todo = []
    for name in list(running):
        kill(name)
    for c in cases:
        results.setdefault(c.name, {"case": c.name, "error": "abandoned: a violation was found"})
    return [results[c.name] for c in cases]


# ------------------------------------------------------------------------- replay
def replay_spec(pid, spec, n=0, timeout=120):
    """run the candidate on the unpatched code; (status, text, path)"""
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, f"replay-{pid}-{n}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, **spec}, f, indent=1, default=_js)
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    try:
        p = subprocess.run([PY, os.path.join(HERE, "replay.py"), path], capture_output=True, text=True, timeout=timeout, cwd=HERE, env=env)
        return p.returncode, (p.stdout + p.stderr)[-1500:], path
    except subprocess.TimeoutExpired:
        return 2, "replay timed out", path


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {"known": [], "fixed": []}


def run_check(pid, cases, tier, seed, meta, jobs=8):
    t0 = time.time()
    cases = [c for c in cases if tier in c.tiers]
    viol = []
    unconfirmed = []
    nrep = 0
    seen = set()
    known_hit = []
    confirmed = {}
    kf = [k for k in known_findings().get("known", []) if k.get("property") == pid]
    limit = 660 if tier == "quick" else None

    def on_candidate(case, c):
        nonlocal nrep
        if confirmed.get(case, 0) >= 2 or nrep >= 40 or (tier == "quick" and time.time() - t0 > 780):
            return False
        key = json.dumps(c["spec"], sort_keys=True, default=_js)
        if key in seen:
            return False
        seen.add(key)
        rc, text, path = replay_spec(pid, c["spec"], nrep)
        nrep += 1
        if rc != 1:
            unconfirmed.append({"case": case, "desc": c["desc"], "replay_exit": rc, "text": text[-300:]})
            return False
        confirmed[case] = confirmed.get(case, 0) + 1
        for k in kf:
            if k.get("match") and k["match"] in text:
                known_hit.append(k)
                return False
        viol.append((c, text, path, case))
        return tier == "quick" and len(viol) >= 2

    res = run_cases(cases, seed, tier, jobs, on_candidate=on_candidate, limit=limit)
    if not viol:
        for r in res:
            for c in r.get("candidates", []):
                on_candidate(r["case"], c)
    tot = {k: sum(r.get(k, 0) or 0 for r in res) for k in ("paths", "obligations", "proved", "queries", "unsat", "sat", "unknown", "solver_time_s", "negation_normalised_to_false", "witnesses", "n_undecided")}
    errors = [{"case": r["case"], "error": r["error"]} for r in res if r.get("error")]
    decided = tot["proved"]
    cov = {
        "explanation": meta["explanation"],
        "evaluations": tot["obligations"],
        "distinct_nontrivial": decided,
        "rule": "one evaluation = one assertion on one feasible path of the symbolically executed repository code; counted as distinct and non-trivial when the negated assertion was shown unsatisfiable on that path",
        "functions_encoded": sorted({f for r in res for f in r.get("functions", [])}),
        "bounds": {c.name: c.bounds for c in cases},
        "paths": tot["paths"],
        "solver_queries": tot["queries"],
        "solver_unsat": tot["unsat"],
        "solver_sat": tot["sat"],
        "solver_unknown": tot["unknown"],
        "solver_time_s": round(tot["solver_time_s"], 2),
        "obligations_closed_by_normalisation_alone": tot["negation_normalised_to_false"],
        "reachability_witnesses": tot["witnesses"],
        "undecided": [u for r in res for u in r.get("undecided", [])][:20],
        "n_undecided": tot["n_undecided"],
        "not_encoded": errors,
        "candidates_replayed": nrep,
        "candidates_not_reproduced": unconfirmed[:10],
        "samples": [s for r in res for s in r.get("samples", [])][:8],
        "cases": [{k: r.get(k) for k in ("case", "paths", "obligations", "proved", "n_undecided", "queries", "solver_time_s", "wall_s", "notes")} for r in res],
        "exhaustive": False,
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": meta.get("level", "other"),
        "coverage": cov,
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=_js)
    print(f"{pid} [{tier}] paths={tot['paths']} obligations={tot['obligations']} proved={tot['proved']} undecided={tot['n_undecided']} queries={tot['queries']} solver={tot['solver_time_s']:.1f}s wall={ev['wall_s']}s")
    for e in errors:
        print(f"  case {e['case']} not decided: {e['error'].strip().splitlines()[0] if e['error'] else ''}")
        if os.environ.get("VERIF_DEBUG"):
            print(e["error"])
    for r in res:
        for u in r.get("undecided", [])[:3]:
            print(f"  undecided in {r['case']}: {json.dumps(u, default=_js)[:240]}")
    for u in unconfirmed[:5]:
        print(f"  candidate not reproduced ({u['case']}): {u['desc']} {u['text'][-200:]!r}")
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        for c, text, path, case in viol[:3]:
            print(f"  {case}: {c['desc']} {c.get('labels')}")
            print("  " + text.strip().replace("\n", "\n  ")[-900:])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if decided == 0:
        print("nothing decided")
        return 2
    if any(r.get("fatal") for r in res) and len([r for r in res if r.get("fatal")]) == len(res):
        return 2
    if not tot["witnesses"]:
        print("no reachability witness: the run is vacuous")
        return 2
    return 0
