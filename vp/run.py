"""usage: python3-vt -m vp.run PROPERTY [quick|thorough]

Decides one property: symbolically executes /repo's current source under the
harnesses of harness/<property>.py, replays every counterexample and a sample
of the explored paths on the unmodified code, writes evidence/<property>.json.
Exit 0 held, 1 violation (with a VIOLATION line), 2 no verdict.
"""
import importlib
import json
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
REALPY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
NPROC = int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 1)

sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore", SyntaxWarning)
sys.setrecursionlimit(6000)

from vp import core, loader, rt, symctx, replay
from vp.symctx import SymCtx, evaluate, small_model


def job_run(prop, tier, hname, ci, prefix, split, eager, deadline, stop_on_fail=True):
    mod = importlib.import_module("harness." + prop.lower())
    h = {h.name: h for h in mod.harnesses(tier)}[hname]
    eng = core.Engine(prefix=prefix, split_depth=split, fuel=h.fuel, eager=eager)
    eng.deadline = deadline
    out = dict(splits=[], fails=[], samples=[], error=None)
    every = [1]
    def fn():
        return h.fn(SymCtx(eng), **h.cases[ci])
    def on_path(eng, oc):
        if oc[0] == "split":
            out["splits"].append(oc[1]); return False
        m = None
        if oc[0] == "ok":
            # reachability twin: the end of the harness is reachable
            n = eng.c.paths
            if n == every[0] and len(out["samples"]) < h.validate:
                every[0] = max(every[0] + 1, int(every[0] * 1.6))
                m = small_model(eng)
                eng.c.witness += 1
                try:
                    ins = {k: evaluate(v, m) for k, v in eng.inputs.items()}
                    out["samples"].append(dict(inputs=ins, value=replay.norm(evaluate(oc[1], m))))
                except core.Inconclusive:
                    pass        # no short example of this path
            return False
        m = small_model(eng)
        if m is None:       # cannot happen: the path condition is satisfiable
            raise core.Inconclusive("failing path without model")
        ins = {k: evaluate(v, m) for k, v in eng.inputs.items()}
        out["fails"].append(dict(inputs=ins, label=oc[1], detail=str(oc[2])[:3000]))
        return stop_on_fail and len(out["fails"]) >= 3
    try:
        eng.explore(fn, on_path)
    except core.Stop as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        import traceback
        out["error"] = traceback.format_exc()
    out["counts"] = eng.c.as_dict()
    funcs = set()
    for c in rt.SEEN:
        if c is not None and c.co_filename.startswith(REPO + "/"):
            funcs.add(c.co_filename[len(REPO) + 1:] + ":" + c.co_qualname)
    out["funcs"] = funcs
    return out


def worker(prop, tier, inq, outq):
    while True:
        j = inq.get()
        if j is None: return
        jid, hname, ci, prefix, split, eager, deadline = j
        try:
            r = job_run(prop, tier, hname, ci, prefix, split, eager, deadline)
        except BaseException as e:
            import traceback
            r = dict(splits=[], fails=[], samples=[], error=traceback.format_exc(), counts=core.Counter().as_dict(), funcs=set())
        outq.put((jid, r))


def real_batch(jobs, timeout):
    if not jobs: return []
    with tempfile.TemporaryDirectory(prefix="vp-") as d:
        a, b = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        with open(a, "w") as f: json.dump(jobs, f)
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="")
        try:
            p = subprocess.run([REALPY, "-m", "vp.replay", "--batch", a, b], cwd=VERIF, env=env,
                               timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            return "timeout"
        if p.returncode != 0 or not os.path.exists(b):
            return "error: " + p.stdout.decode(errors="replace")[-3000:]
        with open(b) as f: return json.load(f)


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.budget = float(os.environ.get("VP_BUDGET", "780" if tier == "quick" else "10000"))
        self.deadline = self.t0 + self.budget
        loader.install(REPO, VERIF)
        self.mod = importlib.import_module("harness." + prop.lower())
        self.hs = {h.name: h for h in self.mod.harnesses(tier)}
        only = os.environ.get("VP_ONLY")
        if only: self.hs = {k: v for k, v in self.hs.items() if k in only.split(",")}
        self.stats = {n: dict(counts=core.Counter(), cases=h.nsym, mode="symbolic", jobs=0, wall=0.0) for n, h in self.hs.items()}
        self.funcs = set()
        self.samples = []
        self.fails = []
        self.errors = []

    def explore(self, names, eager):
        ctx = mp.get_context("fork")
        inq, outq = ctx.Queue(), ctx.Queue()
        procs = [ctx.Process(target=worker, args=(self.prop, self.tier, inq, outq), daemon=True) for _ in range(NPROC)]
        pending = {}
        jid = 0
        def put(n, ci, prefix, split):
            nonlocal jid
            pending[jid] = (n, ci)
            inq.put((jid, n, ci, prefix, split, eager, self.deadline))
            jid += 1
        for n in names:
            self.stats[n]["counts"] = core.Counter()
            self.stats[n]["jobs"] = 0
            for ci in range(len(self.hs[n].cases)):
                h = self.hs[n]
                if ci >= h.nsym and not eager or ci < h.nsym and eager and not h.eager_ok(h.cases[ci]): continue
                put(n, ci, [], self.hs[n].split)
        for p in procs: p.start()
        fails, errors, samples = [], [], []
        stopped = set()
        last = {}
        try:
            while pending:
                try:
                    j, r = outq.get(timeout=5)
                except queue.Empty:
                    if not all(p.is_alive() for p in procs):
                        errors.append((None, None, "a worker process died")); break
                    if time.time() > self.deadline + 60:
                        errors.append((None, None, "time budget exhausted")); break
                    continue
                n, ci = pending.pop(j)
                st = self.stats[n]
                st["counts"].add(r["counts"]); st["jobs"] += 1
                st["wall"] = round(time.time() - self.t0, 1)
                self.funcs |= r["funcs"]
                if r["error"]:
                    errors.append((n, ci, r["error"]))
                    if "time budget" in r["error"] or len(errors) > 40: break
                for f in r["fails"]: fails.append((n, ci, f))
                for s in r["samples"]: samples.append((n, ci, s))
                if r["fails"] and len(fails) >= 12:
                    break           # enough counterexamples to replay
                for pre in r["splits"]: put(n, ci, pre, None)
        finally:
            inq.cancel_join_thread(); outq.cancel_join_thread()
            for p in procs: p.terminate()
            for p in procs: p.join(10)
            for p in procs:
                if p.is_alive(): p.kill()
        return fails, errors, samples

    def confirm(self, fails):
        """Replay failing inputs on the real code; returns (confirmed, spurious)."""
        conf, spur = [], []
        seen = {}
        for n, ci, f in fails:
            key = (n, f["label"])
            if seen.get(key, 0) >= 4: continue
            seen[key] = seen.get(key, 0) + 1
            job = dict(property=self.prop, tier=self.tier, harness=n, case=ci, inputs=f["inputs"])
            r = real_batch([job], timeout=self.hs[n].nonterm_s + 10)
            if r == "timeout":
                r = dict(outcome="fail", label="nontermination", detail="no result within %s s" % (self.hs[n].nonterm_s + 10)) \
                    if f["label"] == "nontermination" else dict(outcome="timeout")
            elif isinstance(r, str):
                r = dict(outcome="error", detail=r)
            else: r = r[0]
            (conf if r["outcome"] == "fail" else spur).append((n, ci, f, r))
        return conf, spur

    def main(self):
        names = list(self.hs)
        fails, errors, samples = self.explore(names, os.environ.get('VP_EAGER') == '1')
        conf, spur = self.confirm(fails)
        retry = []
        if not conf:
            for n, ci, f, r in spur[:4]: print("note: counterexample of %s (%s) does not reproduce on the real code: %s -> %s\n%s" % (n, f["label"], str(f["inputs"])[:400], str(r)[:800], f["detail"][-1500:]))
            for n, ci, f, r in spur:
                if n not in retry: retry.append(n)
            for n, ci, e in errors[:6]:
                print("note: %s case %s: %s" % (n, ci, str(e)[:1500]))
            for n, ci, e in errors:
                if n is None: retry = None; break
                if n not in retry: retry.append(n)
            if not fails and retry is not None:
                sf = self.validate(samples)
                for n, ci, msg, c in sf[:4]: print("note: encoding disagrees with the real code in %s: %s" % (n, msg[:800]))
                for n, ci, msg, c in sf:
                    if c is not None: conf.append(c)
                    if n not in retry: retry.append(n)
            if retry and not conf and os.environ.get("VP_NOEAGER") != "1":
                print("note: deciding %s again with inputs fixed one by one by the solver" % ", ".join(retry))
                for n in retry: self.stats[n]["mode"] = "degraded: inputs enumerated by the solver"
                fails2, errors2, samples2 = self.explore(retry, True)
                conf, spur2 = self.confirm(fails2)
                errors = errors2
                samples = [s for s in samples if s[0] not in retry] + samples2
                retry = []
                if not conf:
                    for n, ci, f, r in spur2:
                        errors.append((n, ci, "spurious counterexample %s %s -> %s\n%s" % (f["inputs"], f["label"], r, f["detail"])))
                    if not errors:
                        for n, ci, msg, c in self.validate(samples2):
                            if c is not None: conf.append(c)
                            else: errors.append((n, ci, msg))
        known = self.known()
        viol = []
        if conf:
            for n, ci, f, r in conf:
                k = self.match_known(known, n, ci, f, r)
                if k: print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                else: viol.append((n, ci, f, r))
        vac = [n for n in self.hs if self.stats[n]["counts"].witness == 0] if not conf else []
        self.samples = samples
        status = 0
        if viol: status = 1
        elif errors or vac or retry is None or (retry and not conf): status = 2
        self.evidence(viol, errors, status)
        if viol:
            for i, (n, ci, f, r) in enumerate(viol[:3]):
                d = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(path, "w") as fh:
                    json.dump(dict(property=self.prop, tier=self.tier, harness=n, case=ci, case_args=repr(self.hs[n].cases[ci]),
                        inputs=f["inputs"], solver_label=f["label"], real=r,
                        replay_cmd="cd /verif && %s -m vp.replay %s" % (REALPY, path)), fh, indent=1)
                print("%s: %s (case %s) %s" % (n, f["label"], ci, json.dumps(f["inputs"])))
                print("  real code: %s %s" % (r.get("label"), r.get("detail")))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
        for n, ci, e in errors[:4]: print("error: %s case %s: %s" % (n, ci, str(e)[-1500:]))
        for n in vac: print("error: %s never reached its end (vacuous)" % n)
        tot = core.Counter()
        for st in self.stats.values(): tot.add(st["counts"].as_dict())
        print("%s %s: %s; %d paths, %d branches, %d queries (%.1f s solver), %d assertions, %d replayed, %.1f s" % (
            self.prop, self.tier, {0: "held", 1: "VIOLATED", 2: "no verdict"}[status], tot.paths, tot.branches, tot.queries,
            tot.solver_s, tot.checks, getattr(self, "validated", 0), time.time() - self.t0))
        if os.environ.get("VP_VERBOSE"):
            for n, st in self.stats.items(): print("   ", n, st["counts"].paths, "paths", st["counts"].queries, "queries", round(st["counts"].solver_s, 1), "s solver; last finished at", st["wall"], st["mode"])
        return status

    def validate(self, samples):
        """Compare explored paths with runs of the real code."""
        per = {}
        for n, ci, s in samples: per.setdefault(n, []).append((ci, s))
        jobs, exp = [], []
        for n, l in per.items():
            cap = self.hs[n].validate
            step = max(1, len(l) // cap)
            for ci, s in l[::step][:cap]:
                jobs.append(dict(property=self.prop, tier=self.tier, harness=n, case=ci, inputs=s["inputs"]))
                exp.append(s["value"])
        r = real_batch(jobs, timeout=max(60, len(jobs)))
        if isinstance(r, str):
            return [(n, None, "replay failed: " + r, None) for n in per]
        self.validated = 0
        out = []
        for j, e, x in zip(jobs, exp, r):
            if x["outcome"] == "ok" and json.loads(json.dumps(x["value"])) == json.loads(json.dumps(e)):
                self.validated += 1
            elif x["outcome"] == "fail":
                # the real code fails on an input: a violation, found while validating
                f = dict(inputs=j["inputs"], label=x["label"], detail=x["detail"])
                out.append((j["harness"], j["case"], "real code fails on %s: %s" % (j["inputs"], x), (j["harness"], j["case"], f, x)))
            else:
                out.append((j["harness"], j["case"], "inputs %s: expected %s, real %s" % (j["inputs"], e, x), None))
        return out

    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p): return []
        with open(p) as f: return [k for k in json.load(f) if k["property"] == self.prop and k.get("status") == "known"]

    def match_known(self, known, n, ci, f, r):
        for k in known:
            if k["harness"] == n and k.get("label") in (None, r.get("label")) and k.get("case", ci) == ci and \
                    all(f["inputs"].get(a) == b for a, b in k.get("inputs", {}).items()):
                return k
        return None

    def evidence(self, viol, errors, status):
        tot = core.Counter()
        hs = {}
        for n, st in self.stats.items():
            tot.add(st["counts"].as_dict())
            d = st["counts"].as_dict()
            d["solver_s"] = round(d["solver_s"], 2)
            hs[n] = dict(bounds=self.hs[n].bounds, cases=st["cases"], mode=st["mode"], jobs=st["jobs"], **d)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
            level="model_checking",
            coverage=dict(
                states=tot.paths, transitions=tot.branches,
                traces_validated_against_impl=getattr(self, "validated", 0),
                samples=[dict(harness=n, case=repr(self.hs[n].cases[ci]), inputs=s["inputs"], result=s["value"]) for n, ci, s in self.samples[:: max(1, len(self.samples) // 6)][:6]],
                exhaustive=status == 0,
                meaning="states: feasible symbolic paths explored to their end (each stands for all inputs satisfying its path condition); transitions: two-way branches decided by the solver",
                solver_queries=tot.queries, queries_sat=tot.sat, queries_unsat=tot.unsat,
                solver_time_s=round(tot.solver_s, 2), assertions_checked=tot.checks, assertions_put_to_solver=tot.check_queries,
                reachability_witnesses=tot.witness,
                functions_encoded=sorted(self.funcs), n_functions_encoded=len(self.funcs),
                harnesses=hs, verdict={0: "held", 1: "violated", 2: "no verdict"}[status]),
            assumptions=list(getattr(self.mod, "ASSUMPTIONS", [])),
            wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        def cut(x):
            if isinstance(x, str): return x if len(x) < 400 else x[:400] + "..."
            if isinstance(x, dict): return {k: cut(v) for k, v in x.items()}
            if isinstance(x, list): return [cut(v) for v in x[:60]]
            return x
        ev["coverage"]["samples"] = cut(ev["coverage"]["samples"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rc = Run(prop, tier).main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)        # never wait for queue threads
