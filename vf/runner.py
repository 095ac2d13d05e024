"""Runs the tasks of a property's check, replays counterexamples, writes evidence."""
import contextlib
import hashlib
import importlib
import json
import os
import sys
import time

from . import engine, repo, symform
from .engine import Stats, Task

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Lazy:
    """A harness decided with opaque formulas; `eager` options describe its concrete-shape companion."""

    def __init__(self, name, harness, budget=60, lazy=None, eager=None, fallback=None, guard=None,
                 replay_guard=None, validate=4, path_limit=30, salts=1, eager_validate=0):
        self.name, self.harness, self.budget = name, harness, budget
        self.lazy, self.eager, self.fallback = lazy, eager, fallback
        self.guard, self.replay_guard = guard or {}, replay_guard
        self.validate, self.path_limit, self.salts = validate, path_limit, salts
        self.eager_validate = eager_validate

    def lazy_task(self):
        opts = dict(self.lazy or {})
        cls = opts.pop("ctx_cls", symform.LazyCtx)
        return Task(self.name, self.harness, lambda p, s: cls(p, s, **opts),
                    lambda ctx: symform.sym_guard(ctx, **self.guard),
                    symform.NativeReplayCtx, self.replay_guard or symform.native_guard,
                    validate=self.validate, path_limit=self.path_limit, salts=self.salts)

    def eager_task(self, opts):
        opts = dict(opts)
        return Task(self.name + "/eager", self.harness, lambda p, s: symform.EagerCtx(p, s, **opts),
                    self.replay_guard or symform.native_guard,
                    symform.NativeReplayCtx, self.replay_guard or symform.native_guard, validate=self.eager_validate)

    def run(self, tier):
        out = []
        scale = float(os.environ.get("VF_BUDGET_SCALE", "1"))
        need_fallback = self.lazy is None
        if self.lazy is not None:
            r = engine.explore(self.lazy_task(), self.budget * scale)
            out.append((self.name, "opaque", r))
            if r.violations:
                return out
            need_fallback = bool(r.stats.get("paths_unsupported", 0) or r.stats.get("spurious", 0)
                                 or r.stats.get("paths_timeout", 0) or not r.complete)
        opts = self.eager
        if need_fallback and self.fallback:
            opts = self.fallback
        if opts:
            opts = dict(opts)
            b = opts.pop("budget", 30)
            r = engine.explore(self.eager_task(opts), b * scale)
            out.append((self.name, "concrete shapes", r))
        return out

    def replay_task(self):
        return self.lazy_task()


class Custom:
    """A decision procedure of its own: run(tier) -> engine.Result; replay(record) -> (verdict, msg)."""

    def __init__(self, name, run, replay, budget=None):
        self.name, self._run, self._replay = name, run, replay

    def run(self, tier):
        r = self._run(tier)
        return [(self.name, "encoding", r)]

    def replay_task(self):
        class T:
            pass

        t = T()
        t.replay = self._replay
        return t


def load_check(pid):
    return importlib.import_module("checks." + pid.lower())


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "finding":
                    out.append(d)
    return out


def matches(finding, rec, msg):
    return finding.get("record_formulas") == rec.get("formulas") and finding.get("choices") == rec.get("choices")


def write_replay(pid, task, rec):
    d = os.path.join(VERIF, "work", "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "task": task, "record": rec}
    h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(p, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return p


def main(pid, tier, seed):
    t0 = time.time()
    repo.load()
    mod = load_check(pid)
    tasks = mod.tasks(tier)
    total = Stats()
    samples, detail, violations = [], [], []
    complete = True
    for t in tasks:
        t1 = time.time()
        for name, how, r in t.run(tier):
            total.merge(r.stats)
            complete = complete and r.complete
            samples += [{"task": name, "instance": s} for s in r.samples[:2] if s]
            d = {"task": name, "method": how, "complete": r.complete, "wall_s": round(time.time() - t1, 2)}
            d.update({k: (round(v, 2) if isinstance(v, float) else v) for k, v in sorted(r.stats.items())})
            if r.unsupported:
                d["unsupported_samples"] = r.unsupported[:4]
            if r.spurious:
                d["spurious_samples"] = r.spurious[:3]
            if r.notes:
                d["notes"] = r.notes
            detail.append(d)
            for v in r.violations:
                violations.append((name.split("/eager")[0], v))
        if violations:
            break
    kf = known_findings(pid)
    rc = 0
    real = 0
    for f in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for name, rec in violations:
        if any(matches(f, rec, rec.get("msg")) for f in kf):
            continue
        p = write_replay(pid, name, rec)
        real += 1
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  task %s: %s" % (name, rec.get("msg")))
        from . import kinds
        for k, v in rec.items():
            if k == "formulas":
                print("  inputs: " + "; ".join(kinds.show(a) for a in v))
            elif k not in ("bools", "ints", "msg") and v:
                print("  %s: %s" % (k, str(v)[:400]))
        rc = 1
    wall = time.time() - t0
    cov = {
        "states": int(total.get("paths", 0) + total.get("states", 0)),
        "transitions": int(total.get("decisions", 0) + total.get("transitions", 0)),
        "traces_validated_against_impl": int(total.get("validated", 0)),
        "samples": samples[:8] or ["none"],
        "meaning": "states: symbolic paths (each covers every input that follows it) plus positions of parser "
                   "encodings; transitions: decisions taken by the solver or encoded steps; traces: model instances "
                   "of paths re-run natively on the real code with the same verdict",
        "functions_encoded": getattr(mod, "FUNCTIONS", []),
        "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else "",
        "queries_discharged": int(total.get("queries", 0)),
        "obligations": int(total.get("obligations", 0)),
        "obligations_discharged": int(total.get("discharged", 0)),
        "solver_s": round(total.get("solver_s", 0.0), 2),
        "solver_unknown": int(total.get("unknown", 0)),
        "spurious_counterexamples": int(total.get("spurious", 0)),
        "unsupported_paths": int(total.get("paths_unsupported", 0)),
        "exploration_complete_within_bounds": bool(complete),
        "tasks": detail,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": real}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %s; %d paths, %d queries, solver %.1f s, %d unsupported, %d spurious, complete=%s, %.1f s" % (
        pid, "VIOLATED" if rc else "holds within bounds", total.get("paths", 0), total.get("queries", 0),
        total.get("solver_s", 0), total.get("paths_unsupported", 0), total.get("spurious", 0), complete, wall))
    return rc


def replay(pid, path):
    repo.load()
    body = json.load(open(path))
    mod = load_check(pid)
    for t in mod.tasks("thorough") + mod.tasks("quick"):
        if t.name == body["task"]:
            verdict, msg = t.replay_task().replay(body["record"])
            print("%s: %s" % (verdict, msg))
            return 1 if verdict == "violated" else 0
    print("unknown task", body["task"])
    return 2
