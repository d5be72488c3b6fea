#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]   decide one property of /repo's current tree
check.py --setup                             build the driver and the dependency metadata"""
import argparse
import json
import os
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sx"))
sys.path.insert(0, HERE)


class NoVerdict(Exception):
    pass


def known_findings(prop):
    """{code: description} of the recorded findings of a property"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                code, _, desc = rest.partition(" ")
                assert code.startswith("code=")
                out[code[5:]] = desc.strip()
    return out


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.quick = tier == "quick"
        self.runs, self.errors, self.violations = [], [], []
        self.known = known_findings(prop)
        self.known_seen = set()
        self.encoded, self.modelled = set(), set()
        self.assumptions = []
        self.validated = 0
        self.extra = {}
        self.budget = 780 if self.quick else 3400
        self.jobs = min(8, os.cpu_count() or 1)
        self._m = None

    @property
    def m(self):
        if self._m is None:
            import core
            import mirclient
            import models
            import world
            self.client = mirclient.start()
            m = core.Machine(self.client)
            m.models = models
            m.known_codes = set(self.known)
            core.set_machine(m)
            self._m = m
        return self._m

    def left(self):
        return self.budget - (time.time() - self.t0)

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def run(self, name, harness, bounds, replay, tags=(), max_found=3, validate=None, warm=24):
        """explore a harness exhaustively; replay(list of counterexamples) -> list of
        (index, message, details) that the real code confirms"""
        import explore
        m = self.m
        if self.violations:
            return None
        r = explore.explore(m, harness, jobs=self.jobs, deadline=max(10, self.left()), max_found=max_found, warm=warm)
        self.encoded |= r.encoded
        self.modelled |= r.modelled
        d = dict(harness=name, bounds=bounds, paths=r.paths, infeasible=r.infeasible, assertions=r.asserts,
                 queries=r.queries, solver_s=round(r.solver_s, 2), wall_s=round(r.wall, 2), complete=r.complete,
                 witnesses={k: v for k, v in sorted(r.tags.items())}, samples=r.samples[:2])
        if r.spelled:
            d["texts_written_out"] = r.spelled
        self.runs.append(d)
        for k in r.tags:
            if k.startswith("KNOWN:"):
                self.known_seen.add(k[6:])
        print("%s %s: %d paths, %d assertions, %d queries, %.1f s solver, %.1f s wall, %s" % (
            self.prop, name, r.paths, r.asserts, r.queries, r.solver_s, r.wall,
            "complete" if r.complete else "INCOMPLETE"), flush=True)
        if r.found:
            confirmed = []
            for f in r.found:
                print("counterexample: %s" % f["msg"], flush=True)
            try:
                confirmed = replay(r.found)
            except Exception as e:
                self.errors.append("%s: replay failed: %s" % (name, e))
                if os.environ.get("SX_TRACE"):
                    traceback.print_exc()
            for i, msg, detail in confirmed:
                self.violation(name, r.found[i], msg, detail)
            if not confirmed:
                self.errors.append("%s: counterexample %r did not reproduce against the real code" % (name, r.found[0]["msg"]))
        else:
            for e in r.errors[:3]:
                self.errors.append("%s: %s" % (name, e))
            if not r.complete:
                self.errors.append("%s: not all paths explored within the time limit" % name)
            for t in tags:
                if not any(k == t or k.startswith(t + ":") for k in r.tags):
                    self.errors.append("%s: vacuous: nothing reached %s" % (name, t))
            if validate and not r.errors and r.samples:
                bad, n = validate(r.samples)
                self.validated += n
                for b in bad:
                    self.errors.append("%s: the real code disagrees with the encoding on a sample: %s" % (name, b))
        return r

    def check(self, name, bounds, make, judge, **kw):
        """a harness over runs of the whole program"""
        import runs
        return runs.check(self, name, bounds, make, judge, **kw)

    def violation(self, name, found, msg, detail):
        d = os.path.join(HERE, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, harness=name, counterexample=found, observed=msg, detail=detail), f, indent=1)
        print("the real code confirms: %s" % msg)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        self.violations.append(msg)

    def finish(self):
        tot = {k: sum(r[k] for r in self.runs) for k in ("paths", "assertions", "queries")}
        cov = dict(
            explanation="Symbolic execution of the compiler's MIR of the functions listed under functions_encoded, regenerated from "
                        "/repo on this run; every path within the bounds is explored and on each the property is an SMT query over all "
                        "values of that path.",
            evaluations=tot["paths"], distinct_nontrivial=tot["paths"] - sum(r["infeasible"] for r in self.runs),
            rule="one evaluation is one symbolic path (a class of inputs with the same branch decisions); non-trivial: feasible",
            assertions=tot["assertions"], queries=tot["queries"],
            solver_s=round(sum(r["solver_s"] for r in self.runs), 2),
            functions_encoded=sorted(self.encoded), library_functions_modelled=sorted(self.modelled),
            exhaustive=all(r["complete"] for r in self.runs) and bool(self.runs) and not self.errors,
            traces_validated_against_impl=self.validated,
            runs=self.runs, samples=[s for r in self.runs for s in r["samples"]][:3], errors=self.errors[:20],
            known_findings_seen=sorted(self.known_seen), **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(self.known_seen):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known.get(k, k)))
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors[:8]:
                print("NO VERDICT: " + e[:1500])
            return 2
        print("%s holds on everything explored (%.1f s)" % (self.prop, time.time() - self.t0))
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        import mirclient
        mirclient.build_driver()
        mirclient.build_deps()
        return 0
    import props
    c = Ctx(a.property, a.tier)
    try:
        props.run(c)
    except Exception as e:
        traceback.print_exc()
        c.errors.append("%s: %s" % (e.__class__.__name__, e))
    return c.finish()


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
