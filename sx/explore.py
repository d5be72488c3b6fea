"""Exhaustive exploration of a harness' symbolic paths (all decision prefixes)."""
import multiprocessing as mp
import os
import sys
import time
import traceback

from values import Unsupported, Infeasible, Panic, Exit
import core


class Found(Exception):
    """A violation: raised by a harness with the concretised counterexample."""

    def __init__(self, data):
        self.data = data


class Res:
    def __init__(self):
        self.paths = self.queries = self.forks = self.infeasible = self.asserts = 0
        self.solver_s = 0.0
        self.tags = {}
        self.found = []
        self.errors = []
        self.encoded = set()
        self.modelled = set()
        self.complete = True
        self.fatal = False
        self.samples = []
        self.opaque = {}
        self.spelled = {}

    def merge(self, d):
        for k in ("paths", "queries", "forks", "infeasible", "asserts", "solver_s"):
            setattr(self, k, getattr(self, k) + d[k])
        for k, v in d["tags"].items():
            self.tags[k] = self.tags.get(k, 0) + v
        for k in d["samples"]:
            if len(self.samples) < 8:
                self.samples.append(k)
        self.found += d["found"]
        self.errors += d["errors"]
        for h, l in d["opaque"].items():
            self.opaque.setdefault(h, set()).update(l)
        self.encoded |= d["encoded"]
        self.modelled |= d["modelled"]


def _delta(m):
    d = dict(paths=0, infeasible=0, queries=m.stats["queries"], forks=m.stats["forks"],
             solver_s=m.stats["solver_s"], asserts=m.asserts, tags={}, samples=[], found=[], errors=[], opaque={})
    m.stats["queries"] = m.stats["forks"] = 0
    m.stats["solver_s"] = 0.0
    m.asserts = 0
    return d


def run_one(m, harness, prefix, d):
    m.start_path(prefix)
    m.world = None
    m.tags = []
    m.any_map_order = True     # False: hash maps are iterated in insertion order
    m.sampler = None
    d["paths"] += 1
    try:
        harness(m)
        if not d["samples"] and m.sampler is not None and m.want_samples:
            m._ensure_model()
            d["samples"].append(m.sampler(m.model))
    except Infeasible:
        d["infeasible"] += 1
    except Found as f:
        d["found"].append(f.data)
    except (Unsupported, core.Diverge) as u:
        for h in getattr(u, "hints", ()):
            d["opaque"].setdefault(h, set())
            if u.lit:
                d["opaque"][h].add(u.lit)
        if os.environ.get("SX_TRACE"):
            traceback.print_exc()
        d["errors"].append("%s: %s [path %s]" % (u.__class__.__name__, u, m.dec))
    except Panic as p:
        if os.environ.get("SX_TRACE"):
            traceback.print_exc()
        d["errors"].append("unhandled panic in harness: %s" % (p.msg,))
    except RecursionError:
        d["errors"].append("recursion limit")
    except Exception as ex:
        if os.environ.get("SX_TRACE"):
            traceback.print_exc()
        d["errors"].append("executor error: %s\n%s" % (ex, traceback.format_exc()[-1500:]))
    for t in m.tags:
        d["tags"][t] = d["tags"].get(t, 0) + 1
    return m.alts


def finish(m, d):
    for k in ("queries", "forks"):
        d[k] += m.stats[k]
        m.stats[k] = 0
    d["solver_s"] += m.stats["solver_s"]
    m.stats["solver_s"] = 0.0
    d["asserts"] += m.asserts
    m.asserts = 0
    d["encoded"] = set(m.encoded)
    d["modelled"] = set(m.modelled)


def worker(m, harness, q, outq, out_count, stop, budget):
    while not stop.value:
        item = q.get()
        if item is None:
            return
        d = _delta(m)
        stack = [item]
        t = time.time()
        n = 0
        while stack and not stop.value:
            p = stack.pop()
            stack += run_one(m, harness, p, d)
            n += 1
            if d["found"] or d["opaque"] or len(d["errors"]) > 3:
                break
            if (time.time() - t > budget) and stack:
                break
        finish(m, d)
        with out_count.get_lock():
            out_count.value += len(stack) - 1
        for p in stack:
            q.put(p)
        outq.put((d, len(stack)))


def explore(m, harness, rounds=5, deadline=None, **kw):
    """explores; texts the code turns out to look inside of are written out in a new round"""
    t0 = time.time()
    m.spell = {}
    while True:
        left = None if deadline is None else max(5, deadline - (time.time() - t0))
        r = explore_once(m, harness, deadline=left, **kw)
        r.spelled = {h: sorted(l) for h, l in m.spell.items()}
        r.wall = time.time() - t0
        new = {h: l for h, l in r.opaque.items() if h not in m.spell or set(l) - set(m.spell[h])}
        if r.found or not new or rounds == 0 or left == 5:
            return r
        rounds -= 1
        for h, l in new.items():
            m.spell[h] = sorted(set(m.spell.get(h, ())) | set(l))[:4]


def explore_once(m, harness, jobs=8, deadline=None, max_found=1, warm=24, max_paths=None):
    res = Res()
    m.asserts = 0
    t0 = time.time()
    stack = [[]]
    d = _delta(m)
    # serial phase: warms all translation caches
    while stack and d["paths"] < warm and not d["found"] and not d["opaque"] and len(d["errors"]) < 4:
        p = stack.pop(0)
        stack += run_one(m, harness, p, d)
        if deadline and time.time() - t0 > deadline:
            break
    finish(m, d)
    res.merge(d)
    if not stack or res.found or res.opaque:
        if stack:
            res.complete = False
        res.wall = time.time() - t0
        return res
    ctx = mp.get_context("fork")
    # a plain queue whose feeder thread starts after the fork
    q, outq = ctx.Queue(), ctx.Queue()
    cnt = ctx.Value("i", len(stack))
    stop = ctx.Value("i", 0)
    ps = [ctx.Process(target=worker, args=(m, harness, q, outq, cnt, stop, 2.0), daemon=True) for _ in range(jobs)]
    for p in ps:
        p.start()
    for p in stack:
        q.put(p)
    outstanding = len(stack)
    dead = False
    while outstanding > 0:
        try:
            d, back = outq.get(timeout=5)
        except Exception:
            if any(not p.is_alive() for p in ps):
                res.errors.append("worker process died")
                res.fatal = True
                dead = True
                break
            d = None
        if d is not None:
            outstanding += back - 1
            res.merge(d)
        if res.opaque or len(res.found) >= max_found or len(res.errors) > 400 or res.fatal:
            res.complete = False
            break
        if deadline and time.time() - t0 > deadline:
            res.complete = False
            break
        if max_paths and res.paths > max_paths:
            res.complete = False
            break
    stop.value = 1
    for p in ps:
        p.kill()
    for p in ps:
        p.join()
    q.cancel_join_thread()
    outq.cancel_join_thread()
    res.wall = time.time() - t0
    return res
