"""Enumeration of the partitions of one analysis scenario."""

import multiprocessing
import os
import sys
import time

from .values import *
from .engine import *
from .interp import Interp, Source


class Finding:
    """kind: rule identifier, construct: (module, function), line, msg."""

    def __init__(self, rule, site, msg, labels=(), scenario=""):
        self.rule = rule
        self.site = site
        self.msg = msg
        self.labels = list(labels)
        self.scenario = scenario

    def key(self):
        s = self.site or ("?", "?", 0)
        return "%s|%s.%s" % (self.rule, s[0], s[1])

    def where(self):
        s = self.site or ("?", "?", 0)
        return "%s.py:%s in %s" % (s[0].replace(".", "/"), s[2], s[1])

    def __repr__(self):
        return "[%s] %s: %s" % (self.rule, self.where(), self.msg)


class Report:
    def __init__(self, name):
        self.name = name
        self.partitions = 0
        self.pruned = 0
        self.rejected = 0
        self.ok = 0
        self.undecided = []
        self.findings = []
        self.bad = 0  # partitions with a finding
        self.counts = {}  # finding key -> number of partitions
        self.msgs = {}  # finding key -> messages kept
        self.functions = {}
        self.obligations = 0
        self.notes = {}
        self.extra = {}
        self.wall = 0.0

    def keep(self, f, n=1):
        """Record a finding; of many alike only the first few are kept."""
        k = f.key()
        self.counts[k] = self.counts.get(k, 0) + n
        m = self.msgs.setdefault(k, {})
        if m.get(f.msg, 0) < 2 and (f.msg in m or len(m) < 40):
            m[f.msg] = m.get(f.msg, 0) + 1
            self.findings.append(f)

    def merge(self, o):
        self.partitions += o.partitions
        self.pruned += o.pruned
        self.rejected += o.rejected
        self.ok += o.ok
        self.undecided += o.undecided if len(self.undecided) < 200 else [(u[0], u[1], []) for u in o.undecided]
        self.bad += o.bad
        for f in o.findings:
            self.keep(f, 0)
        for k, n in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + n
        self.obligations += o.obligations
        for k, v in o.functions.items():
            self.functions[k] = self.functions.get(k, 0) + v
        for mine, other in ((self.notes, o.notes), (self.extra, o.extra)):
            for k, v in other.items():
                if k not in mine:
                    mine[k] = v
                elif isinstance(v, set):
                    mine[k] |= v
                elif isinstance(v, dict):
                    mine[k].update(v)
                else:
                    mine[k] = mine[k] + v


JOBS = None
_TASK = None


def jobs():
    global JOBS
    if JOBS is None:
        JOBS = int(os.environ.get("PWSA_JOBS", "0")) or min(8, os.cpu_count() or 1)
    return JOBS


START = time.time()
STOP = float(os.environ.get("PWSA_STOP", "60"))  # seconds after which a scenario with violations is not explored further
FOUND = False  # a violation has been found by an earlier scenario of this check
TOTAL = float(os.environ.get("PWSA_BUDGET", "780"))  # seconds for one check


def walk(src, name, scenario, config, stack, learned, limit, deadline):
    """Depth-first over decision prefixes; returns (report, stack left, restart)."""
    rep = Report(name)
    runs = 0
    while stack:
        if runs >= limit or time.time() > deadline:
            break
        runs += 1
        prefix = stack.pop()
        eng = Eng(prefix, learned)
        I = Interp(src, eng, config)
        I.eng.expected = {}
        out = None
        pruned = False
        try:
            out = scenario(I, eng, rep) or []
        except Prune:
            pruned = True
        except Restart:
            return rep, stack, True
        except Undecided as e:
            rep.partitions += 1
            rep.undecided.append((str(e), I.callsite()[-3:], list(eng.labels)))
            out = None
        except (AbsRaise, AbsExit) as e:
            rep.partitions += 1
            rep.rejected += 1
            x = e.exc if isinstance(e, AbsRaise) else e
            rep.notes.setdefault("escaped", []).append(repr(x))
            out = None
        except RecursionError:
            rep.partitions += 1
            rep.undecided.append(("analysis recursion limit", (), list(eng.labels)))
            out = None
        except Exception as e:
            if os.environ.get("PWSA_DEBUG") or type(e).__name__ == "AnchorError":
                raise
            # the analyser met a construct it does not model
            rep.partitions += 1
            rep.undecided.append(("analysis error %s: %s" % (type(e).__name__, e), I.callsite()[-3:], list(eng.labels)))
            out = None
        if pruned:
            rep.pruned += 1
        elif out is not None:
            rep.partitions += 1
            if out:
                rep.bad += any(f.rule != "?undecided" for f in out)
                for f in out:
                    f.labels = list(eng.labels)
                    f.scenario = name
                    if f.rule == "?undecided":
                        rep.undecided.append((f.msg, f.where(), list(eng.labels)))
                    else:
                        rep.keep(f)
            else:
                rep.ok += 1
        for k, v in I.calls.items():
            rep.functions[k] = rep.functions.get(k, 0) + v
        tr = eng.trace
        for i in range(len(tr) - 1, len(prefix) - 1, -1):
            d, n, _ = tr[i]
            for alt in range(n - 1, d, -1):
                stack.append(tuple(x[0] for x in tr[:i]) + (alt,))
    return rep, stack, False


def _work(arg):
    stack, learned, limit, deadline = arg
    src, name, scenario, config = _TASK
    sys.setrecursionlimit(20000)
    rep, left, restart = walk(src, name, scenario, config, stack, learned, limit, deadline)
    return rep, left, restart, learned


def merge_learned(a, b):
    for k, d in b.items():
        m = a.setdefault(k, {})
        for n, v in d.items():
            if n not in m or v[0] == "phi":
                m[n] = v


def explore(src, name, scenario, config=None, max_partitions=60000, budget=600.0, learned=None, parallel=True, stop=True):
    """scenario(I, eng, rep) -> list[Finding] or None; may raise AbsRaise (rejected)."""
    global _TASK
    t0 = time.time()
    deadline = min(t0 + budget, START + TOTAL)
    learned = learned if learned is not None else {}
    while True:
        total = Report(name)
        stopped = False
        rep, stack, restart = walk(src, name, scenario, config, [()], learned, 60 if parallel and jobs() > 1 else max_partitions, deadline)
        if restart:
            continue
        total.merge(rep)
        if stack and parallel and jobs() > 1:
            _TASK = (src, name, scenario, config)
            ctx = multiprocessing.get_context("fork")
            pool = ctx.Pool(jobs())
            try:
                pending = []
                while (stack or pending) and not restart:
                    over = time.time() > deadline or total.partitions + total.pruned > max_partitions
                    if stop and total.findings and time.time() > t0 + (STOP if not FOUND else 5) or FOUND and time.time() > t0 + 100:
                        over = stopped = True
                    if over and stack:
                        break
                    while stack and len(pending) < jobs() * 2:
                        # hand out the shallowest prefix: the largest subtree
                        k = min(range(len(stack)), key=lambda i: len(stack[i]))
                        pending.append(pool.apply_async(_work, (([stack.pop(k)], learned, 40, deadline),)))
                    done = [p for p in pending if p.ready()]
                    if not done:
                        pending[0].wait(0.02)
                        continue
                    for p in done:
                        pending.remove(p)
                        rep, left, rs, ln = p.get()
                        merge_learned(learned, ln)
                        restart = restart or rs
                        total.merge(rep)
                        stack.extend(left)
            finally:
                pool.terminate()
                pool.join()
        if restart:
            continue
        if stack:
            why = "violations found, the rest is not explored" if stopped else "partition budget exhausted"
            total.undecided.append(("budget", "%s (%d left)" % (why, len(stack)), []))
        break
    total.wall = time.time() - t0
    return total
