"""Run many analyses from one analysed state.

``Base`` performs a deterministic setup (for instance: parse one abstract
file).  Every job then continues from that state in its own forked process, so
jobs cannot disturb each other and use all cores; a job that splits into
several paths is forked once per path."""
from __future__ import annotations

import os
import pickle
import selectors
import struct
import sys
import time
import traceback

from .ctx import Ctx
from .values import *

NPROC = max(1, min(8, os.cpu_count() or 1))


def _child(fd, fn):
    try:
        out = fn()
    except BaseException as e:  # noqa: BLE001 - reported to the parent
        out = ("crash", "".join(traceback.format_exception(e))[-3000:])
    try:
        data = pickle.dumps(out)
        os.write(fd, struct.pack("<Q", len(data)))
        mv = memoryview(data)
        while mv:
            n = os.write(fd, mv[:65536])
            mv = mv[n:]
    finally:
        os._exit(0)


DEADLINE = [time.time() + 780]  # what is not analysed by then counts as undecided


def fork_map(jobs, nproc=NPROC):
    """``jobs``: dynamic list of (key, thunk); yields (key, result).

    The consumer may append to ``jobs`` while iterating, or stop early."""
    sel = selectors.DefaultSelector()
    live = {}
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while jobs or live:
            while jobs and len(live) < nproc:
                key, fn = jobs.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    for o in live.values():
                        try:
                            os.close(o[0])
                        except OSError:
                            pass
                    _child(w, fn)
                os.close(w)
                live[r] = [r, pid, key, bytearray()]
                sel.register(r, selectors.EVENT_READ)
            for k, _ in sel.select(5):
                r = k.fd
                d = os.read(r, 1 << 20)
                if d:
                    live[r][3] += d
                    continue
                sel.unregister(r)
                os.close(r)
                _, pid, key, buf = live.pop(r)
                os.waitpid(pid, 0)
                if len(buf) < 8:
                    yield key, ("crash", "the analysis process was ended")
                else:
                    yield key, pickle.loads(bytes(buf[8:]))
            if time.time() > DEADLINE[0]:
                rest = [o[2] for o in live.values()] + [k for k, _ in jobs]
                del jobs[:]
                _end(sel, live)
                for key in rest:
                    yield key, ("crash", "not analysed within the time limit")
    finally:
        _end(sel, live)


def _end(sel, live):
    for r, pid, _, _ in live.values():
        os.kill(pid, 9)
        sel.unregister(r)
        os.close(r)
        os.waitpid(pid, 0)
    live.clear()


class Base:
    """Setup shared by jobs.  ``setup(ctx)`` returns the state handed to jobs."""

    def __init__(self, lab, setup, prefix=(), max_decisions=60):
        self.lab = lab
        self.ctx = Ctx(prefix, max_decisions)
        lab.begin(self.ctx)
        self.state = setup(self.ctx)
        self.n0 = len(self.ctx.choices)

    def enter(self):
        self.lab.it.ctx = self.ctx

    def thunk(self, job, prefix):
        def run():
            self.enter()
            ctx = self.ctx
            ctx.prefix = ctx.choices[: self.n0] + list(prefix)
            try:
                res = job(self.state, ctx)
            except Infeasible:
                res = None
            except Unsupported as e:
                res = ("unsupported", str(e), ctx.facts()[self.n0:])
            except RecursionError:
                res = ("unsupported", "recursion too deep", ctx.facts()[self.n0:])
            new = []
            for i in range(len(prefix), len(ctx.choices) - self.n0):
                for alt in range(1, ctx.alts[self.n0 + i]):
                    new.append(ctx.choices[self.n0:self.n0 + i] + [alt])
            return ("ok", res, new)

        return run


def run_jobs(items, max_paths=64, nproc=NPROC):
    """``items``: [(key, base, job)].  Yields (key, [result per path], complete).

    ``job(state, ctx)`` returns a picklable result; a result
    ("unsupported", why, facts) means the path could not be decided."""
    jobs = []
    pend, res, seen, meta = {}, {}, {}, {}
    for key, base, job in reversed(items):
        meta[key] = (base, job)
        pend[key], res[key], seen[key] = 1, [], 1
        jobs.append(((key, ()), base.thunk(job, ())))
    complete = {k: True for k in meta}
    cut = set()
    for (key, prefix), r in fork_map(jobs, nproc):
        base, job = meta[key]
        pend[key] -= 1
        if r[0] == "crash":
            res[key].append(("crash", r[1], []))
        else:
            if r[1] is not None:
                res[key].append(r[1])
            for p in r[2]:
                if seen[key] >= (max_paths if len(cut) < 4 else 6):
                    complete[key] = False
                    cut.add(key)
                    break
                seen[key] += 1
                pend[key] += 1
                jobs.append(((key, tuple(p)), base.thunk(job, tuple(p))))
        if pend[key] == 0:
            yield key, res.pop(key), complete[key]
