"""Check driver: runs one property's analysis, compares with the known findings, writes the evidence."""

import json
import multiprocessing
import os
import sys
import time
import traceback

from .model import AnalysisBroken, Program, REPO, func_of, where

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ctx(object):
    """Collects the violations and the coverage of one run."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = {}            # key -> message
        self.cov = {}
        self.notes = []
        self.broken = []
        self._p = None

    @property
    def program(self):
        if self._p is None:
            self._p = Program()
        return self._p

    def violation(self, key, msg):
        self.viol.setdefault(key, msg)

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def list(self, k, xs):
        self.cov.setdefault(k, [])
        for x in xs:
            if x not in self.cov[k]:
                self.cov[k].append(x)

    def explain(self, text):
        self.cov['explanation'] = text

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def anchor(self, ok, what):
        if not ok:
            raise AnalysisBroken(f'anchor vanished: {what}')

    def merge(self, res):
        """Merge the result of a worker."""
        for k, m in res.get('viol', {}).items():
            self.violation(k, m)
        for k, n in res.get('counts', {}).items():
            self.count(k, n)
        for k, xs in res.get('lists', {}).items():
            self.list(k, xs)
        for t in res.get('notes', []):
            self.note(t)


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.rstrip('\n')
            if line.startswith('known: '):
                parts = line.split(' ', 3)
                if len(parts) >= 4 and parts[1] == f'property={pid}' and parts[2].startswith('key='):
                    out[parts[2][4:]] = parts[3]
    return out


def _job(a):
    fn, arg = a
    sys.setrecursionlimit(30000)
    try:
        return ('ok', fn(arg))
    except AnalysisBroken as e:
        return ('broken', str(e))
    except Exception:
        return ('broken', f'{arg}: ' + traceback.format_exc(limit=-6))


def parallel(fn, args, procs=8):
    out = []
    for st, r in parallel_raw(fn, args, procs):
        if st == 'broken':
            raise AnalysisBroken(r)
        out.append(r)
    return out


def parallel_raw(fn, args, procs=8):
    """Run fn over args in forked workers, longest first as given; returns (status, result) in order."""
    args = list(args)
    if procs <= 1 or len(args) <= 1:
        res = [_job((fn, a)) for a in args]
    else:
        mp = multiprocessing.get_context('fork')
        import threading
        threading.stack_size(256 * 1024 * 1024)
        with mp.Pool(min(procs, len(args)), maxtasksperchild=None) as pool:
            res = pool.map(_big, [(fn, a) for a in args], chunksize=1)
    return res


def analyse(ctx, fn, args, procs=8):
    """Run fn over the analysis roots; a root the engine cannot handle is recorded, not fatal, unless none is left."""
    args = list(args)
    ok = 0
    for a, (st, r) in zip(args, parallel_raw(fn, args, procs)):
        if st == 'broken':
            ctx.list('roots_not_analysed', [f'{a}: {r.strip().splitlines()[-1][:300]}'])
            print(f'NOTE: {a} not analysed: {r.strip().splitlines()[-1][:300]}')
            ctx.broken.append(r)
        else:
            ok += 1
            ctx.merge(r)
    if args and not ok:
        raise AnalysisBroken('no root could be analysed: ' + ctx.broken[0])


def _big(a):
    """Run a job on a thread with a large stack (deep inlining)."""
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = []
    t = threading.Thread(target=lambda: box.append(_job(a)))
    t.start()
    t.join()
    return box[0] if box else ('broken', 'worker thread died')


def main(pid, checker, tier, level='other'):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        checker(ctx)
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={pid} {e}')
        return 2
    kn = known(pid)
    new = {k: m for k, m in ctx.viol.items() if k not in kn}
    for k in sorted(ctx.viol):
        if k in kn:
            print(f'KNOWN-FINDING: property={pid} {kn[k]} [{k}]')
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    ctx.cov.setdefault('explanation', '')
    ctx.cov['violations_found'] = len(new)
    ctx.cov['known_findings'] = sorted(k for k in ctx.viol if k in kn)
    if ctx.notes:
        ctx.cov['notes'] = ctx.notes
    seed = os.environ.get('VERIF_SEED', '1')
    data = {'property': pid, 'tier': tier, 'seed': int(seed) if seed.isdigit() else 1, 'level': level,
            'coverage': ctx.cov, 'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(ev, f'{pid}.json'), 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True, default=str)
    if new:
        rp = os.path.join(ev, f'{pid}.violations.txt')
        with open(rp, 'w') as f:
            for k in sorted(new):
                f.write(f'{k}\n    {new[k]}\n')
        for k in sorted(new)[:20]:
            print(f'  {k}: {new[k]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    print(f'OK property={pid} ({round(time.time() - t0, 1)}s)')
    return 0
