"""Runs the jobs of one check in parallel, reports violations, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Result:
    def __init__(self):
        self.violations = []     # dict(where, kind, text, detail, replay)
        self.undecided = []
        self.cases = 0
        self.paths = 0
        self.cuts = 0
        self.queries = 0
        self.solver_s = 0.0
        self.insts = 0
        self.fns = set()
        self.asms = 0
        self.samples = []
        self.validated = 0
        self.witness = 0
        self.events = 0
        self.extra = {}
        self.notes = []

    def stats(self, s):
        self.queries += s.queries
        self.solver_s += s.time
        self.insts += s.insts
        self.fns |= set(s.fns)
        self.paths += s.paths
        self.cuts += s.cuts
        self.asms += len(s.asms)

    def viol(self, where, kind, text, detail=None, replay=None):
        self.violations.append(dict(where=where, kind=kind, text=text, detail=detail or {}, replay=replay or {}))

    def merge(self, o):
        for k in ('cases', 'paths', 'cuts', 'queries', 'solver_s', 'insts', 'asms', 'validated', 'witness', 'events'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.violations += o.violations
        self.undecided += o.undecided
        self.fns |= o.fns
        self.samples += o.samples
        self.notes += o.notes
        for k, v in o.extra.items():
            if isinstance(v, (int, float)):
                self.extra[k] = self.extra.get(k, 0) + v
            else:
                self.extra.setdefault(k, v)


def _go(a):
    modname, job, deadline = a
    t = time.time()
    try:
        m = importlib.import_module('vp.checks.' + modname)
        if time.time() > deadline:
            r = Result()
            r.undecided.append('%s: not started within the time budget' % str(job)[:200])
        else:
            r = m.run_job(job)
    except Exception as e:
        r = Result()
        tb = traceback.format_exc().splitlines()
        r.undecided.append('%s: %s' % (str(job)[:160], (repr(e)[:300] + ' @ ' + ' | '.join(x.strip() for x in tb[-4:-1])[:400])))
    finally:
        from . import build
        import shutil
        if build._tmp and build._tmp[0] == os.getpid():
            shutil.rmtree(build._tmp[1], ignore_errors=True)
    r.jobtime = (time.time() - t, str(job)[:120])
    return r


def known(pid):
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get('findings', []) if x.get('property') == pid]


def matches(k, v):
    return k.get('where') == v['where'] and k.get('kind') in (None, v['kind'])


def main(pid, tier):
    t0 = time.time()
    spec = importlib.import_module('vp.checks.' + REG[pid][0])
    cfg = REG[pid][1]
    jobs = spec.jobs(pid, tier, **cfg)
    budget = float(os.environ.get('VP_BUDGET', 780 if tier == 'quick' else 6 * 3600))
    deadline = t0 + budget
    total = Result()
    times = []
    nproc = int(os.environ.get('VP_JOBS', min(8, os.cpu_count() or 1)))
    ctx = mp.get_context('fork')
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_go, [(REG[pid][0], j, deadline) for j in jobs], chunksize=1):
            times.append(r.jobtime)
            total.merge(r)
    times.sort(reverse=True)
    if os.environ.get('VP_VERBOSE'):
        for t in times[:8]:
            print('job %.1fs %s' % t)
    if hasattr(spec, 'finish'):
        spec.finish(pid, tier, total)
    wall = time.time() - t0
    # one report per distinct place
    seen = {}
    for v in total.violations:
        seen.setdefault((v['where'], v['kind']), v)
    vs = [seen[k] for k in sorted(seen)]
    kn = known(pid)
    new, old = [], []
    for v in vs:
        (old if any(matches(k, v) for k in kn) else new).append(v)
    for k in kn:
        hit = any(matches(k, v) for v in old)
        print('KNOWN-FINDING: property=%s %s%s' % (pid, k['what'], '' if hit else ' (not reproduced in this run)'))
    rdir = os.path.join(ROOT, 'replays', pid)
    for i, v in enumerate(new[:20]):
        d = os.path.join(rdir, '%02d' % i)
        os.makedirs(d, exist_ok=True)
        try:
            if hasattr(spec, 'replay'):
                v['replayed'] = spec.replay(v, d)
        except Exception as e:
            v['replayed'] = 'replay failed: %r' % (e,)
        with open(os.path.join(d, 'violation.json'), 'w') as f:
            json.dump({k: x for k, x in v.items() if k != 'replay'}, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, os.path.join('replays', pid, '%02d' % i)))
        print('   %s: %s: %s' % (v['where'], v['kind'], v['text'][:400]))
        if v.get('replayed'):
            print('   replay: %s' % str(v['replayed'])[:400])
    if len(new) > 20:
        print('   ... and %d more' % (len(new) - 20))
    for u in total.undecided[:20]:
        print('UNDECIDED %s' % u[:700])
    if len(total.undecided) > 20:
        print('UNDECIDED ... and %d more' % (len(total.undecided) - 20))
    cov = dict(
        explanation=spec.explain(pid, tier) if hasattr(spec, 'explain') else '',
        functions_encoded=len(total.fns), cases=total.cases, paths=total.paths, paths_cut_at_bound=total.cuts,
        instructions_executed_symbolically=total.insts, asm_statements=total.asms, queries_discharged=total.queries,
        solver_seconds=round(total.solver_s, 1), undecided=len(total.undecided), reachability_witnesses=total.witness,
        encoding_validated_natively=total.validated,
        samples=total.samples[:12], jobs=len(jobs))
    cov['function_names'] = sorted(total.fns)[:60]
    cov['undecided_cases'] = total.undecided[:20]
    cov.update(total.extra)
    if hasattr(spec, 'level') and spec.level(pid) == 'model_checking':
        cov['states'] = int(total.extra.get('states', total.paths))
        cov['transitions'] = int(total.extra.get('transitions', total.events))
        cov['traces_validated_against_impl'] = total.validated
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=spec.level(pid) if hasattr(spec, 'level') else 'other',
              coverage=cov, assumptions=spec.assumptions(pid) if hasattr(spec, 'assumptions') else [], wall_s=round(wall, 1), violations=len(new))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths (%d cut at the bound), %d queries, %.1f s solver, %d validated natively, %d violations, %d undecided, %.1f s' % (
        pid, tier, total.cases, total.paths, total.cuts, total.queries, total.solver_s, total.validated, len(new), len(total.undecided), wall))
    if new:
        return 1
    if total.undecided or total.cases == 0:
        return 2
    return 0


REG = {}


def register():
    from .checks import registry
    REG.update(registry.REG)
