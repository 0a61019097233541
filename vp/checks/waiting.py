"""C14-C17: waiting, notifying, timed waiting and inter-process operations as the public headers implement them."""
import json
import os
import z3
from .. import api, build, lin, poolwait, waits, wnative
from ..runner import Result
from ..core import Unsupported, SolverTimeout, isint
from ..lia import free

W14 = {'contract', 'lost-wakeup', 'blocked-on-change', 'futex', 'waitstate', 'lock-release', 'lock-nesting', 'outside-lock', 'plain-access', 'vacuous',
       'out-of-bounds', 'use-after-free', 'assert', 'no-termination', 'write-to-const', 'misaligned'}
KEEP = {'C14': W14, 'C15': W14 | {'notify', 'private'}, 'C16': {'early', 'oversleep', 'contract', 'vacuous'},
        'C17': {'private', 'pool', 'address', 'not-rejected', 'notify', 'claims'} | W14 | {'oversleep', 'early'},
        'C19': W14 | {'notify', 'private', 'early', 'oversleep'}}

# what each check asks of the waiting functions of the real pool
POOLK = {'C14': {'lost-wakeup', 'lock-release', 'lock-nesting', 'vacuous', 'contract'}, 'C15': {'notify'}, 'C16': {'early', 'oversleep', 'vacuous'}}

N = api.BYNAME
WAITT = ['u8', 's16', 'u32', 's64', 'u128', 'bool', 'flt', 'dbl', 'ldb', 'pi', 'pv', 'en16', 'en32']


def names(types):
    return [t.name for t in types]


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


TQ = ['until_sys', 'until_std', 'until_pico', 'until_ms', 'for_ns', 'for_ms']
TALL = [o.name for o in waits.WOPS if o.clock]
ALLCFG = ['gcc', 'gcc-snb', 'gcc-snb20', 'clang', 'clang-snb', 'gcc-cx16', 'clang-cx16', 'fallback', 'asm', 'asm-old', 'gcc-noflags']


def jobs(pid, tier, **kw):
    q = tier == 'quick'
    J = []

    def add(cfg, oks, tys, ops, **k):
        for ok in oks:
            for t in tys:
                J.append(dict(pid=pid, cfg=cfg, ok=ok, types=t, ops=ops, **k))
    if pid in POOLK:
        for v in ('futex', 'pthread', 'pthread-clockwait'):
            J.append(dict(pid=pid, pool=v, blocks=2 if q else 4))
    have = [n for n in WAITT if n in N]
    more = names(api.STRUCTS + api.PADDED + api.NTD)
    full = names(api.INTS + api.CHARS + api.FPS + api.PTRS + api.VPTRS + api.ENUMS + [api.BOOL]) + more
    if pid == 'C14':
        if q:
            for cfg, oks in (('gcc-snb', 'ARIJ'), ('clang', 'AR'), ('fallback', 'AR'), ('gcc', 'A'), ('asm', 'A')):
                add(cfg, oks, chunks(have + ['s3b', 's4a4', 's12b', 's24b'] + names(api.PADDED[:3]), 6), ['wait'], blocks=3, validate=2)
            for cfg in ('gcc-snb', 'clang', 'fallback'):
                add(cfg, 'A', [['flag']], ['wait'], blocks=3, validate=1)
            add('gcc-snb', 'I', [['flag']], ['wait'], blocks=3)
            for cfg, oks, tys in (('gcc-snb', 'AR', ['u8', 'u32', 's64']), ('fallback', 'A', ['u32', 's24b']), ('gcc', 'A', ['u32', 's64'])):
                for t in tys:
                    add(cfg, oks, [[t]], ['until_sys', 'until_ms', 'for_ns'], timed=False, fixorder=True)
        else:
            for cfg in ALLCFG:
                oks = 'ARIJ'
                add(cfg, oks, chunks(full, 6), ['wait'], blocks=4, validate=3)
                add(cfg, 'AI', [['flag']], ['wait'], blocks=4, validate=2)
                for t in have:
                    add(cfg, oks, [[t]], TALL, timed=False, fixorder=True)
    elif pid == 'C15':
        tl = have + ['s3b', 's4a4', 's12b', 's24b'] + names(api.PADDED[:3])
        if q:
            for cfg, oks in (('gcc-snb', 'ARIJ'), ('clang', 'AR'), ('fallback', 'AR'), ('gcc', 'A'), ('asm', 'A')):
                add(cfg, oks, chunks(tl, 6), ['wait', 'until_sys', 'until_pico', 'for_ns', 'notify_one', 'notify_all'], blocks=1, fixorder=True, timed=False, symbase=True)
            for cfg in ('gcc-snb', 'clang', 'fallback'):
                add(cfg, 'A', [['flag']], ['wait', 'notify_one', 'notify_all'], blocks=1, symbase=True)
            add('gcc-snb', 'I', [['flag']], ['wait', 'notify_one', 'notify_all'], blocks=1, symbase=True)
        else:
            for cfg in ALLCFG:
                add(cfg, 'ARIJ', chunks(full, 4), ['wait'] + TALL + ['notify_one', 'notify_all'], blocks=1, fixorder=True, timed=False, symbase=True)
                add(cfg, 'AI', [['flag']], ['wait', 'notify_one', 'notify_all'], blocks=1, symbase=True)
    elif pid == 'C16':
        if q:
            for o in TALL:
                add('gcc', 'A', [['u32'], ['u64']], [o], fixorder=True, validate=2)
            for o in ('until_pico', 'until_sys', 'until_std', 'for_ns', 'until_ms', 'for_ms'):
                add('gcc-snb', 'RIJ', [['u32'], ['u8']], [o], fixorder=True, validate=1)
                add('fallback', 'AR', [['u32']], [o], fixorder=True, blocks=1 if o in ('until_pico', 'until_ms') else 2)
            for o in ('until_sys', 'for_ns', 'until_third'):
                add('clang', 'A', [['u32', 's24b'], ['dbl', 'pi', 'bool']], [o], fixorder=True, blocks=1)
        else:
            for cfg in ALLCFG:
                for o in TALL:
                    add(cfg, 'ARIJ', [[t] for t in ('u8', 'u32', 's64', 'u128', 's24b', 'dbl', 'pi', 'bool')], [o], fixorder=True, validate=1,
                        blocks=2 if o in ('until_pico', 'until_ms', 'until_third', 'until_s32') else 3)
    elif pid == 'C17':
        tl = have + ['s3b', 's4a4', 's8a4', 's12b', 's24b', 's16a16'] + names(api.PADDED[:2])
        lite = ['u8', 'u32', 's64', 'u128', 's24b', 's3b', 'pi', 'flt']
        for cfg in (('gcc-snb', 'clang', 'fallback', 'asm', 'gcc-cx16') if q else ALLCFG):
            for ok in 'IJ':
                for t in (chunks(tl if cfg in ('gcc-snb', 'fallback') else lite, 3) if q else chunks(full, 3)):
                    J.append(dict(pid=pid, cfg=cfg, ok=ok, types=t, ops=['wait', 'until_sys', 'for_ns', 'notify_one', 'notify_all'] if q else
                                  ['wait', 'until_sys', 'until_ms', 'until_std', 'for_ns', 'notify_one', 'notify_all'], blocks=1,
                                  fixorder=True, timed=False, symbase=True))
                for t in (chunks(tl if cfg in ('gcc-snb', 'fallback') else lite[:5], 2) if q else chunks(full, 2)):
                    J.append(dict(pid=pid, cfg=cfg, ok=ok, types=t, core=True))
            J.append(dict(pid=pid, cfg=cfg, ok='I', types=['flag'], ops=['wait', 'notify_one', 'notify_all'], blocks=1, symbase=True, fixorder=True))
            J.append(dict(pid=pid, cfg=cfg, ok='I', types=['flag'], core=True))
            # the results and the atomicity of the operations
            for ok in ('IJ' if not q or cfg == 'gcc-snb' else 'J' if cfg == 'clang' else '' if cfg == 'fallback' else 'I'):
                if q:
                    rt = [names(api.INTS[:8:3]), ['flt', 'dbl'], ['pi', 'bool', 'en16'], ['s3b', 's4a4', 's7b', 's8b', 'p_ic'] if cfg != 'fallback' else ['s4a4']]
                    rt = [[n for n in t if n in N] for t in rt]
                    if cfg == 'gcc-cx16':
                        rt = [['u128'], ['s12b', 's16a16']]
                else:
                    rt = chunks(full, 3)
                for t in rt:
                    J.append(dict(pid=pid, linear=True, cfg=cfg, ok=ok, types=t, filt='all', mode='stable', fixorder=True, validate=4))
                    J.append(dict(pid=pid, linear=True, cfg=cfg, ok=ok, types=t, filt='havoc', mode='havoc', fixorder=True))
    return J


def ev(m, v):
    if v is None or isint(v):
        return v
    x = m.eval(v, model_completion=True)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    return None


def show(m, c, s, op):
    d = dict(config=c.cfg, object='%s<%s>' % (c.ok, c.ty.cxx), operation=op.expr)
    if m is None:
        return d
    d.update(old=hex(ev(m, c.old)), argument=ev(m, c.d) if op.clock else None)
    tr = []
    for e in s.events[:60]:
        x = dict(kind=e.kind)
        if e.kind == 'R':
            x['value'] = hex(ev(m, e.rval)) if not isinstance(e.rval, (type(None),)) and not hasattr(e.rval, 'obj') else None
        elif e.kind == 'NOW':
            x['clock'], x['ticks'] = e.data[0], ev(m, e.data[1])
        elif e.kind == 'FUTEX':
            x['call'] = e.data['cmd']
            x['flags'] = e.data['flags']
            if e.data['ts']:
                x['timespec'] = [ev(m, t) for t in e.data['ts']]
        elif e.kind == 'FRET':
            x['errno'] = ev(m, e.data['err'])
        elif e.kind == 'PWAIT':
            x['call'] = e.data['kind']
        tr.append(x)
    d['trace'] = tr
    return d


def selected(job, R):
    """compile-time rejection of inter-process objects that are not lock-free is part of C17"""
    cfg, ok = job['cfg'], job['ok']
    tb = dict(api.BYNAME, flag=api.FLAG)
    tys = [tb[n] for n in job['types']]
    use, infos = [], {}
    for k, t, i in lin.selectable(cfg, [(ok, t) for t in tys]):
        if k in 'IJ' and not i[3]:
            if job['pid'] == 'C17':
                rejected(job, k, t, i, R)
            continue
        infos[t.name] = i
        use.append((k, t))
    return use, infos


def rejected(job, ok, ty, info, R):
    """a non-lock-free inter-process object: its operations must not compile"""
    where = '%s %s_%s' % (job['cfg'], ok, ty.name)
    R.cases += 1
    names_ = ('load', 'store', 'exchange', 'cas_s')
    accepted = []
    for n in names_:
        try:
            src, cases = api.harness([(ok, ty)], build.CONFIGS[job['cfg']][1].get('gcc'), lambda o, k, t: o.name == n)
            if not cases:
                continue
            mod = build.compile_ir(src, job['cfg'])
        except build.BuildError as e:
            if 'lock-free' not in str(e) and 'lock_free' not in str(e) and 'static' not in str(e):
                R.undecided.append('%s %s: %s' % (where, n, str(e)[-300:]))
            continue
        run = lin.Runner(job['cfg'], mod, 'stable')
        run.fixorder = True
        try:
            fin, c = run.run(cases[0][0], ok, ty, cases[0][3], info)
        except (Unsupported, SolverTimeout) as e:
            R.undecided.append('%s %s: %s' % (where, n, e))
            continue
        R.stats(run.ex.stats)
        if any(e.kind == 'LOCK' for s in fin for e in s.events):
            accepted.append(n)
    if accepted:
        R.viol(where, 'not-rejected', 'an inter-process object without a lock-free implementation is accepted and uses the lock pool of the process: %s' % ', '.join(accepted))
    R.extra['rejected_at_compile_time'] = R.extra.get('rejected_at_compile_time', 0) + (not accepted)


def run_job(job):
    R = Result()
    if job.get('pool'):
        try:
            poolwait.check(job['pool'], R, POOLK[job['pid']], job['blocks'])
        except (Unsupported, SolverTimeout, RecursionError) as e:
            R.undecided.append('pool %s: %s' % (job['pool'], str(e)[:300]))
        return R
    if job.get('linear'):
        from . import linear
        return linear.run_job(job)
    cfg, pid = job['cfg'], job['pid']
    keep = KEEP[pid]
    use, infos = selected(job, R)
    if not use:
        return R
    if job.get('core'):
        return core_job(job, use, infos, R)
    if cfg in ('gcc-cx16', 'clang-cx16') and job['ok'] in 'IJ':
        # polling a 16-byte object through cmpxchg16b doubles the paths at each of the 16 looks; its operations are covered by the core jobs
        use = [(k, t) for k, t in use if t.size != 16]
        if not use:
            return R
    src, cases = waits.source(use, build.CONFIGS[cfg][1].get('gcc'), job['ops'])
    mod = build.compile_ir(src, cfg)
    run = waits.WaitRunner(cfg, mod, job.get('blocks', 2), symbase=job.get('symbase', False))
    run.fixorder = bool(job.get('fixorder'))
    run.timed = job.get('timed', True)
    vals = []
    mechs = {}
    for fn, ok, ty, op in cases:
        where = '%s %s' % (cfg, fn[2:])
        if not op.clock and op.kind in ('n1', 'na') and pid not in ('C15', 'C17', 'C19'):
            continue
        R.cases += 1
        run.mech = mechs.get((ok, ty.name))
        try:
            vs = run.check(fn, ok, ty, op, infos[ty.name])
            fin, c = run.last
            if op.kind in ('wait', 'until', 'for'):
                mechs.setdefault((ok, ty.name), {})
                for k, v in run.mechanism(fin, c).items():
                    mechs[ok, ty.name].setdefault(k, v)
            if pid == 'C17':
                vs = vs + ipc(run, fin, c, op)
            if pid == 'C15' and op.kind in ('n1', 'na') and not run.mech:
                R.undecided.append('%s: no blocking call seen in the waiting operations' % where)
        except (Unsupported, SolverTimeout, RecursionError) as e:
            R.undecided.append('%s: %s' % (where, str(e)[:300]))
            continue
        R.events += sum(len(s.events) for s in fin)
        for kind, text, m, s, cc in vs:
            if kind not in keep:
                continue
            det = show(m, cc, s, op) if s is not None else {}
            rep = {}
            if m is not None and s is not None:
                sc = wnative.script(run, s, cc, op, m, infos[ty.name])
                rep = dict(script=sc, cfg=cfg, names=job['ops'])
            R.viol(where, kind, text, det, rep)
        rets = [s for s in fin if s.status == 'ret' and not s.viol]
        if rets and len(R.samples) < 2:
            m = run.ex.check(rets[-1])
            if m is not None:
                R.samples.append(show(m, c, rets[-1], op))
        if rets:
            R.witness += 1
        for s in rets[::-1][:12]:
            if len(vals) >= job.get('validate', 0):
                break
            m = run.ex.check(s)
            if m is None:
                continue
            sc = wnative.script(run, s, c, op, m, infos[ty.name])
            if sc and sum(v['op'] == sc['op'] for v in vals) < 1:
                vals.append(sc)
    R.stats(run.ex.stats)
    if vals:
        wnative.validate(cfg, vals, R)
    return R


def ipc(run, fin, c, op):
    out = []
    for s in fin:
        if s.viol:
            continue
        for e in s.events:
            if e.kind in ('LOCK', 'PWAIT', 'PNOTIFY', 'ALLOCWS') or (e.kind == 'FENCE' and e.order == 'pool'):
                out.append(('pool', 'an inter-process operation uses the lock pool of the process', run.ex.check(s), s, c))
                break
        a = addrdep(run, s, c)
        if a:
            out.append(a)
    if op.kind in ('wait', 'until', 'for'):
        ms = run.mechanism(fin, c)
        if not ms and any(s.status == 'cut' for s in fin):
            pass
    return out


def addrdep(run, s, c):
    """the decisions taken on this path must not depend on where the object is mapped"""
    if c.base is None:
        return None
    for q in s.pc[1:]:
        if isint(q):
            continue
        if any(z3.is_expr(v) and v.eq(c.base) for v in free(q)):
            # a consequence of the known alignment does not count
            z = z3.Solver()
            z.set('timeout', 20000)
            z.add(s.pc[0] if not isint(s.pc[0]) else z3.BoolVal(True), z3.Not(q))
            if z.check() != z3.unsat:
                return ('address', 'behaviour depends on the address at which the object is mapped', run.ex.check(s), s, c)
    return None


def core_job(job, use, infos, R):
    cfg, pid = job['cfg'], job['pid']
    src, cases = api.harness(use, build.CONFIGS[cfg][1].get('gcc'), lambda o, k, t: True)
    mod = build.compile_ir(src, cfg)
    run = lin.Runner(cfg, mod, 'stable', symbase=True)
    run.fixorder = True
    for fn, ok, ty, op in cases:
        where = '%s %s' % (cfg, fn[2:])
        R.cases += 1
        try:
            fin, c = run.run(fn, ok, ty, op, infos[ty.name])
        except (Unsupported, SolverTimeout, RecursionError) as e:
            R.undecided.append('%s: %s' % (where, str(e)[:300]))
            continue
        R.events += sum(len(s.events) for s in fin)
        for s in fin:
            if any(e.kind == 'LOCK' for e in s.events):
                R.viol(where, 'pool', 'an inter-process operation uses the lock pool of the process')
            a = addrdep(run, s, c)
            if a:
                R.viol(where, a[0], a[1])
            for e in s.events:
                if e.kind in ('R', 'W', 'RMW', 'CAS') and e.obj == c.oid:
                    R.witness += 1
                    break
    R.stats(run.ex.stats)
    return R


def replay(v, d):
    r = v.get('replay') or {}
    sc = r.get('script')
    if r and 'script' not in r:
        from . import linear
        return linear.replay(v, d)
    if not sc:
        return 'symbolic trace only'
    return wnative.replay(r['cfg'], sc, d)


def level(pid):
    return 'model_checking'


def explain(pid, tier):
    return {
        'C14': 'Each waiting operation of the public interface was executed symbolically (IR of the real headers) against arbitrary values found at every look at the object, arbitrary outcomes of every system call (woken, spurious, EINTR, EAGAIN, ENOSYS, any errno) and arbitrary behaviour of the lock pool; at each blocking call the solver proved that the last look after registration (or the kernel comparison) saw the old value and that the returned value was observed and differs.',
        'C15': 'The blocking calls of the waiting operations were matched against the notifying operations: same futex word and private flag, wake counts, same pool lock for every address, same notified address.',
        'C16': 'Deadlines handed to the system, and every reported timeout, were proved correct for all deadlines and durations up to 2^61 ns on ten clock types, all clock readings, and all outcomes of each call (128-bit arithmetic, decided as exact linear integer arithmetic).',
        'C17': 'Every operation, wait and notification of the inter-process types was executed with a symbolic object address; no pool call, no private futex, no decision dependent on the address; non-lock-free instantiations are rejected at compile time.',
    }[pid]


def assumptions(pid):
    a = ['the IR clang 18 produces without optimisation has the meaning the language gives the source',
         'futex system calls: FUTEX_WAIT compares and sleeps indivisibly, may end spuriously or with any error; ETIMEDOUT only at or after the deadline on the selected clock; ENOSYS is a property of the kernel, not of one call',
         'the monotonic clock never goes back and is not negative; real-time and boot clocks are not negative; custom clocks are arbitrary',
         'the lock pool keeps the contract used for the header-level operations (its waiting functions are checked against it here, the rest in C07-C11)',
         'at most 2 (quick) blocking calls per operation are followed (further ones start from the same kind of state)']
    if pid == 'C16':
        a.append('deadlines, durations and clock readings of magnitude up to 2^61 ns (73 years)')
    return a
