"""C07 and C18: operations of non-lock-free objects run under one pool lock chosen by address; lock-freedom and native-wait claims match behaviour."""
import json
import os
import z3
from .. import api, build, lin, waits, pool, native
from ..core import (Exec, State, Ptr, Event, fresh, bv, isint, eqv, tobool, simp, Unsupported, SolverTimeout, binop, extract)
from ..runner import Result
from . import linear, waiting

LOCKK = {'lock-nesting', 'lock-release', 'outside-lock', 'no-lock', 'not-one-step', 'contract', 'lock-address', 'vacuous', 'assert', 'out-of-bounds', 'use-after-free',
         'abort', 'trap', 'unreachable', 'pool'}
CLAIMK = {'claims', 'locks', 'no-lock', 'allocates', 'pool'}
N = api.BYNAME
ALLCFG = waiting.ALLCFG
WQ = ['wait', 'until_sys', 'until_pico', 'for_ns', 'notify_one', 'notify_all']
BIG = ['s17b', 's24b', 's24a8', 's33b']


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def jobs(pid, tier, **kw):
    q = tier == 'quick'
    J = []
    if pid == 'C07':
        fb = ['u8', 's16', 'u32', 's64', 'u128', 'bool', 'flt', 'dbl', 'pi', 'pv', 'en16', 's3b', 's7b', 's12b', 's16a8', 's24b', 's24a8', 's33b', 's4a4', 's16a16'] if q else \
            [t.name for t in api.ALL]
        for ok in 'AR':
            for t in chunks([x for x in fb if x in N], 2):
                J.append(dict(pid=pid, cfg='fallback', ok=ok, types=t))
        J.append(dict(pid=pid, cfg='fallback', ok='A', types=['flag']))
        for cfg, tl in (('gcc', ['u128', 's17b', 's24b', 'ldb', 's16a16']), ('clang', ['u128', 's24b']), ('gcc-snb', ['s24b', 's33b']), ('asm', ['s24b'])):
            for ok in 'AR' if q else 'ARIJ':
                for t in chunks([x for x in tl if x in N], 2):
                    J.append(dict(pid=pid, cfg=cfg, ok=ok, types=t))
        for cfg in (('gcc', 'clang') if q else ('gcc', 'clang', 'gcc-snb', 'asm', 'clang-snb')):
            for v in ('futex', 'pthread'):
                J.append(dict(pid=pid, cfg=cfg, poolpart=v))
                if not q:
                    for l2 in (0, 1, 4, 9):
                        J.append(dict(pid=pid, cfg=cfg, poolpart=v, log2=l2))
            J.append(dict(pid=pid, cfg=cfg, poolpart='futex', log2=4))
    else:
        lite = ['u8', 's16', 'u32', 's64', 'u128', 'bool', 'flt', 'dbl', 'ldb', 'pi', 'pv', 'en16', 's3b', 's7b', 's12b', 's16b', 's16a16', 's17b', 's24b']
        for cfg in (['gcc', 'gcc-snb', 'clang', 'gcc-cx16', 'fallback', 'asm'] if q else ALLCFG):
            for ok in (('AR' if cfg not in ('gcc-snb',) else 'ARIJ') if q else 'ARIJ'):
                tl = lite if q and cfg in ('gcc-snb', 'gcc', 'fallback') else (['u8', 'u32', 's64', 'u128', 's12b', 's24b', 'ldb'] if q else [t.name for t in api.ALL])
                for t in chunks([x for x in tl if x in N], 3):
                    J.append(dict(pid=pid, cfg=cfg, ok=ok, types=t, claims=True))
            J.append(dict(pid=pid, cfg=cfg, ok='A', types=['flag'], claims=True))
            J.append(dict(pid=pid, cfg=cfg, macros=True))
        if q:
            for cfg in [c for c in ALLCFG if c not in ('gcc', 'gcc-snb', 'clang', 'gcc-cx16', 'fallback', 'asm')]:
                J.append(dict(pid=pid, cfg=cfg, macros=True))
    return J


# ---------------------------------------------------------------- the real pool: which entry a hash selects
def selector(cfg, variant, name, extra=()):
    """(mods, h, offset of the returned pointer as a function of h, object, final states)"""
    mods = pool.compile_pool(cfg, variant, extra=extra)
    ex = Exec(mods, timeout_ms=60000)
    ex.loop_bound = 100
    pool.install_heap(ex, may_fail=0)
    ok = lambda ex, st, fr, ins, a, n: 0
    for n in ('pthread_mutex_trylock', 'pthread_mutex_lock', 'pthread_mutex_unlock'):
        ex.ext[n] = ok
    st = State()
    h = z3.BitVec('h', 64)
    # arrays of pool entries are indexed by the hash
    ex.start(pool.entry(mods, name), [h], st)
    for m in mods:
        for g, gv in m.globals.items():
            t = m.resolve(gv.type) if gv.init is not None else None
            if t and t[0] == 'arr' and m.resolve(t[2])[0] == 'st' and t[1] >= 1:
                p = ex.glob(st, st.frames[-1], g)
                es = m.size(t[2])
                st.obj_w(p.obj).symidx = (es, 0) if t[1] > 1 else False
    return mods, ex, st, h


def gsize(ex, st, oid):
    """(whole object, offset term of pointer p)"""
    return st.objs[oid.split('[')[0]]


def entry_of(cfg, variant, name, R, where, extra=()):
    """offset expression of the lock pointer for hash h within the pool array; the bytes of the entry touched by lock and unlock"""
    mods, ex, st, h = selector(cfg, variant, name, extra)
    fin = ex.run(st)
    ret = [s for s in fin if s.status == 'ret']
    for s in fin:
        for v in s.viol:
            R.viol(where, v[0], '%s: %s' % (name, v[1]))
    if not ret:
        raise Unsupported('%s never returns' % name)
    off = None
    for s in ret:
        p = s.ret
        if not isinstance(p, Ptr):
            raise Unsupported('%s returns a number' % name)
        root = p.obj.split('[')[0]
        whole = s.objs[root]
        o = simp(binop('sub', ex.ptr_bv(s, p), whole.base, 64))
        if off is None:
            off = o
        else:
            m = ex.prove(s, eqv(o, off, 64))
            if m is not None:
                R.viol(where, 'lock-address', '%s returns different locks for one hash on different paths' % name)
        # everything the lock and unlock touch lies within the entry
        m = ex.prove(s, z3.ULE(bv(o, 64), whole.size - 4))
        if m is not None:
            R.viol(where, 'lock-address', '%s: the lock lies outside the pool for hash %s' % (name, m.eval(h, model_completion=True)),
                   dict(h=str(m.eval(h, model_completion=True)), offset=str(m.eval(bv(o, 64), model_completion=True)), pool_size=whole.size))
        u = s.clone()
        u.status = 'run'
        ex.start(pool.entry(mods, 'unlock'), [p], u)
        for f in ex.run(u):
            for v in f.viol:
                R.viol(where, v[0], 'unlock: %s' % v[1])
    R.stats(ex.stats)
    return h, off, ex, ret[-1]


def pool_job(job):
    R = Result()
    cfg, v = job['cfg'], job['poolpart']
    extra = ['-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=%d' % job['log2']] if 'log2' in job else []
    where = '%s %s pool%s' % (cfg, v, '' if 'log2' not in job else ' 2^%d' % job['log2'])
    R.cases += 1
    try:
        h, so, ex, s = entry_of(cfg, v, 'short_lock', R, where, extra)
        h2, lo, ex2, s2 = entry_of(cfg, v, 'long_lock', R, where, extra)
        m = ex.prove(s, eqv(so, lo, 64))
        if m is not None:
            R.viol(where, 'lock-address', 'short_lock and long_lock select different locks for one hash', dict(h=str(m.eval(h, model_completion=True))))
        # two hashes select the same lock or locks which do not overlap
        k = z3.BitVec('h2', 64)
        o2 = z3.substitute(bv(so, 64), (h, k))
        o1 = bv(so, 64)
        t = State()
        m = ex.prove(t, z3.Or(o1 == o2, z3.ULT(o1, o2) & z3.UGE(o2 - o1, 32), z3.ULT(o2, o1) & z3.UGE(o1 - o2, 32)))
        if m is not None:
            R.viol(where, 'lock-address', 'two hashes select overlapping locks', dict(h1=str(m.eval(h, model_completion=True)), h2=str(m.eval(k, model_completion=True))))
        R.witness += 1
        R.samples.append(dict(where=where, entry_offset=str(z3.simplify(o1))[:120]))
        R.stats(ex.stats)
    except (Unsupported, SolverTimeout) as e:
        R.undecided.append('%s: %s' % (where, str(e)[:300]))
    return R


# ---------------------------------------------------------------- header operations
def pick(cfg, ok, names):
    tb = dict(api.BYNAME)
    tb['flag'] = api.FLAG
    out = []
    infos = {}
    for k, t, i in lin.selectable(cfg, [(ok, tb[n]) for n in names]):
        if k in 'IJ' and not i[3]:
            continue
        infos[t.name] = i
        out.append((k, t))
    return out, infos


def allocs(run):
    def h(ex, st, fr, ins, a, n):
        st.viol.append(('allocates', 'calls ' + n))
        st.status = 'abort'
        return None
    for n in ('malloc', '_Znwm', '_ZnwmRKSt9nothrow_t', 'posix_memalign', 'free', '_ZdlPv', 'calloc', 'realloc', 'aligned_alloc', 'pthread_mutex_lock', 'pthread_mutex_trylock'):
        run.ex.ext[n] = h


def locks_job(job):
    R = Result()
    cfg, ok = job['cfg'], job['ok']
    use, infos = pick(cfg, ok, job['types'])
    use = [u for u in use if not infos[u[1].name][3]]
    if not use:
        return R
    sel = {}
    try:
        for n in ('short_lock', 'long_lock'):
            h, o, ex, s = entry_of('gcc' if cfg != 'clang' else 'clang', 'futex', n, R, '%s %s' % (cfg, n))
            sel[n] = (h, bv(o, 64))
    except (Unsupported, SolverTimeout) as e:
        R.undecided.append('pool: %s' % str(e)[:300])
        return R
    src, cases = api.harness(use, build.CONFIGS[cfg][1].get('gcc'))
    mod = build.compile_ir(src, cfg)
    wsrc, wcases = waits.source(use, build.CONFIGS[cfg][1].get('gcc'), [n for n in WQ if job['types'] != ['flag'] or not waits.WBY[n].clock])
    wmod = build.compile_ir(wsrc, cfg)
    run = lin.Runner(cfg, mod, 'havoc', symbase=True)
    wrun = waits.WaitRunner(cfg, wmod, blocks=1, symbase=True)
    wrun.fixorder = True
    wrun.timed = False
    wrun.mech = None
    ref = {}
    for r_, cs in ((run, cases), (wrun, wcases)):
        for fn, k, ty, op in cs:
            where = '%s %s' % (cfg, fn[2:])
            R.cases += 1
            try:
                vs = (r_.check_havoc if r_ is run else r_.check)(fn, k, ty, op, infos[ty.name])
            except (Unsupported, SolverTimeout, RecursionError) as e:
                R.undecided.append('%s: %s' % (where, str(e)[:200]))
                continue
            fin, c = r_.last
            for kind, text, m, s, cc in vs:
                if kind not in LOCKK:
                    continue
                det = {}
                rep = {}
                if m is not None and r_ is run:
                    i = linear.inputs(cc, m)
                    det = linear.show(cc, op, i)
                    rep = dict(case=(k, ty.name, op.name), cfg=cfg, info=infos[ty.name], inputs=i, mode='havoc')
                R.viol(where, kind, text, det, rep)
            for s in fin:
                if s.viol or s.status not in ('ret', 'cut'):
                    continue
                L = [e for e in s.events if e.kind == 'LOCK']
                if s.status == 'ret':
                    depth = 0
                    for e in s.events:
                        depth += {'LOCK': 1, 'UNLOCK': -1}.get(e.kind, 0)
                    if depth:
                        R.viol(where, 'lock-release', 'the pool lock is not released exactly once')
                    if not L and r_ is wrun:
                        R.viol(where, 'no-lock', 'operation of a non-lock-free type does not take its lock')
                for e in L:
                    R.events += 1
                    n = e.order if e.order in sel else 'short_lock'
                    hv, off = sel[n]
                    x = z3.substitute(off, (hv, bv(e.data, 64)))
                    rk = ty.name
                    if rk not in ref:
                        ref[rk] = x
                        continue
                    if z3.eq(x, ref[rk]):
                        continue
                    m = r_.ex.prove(s, x == ref[rk])
                    if m is not None:
                        R.viol(where, 'lock-address', 'takes another lock than the other operations on the same object',
                               dict(address=str(m.eval(z3.BitVec('base', 64), model_completion=True))))
    for r_ in (run, wrun):
        R.stats(r_.ex.stats)
    R.witness += len(ref)
    return R


# ---------------------------------------------------------------- C18
def claims_job(job):
    R = Result()
    cfg, ok = job['cfg'], job['ok']
    use, infos = pick(cfg, ok, job['types'])
    if not use:
        return R
    gcc = build.CONFIGS[cfg][1].get('gcc')
    src, cases = api.harness(use, gcc)
    extra = []
    for k, ty in use:
        ot = api.objtype(k, ty)
        tag = '%s_%s' % (k, ty.name)
        cv = 'const ' if k in api.REFS else 'volatile '
        extra.append('extern "C" int q_%s(%s%s& o) { return o.is_lock_free() ? 1 : 0; }' % (tag, cv, ot))
        extra.append('extern "C" int n_%s(%s%s& o) { return o.has_native_wait_notify() ? 1 : 0; }' % (tag, cv, ot))
    mod = build.compile_ir(src + '\n'.join(extra) + '\n', cfg)
    wsrc, wcases = waits.source(use, gcc, [n for n in WQ if job['types'] != ['flag'] or not waits.WBY[n].clock])
    wmod = build.compile_ir(wsrc, cfg)
    run = lin.Runner(cfg, mod, 'havoc')
    allocs(run)
    wrun = waits.WaitRunner(cfg, wmod, blocks=1)
    wrun.fixorder = True
    wrun.timed = False
    wrun.mech = None
    lf, nw = {}, {}
    for k, ty in use:
        tag = '%s_%s' % (k, ty.name)
        where = '%s %s' % (cfg, tag)
        R.cases += 1
        try:
            for fn, dst, static, what in (('q_' + tag, lf, infos[ty.name][3], 'is_lock_free()'), ('n_' + tag, nw, infos[ty.name][5], 'has_native_wait_notify()')):
                st, c, p = run.setup(k, ty, infos[ty.name])
                run.ex.start(fn, [c.arg0], st)
                fin = [s for s in run.ex.run(st)]
                vals = set()
                for s in fin:
                    if s.status != 'ret' or s.viol:
                        raise Unsupported('%s ended as %s %s' % (what, s.status, s.viol))
                    for b in (0, 1):
                        if run.ex.check(s, tobool(eqv(s.ret, b, 32))) is not None:
                            vals.add(b)
                if static and 0 in vals:
                    R.viol(where, 'claims', '%s can be false although the static member is true' % what)
                if what == 'is_lock_free()' and not static and 1 in vals:
                    R.viol(where, 'claims', '%s can be true although is_always_lock_free is false' % what)
                dst[ty.name] = vals
        except (Unsupported, SolverTimeout) as e:
            R.undecided.append('%s: %s' % (where, str(e)[:200]))
            return R
    for fn, k, ty, op in cases:
        where = '%s %s' % (cfg, fn[2:])
        R.cases += 1
        try:
            fin, c = run.run(fn, k, ty, op, infos[ty.name])
        except (Unsupported, SolverTimeout, RecursionError) as e:
            R.undecided.append('%s: %s' % (where, str(e)[:200]))
            continue
        claim = bool(infos[ty.name][3]) or 1 in lf[ty.name]
        n = 0
        for s in fin:
            locks = [e for e in s.events if e.kind == 'LOCK' or e.kind in ('PNOTIFY', 'ALLOCWS') or e.kind == 'FENCE' and e.order == 'pool']
            for v in s.viol:
                if v[0] == 'allocates':
                    R.viol(where, 'allocates', 'the operation %s' % v[1])
            if claim and locks:
                R.viol(where, 'locks', 'the object claims to be lock-free but the operation takes a lock of the pool')
            if not claim and s.status == 'ret' and not any(e.kind == 'LOCK' for e in s.events):
                R.viol(where, 'no-lock', 'the object claims not to be lock-free but the operation does not use the pool')
            n += 1
        R.events += n
        if n:
            R.witness += 1
    for fn, k, ty, op in wcases:
        where = '%s %s' % (cfg, fn[2:])
        R.cases += 1
        try:
            fin, c = wrun.run_w(fn, k, ty, op, infos[ty.name])
        except (Unsupported, SolverTimeout, RecursionError) as e:
            R.undecided.append('%s: %s' % (where, str(e)[:200]))
            continue
        native_claim = bool(infos[ty.name][5]) or 1 in nw[ty.name]
        for s in fin:
            pl = [e for e in s.events if e.kind in ('LOCK', 'PNOTIFY', 'ALLOCWS', 'PWAIT')]
            sl = [e for e in s.events if e.kind == 'SLEEP']
            fx = [e for e in s.events if e.kind == 'FUTEX']
            if native_claim and pl:
                R.viol(where, 'pool', 'the object claims native waiting and notifying but the operation uses the lock pool')
            if native_claim and sl:
                R.viol(where, 'pool', 'the object claims native waiting but the operation polls')
            if not native_claim and fx:
                R.viol(where, 'claims', 'the object claims not to have native waiting but the operation uses the native mechanism')
        R.events += len(fin)
    for r_ in (run, wrun):
        R.stats(r_.ex.stats)
    return R


MACROS = [('FLAG', None, None), ('BOOL', 'bool', 1), ('CHAR', 'char', 1), ('CHAR8_T', 'unsigned char', 1), ('CHAR16_T', 'char16_t', 2), ('CHAR32_T', 'char32_t', 4), ('WCHAR_T', 'wchar_t', 4),
          ('SHORT', 'short', 2), ('INT', 'int', 4), ('LONG', 'long', 8), ('LLONG', 'long long', 8), ('POINTER', 'void*', 8), ('ADDRESS', 'int*', 8),
          ('INT8', 'signed char', 1), ('INT16', 'short', 2), ('INT32', 'int', 4), ('INT64', 'long', 8), ('INT128', '__int128', 16),
          ('FLOAT', 'float', 4), ('DOUBLE', 'double', 8), ('LONG_DOUBLE', 'long double', 16)]


def macros_job(job):
    """feature macros against the static members (which claims_job ties to behaviour)"""
    R = Result()
    cfg = job['cfg']
    s = ['#include <boost/atomic.hpp>', 'extern "C" {']
    for n, t, sz in MACROS:
        a = 'boost::atomic_flag' if t is None else 'boost::atomic<%s >' % t
        i = 'boost::ipc_atomic_flag' if t is None else 'boost::ipc_atomic<%s >' % t
        s.append('extern const long m_%s[] = {' % n)
        for mac in ('BOOST_ATOMIC_%s_LOCK_FREE' % n, 'BOOST_ATOMIC_HAS_NATIVE_%s_WAIT_NOTIFY' % n, 'BOOST_ATOMIC_HAS_NATIVE_%s_IPC_WAIT_NOTIFY' % n):
            s.append('#ifdef %s\n  %s,\n#else\n  -1,\n#endif' % (mac, mac))
        s.append('  %s::is_always_lock_free, %s::always_has_native_wait_notify,' % (a, a))
        if t is None or n == 'INT32' or True:
            s.append('#if BOOST_ATOMIC_%s_LOCK_FREE == 2\n  %s::always_has_native_wait_notify\n#else\n  -1\n#endif' % (n, i))
        s.append('};')
    s.append('extern const long m_fence[] = { BOOST_ATOMIC_THREAD_FENCE, BOOST_ATOMIC_SIGNAL_FENCE };')
    s.append('void f_thread(boost::memory_order m) { boost::atomics::atomic_thread_fence(m); }\nvoid f_signal(boost::memory_order m) { boost::atomics::atomic_signal_fence(m); }\n}')
    mod = build.compile_ir('\n'.join(s) + '\n', cfg)

    def arr(n):
        g = mod.globals[n]
        k = mod.resolve(g.type)[1]
        if g.init[0] == 'zero':
            return [0] * k
        out = []
        for x in g.init[1]:
            v = x[1] if x[0] == 'c' else 0
            out.append(v - (1 << 64) if v >> 63 else v)
        return out
    for n, t, sz in MACROS:
        R.cases += 1
        where = '%s BOOST_ATOMIC_%s' % (cfg, n)
        lf, nw, iw, alf, anw, ain = arr('m_' + n)
        if lf not in (0, 1, 2):
            if lf == -1 and n in ('INT128', 'CHAR8_T', 'ADDRESS'):
                continue
            R.viol(where, 'claims', 'BOOST_ATOMIC_%s_LOCK_FREE is not defined to 0, 1 or 2 (%d)' % (n, lf))
            continue
        if (lf == 2) != bool(alf):
            R.viol(where, 'claims', 'BOOST_ATOMIC_%s_LOCK_FREE is %d but is_always_lock_free is %d' % (n, lf, alf))
        if nw != -1 and (nw == 2) != bool(anw):
            R.viol(where, 'claims', 'BOOST_ATOMIC_HAS_NATIVE_%s_WAIT_NOTIFY is %d but always_has_native_wait_notify is %d' % (n, nw, anw))
        if iw != -1 and ain != -1 and (iw == 2) != bool(ain):
            R.viol(where, 'claims', 'BOOST_ATOMIC_HAS_NATIVE_%s_IPC_WAIT_NOTIFY is %d but always_has_native_wait_notify of ipc_atomic is %d' % (n, iw, ain))
        R.witness += 1
    tf, sf = arr('m_fence')
    for fn, v in (('f_thread', tf), ('f_signal', sf)):
        R.cases += 1
        where = '%s %s' % (cfg, fn)
        try:
            st = State()
            ex = Exec([mod])
            lin.pool_ext(ex, [mod])
            m = fresh('m', 32)
            st.pc.append(z3.Or([m == k for k in api.ORD_RMW]))
            ex.start(fn, [m], st)
            for s in ex.run(st):
                if s.viol:
                    R.viol(where, s.viol[0][0], s.viol[0][1])
                    continue
                if s.status != 'ret':
                    raise Unsupported('ended as ' + s.status)
                if v == 2 and any(e.kind == 'LOCK' or e.kind == 'FENCE' and e.order == 'pool' and e.data == 'thread_fence' for e in s.events):
                    R.viol(where, 'locks', 'the fence is claimed lock-free but calls the lock pool')
            R.stats(ex.stats)
        except (Unsupported, SolverTimeout) as e:
            R.undecided.append('%s: %s' % (where, str(e)[:200]))
    R.samples.append(dict(config=cfg, macros={n: arr('m_' + n) for n, t, sz in MACROS[:6]}))
    return R


def run_job(job):
    if 'poolpart' in job:
        return pool_job(job)
    if job.get('macros'):
        return macros_job(job)
    if job.get('claims'):
        return claims_job(job)
    return locks_job(job)


def replay(v, d):
    if v.get('replay'):
        return linear.replay(v, d)
    return 'symbolic trace only'


def level(pid):
    return 'other'


def explain(pid, tier):
    if pid == 'C07':
        return ('Every operation (including waits, timed waits and notifications) of objects without lock-free implementation was executed symbolically at a symbolic address with the object '
                'changing arbitrarily while unlocked: the object is touched only inside the section, the effect is one documented step inside it, the lock is released once, none is nested; the hash '
                'passed to the pool was pushed through the real short_lock/long_lock, executed with a symbolic hash, and proved to select one and the same in-range entry for all operations of the type.')
    return ('Every operation of every listed type and configuration was executed symbolically and its use of the lock pool, allocation and futexes compared with the static members, run-time '
            'queries (executed symbolically) and feature macros.')


def assumptions(pid):
    return ['x86-64 configurations listed in vp/build.py', 'the pool locks exclude each other (C08)', 'object addresses are aligned as required and lie in the lower half of the address space']
