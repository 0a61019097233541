"""C11: every implementation of the address search agrees with the specification, and the one selected is supported by the processor."""
import os
import json
import subprocess
import z3
from .. import build, native, pool
from ..runner import Result
from ..core import (Exec, State, Ptr, Event, fresh, bv, isint, eqv, tobool, simp, Unsupported, SolverTimeout, binop)

SRC = {'generic': ('lock_pool.cpp', []), 'sse2': ('find_address_sse2.cpp', []), 'sse2avx': ('find_address_sse2.cpp', ['-mavx']),
       'sse41': ('find_address_sse41.cpp', ['-msse4.1']), 'sse41avx': ('find_address_sse41.cpp', ['-mavx'])}
SYM = {'generic': 'find_address_generic', 'sse2': 'find_address_sse2', 'sse2avx': 'find_address_sse2', 'sse41': 'find_address_sse41',
       'sse41avx': 'find_address_sse41'}


def jobs(pid, tier, **kw):
    top = 72 if tier == 'quick' else 192
    J = []
    for v in SRC:
        for cfg in ('gcc', 'clang'):
            if tier == 'quick' and cfg == 'clang' and v.endswith('avx'):
                continue
            for a in range(0, top, 12):
                J.append(dict(pid=pid, variant=v, cfg=cfg, sizes=list(range(a, a + 12))))
    for cfg in ('gcc', 'clang'):
        for sets in (['-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_USE_SSE41'], ['-DBOOST_ATOMIC_USE_SSE2']):
            J.append(dict(pid=pid, dispatch=True, cfg=cfg, sets=sets))
    return J


def modules(v, cfg):
    f, fl = SRC[v]
    ms = [build.compile_ir(build.REPO + '/src/' + f, cfg, build.LOCK_POOL_FLAGS + fl)]
    if v != 'generic':
        ms.append(build.compile_ir(build.REPO + '/src/lock_pool.cpp', cfg, build.LOCK_POOL_FLAGS))
    return ms


def sym(ms, part):
    for m in ms:
        for n, f in m.fns.items():
            if not f.decl and '%d%s' % (len(part), part) in n and 'dispatch' not in n:
                return n
    raise Unsupported('no function %s' % part)


def cap(n):
    c = 2
    while c < n:
        c *= 2
    return c


def run_job(job):
    if job.get('dispatch'):
        return dispatch_job(job)
    R = Result()
    v, cfg = job['variant'], job['cfg']
    ms = modules(v, cfg)
    ex = Exec(ms, timeout_ms=60000)
    ex.loop_bound = 400
    fn = sym(ms, SYM[v])
    tests = []
    for n in job['sizes']:
        R.cases += 1
        where = '%s %s size %d' % (cfg, v, n)
        try:
            st = State()
            C = cap(n)
            p = ex.new_obj(st, 'table', C * 8, 'ext', 16)
            es = [fresh('e%d' % i, 64) for i in range(C)]
            st.objs[p.obj].chunks = {i * 8: (8, es[i]) for i in range(C)}
            a = fresh('addr', 64)
            ex.start(fn, [a, p, n], st)
            fin = ex.run(st)
            R.events += len(fin)
            spec = []
            none = z3.BoolVal(True)
            for i in range(n):
                spec.append((i, z3.And(none, es[i] == a)))
                none = z3.And(none, es[i] != a)
            ended = 0
            for s in fin:
                if s.viol:
                    R.viol(where, s.viol[0][0], s.viol[0][1])
                    continue
                if s.status != 'ret':
                    raise Unsupported('ended as %s' % s.status)
                ended += 1
                r = s.ret
                # an index with that entry when there is one (waiter tables never hold an address twice: C10), anything else otherwise
                cond = z3.And([z3.Implies(z3.Not(none), z3.Or([z3.And(es[i] == a, tobool(eqv(r, i, 64))) for i in range(n)])), z3.Implies(none, z3.UGE(bv(r, 64), n))])
                m = ex.prove(s, cond)
                if m is not None:
                    tab = [m.eval(e, model_completion=True).as_long() for e in es]
                    ad = m.eval(a, model_completion=True).as_long()
                    want = tab[:n].index(ad) if ad in tab[:n] else n
                    got = r if isint(r) else m.eval(r, model_completion=True).as_long()
                    R.viol(where, 'contract', 'index %d for %s' % (got, 'an address at %d' % want if want < n else 'an absent address'),
                           dict(address=hex(ad), table=[hex(t) for t in tab], size=n), dict(cfg=cfg, variant=v, size=n, table=tab, addr=ad))
                elif len(tests) < 24:
                    m = ex.check(s)
                    if m is not None:
                        tests.append((n, [m.eval(e, model_completion=True).as_long() for e in es], m.eval(a, model_completion=True).as_long(),
                                      r if isint(r) else m.eval(r, model_completion=True).as_long()))
            if ended:
                R.witness += 1
            else:
                R.undecided.append('%s: no path ends' % where)
        except (Unsupported, SolverTimeout) as e:
            R.undecided.append('%s: %s' % (where, str(e)[:300]))
    R.stats(ex.stats)
    if tests:
        R.samples.append(dict(variant=v, size=tests[-1][0], result=tests[-1][3]))
        rc, out = nat(cfg, v, [t[:3] for t in tests])
        if rc is None:
            R.undecided.append('native: %s' % out[-300:])
        else:
            for t, g in zip(tests, out):
                if t[3] != g:
                    R.undecided.append('encoding disagrees with the native run: %s %s size %d: %d, natively %d' % (cfg, v, t[0], t[3], g))
                else:
                    R.validated += 1
    return R


def nat(cfg, v, tests, keep=None):
    cc, flags = native.NATIVE[cfg]
    d = build.tmpdir()
    s = ['#include <cstdio>', '#include <cstddef>', 'namespace boost { namespace atomics { namespace detail { std::size_t %s(const volatile void*, const volatile void* const*, std::size_t); } } }' % SYM[v], 'int main() {']
    for n, tab, a in tests:
        s.append('{ alignas(16) static unsigned long t[] = {%s}; std::printf("%%zu\\n", boost::atomics::detail::%s((void*)%dul, (const volatile void* const*)t, %d)); }' % (
            ','.join('%dul' % x for x in tab), SYM[v], a, n))
    s.append('}')
    p = os.path.join(d, 'fa%d.cpp' % os.getpid())
    open(p, 'w').write('\n'.join(s))
    if keep:
        open(os.path.join(keep, 'replay.cpp'), 'w').write('\n'.join(s))
    base = [cc] + flags + ['-O2', '-w', '-pthread', '-I', build.REPO + '/include', '-I', build.REPO + '/src', '-DBOOST_ATOMIC_STATIC_LINK', '-DBOOST_ATOMIC_SOURCE', '-DBOOST_ATOMIC_NO_LIB',
                           '-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_USE_SSE41']
    objs = []
    for f, fl in (('lock_pool.cpp', []), ('find_address_sse2.cpp', SRC[v][1] if v == 'sse2avx' else []), ('find_address_sse41.cpp', SRC[v][1] if v.startswith('sse41') else ['-msse4.1'])):
        o = os.path.join(d, 'fa_%d_%s.o' % (os.getpid(), f))
        r = subprocess.run(base + fl + ['-c', build.REPO + '/src/' + f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode:
            return None, r.stdout
        objs.append(o)
    exe = p[:-4]
    r = subprocess.run(base + [p] + objs + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        return None, r.stdout
    r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=60)
    return r.returncode, [int(x) for x in r.stdout.split()]


def dispatch_job(job):
    R = Result()
    cfg = job['cfg']
    m = build.compile_ir(build.REPO + '/src/lock_pool.cpp', cfg, ['-DBOOST_ATOMIC_SOURCE'] + job['sets'])
    ex = Exec([m], timeout_ms=30000)
    where = '%s dispatch %s' % (cfg, 'sse2+sse41' if len(job['sets']) == 2 else 'sse2')
    leaf = {}

    def on_cpuid(ex, st, l, sub):
        if not isint(l):
            raise Unsupported('cpuid with a symbolic leaf')
        st.x['leaves'] = tuple(st.x.get('leaves', ())) + (l,)
        if (l,) not in leaf:
            leaf[(l,)] = [fresh('cpuid%x_%s' % (l, r), 32) for r in 'abcd']
        vals = list(leaf[(l,)])
        # a leaf above the highest supported one returns other data
        if l and (0,) in leaf:
            other = leaf.setdefault((l, 'x'), [fresh('cpuidx%x_%s' % (l, r), 32) for r in 'abcd'])
            vals = [z3.If(z3.ULE(l, leaf[(0,)][0]), x, y) for x, y in zip(vals, other)]
        elif l:
            other = leaf.setdefault((l, 'x'), [fresh('cpuidx%x_%s' % (l, r), 32) for r in 'abcd'])
            top = leaf.setdefault((0,), [fresh('cpuid0_%s' % r, 32) for r in 'abcd'])
            vals = [z3.If(z3.ULE(l, top[0]), x, y) for x, y in zip(vals, other)]
        return vals
    ex.on_cpuid = on_cpuid

    def chosen(name):
        def h(ex, st, fr, ins, a, nm):
            ex.event(st, Event('CHOSEN', data=name, inst=ins))
            st.pc.append(z3.BoolVal(True))
            return a[2]
        return h
    for n, f in m.fns.items():
        for k in ('find_address_generic', 'find_address_sse2', 'find_address_sse41'):
            if '%d%s' % (len(k), k) in n and 'dispatch' not in n:
                (ex.ext if f.decl else ex.override)[n] = chosen(k)
    # drive it the way the pool does: notifications look the address up once there is a waiter record
    st = State()
    R.cases += 1
    try:
        pool.install_heap(ex)
        ex.loop_bound = 30
        lockp = pool.lock_ptr(ex, [m], st)
        todo = [st]
        addrs = [fresh('a%d' % i, 64) for i in range(3)]
        for i, a in enumerate(addrs):
            nxt = []
            for s in todo:
                s.pc.append(a != 0)
                s.status = 'run'
                ex.start(pool.entry([m], 'allocate_wait_state'), [lockp, a], s)
                nxt += ex.run(s)
            todo = [s for s in nxt if s.status == 'ret' and not s.viol]
            for s in nxt:
                if s.viol and s.viol[0][0] not in ('assert',):
                    R.viol(where, s.viol[0][0], s.viol[0][1])
        nch = 0
        for s in todo:
            cs = [e.data for e in s.events if e.kind == 'CHOSEN']
            nch += len(cs)
            for c in set(cs):
                if c == 'find_address_generic':
                    continue
                l1 = leaf.get((1,))
                if l1 is None:
                    R.viol(where, 'contract', '%s is selected without asking the processor' % c)
                    continue
                top = leaf[(0,)][0]
                bit = z3.Extract(26, 26, l1[3]) if c == 'find_address_sse2' else z3.Extract(19, 19, l1[2])
                mm = ex.prove(s, z3.And(z3.UGE(top, 1), bit == 1))
                if mm is not None:
                    R.viol(where, 'contract', '%s is selected on a processor which does not support it' % c,
                           dict(max_leaf=str(mm.eval(top)), ecx=str(mm.eval(l1[2])), edx=str(mm.eval(l1[3]))))
        R.extra['dispatch_choices'] = nch
        R.witness += nch
        if not nch:
            R.undecided.append('%s: no implementation was selected on any path' % where)
    except (Unsupported, SolverTimeout, StopIteration) as e:
        R.undecided.append('%s: %r' % (where, e))
    R.stats(ex.stats)
    return R


def replay(v, d):
    r = v.get('replay')
    if not r:
        return 'symbolic trace only'
    rc, out = nat(r['cfg'], r['variant'], [(r['size'], r['table'], r['addr'])], keep=d)
    if rc is None:
        return 'native program: %s' % out[-200:]
    tab = r['table'][:r['size']]
    good = out[0] < r['size'] and tab[out[0]] == r['addr'] if r['addr'] in tab else out[0] >= r['size']
    return ('NOT reproduced natively' if good else 'reproduced on the real build') + ': index %d' % out[0]


def level(pid):
    return 'other'


def explain(pid, tier):
    return ('Each implementation (generic, SSE2, SSE2 with VEX encoding, SSE4.1) was executed symbolically for every table size up to the bound with all entries and the searched '
            'address symbolic (slack entries of the real buffer included); the result was proved to be the index of an equal entry, or not below the size when there is none. The dispatcher was run with symbolic '
            'processor identification and the selected variant proved supported.')


def assumptions(pid):
    return ['the table buffer has room for the next power of two of its size, 16-byte aligned, as wait_state_list allocates it (C10)',
            'SSE intrinsics have the meaning clang gives them in IR; pand/vpand in inline assembly as encoded in vp/asmx86.py',
            'cpuid leaves above the reported maximum return arbitrary data; leaf 1 EDX[26] and ECX[19] announce SSE2 and SSE4.1']
