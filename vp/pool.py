"""Executing the real lock pool (src/lock_pool.cpp): heap, process-exit and system-call stand-ins."""
import z3
from . import build
from .core import (Exec, State, Ptr, Event, fresh, bv, isint, eqv, tobool, simp, Unsupported, SolverTimeout, binop, toint)

PTHREAD = '''#include <boost/atomic/detail/config.hpp>
#include <boost/atomic/detail/futex.hpp>
#undef BOOST_ATOMIC_DETAIL_HAS_FUTEX
#include "%s/src/lock_pool.cpp"
'''


def compile_pool(cfg='gcc', variant='futex', search='generic', extra=()):
    """modules of the pool; search: generic | sse2 | sse41 | dispatch"""
    fl = ['-DBOOST_ATOMIC_SOURCE'] + list(extra)
    mods = []
    if search != 'generic':
        fl += ['-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_USE_SSE41']
    if variant == 'futex':
        mods.append(build.compile_ir(build.REPO + '/src/lock_pool.cpp', cfg, fl))
    else:
        mods.append(build.compile_ir(PTHREAD % build.REPO, cfg, fl, name='pthreadpool'))
    if search != 'generic':
        mods.append(build.compile_ir(build.REPO + '/src/find_address_sse2.cpp', cfg, fl))
        mods.append(build.compile_ir(build.REPO + '/src/find_address_sse41.cpp', cfg, fl + ['-msse4.1']))
    return mods


def entry(mods, name):
    """symbol of the public pool function lock_pool::<name>"""
    pat = '9lock_pool%d%sE' % (len(name), name)
    r = []
    for m in mods:
        for n, f in m.fns.items():
            if not f.decl and n.startswith('_ZN5boost7atomics6detail') and pat in n and '_GLOBAL__N' not in n:
                r.append(n)
    if not r:
        raise Unsupported('no pool function %s' % name)
    return r[0]


# ---------------- heap -----------------
def _alloc(ex, st, size, align, kind, ok, fail):
    """fork: allocated (value via ok(state, ptr)) / failed"""
    if not isint(size):
        raise Unsupported('allocation of symbolic size')
    out = []
    n = st.x.get('fails', 0)
    if ex.may_fail and n < ex.may_fail:
        s2 = st.clone()
        s2.x['fails'] = n + 1
        s2.x['opfail'] = 1
        out.append((s2, fail(s2)))
    p = ex.new_obj(st, 'heap%d' % (st.x.get('nheap', 0)), size, kind, max(align, 16))
    st.x['nheap'] = st.x.get('nheap', 0) + 1
    if ex.heap_shared:
        st.objs[p.obj].shared = ex.heap_shared
    out.append((st, ok(st, p)))
    return ('fork', out)


def x_posix_memalign(ex, st, fr, ins, a, name):
    al = a[1]
    if not isint(al) or al & (al - 1) or al % 8:
        st.viol.append(('contract', 'posix_memalign with alignment %s' % al))

    def ok(s, p):
        ex.write_mem(s, a[0], 8, p)
        return 0
    return _alloc(ex, st, a[2], al if isint(al) else 16, 'heap:free', ok, lambda s: 12)


def x_aligned_alloc(ex, st, fr, ins, a, name):
    return _alloc(ex, st, a[1], a[0] if isint(a[0]) else 16, 'heap:free', lambda s, p: p, lambda s: 0)


def x_malloc(ex, st, fr, ins, a, name):
    return _alloc(ex, st, a[0], 16, 'heap:free', lambda s, p: p, lambda s: 0)


def x_calloc(ex, st, fr, ins, a, name):
    n = simp(binop('mul', a[0], a[1], 64))

    def ok(s, p):
        for i in range(0, n, 8):
            ex.raw_write(s, p.obj, i, min(8, n - i), 0)
        return p
    return _alloc(ex, st, n, 16, 'heap:free', ok, lambda s: 0)


def x_new(ex, st, fr, ins, a, name):
    al = 16
    if 'St11align_val_t' in name:
        al = a[1]
    return _alloc(ex, st, a[0], al, 'heap:delete', lambda s, p: p, lambda s: 0)


def _free(kind):
    def h(ex, st, fr, ins, a, name):
        p = a[0]
        if not isinstance(p, Ptr):
            p = simp(p)
            if isint(p) and p == 0:
                return None
            p = ex.as_ptr(st, p)
        o = st.objs[p.obj]
        if not str(o.kind).startswith('heap:'):
            st.viol.append(('bad-free', 'release of %s' % p.obj))
        elif o.dead:
            st.viol.append(('double-free', 'second release of %s' % p.obj))
        elif o.kind != 'heap:' + kind:
            st.viol.append(('bad-free', '%s released by %s' % (o.kind, name)))
        elif ex.conc_off(st, p.off) != 0:
            st.viol.append(('bad-free', 'release of an interior pointer'))
        o = st.obj_w(p.obj)
        o.dead = True
        st.x['freed'] = st.x.get('freed', 0) + 1
        if ex.heap_shared:
            ex.event(st, Event('FREE', obj=p.obj, inst=ins))
        return None
    return h


def x_guard_acquire(ex, st, fr, ins, a, name):
    v = ex.read_mem(st, a[0], 1)
    return 0 if isint(v) and v else 1


def x_guard_release(ex, st, fr, ins, a, name):
    ex.write_mem(st, a[0], 1, 1)
    return None


def x_atexit(ex, st, fr, ins, a, name):
    st.x['atexit'] = tuple(st.x.get('atexit', ())) + (a[0].obj[3:],)
    return 0


def install_heap(ex, mods=None, may_fail=2, shared=None):
    ex.may_fail = may_fail
    ex.heap_shared = shared
    ex.ext.update({
        'posix_memalign': x_posix_memalign, 'aligned_alloc': x_aligned_alloc, 'memalign': x_aligned_alloc, 'malloc': x_malloc, 'calloc': x_calloc,
        '_ZnwmRKSt9nothrow_t': x_new, '_Znwm': x_new, '_ZnwmSt11align_val_tRKSt9nothrow_t': x_new,
        'free': _free('free'), '_ZdlPv': _free('delete'), '_ZdlPvm': _free('delete'), '_ZdlPvRKSt9nothrow_t': _free('delete'),
        '_ZdlPvSt11align_val_t': _free('delete'), 'atexit': x_atexit, '__cxa_guard_acquire': x_guard_acquire, '__cxa_guard_release': x_guard_release,
    })


def call(ex, states, fn, args, keep=lambda s: s.status == 'ret'):
    """run fn on every state; args(state) -> list or a list"""
    out = []
    for s in states:
        s.status = 'run'
        ex.start(fn, args(s) if callable(args) else list(args), s)
        for r in ex.run(s):
            out.append(r)
    return out


def lock_ptr(ex, mods, st, h=0):
    """acquire the pool entry for hash h through the real code: the pointer handed to the other pool functions"""
    st.x['sync'] = 1
    rs = call(ex, [st], entry(mods, 'long_lock'), [h])
    rs = [r for r in rs if r.status == 'ret']
    if len(rs) != 1:
        raise Unsupported('acquiring the free lock took %d paths' % len(rs))
    if rs[0] is not st:
        raise Unsupported('state replaced')
    return rs[0].ret


def no_syscall(ex, st, fr, ins, a, name):
    raise Unsupported('system call on an uncontended path')


def pause(ex, st, fr, ins, a, name):
    return None
