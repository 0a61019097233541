"""C10: the waiter bookkeeping of the lock pool, over bounded histories of the real functions of src/lock_pool.cpp."""
import os
import subprocess
import z3
from .. import build, native, pool
from ..runner import Result
from ..core import (Exec, State, Ptr, Event, fresh, bv, isint, eqv, tobool, simp, Unsupported, SolverTimeout, binop)

# guided scripts (op, index among the live addresses / new); they reach every growth step of the table
GROW = {
    'grow-lifo': [('A', -1)] * 9 + [('F', -1)] * 9,
    'grow-fifo': [('A', -1)] * 9 + [('F', 0)] * 9,
    'grow-mid': [('A', -1)] * 6 + [('F', 2), ('F', 1), ('A', -1), ('A', -1), ('A', -1), ('F', 3), ('F', 0), ('A', -1)] + [('F', 1)] * 4,
    'churn': [('A', -1), ('A', -1), ('F', 0), ('A', -1), ('A', -1), ('F', 0), ('A', -1), ('A', -1), ('F', 1), ('A', -1), ('A', -1), ('A', 0), ('F', 0), ('F', 0)],
    'shared': [('A', -1), ('A', 0), ('A', -1), ('A', 1), ('A', 0), ('F', 0), ('F', 1), ('A', -1), ('F', 0), ('A', -1), ('F', 0), ('F', 0), ('A', -1)],
}
GROWX = {
    'grow17': [('A', -1)] * 17 + [('F', 5), ('F', 11), ('A', -1), ('A', -1), ('F', 0)] + [('F', -1)] * 10,
    'grow33': [('A', -1)] * 33 + [('F', 0), ('F', 16), ('F', -1), ('A', -1), ('A', 0)],
}


def jobs(pid, tier, **kw):
    J = []
    variants = [('gcc', 'futex', 'generic'), ('clang', 'futex', 'generic'), ('gcc', 'pthread', 'generic'), ('gcc', 'futex', 'simd')]
    for cfg, v, s in variants:
        full = cfg == 'gcc' and v == 'futex' and s == 'generic'
        depth = (5 if full else 4) if tier == 'quick' else (7 if full else 6)
        fails = 1 if tier == 'quick' else 2
        firsts = [[('A', -1), o] for o in ('Anew', 'Aold', 'F', 'X')]
        if full or tier != 'quick':
            pre = []
            for a in ('Anew', 'Aold', 'F', 'X'):
                for b in ('Anew', 'Aold', 'F', 'X'):
                    pre.append(['Anew', a, b])
        else:
            pre = [['Anew', a] for a in ('Anew', 'Aold', 'F', 'X')]
        for p in pre:
            J.append(dict(pid=pid, cfg=cfg, variant=v, search=s, depth=depth, prefix=p, fails=fails, tier=tier))
        sc = dict(GROW)
        if tier != 'quick':
            sc.update(GROWX)
        for n in sc:
            J.append(dict(pid=pid, cfg=cfg, variant=v, search=s, script=n, fails=1 if tier == 'quick' else 2, tier=tier))
    return J


class Hist:
    """per state: live = ((addr term, ws pointer, refs), ...), log = ops with results"""


def setup(job):
    mods = pool.compile_pool(job['cfg'], job['variant'], 'generic' if job['search'] == 'generic' else 'simd')
    ex = Exec(mods, timeout_ms=30000)
    ex.loop_bound = 600
    ex.max_paths = 100000
    pool.install_heap(ex, may_fail=job['fails'], shared='seq')
    ok = lambda ex, st, fr, ins, a, n: 0
    for n in ('pthread_cond_init', 'pthread_condattr_init', 'pthread_condattr_setclock', 'pthread_condattr_destroy', 'pthread_cond_destroy', 'pthread_mutex_trylock',
              'pthread_mutex_lock', 'pthread_mutex_unlock', 'clock_gettime'):
        ex.ext[n] = ok

    def wake(ex, st, fr, ins, a, n):
        p = ex.as_ptr(st, a[0])
        ex.event(st, Event('WAKE', obj=p.obj, off=p.off, inst=ins))
        return 0
    for n in ('pthread_cond_signal', 'pthread_cond_broadcast'):
        ex.ext[n] = wake

    def syscall(ex, st, fr, ins, a, n):
        for v in a[1:]:
            if isinstance(v, Ptr) and v.obj in st.objs:
                ex.event(st, Event('WAKE', obj=v.obj, off=v.off, inst=ins))
        return 0
    ex.ext['syscall'] = syscall
    ex.on_cpuid = lambda ex, st, l, sub: [1, 0, 1 << 19, 1 << 26]
    return ex, mods


class Fail(Exception):
    def __init__(self, s, text):
        self.s, self.text = s, text


def same(ex, st, a, b):
    """pointer values provably equal / different / neither"""
    if isinstance(a, Ptr) and isinstance(b, Ptr) and isint(a.off) and isint(b.off):
        return a.obj == b.obj and a.off == b.off
    x, y = ex.ptr_bv(st, a) if isinstance(a, Ptr) else a, ex.ptr_bv(st, b) if isinstance(b, Ptr) else b
    c = tobool(eqv(x, y, 64))
    if ex.check(st, z3.Not(c)) is None:
        return True
    return False


def isnull(p):
    return not isinstance(p, Ptr) and isint(simp(p)) and simp(p) == 0


class H:
    def __init__(self, ex, mods, R, where):
        self.ex, self.mods, self.R, self.where = ex, mods, R, where
        self.fn = {n: pool.entry(mods, n) for n in ('long_lock', 'unlock', 'allocate_wait_state', 'free_wait_state', 'notify_one', 'notify_all')}
        self.leaves = []

    def begin(self):
        st = State()
        st.x['live'] = ()
        st.x['log'] = ()
        return st

    def call(self, s, fn, args):
        """one pool function; returns the ended states (a violation ends the history)"""
        out = []
        self.ex.trace = False
        s.status = 'run'
        s.events = []
        self.ex.start(self.fn.get(fn, fn), args, s)
        for r in self.ex.run(s):
            if r.viol:
                self.bad(r, '%s: %s' % r.viol[0])
            elif r.status != 'ret':
                raise Unsupported('%s ended as %s %s' % (fn, r.status, r.cuts or ''))
            else:
                out.append(r)
        return out

    def bad(self, s, text):
        m = self.ex.check(s)
        if m is None:
            return
        script = self.script(s, m)
        self.R.viol(self.where, 'bookkeeping', text, dict(history=' '.join(script)), dict(script=script))

    def script(self, s, m):
        """concrete history"""
        out = []
        for e in s.x['log']:
            if e[0] in 'AN' and e[1] is not None:
                out.append('%s%x' % (e[0], m.eval(e[1], model_completion=True).as_long()) + ('/f%s' % e[2] if e[0] == 'A' and e[2] else ''))
            else:
                out.append(e[0] + ('%x' % m.eval(e[1], model_completion=True).as_long() if e[1] is not None else ''))
        return out

    def locked(self, s, f):
        out = []
        for r in self.call(s, 'long_lock', [0]):
            r.x['ls'] = r.ret
            for q in f(r):
                out += self.call(q, 'unlock', [q.x['ls']])
        return out

    def op_A(self, s, i):
        """register a waiter on a new address (i = -1) or on live address i"""
        ex = self.ex
        if i < 0:
            a = fresh('addr', 64)
            s.pc.append(a != 0)
            for l in s.x['live']:
                s.pc.append(a != l[0])
        else:
            a = s.x['live'][i][0]

        def body(r):
            n0 = r.x.get('fails', 0)
            res = []
            r.x['log'] = r.x['log'] + (('A', a, 0),)
            nal = r.x.get('tries', 0)
            for q in self.call(r, 'allocate_wait_state', [r.x['ls'], a]):
                f = q.x.get('fails', 0) - n0
                p = q.ret
                if f:
                    q.x['log'] = q.x['log'][:-1] + (('A', a, q.x.get('nheap', 0) + 1),)
                if isnull(p):
                    if i >= 0:
                        self.bad(q, 'no record is returned for an address which has one')
                        continue
                    if not f:
                        self.bad(q, 'no record although no allocation failed')
                        continue
                    res += self.call(q, 'free_wait_state', [q.x['ls'], 0])
                    continue
                live = q.x['live']
                p = ex.as_ptr(q, p)
                if i >= 0:
                    if not same(ex, q, p, live[i][1]):
                        self.bad(q, 'a second record is made for one address')
                        continue
                    q.x['live'] = live[:i] + ((a, live[i][1], live[i][2] + 1),) + live[i + 1:]
                else:
                    k = [j for j in range(len(live)) if same(ex, q, p, live[j][1])]
                    if k:
                        self.bad(q, 'two addresses with waiters share one record')
                        continue
                    q.x['live'] = live + ((a, p, 1),)
                res.append(q)
            return res
        return self.locked(s, body)

    def op_F(self, s, i):
        live = s.x['live']
        if i < 0:
            i += len(live)
        a, p, n = live[i]

        def body(r):
            r.x['log'] = r.x['log'] + (('F', a),)
            r.x['live'] = live[:i] + (((a, p, n - 1),) if n > 1 else ()) + live[i + 1:]
            return self.call(r, 'free_wait_state', [r.x['ls'], p])
        return self.locked(s, body)

    def op_X(self, s):
        """the process-exit cleanup"""
        s.x['exited'] = 1
        out = [s]
        s.x['log'] = s.x['log'] + (('X', None),)
        for f in s.x.get('atexit', ()):
            nxt = []
            for q in out:
                nxt += self.call(q, f, [])
            out = nxt
        return out

    def probe(self, s):
        """a notification reaches exactly the record of its own address"""
        live = s.x['live']
        R = self.R
        for which in ('notify_one', 'notify_all'):
            for i in list(range(len(live))) + [None]:
                c = s.clone()
                if i is None:
                    a = fresh('addr', 64)
                    c.pc.append(a != 0)
                    for l in live:
                        c.pc.append(a != l[0])
                else:
                    a = live[i][0]
                c.x['log'] = c.x['log'] + (('N', a),)
                n_notes = []

                def body(r):
                    qs = self.call(r, which, [r.x['ls'], a])
                    for q in qs:
                        touched = set(e.obj for e in q.events if e.kind in ('W', 'RMW', 'WAKE') or e.kind == 'CAS' and e.ok)
                        R.extra['notifications'] = R.extra.get('notifications', 0) + 1
                        for j, l in enumerate(live):
                            hit = l[1].obj in touched
                            if hit and j != i:
                                self.bad(q, '%s reaches the record of another address' % which)
                            if not hit and j == i:
                                self.bad(q, '%s does not reach the record of its address' % which)
                    return qs
                if isinstance(i, int) and not isinstance(live[i][1], Ptr):
                    raise Unsupported('record pointer not resolved')
                self.locked(c, body)

    def close(self, s):
        """exit cleanup, then everybody leaves: no memory may remain, nothing is released twice"""
        if not s.x.get('exited') and not s.x['live'] == ():
            pass
        todo = [s] if s.x.get('exited') else self.op_X(s)
        while todo:
            q = todo.pop()
            if q.x['live']:
                todo += self.op_F(q, 0)
                continue
            left = [o.id for o in q.objs.values() if str(o.kind).startswith('heap:') and not o.dead]
            if left and q.x.get('atexit') and not q.x.get('fails'):
                self.bad(q, 'memory of the waiter table is never released: %s' % left[:4])
            self.leaves.append(q)

    def dfs(self, s, depth, prefix):
        self.R.extra['histories'] = self.R.extra.get('histories', 0) + 1
        self.probe(s)
        if depth == 0:
            self.close(s)
            return
        want = prefix[0] if prefix else None
        live = s.x['live']
        alts = []
        if want in (None, 'Anew'):
            alts.append(lambda c: self.op_A(c, -1))
        for i in range(len(live)):
            if want in (None, 'Aold'):
                alts.append(lambda c, i=i: self.op_A(c, i))
            if want in (None, 'F'):
                alts.append(lambda c, i=i: self.op_F(c, i))
        if want in (None, 'X') and not s.x.get('exited') and s.x.get('atexit'):
            alts.append(lambda c: self.op_X(c))
        for f in alts:
            for q in f(s.clone()):
                self.dfs(q, depth - 1, prefix[1:])


def run_job(job):
    R = Result()
    ex, mods = setup(job)
    where = '%s %s %s' % (job['cfg'], job['variant'], job['search'])
    R.cases += 1
    h = H(ex, mods, R, where)
    try:
        if 'script' in job:
            todo = [h.begin()]
            sc = dict(GROW, **GROWX)[job['script']]
            for n, (k, i) in enumerate(sc):
                nxt = []
                for s in todo:
                    live = s.x['live']
                    if k == 'A':
                        nxt += h.op_A(s, i if i < len(live) else -1)
                    elif live:
                        nxt += h.op_F(s, i if i < len(live) else 0)
                    else:
                        nxt.append(s)
                todo = nxt
                if n % 4 == 3 or job['tier'] != 'quick':
                    for s in todo[-2:]:
                        h.probe(s)
                R.extra['histories'] = R.extra.get('histories', 0) + len(todo)
            for s in todo:
                h.close(s)
        else:
            h.dfs(h.begin(), job['depth'], job['prefix'])
    except (Unsupported, SolverTimeout) as e:
        R.undecided.append('%s %s: %s' % (where, job.get('script') or job.get('prefix'), str(e)[:300]))
    R.witness += 1 if h.leaves else 0
    R.stats(ex.stats)
    R.paths = R.extra.get('histories', 0)
    # the same histories on the real build
    if h.leaves and job['variant'] == 'futex' and not R.violations:
        step = max(1, len(h.leaves) // (4 if job['tier'] == 'quick' else 16))
        hs = []
        for s in h.leaves[::step]:
            m = ex.check(s)
            if m is not None:
                hs.append(h.script(s, m))
        ok, text = nat(job['cfg'], hs)
        if ok is None:
            R.undecided.append('native: %s' % text[-300:])
        elif not ok:
            R.undecided.append('the native run fails where the encoding finds nothing: %s' % text[-300:])
        else:
            R.validated += len(hs)
            if hs:
                R.samples.append(dict(history=' '.join(hs[-1])))
    return R


DRIVER = r'''
#include <boost/atomic/detail/config.hpp>
#include <chrono>
#include <cstddef>
#include <boost/atomic/detail/lock_pool.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <map>
#include <vector>
static int g_calls, g_fail;
static void (*g_exit)();
extern "C" int vp_posix_memalign(void** p, size_t a, size_t n) { if (++g_calls == g_fail) return 12; return posix_memalign(p, a, n); }
extern "C" int vp_atexit(void (*f)()) { g_exit = f; return 0; }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { if (++g_calls == g_fail) return nullptr; return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
namespace lp = boost::atomics::detail::lock_pool;
int main(int argc, char** argv) {
    struct rec { void* ws; int n; };
    std::map<unsigned long, rec> live;
    for (int i = 1; i < argc; ++i) {
        const char* s = argv[i];
        char* e;
        unsigned long a = std::strtoul(s + 1, &e, 16);
        void* ls = *s == 'X' ? nullptr : lp::long_lock(0);
        if (*s == 'A') {
            bool fail = *e == '/';
            // the k-th allocation of the history fails
            g_fail = 0;
            if (fail) { int before = live.count(a); (void)before; g_fail = g_calls + std::atoi(std::strchr(s, '@') + 1); }
            void* ws = lp::allocate_wait_state(ls, (void*)a);
            g_fail = 0;
            if (!ws) {
                if (!fail) { std::printf("no record at %d\n", i); return 1; }
                lp::free_wait_state(ls, ws);
            } else if (live.count(a)) {
                if (live[a].ws != ws) { std::printf("second record at %d\n", i); return 1; }
                ++live[a].n;
            } else {
                for (auto& l : live) if (l.second.ws == ws) { std::printf("shared record at %d\n", i); return 1; }
                live[a] = rec{ws, 1};
            }
        } else if (*s == 'F') {
            rec r = live[a];
            lp::free_wait_state(ls, r.ws);
            if (--live[a].n == 0) live.erase(a);
        } else if (*s == 'N') {
            std::map<unsigned long, std::vector<char> > was;
            for (auto& l : live) was[l.first].assign((char*)l.second.ws, (char*)l.second.ws + 24);
            lp::notify_one(ls, (void*)a);
            lp::notify_all(ls, (void*)a);
            for (auto& l : live)
                if ((std::memcmp(&was[l.first][0], l.second.ws, 24) != 0) != (l.first == a)) { std::printf("notification at %d\n", i); return 1; }
        } else if (*s == 'X') { if (g_exit) g_exit(); }
        if (ls) lp::unlock(ls);
    }
    std::printf("done\n");
    return 0;
}
'''


def fix_fail(script):
    """'A<addr>/f<k>': which allocation of that call fails is found by trying both"""
    import itertools
    idx = [i for i, s in enumerate(script) if '/f' in s]
    for combo in itertools.product((1, 2), repeat=len(idx)):
        s = list(script)
        for i, k in zip(idx, combo):
            s[i] = s[i].split('/')[0] + '/f@%d' % k
        yield s


def nat(cfg, hists, keep=None):
    cc, flags = native.NATIVE[cfg]
    d = build.tmpdir()
    p = os.path.join(d, 'wl%d.cpp' % os.getpid())
    open(p, 'w').write(DRIVER)
    pre = os.path.join(d, 'wlpre.hpp')
    open(pre, 'w').write('#include <stdlib.h>\n#include <cstdlib>\nextern "C" int vp_posix_memalign(void**, size_t, size_t);\nextern "C" int vp_atexit(void (*)());\n#define posix_memalign vp_posix_memalign\n'
                         'namespace std { using ::vp_atexit; }\n#define atexit vp_atexit\n')
    if keep:
        open(os.path.join(keep, 'driver.cpp'), 'w').write(DRIVER)
        open(os.path.join(keep, 'history.txt'), 'w').write('\n'.join(' '.join(h) for h in hists))
    base = [cc] + flags + ['-O1', '-g', '-w', '-pthread', '-I', build.REPO + '/include', '-I', build.REPO + '/src', '-DBOOST_ATOMIC_STATIC_LINK', '-DBOOST_ATOMIC_SOURCE',
                           '-DBOOST_ATOMIC_NO_LIB', '-fsanitize=address']
    o = p[:-4] + '.o'
    exe = p[:-4]
    for cmd in (base + ['-include', pre, '-c', build.REPO + '/src/lock_pool.cpp', '-o', o], base + [p, o, '-o', exe]):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode:
            return None, r.stdout[-2000:]
    for h in hists:
        last = None
        for s in fix_fail(h):
            r = subprocess.run([exe] + s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=60,
                               env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0'))
            if r.returncode != 0 or 'done' not in r.stdout:
                last = ' '.join(s) + ': ' + r.stdout[:800]
                if keep:
                    return False, last
        if last:
            return False, last
    return True, 'done'


def replay(v, d):
    r = v.get('replay')
    if not r or 'pthread' in v['where']:
        return 'symbolic trace only'
    ok, text = nat(v['where'].split()[0], [r['script']], keep=d)
    if ok is None:
        return 'native program: ' + text[-200:]
    return ('NOT reproduced natively' if ok else 'reproduced on the real build') + ': ' + text[:300]


def level(pid):
    return 'model_checking'


def explain(pid, tier):
    return ('The real allocate_wait_state, free_wait_state, notify_one, notify_all, lock, unlock and exit cleanup of src/lock_pool.cpp were executed symbolically over every history of '
            'registrations (new or already waited-on address), departures and exit cleanup up to the depth bound, with symbolic addresses and every allocation able to fail (bounded number '
            'of failures), plus longer guided histories through the growth steps of the table; after each step a notification of every address was probed; every memory access was checked '
            'against the life time and size of its object.')


def assumptions(pid):
    return ['calls are serialised by the pool lock (C08), here taken and released through the real code, uncontended',
            'histories longer than the bound, other than the guided ones, are not explored; at most one (quick) or two (thorough) allocation failures per history',
            'addresses are non-null', 'the search runs as the generic implementation or the one the processor-dispatch picks (C11 proves them equal)']
