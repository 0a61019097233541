"""C08, C09: the lock pool under every interleaving of two or three threads.

Each thread runs a real operation (harness + the real src/lock_pool.cpp, compiled to IR) that vp/ts.py turns into a
symbolic transition system; vp/bmc.py composes them with a model of the futex system call and asks the solver for a
schedule that violates the property within the step bound.
"""
import os
import time
import z3
from .. import build, ts, bmc, pool
from ..runner import Result
from ..core import Unsupported, SolverTimeout, isint

HOLD = 24

HARNESS = r'''
#include <boost/atomic.hpp>
#include <chrono>
typedef boost::atomic<VT> AT;
namespace lp = boost::atomics::detail::lock_pool;
extern "C" {
unsigned long t_add(AT* a) { return (unsigned long)a->fetch_add(1); }
unsigned long t_add2(AT* a) { a->fetch_add(1); return (unsigned long)a->fetch_add(1); }
unsigned long t_cas(AT* a) { VT e = 0; return a->compare_exchange_strong(e, (VT)1) ? 1 : 0; }
unsigned long t_load(AT* a) { return (unsigned long)a->load(); }
unsigned long t_wait(AT* a) { return (unsigned long)a->wait((VT)0); }
unsigned long t_twait(AT* a, const std::chrono::steady_clock::time_point* tp) { auto r = a->wait_until((VT)0, *tp); return (unsigned long)r.value | ((unsigned long)r.timeout << 32); }
unsigned long t_one(AT* a) { a->store((VT)1); a->notify_one(); return 0; }
unsigned long t_two(AT* a) { a->store((VT)1); a->notify_one(); a->notify_one(); return 0; }
unsigned long t_all(AT* a) { a->store((VT)1); a->notify_all(); return 0; }
unsigned long t_addall(AT* a) { a->fetch_add(1); a->notify_all(); return 0; }
unsigned long t_addone(AT* a) { a->fetch_add(1); a->notify_one(); return 0; }
void* warm(AT* a)
{
    auto h = lp::hash_ptr< AT::is_always_lock_free ? alignof(AT) : alignof(AT) >(a);
    void* l = lp::long_lock(h);
    for (int i = 0; i < %d; ++i) lp::allocate_wait_state(l, a);
    lp::unlock(l);
    return l;
}
}
''' % HOLD

# name -> (kind of object, threads)
SC = {
    'add3': ('lock', ['t_add', 't_add', 't_add']),
    'add2': ('lock', ['t_add', 't_add']),
    'twice': ('lock', ['t_add2', 't_add2']),
    'cas': ('lock', ['t_cas', 't_cas']),
    'casload': ('lock', ['t_cas', 't_load', 't_add']),
    'wait-all': ('lock', ['t_wait', 't_all']),
    'wait-one': ('lock', ['t_wait', 't_one']),
    'wait-add': ('lock', ['t_wait', 't_all', 't_add']),
    'wait2-all': ('lock', ['t_wait', 't_wait', 't_all']),
    'wait2-one': ('lock', ['t_wait', 't_wait', 't_one']),
    'wait2-two': ('lock', ['t_wait', 't_wait', 't_two']),
    'addall2': ('lock', ['t_wait', 't_addall', 't_addall']),
    'addone2': ('lock', ['t_wait', 't_addone', 't_addone']),
    'timed': ('lock', ['t_twait', 't_all']),
    'timed-add': ('lock', ['t_twait', 't_all', 't_add']),
    'timed-wait': ('lock', ['t_twait', 't_wait', 't_all']),
    'free-all': ('free', ['t_wait', 't_all']),
    'free-one': ('free', ['t_wait', 't_one']),
    'free2-all': ('free', ['t_wait', 't_wait', 't_all']),
    'free2-two': ('free', ['t_wait', 't_wait', 't_two']),
    'free-timed': ('free', ['t_twait', 't_all']),
}

# (scenario, bound): an int is a number of freely interleaved steps, (r, m) means r rounds of up to m steps per thread
QUICK = {
    'C08': [('add3', (4, 6)), ('add2', 26), ('cas', 24), ('wait-all', 26), ('wait-all', (4, 8)), ('wait-one', (4, 8)), ('wait2-all', (3, 8)), ('casload', (3, 6)),
            ('free-all', (4, 8)), ('timed', (4, 8)), ('twice', (4, 8))],
    'C09': [('add3', (4, 7)), ('add2', 26), ('wait-all', 24), ('wait-all', (4, 8)), ('wait-one', (4, 8)), ('wait2-all', (3, 9)), ('wait2-one', (3, 9)), ('wait-add', (3, 8)),
            ('free-all', (4, 8)), ('free-one', (4, 8)), ('timed', (3, 8))],
}
THOROUGH = {
    'C08': [('add3', (6, 6)), ('add3', 30), ('add2', 36), ('cas', 36), ('wait-all', 36), ('wait-one', 36), ('wait-all', (7, 8)), ('wait-one', (7, 8)), ('wait2-all', (5, 9)), ('wait2-one', (5, 9)),
            ('wait2-two', (4, 10)), ('casload', (5, 6)), ('wait-add', (5, 8)), ('free-all', (6, 8)), ('free2-all', (4, 9)), ('timed', (6, 9)), ('timed-add', (4, 8)), ('twice', (6, 9)), ('addall2', (4, 9))],
    'C09': [('add3', (6, 7)), ('add2', 34), ('wait-all', 34), ('wait-one', 34), ('wait-all', (6, 10)), ('wait-one', (6, 10)), ('wait2-all', (4, 10)), ('wait2-one', (4, 10)), ('wait2-two', (4, 10)),
            ('wait-add', (4, 9)), ('addall2', (4, 9)), ('addone2', (4, 9)), ('free-all', (6, 10)), ('free-one', (6, 10)), ('free2-all', (4, 10)), ('free2-two', (4, 10)),
            ('timed', (6, 10)), ('timed-add', (4, 9)), ('timed-wait', (4, 10)), ('free-timed', (5, 10))],
}


def jobs(pid, tier, **kw):
    L = QUICK[pid] if tier == 'quick' else THOROUGH[pid]
    J = []
    for sc, b in L:
        three = len(SC[sc][1]) == 3
        J.append(dict(pid=pid, sc=sc, bound=b, tier=tier, w=(100 if three else 50) + (b if isint(b) else b[0] * b[1])))
    J.sort(key=lambda j: -j['w'])
    return J


def prepare(kind, nthreads):
    cfg = 'fallback' if kind == 'lock' else 'gcc'
    vt = 'int' if kind == 'lock' else 'long long'
    hm = ts.compile_opt(HARNESS.replace('VT', vt), cfg, name='conc')
    lp = ts.compile_opt(build.REPO + '/src/lock_pool.cpp', 'gcc', ['-DBOOST_ATOMIC_SOURCE'])
    M = ts.Model([hm, lp])
    size = 4 if kind == 'lock' else 8
    ex, st = M.ex, M.st0
    p = ex.new_obj(st, 'obj', size, 'ext', 16)
    ex.raw_write(st, 'obj', 0, size, 0)
    tp = ex.new_obj(st, 'deadline', 8, 'ext', 16)
    ex.raw_write(st, 'deadline', 0, 8, 5000000000)
    ex.start('warm', [p], st)
    fin = ex.run(st)
    if len(fin) != 1 or fin[0].status != 'ret' or fin[0].viol:
        raise Unsupported('warm-up: %s' % [(f.status, f.viol[:1]) for f in fin])
    M.st0 = fin[0]
    M.lock = M.st0.ret
    M.st0.frames, M.st0.x, M.st0.pc, M.st0.events = [], {}, [], []
    M.hold = HOLD
    for o, ob in M.st0.objs.items():
        if o not in ('errno', 'deadline') and not ob.ro:
            M.shared.add(o)
    M.size = size
    return M, p, tp


def model(kind, names):
    box = {}

    def prep(M):
        return [[box['p'], box['tp']] if n == 't_twait' else [box['p']] for n in names]
    M, box['p'], box['tp'] = prepare(kind, len(names))
    r = ts.extract_all(M, prep, names)
    return M, r


def run_job(job):
    res = Result()
    t0 = time.time()
    kind, names = SC[job['sc']]
    where = '%s %s %s' % (job['sc'], '+'.join(n[2:] for n in names), job['bound'])
    M, r = model(kind, names)
    n = len(names)
    b = job['bound']
    sched = None
    if not isint(b):
        sched = [i for _ in range(b[0]) for i in range(n) for _ in range(b[1])]
    B = bmc.BMC(M, [(nm,) + x for nm, x in zip(names, r)], b if isint(b) else 0, hb=job['pid'] == 'C08', sched=sched)
    st = M.ex.stats
    res.fns |= set(st.fns)
    res.insts += st.insts
    res.extra['control_states'] = sum(len(x[0]) for x in r)
    res.extra['states'] = sum(len(x[0]) for x in r) * len(B.tr)
    res.extra['transitions'] = sum(len(T) for Ts, s in B.tr for T in Ts)
    res.extra['edges'] = sum(len(nd.edges) for x in r for nd in x[0])
    E = B.end
    objc = [c for c in M.cells if c[0] == 'obj']
    obj = E['C', objc[0]] if objc else z3.BitVecVal(0, 8 * M.size)
    done = B.done
    ret = {i: E['ret', i] for i in range(n)}
    adds = [i for i, x in enumerate(names) if x == 't_add']
    waits = [i for i, x in enumerate(names) if x in ('t_wait', 't_twait')]
    setters = [i for i, x in enumerate(names) if i not in waits]
    tmo = 560 if job['tier'] == 'quick' else 3 * 3600
    props = []
    if job['pid'] == 'C08':
        v = [c for k in B.viol for c, _ in B.viol[k]]
        alldone = z3.And([done[i] for i in range(n)])
        fin = []
        total = {'t_add': 1, 't_add2': 2}
        if all(x in total for x in names):
            fin.append(('lost-update', z3.And(alldone, obj != sum(total[x] for x in names))))
            for i in range(n):
                for j in range(i):
                    if names[i] == names[j] == 't_add':
                        fin.append(('same-old-value', z3.And(done[i], done[j], ret[i] == ret[j])))
        if names == ['t_cas', 't_cas']:
            fin.append(('two-winners', z3.And(alldone, ret[0] + ret[1] != 1)))
        if names == ['t_cas', 't_load', 't_add']:
            fin.append(('lost-update', z3.And(alldone, z3.UGT(ret[1], 2))))
            fin.append(('lost-update', z3.And(alldone, obj != 1 + z3.Extract(obj.size() - 1, 0, ret[0]))))
        if names == ['t_wait', 't_all', 't_add']:
            fin.append(('lost-update', z3.And(alldone, obj != 1, obj != 2)))
        for i in waits:
            if names[i] in ('t_wait', 't_twait'):
                fin.append(('early-return', z3.And(done[i], ret[i] == 0)))
        props.append(('exclusion', z3.Or(v + [x for _, x in fin]), fin))
    else:
        bad = []
        if job['sc'] == 'wait2-one':
            bad.append(z3.Or([B.stuck[i] for i in setters] + [z3.And([B.stuck[i] for i in waits])]))
        else:
            bad.append(z3.Or([B.stuck[i] for i in range(n)]))
        idle = z3.And([z3.Or(done[i], B.stuck[i]) for i in range(n)])
        props.append(('stranded', z3.And([idle] + bad), []))
        # the same schedules do contain complete runs (the bound is not vacuous)
        props.append(('reach', z3.And([done[i] for i in range(n)]), []))
    if job['pid'] == 'C08':
        props.append(('reach', z3.And([done[i] for i in range(n)]), []))
    for nm, p, fin in props:
        r_, m = B.solve(p, tmo)
        res.queries += 1
        if nm == 'reach':
            if r_ == 'sat':
                res.witness += 1
            else:
                res.undecided.append('%s: no complete run within the bound (%s)' % (where, r_))
            continue
        res.cases += 1
        if r_ == 'unknown':
            res.undecided.append('%s %s: solver gave up' % (where, nm))
        elif r_ == 'sat':
            kindv = nm
            text = ''
            if nm == 'exclusion':
                for k in B.viol:
                    for c, info in B.viol[k]:
                        if z3.is_true(m.eval(c, model_completion=True)):
                            kindv = k
                            text = 'step %d, thread %d: %s' % (info[0], info[1], info[2])
                            break
                    if text:
                        break
                for k, x in fin:
                    if not text and z3.is_true(m.eval(x, model_completion=True)):
                        kindv, text = k, 'final value %s, results %s' % (m.eval(obj), [str(m.eval(ret[i])) for i in range(n)])
                if kindv == 'range':
                    res.undecided.append('%s: a reference counter left the assumed range: %s' % (where, text))
                    continue
                if kindv == 'bad' and False:
                    pass
            else:
                text = 'threads left waiting: %s' % [i for i in range(n) if z3.is_true(m.eval(B.stuck[i], model_completion=True))]
            tr = B.trace(m)
            res.viol('%s %s' % (job['sc'], '+'.join(n_[2:] for n_ in names)), kindv, text,
                     dict(schedule=['%d: thread %d %s -> %s %s %s' % (k, i, s, d, w, site) for k, i, s, d, w, site in tr]),
                     dict(sc=job['sc'], trace=[(i, str(w), site) for k, i, s, d, w, site in tr], kind=kindv))
    res.solver_s += B.time
    res.queries += B.nq if hasattr(B, 'nq') else 0
    res.samples.append('%s: %d control states, %d narrowed variables, %.0f s' % (where, res.extra['control_states'], len(B.nar), time.time() - t0))
    return res


def level(pid):
    return 'model_checking'


def explain(pid, tier):
    L = QUICK[pid] if tier == 'quick' else THOROUGH[pid]
    what = ('mutual exclusion as absence of data races (happens-before over the acquire/release orders found in the code), no lost update, no early return' if pid == 'C08'
            else 'no reachable final state in which a thread that must proceed is blocked in the operating system or cannot take any step')
    return ('The real operations (harness calls into boost::atomic, the emulated and generic wait operations and src/lock_pool.cpp) were executed symbolically into transition systems whose '
            'steps are the shared-memory synchronisation events and futex calls; a SAT solver decided, over all interleavings, wake-up choices, interrupted waits and timeouts within the bound: %s. '
            'Scenarios and bounds (steps, or rounds x steps per thread and round): %s' % (what, ', '.join('%s %s' % (s, b) for s, b in L)))


def assumptions(pid):
    return ['x86-64 Linux, futex variant of the lock pool; futex wait/wake/requeue follow the kernel interface (value check and queueing atomic, any waiter may be chosen, interrupted waits possible)',
            'two or three threads, one or two operations each, schedules within the stated bounds',
            'the registration of waiters (allocation, table growth) is decided by C10; here the harness keeps the entry registered',
            'the number of spins before blocking is arbitrary (over-approximation)',
            'sequentially consistent interleaving of synchronisation events; races between data accesses are decided by happens-before, so data-race-free executions are faithful; '
            'the lock word is only modified by read-modify-writes']
