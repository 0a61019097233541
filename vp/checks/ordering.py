"""C12, C13: memory ordering of the operations and fences (see vp/litmus.py)."""
import os
import re
import time
import z3
from .. import api, build, lin, waits, pool, native
from ..litmus import It, Sig, Locks, signatures, Decider, Litmus, fence_item, access_item, mp, lb, chain, wrc, mpf, lbf, allof, rf, init, before
from ..runner import Result
from ..core import Exec, State, Ptr, Unsupported, SolverTimeout, fresh, isint

RLX, ACQ, REL, AR, SC = 0, 2, 4, 6, 14
ONAME = {0: 'relaxed', 1: 'consume', 2: 'acquire', 4: 'release', 6: 'acq_rel', 14: 'seq_cst'}
T12 = ['u8', 'u16', 'u32', 'u64', 'u128', 'bool', 'en16', 'flt', 'dbl', 'ldb', 'pi', 'pv', 's3b', 's16b', 's16a16', 's17b', 'p_ci', 'flag']
T13 = ['u8', 'u16', 'u32', 'u64', 'u128', 'bool', 'dbl', 'ldb', 'pi', 's3b', 's16b', 's17b', 'flag']


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def jobs(pid, tier, **kw):
    J = []
    q = tier == 'quick'
    cfgs = (('gcc-snb', 'AR'), ('clang', 'A'), ('fallback', 'A'), ('asm', 'AR'), ('asm-old', 'A'), ('gcc-cx16', 'A')) if q else \
        tuple((c, 'ARIJ') for c in ('gcc', 'gcc-snb', 'gcc-snb20', 'clang', 'clang-snb', 'gcc-cx16', 'clang-cx16', 'fallback', 'asm', 'asm-old', 'gcc-noflags'))
    for cfg, oks in cfgs:
        for ok in oks:
            ty = (T12 if pid == 'C12' else T13) if q else [t.name for t in api.ALL] + ['flag']
            if pid == 'C12':
                for ch in chunks(ty, 2 if q else 3):
                    J.append(dict(pid=pid, kind='ops', cfg=cfg, ok=ok, types=ch, w=3))
                for ch in ([['u8', 'u32'], ['u64', 'u128'], ['pi', 'dbl'], ['flag']] if q else chunks([t for t in ty if t in T12], 2)):
                    if cfg in ('gcc-snb', 'clang', 'fallback', 'asm') or not q:
                        J.append(dict(pid=pid, kind='waits', cfg=cfg, ok=ok, types=ch, w=2))
            else:
                J.append(dict(pid=pid, kind='sc', cfg=cfg, ok=ok, types=ty if q else [t for t in ty if t in T13 + T12], w=10))
    if pid == 'C12' and q:
        J.append(dict(pid=pid, kind='ops', cfg='gcc-snb', ok='I', types=['u32', 'u64'], w=3))
        J.append(dict(pid=pid, kind='ops', cfg='asm', ok='J', types=['u32', 'flag'], w=3))
    J.sort(key=lambda j: -j['w'])
    return J


# ---------------------------------------------------------------- the real pool
_pool = {}


def real_pool(R):
    """orders of the accesses which acquire and release a lock of the real pool, and its fences"""
    if 'p' in _pool:
        return _pool['p']
    mods = pool.compile_pool('gcc', 'futex')
    acqs, rels, fences = {}, {}, {}

    def mk():
        ex = Exec(mods, timeout_ms=60000)
        ex.asm_marks = True
        ex.loop_bound = 14
        ex.cas_fail_bound = 1
        ex.spurious_weak = False
        pool.install_heap(ex, may_fail=0)

        def sysc(ex_, st, fr, ins, a, n):
            if st.x.get('nsys'):
                st.status, st.cuts = 'cut', 'second futex call'
                return 0
            st.x['nsys'] = 1
            return 0
        ex.ext['syscall'] = sysc
        return ex

    def glob(ex, st):
        for m in mods:
            for g, gv in m.globals.items():
                t = m.resolve(gv.type) if gv.init is not None else None
                if t and t[0] == 'arr' and m.resolve(t[2])[0] == 'st' and t[1] >= 1:
                    p = ex.glob(st, st.frames[-1], g)
                    st.obj_w(p.obj).shared = 'havoc'
                    yield p.obj

    def item(e, k):
        i = access_item(e, {})
        i.k = k
        i.unit = False
        i.r = i.w = True
        return i
    for fn, k in (('short_lock', 'L'), ('long_lock', 'L'), ('unlock', 'U')):
        ex = mk()
        st = State()
        out = {}
        arg = 0
        if k == 'U':
            ex.start(pool.entry(mods, 'short_lock'), [0], st)
            objs = list(glob(ex, st))
            pre = [s for s in ex.run(st) if s.status == 'ret']
            st = pre[0]
            arg = st.ret
            st.status = 'run'
            st.events = []
        ex.start(pool.entry(mods, fn), [arg], st)
        objs = list(glob(ex, st))
        for s in ex.run(st):
            if s.status == 'cut':
                continue
            if s.status != 'ret' or s.viol:
                raise Unsupported('%s ended as %s %s' % (fn, s.status, s.viol[:1]))
            ws = [e for e in s.events if e.obj in objs and e.kind in ('W', 'RMW', 'CAS') and (e.kind != 'CAS' or e.ok)]
            if not ws:
                raise Unsupported('%s returns without writing to the lock' % fn)
            i = item(ws[-1] if k == 'L' else ws[0], k)
            out.setdefault(i.key(), i)
        if not out:
            raise Unsupported('%s does not return' % fn)
        if k == 'L':
            acqs[fn] = list(out.values())
        else:
            rels = list(out.values())
        if R is not None:
            R.stats(ex.stats)
    for fn in ('thread_fence', 'signal_fence'):
        ex = mk()
        st = State()
        ex.start(pool.entry(mods, fn), [], st)
        f = []
        for s in ex.run(st):
            if s.status != 'ret' or s.viol:
                raise Unsupported('%s ended as %s %s' % (fn, s.status, s.viol[:1]))
            f.append([fence_item(e) for e in s.events if e.kind == 'FENCE'])
        fences[fn] = f
        if R is not None:
            R.stats(ex.stats)
    _pool['p'] = (Locks(acqs, rels), fences)
    return _pool['p']


# ---------------------------------------------------------------- signatures of operations
def orders_of(op, pid):
    if op.orders is None:
        return [(SC, SC)]
    if op.orders == 'load':
        r = [RLX, ACQ, SC]
    elif op.orders == 'store':
        r = [RLX, REL, SC]
    elif op.orders == 'cas':
        r = [(RLX, RLX), (ACQ, ACQ), (ACQ, RLX), (REL, RLX), (AR, ACQ), (AR, RLX), (SC, SC), (SC, ACQ), (SC, RLX)]
        return r if pid == 'C12' else [(RLX, RLX), (SC, SC)]
    else:
        r = [RLX, ACQ, REL, AR, SC]
    if pid == 'C13':
        r = [x for x in r if x in (RLX, SC)]
    return [(x, x) for x in r]


class Book:
    """distinct signatures by role"""

    def __init__(self):
        self.d = {}

    def put(self, role, sig, name):
        k = sig.key()
        b = self.d.setdefault(role, {})
        if k not in b:
            b[k] = sig
            sig.names = []
        b[k].names.append(name)

    def get(self, role):
        return list(self.d.get(role, {}).values())


def select(cfg, ok, names):
    tb = dict(api.BYNAME)
    tb['flag'] = api.FLAG
    out, infos = [], {}
    for k, t, i in lin.selectable(cfg, [(ok, tb[n]) for n in names if n != 'flag' or ok in 'AI']):
        if k in 'IJ' and not i[3]:
            continue
        infos[t.name] = i
        out.append((k, t))
    return out, infos


def classify(book, sig, op, m1, m2, failed, name):
    """failed: the path of a compare-exchange which did not store"""
    wr, rdr = sig.ew is not None, sig.er is not None
    if op.kind == 'store':
        rdr = False
    eff = m2 if failed else m1
    if failed:
        wr = False
    if wr and eff in (REL, AR, SC):
        book.put('rel', sig, name)
    if rdr and eff in (ACQ, AR, SC):
        book.put('acq', sig, name)
    if wr and rdr:
        book.put('rmw', sig, name)
    if eff == SC:
        if wr:
            book.put('scw', sig, name)
        if rdr:
            book.put('scr', sig, name)
    if eff == RLX:
        if wr:
            book.put('rlxw', sig, name)
        if rdr:
            book.put('rlxr', sig, name)


def extract(R, job, book):
    cfg, ok, pid = job['cfg'], job['ok'], job['pid']
    use, infos = select(cfg, ok, job['types'])
    if not use:
        return {}
    locks, fences = real_pool(R)
    src, cases = api.harness(use, build.CONFIGS[cfg][1].get('gcc'))
    run = lin.Runner(cfg, build.compile_ir(src, cfg), 'havoc', cas_fail_bound=1)
    run.ex.asm_marks = True
    perty = {}
    for fn, k, ty, op in cases:
        R.cases += 1
        b = perty.setdefault(ty.name, Book())
        for m1, m2 in orders_of(op, pid):
            run.fixorder = (m1, m2)
            name = '%s %s(%s)' % (cfg, fn[2:], ONAME[m1] if m1 == m2 else ONAME[m1] + ',' + ONAME[m2])
            try:
                fin, c = run.run(fn, k, ty, op, infos[ty.name])
            except (Unsupported, SolverTimeout, RecursionError) as e:
                R.undecided.append('%s: %s' % (name, str(e)[:200]))
                break
            n = 0
            for s in fin:
                if s.status != 'ret' or s.viol:
                    continue
                n += 1
                failed = False
                if op.kind in ('cas', 'casw'):
                    r = run.rd(s, c.rp, 1)
                    if isint(r):
                        failed = r == 0
                    else:
                        failed = run.ex.check(s, z3.simplify(r) != 0) is None
                for g in signatures(s.events, c.oid, locks, fences, c.lockfree):
                    classify(b, g, op, m1, m2, failed, name + (' failing' if failed else ''))
                    R.events += len(g.items)
            if not n:
                R.undecided.append('%s: no complete path' % name)
    R.stats(run.ex.stats)
    for b in perty.values():
        for role, dd in b.d.items():
            for k, s in dd.items():
                for nm in s.names:
                    book.put(role, s if k not in book.d.get(role, {}) else book.d[role][k], nm) if False else None
                book.d.setdefault(role, {}).setdefault(k, s)
    return perty


def verdict(R, D, pid, what, lit, names, hw='tso'):
    v = D.ask(what, lit, hw)
    if v is None:
        return True
    if v[0] == 'unknown':
        R.undecided.append('%s %s: solver gave up' % (what, names))
        return False
    where = '%s: %s' % (what, ' / '.join(names))
    R.viol(where, 'ordering', TXT[what.split()[0]], dict(execution=v[1]), dict(what=what, names=names, threads=[[(p if isinstance(p, str) else p.show(), l) for p, l in t] for t in lit[0]]))
    return False


TXT = {
    'mp': 'the reader sees the released value but not the data written before it',
    'lb': 'the write after the acquire is seen by the read before the release',
    'chain': 'through a chain of read-modify-writes the reader does not see the data',
    'wrc': 'through a third thread the reader does not see the data',
    'sb': 'each thread misses the write of the other',
    'iriw': 'two readers disagree on the order of two writes',
    'r': 'a write is ordered before another, and the later read misses the older write',
    '2+2w': 'writes to two objects are ordered in a cycle',
    'mp-fence': 'with fences the reader sees the flag but not the data written before it',
    'lb-fence': 'with fences the later write is seen by the earlier read',
    'sb-fence': 'with fences each thread misses the write of the other',
    'sb-mixed': 'a thread with a fence and a thread with sequentially consistent operations miss the write of each other',
    'iriw-fence': 'with fences two readers disagree on the order of two writes',
    'r-fence': 'with fences a write is ordered before another, and the later read misses the older write',
    'signal-mp': 'the signal handler sees the flag but not the data written before it',
    'signal-lb': 'the signal handler and the interrupted code see each other in the wrong order',
    'none': 'nothing orders',
}


def n1(s):
    return s.names[0] if s.names else '?'


def run_job(job):
    R = Result()
    D = Decider()
    try:
        (c12 if job['pid'] == 'C12' and job['kind'] == 'ops' else c12w if job['kind'] == 'waits' else c13)(R, D, job)
    except (Unsupported, SolverTimeout) as e:
        R.undecided.append('%s %s: %s' % (job['cfg'], job['ok'], str(e)[:300]))
    R.queries += D.n
    R.solver_s += D.time
    return R


def pairs12(R, D, tn, rels, acqs, rmws):
    bad = 0
    for r in rels:
        for a in acqs:
            if bad > 6:
                return
            nm = [n1(r), n1(a)]
            bad += not verdict(R, D, 'C12', 'mp', mp(r, a), nm)
            bad += not verdict(R, D, 'C12', 'lb', lb(r, a), nm)
            bad += not verdict(R, D, 'C12', 'wrc', wrc(r, a), nm)
    for m in rmws:
        for r in rels[:3]:
            for a in acqs[:3]:
                if bad > 6:
                    return
                bad += not verdict(R, D, 'C12', 'chain', chain(r, m, a), [n1(r), n1(m), n1(a)])


def c12(R, D, job):
    book = Book()
    per = extract(R, job, book)
    for tn, b in per.items():
        rels, acqs, rmws = b.get('rel'), b.get('acq'), b.get('rmw')
        if not rels or not acqs:
            R.undecided.append('%s %s: no releasing or acquiring operation found' % (job['cfg'], tn))
            continue
        pairs12(R, D, tn, rels, acqs, rmws)
        # the programs are not vacuous: without the requirement on the data the execution exists
        t, o = mp(rels[0], acqs[0])
        L = Litmus(t)
        if L.solve(rf(0, 1, 1, 0)) == 'sat':
            R.witness += 1
        else:
            R.undecided.append('%s %s: vacuous program' % (job['cfg'], tn))
        if len(R.samples) < 1:
            R.samples.append(dict(type=tn, release=['%s: %s' % (n1(s), s.show()) for s in rels[:4]], acquire=['%s: %s' % (n1(s), s.show()) for s in acqs[:4]]))


def c12w(R, D, job):
    """the last read of a waiting operation acquires"""
    cfg, ok = job['cfg'], job['ok']
    use, infos = select(cfg, ok, job['types'])
    if not use:
        return
    locks, fences = real_pool(R)
    gcc = build.CONFIGS[cfg][1].get('gcc')
    src, cases = waits.source(use, gcc, [n for n in ('wait', 'until_sys', 'until_std', 'until_ms', 'for_ms') if 'flag' not in job['types'] or not waits.WBY[n].clock])
    run = waits.WaitRunner(cfg, build.compile_ir(src, cfg), blocks=1)
    run.ex.asm_marks = True
    run.timed = False
    run.mech = None
    asrc, acases = api.harness(use, gcc, lambda o, k, t: o.name in ('store', 'exchange', 'fl_clear', 'fl_tas'))
    arun = lin.Runner(cfg, build.compile_ir(asrc, cfg), 'havoc', cas_fail_bound=1)
    arun.ex.asm_marks = True
    rel = {}
    for fn, k, ty, op in acases:
        for m in (REL, SC):
            arun.fixorder = (m, m)
            fin, c = arun.run(fn, k, ty, op, infos[ty.name])
            for s in fin:
                if s.status == 'ret' and not s.viol:
                    for g in signatures(s.events, c.oid, locks, fences, c.lockfree):
                        classify(rel.setdefault(ty.name, Book()), g, op, m, m, False, '%s %s(%s)' % (cfg, fn[2:], ONAME[m]))
    for fn, k, ty, op in cases:
        R.cases += 1
        b = Book()
        for m in (ACQ, SC):
            run.fixorder = (m, m)
            name = '%s %s(%s)' % (cfg, fn[2:], ONAME[m])
            try:
                fin, c = run.run_w(fn, k, ty, op, infos[ty.name])
            except (Unsupported, SolverTimeout, RecursionError) as e:
                R.undecided.append('%s: %s' % (name, str(e)[:200]))
                continue
            for s in fin:
                if s.status != 'ret' or s.viol:
                    continue
                for g in signatures(cut(s.events, c.oid), c.oid, locks, fences, c.lockfree):
                    if g.er is not None:
                        b.put('acq', g, name)
        acqs = b.get('acq')
        if not acqs:
            R.undecided.append('%s %s: no read found' % (cfg, fn[2:]))
            continue
        for r in rel[ty.name].get('rel')[:4]:
            for a in acqs:
                if not verdict(R, D, 'C12', 'mp', mp(r, a), [n1(r), n1(a)]):
                    break
                verdict(R, D, 'C12', 'lb', lb(r, a), [n1(r), n1(a)])
        R.witness += 1


def cut(events, oid):
    """from the last critical section or the last two reads on (earlier ones only repeat)"""
    L = [n for n, e in enumerate(events) if e.kind == 'LOCK']
    if L:
        return events[L[-1]:]
    rd = [n for n, e in enumerate(events) if e.obj == oid and e.kind in ('R', 'CAS', 'RMW')]
    return events[rd[-2]:] if len(rd) > 2 else events


FENCES = '''#include <boost/atomic.hpp>
extern "C" void f_thread(boost::memory_order m) { boost::atomic_thread_fence(m); }
extern "C" void f_signal(boost::memory_order m) { boost::atomic_signal_fence(m); }
'''


def fence_sigs(R, cfg):
    locks, pf = real_pool(R)
    mod = build.compile_ir(FENCES, cfg, name='fence')
    out = {}
    for fn in ('f_thread', 'f_signal'):
        for m in (ACQ, REL, AR, SC):
            ex = Exec([mod], timeout_ms=60000)
            ex.asm_marks = True
            lin.pool_ext(ex, [mod])
            st = State()
            ex.start(fn, [m], st)
            R.cases += 1
            for s in ex.run(st):
                if s.status != 'ret' or s.viol:
                    raise Unsupported('%s(%s) ended as %s %s' % (fn, ONAME[m], s.status, s.viol[:1]))
                for g in signatures([e for e in s.events if e.kind == 'FENCE'], 'none', locks, pf):
                    g.names = ['%s %s(%s)' % (cfg, fn, ONAME[m])]
                    out.setdefault((fn, m), []).append(g)
            R.stats(ex.stats)
    return out


def c13(R, D, job):
    cfg = job['cfg']
    book = Book()
    extract(R, job, book)
    if not book.d:
        return

    def kinds(role):
        d = {}
        for g in book.get(role):
            d.setdefault(any(i.k == 'L' for i in g.items), []).append(g)
        return d
    W, Rd, RW, RR = kinds('scw'), kinds('scr'), kinds('rlxw'), kinds('rlxr')
    KS = sorted(W)
    if sorted(Rd) != KS or sorted(RW) != KS or sorted(RR) != KS or not KS:
        R.undecided.append('%s %s: operations missing' % (cfg, job['ok']))
        return
    bad = 0

    def v(what, threads, out, hw='tso'):
        nonlocal bad
        if bad > 8:
            return
        sigs = []
        for t in threads:
            for p, _ in t:
                if not isinstance(p, str) and not any(p is x for x in sigs):
                    sigs.append(p)
        bad += not verdict(R, D, 'C13', what, (threads, out), [n1(x) for x in sigs], hw)

    def two(what, t0, t1, kind):
        """kind: sb (both last reads miss), r, 2+2w"""
        e0, e1 = len(t0) - 1, len(t1) - 1
        if kind == 'sb':
            v(what, [t0, t1], allof(init(0, e0), init(1, e1)))
        elif kind == 'r':
            v(what, [t0, t1], allof(before(0, e0, 1, 0), init(1, e1)))
        else:
            v(what, [t0, t1], allof(before(0, e0, 1, 0), before(1, e1, 0, 0)))

    def iriw(what, wa, wb, ra, rb, ra2, rb2, f=()):
        f = list(f)
        k = 1 + len(f)
        v(what, [[(wa, 'a')], [(wb, 'b')], [(ra, 'a')] + f + [(rb, 'b')], [(rb2, 'b')] + f + [(ra2, 'a')]],
          allof(rf(0, 0, 2, 0), init(2, k), rf(1, 0, 3, 0), init(3, k)))
    F = fence_sigs(R, cfg)
    for ka in KS:
        for kb in KS:
            WA, WB, RA, RB = W[ka], W[kb], Rd[ka], Rd[kb]
            w0a, w0b, r0a, r0b = WA[0], WB[0], RA[0], RB[0]
            for w in WA:
                for r in RB:
                    two('sb', [(w, 'a'), (r, 'b')], [(w0b, 'b'), (r0a, 'a')], 'sb')
                    two('r', [(w0b, 'b'), (w0a, 'a')], [(w, 'a'), (r, 'b')], 'r')
                    if ka == kb:
                        two('sb', [(w, 'a'), (r, 'b')], [(w, 'b'), (r, 'a')], 'sb')
                for w2 in WB:
                    two('2+2w', [(w, 'a'), (w2, 'b')], [(w0b, 'b'), (w0a, 'a')], '2+2w')
                    two('r', [(w, 'a'), (w2, 'b')], [(w0b, 'b'), (r0a, 'a')], 'r')
                iriw('iriw', w, w0b, r0a, r0b, r0a, r0b)
            for ra in RA:
                for rb in RB:
                    iriw('iriw', w0a, w0b, ra, rb, r0a, r0b)
            XA, XB, YA, YB = RW[ka], RW[kb], RR[ka], RR[kb]
            x0a, x0b, y0a, y0b = XA[0], XB[0], YA[0], YB[0]
            for f in F['f_thread', SC]:
                fl = [(f, 'f')]
                for w in XA:
                    for r in YB:
                        two('sb-fence', [(w, 'a')] + fl + [(r, 'b')], [(x0b, 'b')] + fl + [(y0a, 'a')], 'sb')
                        two('r-fence', [(x0b, 'b')] + fl + [(x0a, 'a')], [(w, 'a')] + fl + [(r, 'b')], 'r')
                        two('sb-mixed', [(w, 'a')] + fl + [(r, 'b')], [(w0b, 'b'), (r0a, 'a')], 'sb')
                for ra in YA:
                    for rb in YB:
                        iriw('iriw-fence', x0a, x0b, ra, rb, y0a, y0b, fl)
                for w in WB:
                    two('sb-mixed', [(x0a, 'a')] + fl + [(y0b, 'b')], [(w, 'b'), (r0a, 'a')], 'sb')
                for r in RA:
                    two('sb-mixed', [(x0a, 'a')] + fl + [(y0b, 'b')], [(w0b, 'b'), (r, 'a')], 'sb')
    for m1 in (REL, AR, SC):
        for m2 in (ACQ, AR, SC):
            full = m1 == REL and m2 == ACQ
            for kind, hw in (('f_thread', 'tso'), ('f_signal', 'sc')):
                pre = '%s-fence' if kind == 'f_thread' else 'signal-%s'
                for f1 in F[kind, m1]:
                    for f2 in F[kind, m2]:
                        for k in KS:
                            if k and kind == 'f_signal':
                                continue      # lock-based operations may not be used in a handler
                            for w in RW[k]:
                                for r in RR[k] if full else RR[k][:1]:
                                    th, out = mpf(f1, w, r, f2)
                                    v(pre % 'mp', th, out, hw)
                                    th, out = lbf(f1, w, r, f2)
                                    v(pre % 'lb', th, out, hw)
                            for r in RR[k]:
                                th, out = mpf(f1, RW[k][0], r, f2)
                                v(pre % 'mp', th, out, hw)
    k = KS[0]
    L = Litmus([[(RW[k][0], 'a'), (RR[k][0], 'b')], [(RW[k][0], 'b'), (RR[k][0], 'a')]])
    if L.solve(init(0, 1)) == 'sat':
        R.witness += 1
    R.samples.append(dict(config=cfg, seq_cst_writes=['%s: %s' % (n1(s), s.show()) for s in W[k][:5]], seq_cst_reads=['%s: %s' % (n1(s), s.show()) for s in Rd[k][:5]],
                          fences=['%s: %s' % (n1(s), s.show()) for q in F for s in F[q]]))


def replay(v, d):
    return 'execution recorded in violation.json'


def level(pid):
    return 'model_checking'


def explain(pid, tier):
    if pid == 'C12':
        return ('The accesses, orders, clobbers and barriers of every path of every operation (all orders) were taken from symbolic execution of the real code; for every pair of distinct '
                'releasing and acquiring signatures of a type the solver decided that no compiler reordering followed by an x86-TSO execution gives the forbidden outcome of message passing, '
                'load buffering, release sequences and causality through a third thread. Lock-based operations use the accesses of the real lock pool.')
    return ('As C12, for store buffering, IRIW, R and 2+2W with sequentially consistent operations of all types of a configuration, the same with sequentially consistent fences between relaxed '
            'operations, message passing and load buffering with acquire/release fences, and signal fences against a handler on the same processor.')


def assumptions(pid):
    return ['x86-64: total store order; locked instructions and mfence drain the store buffer',
            'compilers respect acquire/release/seq_cst orders of built-in atomics, volatile-to-volatile order and the memory clobber of asm statements, keep accesses to one location in order, and may reorder everything else',
            'built-in atomics are translated as both compilers do (seq_cst store as xchg, read-modify-writes locked, seq_cst fence as a full barrier)',
            'one failed compare-and-swap attempt before the last one; litmus programs of 2-4 threads with 1-3 parts each',
            'the effective access of a path is its modifying access, else its last read (C02 decides that this access carries result and effect)']
