"""The waiting functions of the real lock pool (src/lock_pool.cpp) against the contract the headers rely on (see waits.World):
the lock is released while blocked and held again on return, the kernel compares against the notification counter seen before
the release, deadlines are passed on faithfully, and a time-out is reported only on evidence."""
import z3
from . import pool, build
from .core import (Exec, State, Ptr, Event, fresh, bv, isint, eqv, tobool, simp, Unsupported, SolverTimeout, binop, mask, sext, zext, extract)
from .waits import World, NS, ETIMEDOUT, RT

EINTR = 4
MAXREL = (1 << 63) - 1


class PW(World):
    def __init__(self, mods, blocks):
        self.pmods = mods
        self.px = Exec(mods, timeout_ms=60000)
        pool.install_heap(self.px, mods, may_fail=0)
        self.px.loop_bound = 64
        self.pthread = False
        self.install_mutex(self.px)

        def blocked(ex, st, fr, ins, a, n):
            st.status, st.cuts = 'cut', 'blocked'
            return 0
        self.px.ext['syscall'] = blocked
        ex = Exec(mods, timeout_ms=60000)
        pool.install_heap(ex, mods, may_fail=0, shared='seq')
        ex.loop_bound = 64
        ex.max_paths = 4000
        ex.sliced = True
        ex.spurious_weak = self.px.spurious_weak = False
        World.__init__(self, ex, mods, blocks)
        self.install_mutex(ex)
        ex.on_access = self.access
        self.lockobj = None
        self.cond = None

    # -- pthread stand-ins
    def install_mutex(self, ex):
        def trylock(ex, st, fr, ins, a, n):
            if st.x.get('mtx'):
                return 16
            st.x['mtx'] = (a[0].obj, simp(a[0].off))
            return 0

        def lock(ex, st, fr, ins, a, n):
            if st.x.get('mtx'):
                st.status, st.cuts = 'cut', 'blocked'
                return 0
            st.x['mtx'] = (a[0].obj, simp(a[0].off))
            return 0

        def unlock(ex, st, fr, ins, a, n):
            if st.x.get('mtx') != (a[0].obj, simp(a[0].off)):
                st.viol.append(('lock-release', 'unlocks a mutex which is not held'))
            st.x['mtx'] = None
            if ex is getattr(self, 'ex', None):
                self.released(st)
            return 0
        ok = lambda ex, st, fr, ins, a, n: 0

        def setclock(ex, st, fr, ins, a, n):
            st.x['attrclk'] = a[1]
            return 0

        def cinit(ex, st, fr, ins, a, n):
            nul = isint(a[1]) and a[1] == 0
            st.x['condclk'] = 0 if nul else st.x.get('attrclk', 0)
            st.x['condobj'] = (a[0].obj, simp(a[0].off))
            return 0
        ex.ext.update({'pthread_mutex_trylock': trylock, 'pthread_mutex_lock': lock, 'pthread_mutex_unlock': unlock, 'pthread_cond_init': cinit,
                       'pthread_condattr_init': ok, 'pthread_condattr_setclock': setclock, 'pthread_condattr_destroy': ok, 'pthread_cond_destroy': ok,
                       'pthread_cond_wait': self.c_wait, 'pthread_cond_timedwait': self.c_twait, 'pthread_cond_clockwait': self.c_cwait,
                       'pthread_cond_signal': self.c_wake('one'), 'pthread_cond_broadcast': self.c_wake('all')})

    def c_wake(self, what):
        def h(ex, st, fr, ins, a, n):
            ex.event(st, Event('CWAKE', data=(what, (a[0].obj, simp(a[0].off))), inst=ins))
            return 0
        return h

    def cblock(self, st, a, ins, d):
        if st.x.get('mtx') != (a[1].obj, simp(a[1].off)):
            st.viol.append(('lock-nesting', 'waits on a condition variable without holding the mutex'))
        self.ex.event(st, Event('CWAIT', data=dict(d, cond=(a[0].obj, simp(a[0].off))), inst=ins))
        if self.more(st):
            st.status, st.cuts = 'cut', 'blocking-call bound'
            return False
        return True

    def c_wait(self, ex, st, fr, ins, a, n):
        if self.cblock(st, a, ins, dict(ts=None, clk=None)):
            self.advance(st)
        return 0

    def c_twait(self, ex, st, fr, ins, a, n):
        return self.cend(ex, st, a, ins, {0: 'real', 1: 'mono'}.get(st.x.get('condclk')), self.rdts(ex, st, a[2]))

    def c_cwait(self, ex, st, fr, ins, a, n):
        if not isint(a[2]):
            raise Unsupported('symbolic clock')
        return self.cend(ex, st, a, ins, {0: 'real', 1: 'mono'}.get(a[2]), self.rdts(ex, st, a[3]))

    def cend(self, ex, st, a, ins, clk, ts):
        if clk is None:
            st.viol.append(('oversleep', 'condition variable wait on an unknown clock'))
            return 0
        if not self.cblock(st, a, ins, dict(ts=ts, clk=clk)):
            return 0
        s2, s3 = st.clone(), st.clone()
        self.advance(st)
        v = self.tick(s2, clk)
        if clk != 'mono':
            self.advance(s2)
        lim = binop('add', binop('mul', sext(ts[0], 64, 128), NS, 128), sext(ts[1], 64, 128), 128)
        s2.pc.append(z3.And(bv(sext(v, 64, 128), 128) >= bv(lim, 128), bv(ts[1], 64) >= 0, bv(ts[1], 64) < NS))
        ex.event(s2, Event('EXPIRED', data=(clk, v), inst=ins))
        s3.pc.append(z3.Or(bv(ts[1], 64) < 0, bv(ts[1], 64) >= NS))
        return ('fork', [(st, 0), (s2, ETIMEDOUT), (s3, 22)])

    # -- lock state
    def held(self, st, *a):
        if a:
            return World.held(self, st, *a)
        s = st.clone()
        s.frames, s.events, s.viol = [], [], []
        s.status = 'run'
        rs = pool.call(self.px, [s], pool.entry(self.pmods, 'long_lock'), [0])
        return not any(r.status == 'ret' for r in rs)

    def access(self, ex, st, ev):
        if self.lockobj is None or ev.obj != self.lockobj or ev.kind not in ('W', 'RMW', 'CAS') or st.x.get('busy'):
            return
        if ev.kind == 'CAS' and not ev.ok:
            return
        h = self.held(st)
        if st.x.get('locked') and not h:
            self.released(st)
        st.x['locked'] = h

    def released(self, st):
        st.x['locked'] = False
        st.events.append(Event('RELEASED'))
        self.disturb(st)

    def disturb(self, st):
        """other threads may have notified meanwhile"""
        if self.cond and st.x.get('watch'):
            o, off = self.cond
            self.ex.raw_write(st, o, off, 4, fresh('cond', 32))

    def x_syscall(self, ex, st, fr, ins, a, name):
        cmd = a[2] & 127 if isint(a[2]) else None
        if cmd in (0, 9):
            p = a[1]
            key = (p.obj, simp(p.off)) if isinstance(p, Ptr) else None
            if st.x.get('watch'):
                if self.cond is None:
                    self.cond = key
                if key == (self.lockobj, None):
                    pass
                if self.held(st):
                    st.viol.append(('lock-nesting', 'blocks in the operating system without releasing the lock'))
                if key != self.cond:
                    st.viol.append(('lost-wakeup', 'blocks on something other than the notification counter'))
                # the counter may change until the kernel compares
                self.disturb(st)
        r = World.x_syscall(self, ex, st, fr, ins, a, name)
        if cmd in (0, 9) and st.x.get('watch'):
            for s, _ in (r[1] if isinstance(r, tuple) else [(st, r)]):
                if s.status == 'run':
                    self.disturb(s)
        return r

    def x_gettime(self, ex, st, fr, ins, a, name):
        if isint(a[0]) and a[0] in (0, 1):
            st.x['gettime_may_fail'] = False
        return World.x_gettime(self, ex, st, fr, ins, a, name)


def prepare(variant, blocks=2):
    mods = pool.compile_pool('gcc', variant.split('-')[0], extra=['-DBOOST_ATOMIC_HAS_PTHREAD_COND_CLOCKWAIT'] if 'clockwait' in variant else [])
    W = PW(mods, blocks)
    ex = W.ex
    st = State()
    l = pool.lock_ptr(ex, mods, st)
    W.lockobj = l.obj
    st.obj_w(l.obj).shared = 'seq'
    if not W.held(st):
        raise Unsupported('the lock is not held after long_lock')
    st.x['locked'] = True
    p = ex.new_obj(st, 'obj', 8, 'ext', 16)
    rs = pool.call(ex, [st], pool.entry(mods, 'allocate_wait_state'), [l, p])
    rs = [r for r in rs if r.status == 'ret' and not r.viol]
    if len(rs) != 1 or not isinstance(rs[0].ret, Ptr):
        raise Unsupported('allocate_wait_state: %d results' % len(rs))
    st = rs[0]
    ws = st.ret
    # find the word waiters block on
    if variant == 'futex':
        s = ready(st.clone())
        r = pool.call(ex, [s], pool.entry(mods, 'wait'), [l, ws])
        if W.cond is None:
            raise Unsupported('wait does not block')
        W.ex.stats.paths += len(r)
    return W, st, l, ws, p


def ready(s):
    s.events, s.viol, s.cuts = [], [], None
    s.status = 'run'
    s.x['blocks'] = 0
    s.x['watch'] = True
    s.x.pop('mono', None)
    return s


def X(v):
    return sext(v, 64, 128)


def ns_of(ts):
    return binop('add', binop('mul', X(ts[0]), NS, 128), X(ts[1]), 128)


def check(variant, R, kinds, blocks=2):
    """-> None; violations are added to R as (kind, text)"""
    W, st0, l, ws, obj = prepare(variant, blocks)
    ex, mods = W.ex, W.pmods
    for fn, null in [(f, n) for f in ('wait', 'wait_until:0', 'wait_until:1', 'wait_until:7', 'wait_for') for n in (False, True)] if kinds - {'notify'} else ():
        where = 'pool %s %s%s' % (variant, fn, ' (no wait state)' if null else '')
        s = ready(st0.clone())
        name, _, cid = fn.partition(':')
        args = [l, 0 if null else ws]
        clk = {'0': 'real', '1': 'mono', '7': 'boot'}.get(cid)
        dl = rel = None
        if name == 'wait_until':
            sec, ns = fresh('dsec', 64), fresh('dnsec', 64)
            # what to_timespec makes of a representable deadline at or after the epoch
            s.pc.append(z3.And(sec >= 0, sec <= (1 << 33), ns >= 0, ns < NS))
            ts = ex.new_obj(s, 'ts', 16, 'ext', 16)
            ex.raw_write(s, ts.obj, 0, 8, sec)
            ex.raw_write(s, ts.obj, 8, 8, ns)
            args += [int(cid), ts]
            dl = ns_of((sec, ns))
        elif name == 'wait_for':
            rel = fresh('rel', 64)
            s.pc.append(rel > 0)
            args.append(rel)
        R.cases += 1
        fin = pool.call(ex, [s], pool.entry(mods, name), args)
        nret = 0
        for f in fin:
            for kind, text in f.viol:
                if kind in kinds or 'lost-wakeup' in kinds:
                    R.viol(where, kind, text, trace(ex, f, None))
            if f.viol or f.status not in ('ret', 'cut'):
                if f.status not in ('ret', 'cut') and not f.viol:
                    R.undecided.append('%s: path ends as %s %s' % (where, f.status, f.cuts))
                continue
            if f.status == 'cut' and f.cuts != 'blocking-call bound':
                R.undecided.append('%s: path cut: %s' % (where, f.cuts))
                continue
            v = judge(W, f, name, clk, dl, rel, null, variant)
            if v and v[0] in kinds:
                R.viol(where, v[0], v[1], trace(ex, f, v[2]))
            nret += f.status == 'ret'
        if not nret:
            R.viol(where, 'vacuous', 'no way out of the wait was found')
        R.events += sum(len(f.events) for f in fin)
    if 'notify' in kinds:
        for fn in ('notify_one', 'notify_all'):
            R.cases += 1
            if variant != 'futex':
                notify_cv(W, st0, l, obj, fn, R)
            else:
                for how in ('wait', 'wait_for', 'wait_until'):
                    cap = 0
                    for n in (1, 2, 3, 20 if fn == 'notify_all' else 4):
                        cap = notify_futex(W, st0, l, ws, obj, fn, how, n, R)
                    # a fixed number of threads is as good as one more than that number
                    if fn == 'notify_all' and 20 <= cap < 300:
                        notify_futex(W, st0, l, ws, obj, fn, how, cap + 1, R)
    R.stats(ex.stats)
    R.stats(W.px.stats)


def notify_cv(W, st0, l, obj, fn, R):
    s = ready(st0.clone())
    s.x['watch'] = False
    n = 0
    for f in pool.call(W.ex, [s], pool.entry(W.pmods, fn), [l, obj]):
        w = [e.data for e in f.events if e.kind == 'CWAKE']
        ok = [d for d in w if d[1] == f.x.get('condobj') and d[0] in (('one', 'all') if fn == 'notify_one' else ('all',))]
        if f.status == 'ret' and not ok:
            R.viol('pool pthread ' + fn, 'notify', 'does not wake the condition variable of the address')
        n += f.status == 'ret'
    R.witness += n


def notify_futex(W, st0, l, ws, obj, fn, how, n, R):
    """n threads block in the real waiting function, another notifies and releases the lock"""
    ex, mods = W.ex, W.pmods
    where = 'pool futex %s, %d blocked in %s' % (fn, n, how)
    cap = 1 << 32
    s = ready(st0.clone())
    nb = W.blocks
    W.blocks = 0
    try:
        for i in range(n):
            if i:
                s.status, s.frames = 'run', []
                s = one(pool.call(ex, [s], pool.entry(mods, 'long_lock'), [0]), 'ret')
                s = one(pool.call(ex, [s], pool.entry(mods, 'allocate_wait_state'), [l, obj]), 'ret')
            args = [l, ws]
            if how == 'wait_for':
                args.append(5 * NS)
            if how == 'wait_until':
                t = ex.new_obj(s, 'ts%d' % i, 16, 'ext', 16)
                ex.raw_write(s, t.obj, 0, 8, 100)
                ex.raw_write(s, t.obj, 8, 8, 0)
                args += [1, t]
            s.x['blocks'] = 0
            # the counter is not disturbed here: nobody else is running
            s.x['watch'] = False
            s = one(pool.call(ex, [s], pool.entry(mods, how), args), 'cut')
    finally:
        W.blocks = nb
    o, off = W.cond
    before = ex.raw_read(s, s.objs[o], off, 4)
    s.status, s.frames, s.events = 'run', [], []
    s = one(pool.call(ex, [s], pool.entry(mods, 'long_lock'), [0]), 'ret')
    for f in pool.call(ex, [s], pool.entry(mods, fn), [l, obj]):
        if f.viol or f.status != 'ret':
            R.viol(where, 'notify', 'does not return normally: %s %s' % (f.status, f.viol[:1]))
            continue
        after = ex.raw_read(f, f.objs[o], off, 4)
        if ex.prove(f, tobool(eqv(before, after, 32)) if not isinstance(tobool(eqv(before, after, 32)), bool) else z3.BoolVal(tobool(eqv(before, after, 32)))) is None:
            R.viol(where, 'notify', 'the notification counter is not changed, so a thread about to block sleeps through the notification')
            continue
        woken = moved = 0
        to = None
        for e in f.events:
            if e.kind != 'FUTEX' or not isinstance(e.data['addr'], Ptr):
                continue
            d = e.data
            if (d['addr'].obj, simp(d['addr'].off)) != (o, off):
                continue
            v = d['val'] & mask(32) if isint(d['val']) else None
            if v is None:
                raise Unsupported('symbolic wake count')
            woken += v
            if d['cmd'] in ('REQUEUE', 'CMP_REQUEUE'):
                moved += d['val2'] & mask(32)
                to = d['addr2']
        need = 1 if fn == 'notify_one' else n
        cap = min(cap, woken + moved)
        if woken + moved < need:
            R.viol(where, 'notify', '%d threads are blocked but only %d can be woken' % (n, woken + moved))
            continue
        R.witness += 1
        if woken >= need:
            continue
        # the moved threads are woken from the lock's word when the lock is released
        f.events = []
        for g in pool.call(ex, [f], pool.entry(mods, 'unlock'), [l]):
            if g.viol or g.status != 'ret':
                R.viol(where, 'notify', 'unlock after it does not return normally: %s %s' % (g.status, g.viol[:1]))
                continue
            k = sum(e.data['val'] & mask(32) for e in g.events if e.kind == 'FUTEX' and e.data['cmd'] == 'WAKE' and isinstance(e.data['addr'], Ptr) and isinstance(to, Ptr) and
                    (e.data['addr'].obj, simp(e.data['addr'].off)) == (to.obj, simp(to.off)))
            if not k:
                R.viol(where, 'notify', 'the moved threads are not woken when the lock is released')
    return cap


def one(rs, status):
    rs = [r for r in rs if r.status == status]
    if len(rs) != 1 or rs[0].viol:
        raise Unsupported('%d ways to reach %s: %s' % (len(rs), status, [r.viol[:1] for r in rs][:2]))
    return rs[0]


def trace(ex, s, m):
    from .checks.waiting import ev
    out = []
    for e in s.events[-40:]:
        x = dict(kind=e.kind)
        if e.kind in ('FUTEX', 'CWAIT') and e.data.get('ts'):
            x['timespec'] = [ev(m, t) for t in e.data['ts']] if m is not None else None
        if e.kind == 'NOW' and m is not None:
            x['clock'], x['ticks'] = e.data[0], ev(m, e.data[1])
        out.append(x)
    return dict(trace=[x for x in out if x['kind'] in ('FUTEX', 'CWAIT', 'NOW', 'FRET', 'EXPIRED', 'RELEASED', 'SLEEP')])


def judge(W, s, name, clk, dl, rel, null, variant):
    ex = W.ex
    B = lambda v: bv(v, 128)
    if s.status == 'ret' and not (s.x.get('mtx') if variant != 'futex' else W.held(s)):
        return ('lock-release', 'returns without holding the lock', ex.check(s))
    rel_seen = any(e.kind in ('RELEASED', 'CWAIT') for e in s.events)
    if not rel_seen:
        # allowed only if it did not have to wait: the deadline has passed
        if name == 'wait' or null:
            return ('lock-release', 'never releases the lock, so a notification cannot be made', ex.check(s))
    blocks = [i for i, e in enumerate(s.events) if e.kind in ('FUTEX', 'CWAIT') and (e.kind == 'CWAIT' or e.data['cmd'] in ('WAIT', 'WAIT_BITSET'))]
    evidence = []
    now = {}
    relpos = next((i for i, e in enumerate(s.events) if e.kind == 'RELEASED'), None)
    for i, e in enumerate(s.events):
        if e.kind == 'NOW':
            c, v = e.data
            now[c] = v
            if dl is not None and c == clk:
                evidence.append(B(X(v)) >= B(dl))
        elif e.kind == 'FRET' and e.data.get('evidence'):
            er, (c, v) = e.data['evidence']
            if dl is not None and c == clk:
                evidence.append(z3.And(er == ETIMEDOUT, B(X(v)) >= B(dl)))
        elif e.kind == 'EXPIRED':
            if dl is not None and e.data[0] == clk:
                evidence.append(B(X(e.data[1])) >= B(dl))
        elif i in blocks:
            d = e.data
            if null:
                return ('contract', 'blocks although there is no wait state', ex.check(s))
            if e.kind == 'FUTEX':
                v = d['val']
                v = extract(v, 31, 0) if not isint(v) else v & mask(32)
                old = [x for x in s.events[:relpos] if x.kind == 'R' and (x.obj, x.off) == W.cond] if relpos is not None else []
                old = old[-1].rval if old else None
                if old is None:
                    return ('lost-wakeup', 'the notification counter is not read before the lock is released', ex.check(s))
                m = ex.prove(s, tobool(eqv(v, old, 32)))
                if m is not None:
                    return ('lost-wakeup', 'the kernel compares with something other than the counter seen before the lock was released', m)
            ts = d['ts']
            if (ts is None) != (name == 'wait'):
                return ('oversleep', 'a timed wait blocks without a deadline' if ts is None else 'an untimed wait has a deadline', ex.check(s))
            if ts is None:
                continue
            t = ns_of(ts)
            m = ex.prove(s, z3.And(bv(ts[0], 64) >= 0, bv(ts[1], 64) >= 0, bv(ts[1], 64) < NS))
            if m is not None:
                return ('oversleep', 'the deadline handed to the operating system is malformed', m)
            absolute = e.kind == 'CWAIT' or d['cmd'] == 'WAIT_BITSET'
            kclk = d['clk'] if e.kind == 'CWAIT' else ('real' if d['flags'] & RT else 'mono')
            if absolute and dl is not None and kclk == clk:
                m = ex.prove(s, B(t) <= B(dl))
                if m is not None:
                    return ('oversleep', 'the deadline handed to the operating system is later than the requested one', m)
                continue
            if absolute:
                # converted from a duration or another clock
                if kclk not in now:
                    return ('oversleep', 'the deadline handed to the operating system is on the wrong clock', ex.check(s))
                t = binop('sub', t, X(now[kclk]), 128)
            if rel is not None:
                m = ex.prove(s, B(t) <= B(X(rel)))
            else:
                if clk not in now:
                    return ('oversleep', 'blocks for a duration without having read the clock', ex.check(s))
                m = ex.prove(s, B(binop('add', t, X(now[clk]), 128)) <= B(dl))
            if m is not None:
                return ('oversleep', 'blocks for longer than asked', m)
    if s.status != 'ret':
        # blocking again after the counter has changed would sleep through a notification
        fb = [i for i in blocks if s.events[i].kind == 'FUTEX']
        if len(fb) > 1:
            i = fb[-1]
            mid = [x for x in s.events[fb[-2]:i] if x.kind == 'R' and (x.obj, x.off) == W.cond]
            v = s.events[i].data['val']
            v = extract(v, 31, 0) if not isint(v) else v & mask(32)
            if not mid:
                return None
            m = ex.prove(s, tobool(eqv(v, mid[-1].rval, 32)))
            if m is not None:
                return ('lost-wakeup', 'blocks again although the counter has changed', m)
        return None
    if name != 'wait_until':
        return None     # the callers of wait_for look at the clock themselves
    r = s.ret
    r1 = z3.BoolVal(bool(r & 1)) if isint(r) else r if z3.is_bool(r) else tobool(eqv(extract(r, 0, 0), 1, 1))
    m = ex.prove(s, z3.Or(z3.Not(r1), *evidence))
    if m is not None:
        return ('early', 'reports a time-out without evidence that the deadline has passed', m)
    last = [e for e in s.events if e.kind in ('FRET', 'EXPIRED', 'FUTEX', 'CWAIT')]
    if dl is not None and last and last[-1].kind in ('FRET', 'EXPIRED'):
        e = last[-1]
        call = s.events[blocks[-1]]
        if call.kind == 'FUTEX' and call.data['cmd'] != 'WAIT_BITSET' or call.kind == 'CWAIT' and call.data['clk'] != clk:
            return None
        c = e.data['evidence'][0] == ETIMEDOUT if e.kind == 'FRET' and e.data.get('evidence') else z3.BoolVal(e.kind == 'EXPIRED')
        m = ex.prove(s, z3.Implies(c, r1))
        if m is not None:
            return ('oversleep', 'does not report that the deadline has passed, so that the caller would wait again', m)
    return None
