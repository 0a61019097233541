"""Waiting and notifying operations of the public interface, executed symbolically against nondeterministic system calls,
clocks and other threads, and the conditions they have to meet."""
import z3
from . import api, build, lin
from .core import (Exec, State, Ptr, Event, fresh, freshb, bv, isint, mask, binop, extract, zext, sext, concat, eqv, tobool, simp, ite,
                   Unsupported, SolverTimeout, notb)
from .lin import band, lp_name

SYS_futex = 202
FUTEX = {0: 'WAIT', 1: 'WAKE', 3: 'REQUEUE', 4: 'CMP_REQUEUE', 9: 'WAIT_BITSET', 10: 'WAKE_BITSET'}
PRIVATE, RT = 128, 256
EINTR, EAGAIN, ENOSYS, ETIMEDOUT, EINVAL = 4, 11, 38, 110, 22
NS = 1000000000

DECL = r'''
extern "C" long vp_now_pico() noexcept; extern "C" long vp_now_ms() noexcept; extern "C" long vp_now_third() noexcept;
extern "C" int vp_now_s32() noexcept; extern "C" long vp_now_boot() noexcept; extern "C" long vp_now_umono() noexcept;
#define VP_CLOCK(N, R, P) struct N { typedef R rep; typedef P period; typedef std::chrono::duration<R, P> duration; \
  typedef std::chrono::time_point<N> time_point; static constexpr bool is_steady = false; \
  static time_point now() noexcept { return time_point(duration(vp_now_##N())); } };
#define vp_now_VpClkPico vp_now_pico
#define vp_now_VpClkMs vp_now_ms
#define vp_now_VpClkThird vp_now_third
#define vp_now_VpClkS32 vp_now_s32
#define vp_now_VpClkBoot vp_now_boot
#define vp_now_VpClkMono vp_now_umono
VP_CLOCK(VpClkPico, long, std::pico)
VP_CLOCK(VpClkMs, long, std::milli)
typedef std::ratio<1, 3000> VpThird;
VP_CLOCK(VpClkThird, long, VpThird)
VP_CLOCK(VpClkS32, int, std::ratio<1>)
VP_CLOCK(VpClkBoot, long, std::nano)
VP_CLOCK(VpClkMono, long, std::nano)
static inline timespec vp_ts(long ns) noexcept { timespec t; long s = ns / 1000000000, r = ns % 1000000000; if (r < 0) { --s; r += 1000000000; } t.tv_sec = s; t.tv_nsec = r; return t; }
namespace boost { namespace atomics {
template<> struct posix_clock_traits<VpClkBoot> { static constexpr clockid_t clock_id = CLOCK_BOOTTIME; static timespec to_timespec(VpClkBoot::time_point t) noexcept { return vp_ts(t.time_since_epoch().count()); } };
template<> struct posix_clock_traits<VpClkMono> { static constexpr clockid_t clock_id = CLOCK_MONOTONIC; static timespec to_timespec(VpClkMono::time_point t) noexcept { return vp_ts(t.time_since_epoch().count()); } };
} }
'''


class WOp:
    """until: (clock key, numerator of one tick in 1/den ns); the argument d is the deadline or duration in ticks"""

    def __init__(self, name, expr, kind, clock=None, num=1, den=1, bits=64, rt='wr'):
        self.name = name
        self.expr = expr
        self.kind = kind        # wait until for n1 na
        self.clock = clock      # clock whose time decides
        self.num, self.den = num, den   # one tick = num/den ns
        self.bits = bits
        self.rt = rt


def tp(clk, dur='duration'):
    return 'std::chrono::time_point<%s, %s>(%s(%s))' % (clk, dur, dur, '(%s::rep)d' % dur)


SYSD = 'std::chrono::system_clock::duration'
STD = 'std::chrono::steady_clock::duration'
WOPS = [
    WOp('wait', '*r = o.wait(x, m1);', 'wait'),
    WOp('until_sys', 'W w = o.wait_until(x, %s, m1);' % tp('std::chrono::system_clock', SYSD), 'until', 'real'),
    WOp('until_sys_s', 'W w = o.wait_until(x, %s, m1);' % tp('std::chrono::system_clock', 'std::chrono::seconds'), 'until', 'real', NS),
    WOp('until_std', 'W w = o.wait_until(x, %s, m1);' % tp('std::chrono::steady_clock', STD), 'until', 'mono'),
    WOp('until_std_ms', 'W w = o.wait_until(x, %s, m1);' % tp('std::chrono::steady_clock', 'std::chrono::milliseconds'), 'until', 'mono', 1000000),
    WOp('until_pico', 'W w = o.wait_until(x, %s, m1);' % tp('VpClkPico', 'VpClkPico::duration'), 'until', 'pico', 1, 1000),
    WOp('until_ms', 'W w = o.wait_until(x, %s, m1);' % tp('VpClkMs', 'VpClkMs::duration'), 'until', 'ms', 1000000),
    WOp('until_third', 'W w = o.wait_until(x, %s, m1);' % tp('VpClkThird', 'VpClkThird::duration'), 'until', 'third', 1000000, 3),
    WOp('until_s32', 'W w = o.wait_until(x, %s, m1);' % tp('VpClkS32', 'VpClkS32::duration'), 'until', 's32', NS, 1, 32),
    WOp('until_boot', 'W w = o.wait_until(x, %s, m1);' % tp('VpClkBoot', 'VpClkBoot::duration'), 'until', 'boot'),
    WOp('until_umono', 'W w = o.wait_until(x, %s, m1);' % tp('VpClkMono', 'VpClkMono::duration'), 'until', 'mono'),
    WOp('for_ns', 'W w = o.wait_for(x, std::chrono::nanoseconds(d), m1);', 'for', 'mono'),
    WOp('for_us', 'W w = o.wait_for(x, std::chrono::microseconds(d), m1);', 'for', 'mono', 1000),
    WOp('for_ms', 'W w = o.wait_for(x, std::chrono::milliseconds(d), m1);', 'for', 'mono', 1000000),
    WOp('for_s', 'W w = o.wait_for(x, std::chrono::seconds(d), m1);', 'for', 'mono', NS),
    WOp('for_h', 'W w = o.wait_for(x, std::chrono::hours(d), m1);', 'for', 'mono', 3600 * NS),
    WOp('for_ms32', 'W w = o.wait_for(x, std::chrono::duration<int, std::milli>((int)d), m1);', 'for', 'mono', 1000000, 1, 32),
    WOp('for_us32', 'W w = o.wait_for(x, std::chrono::duration<unsigned, std::micro>((unsigned)d), m1);', 'for', 'mono', 1000, 1, -32),
    WOp('notify_one', 'o.notify_one();', 'n1', rt='void'),
    WOp('notify_all', 'o.notify_all();', 'na', rt='void'),
]
WBY = {o.name: o for o in WOPS}

NOWFN = {'vp_now_pico': 'pico', 'vp_now_ms': 'ms', 'vp_now_third': 'third', 'vp_now_s32': 's32', 'vp_now_boot': 'boot', 'vp_now_umono': 'mono'}


def source(pairs, gcc, names):
    tys = []
    for _, t in pairs:
        if t not in tys:
            tys.append(t)
    s = api.prelude(tys, gcc)
    s.append(DECL)
    cases = []
    for ok, ty in pairs:
        ot = api.objtype(ok, ty)
        tag = '%s_%s' % (ok, ty.name)
        T = ty.cxx if ty.kind != 'flag' else 'bool'
        s.append(api.info_line(ok, ty))
        if ok in api.REFS:
            s.append('extern "C" void c_%s(%s* o, %s* v) { ::new ((void*)o) %s(*v); }' % (tag, ot, T, ot))
        cv = 'const ' if ok in api.REFS else 'volatile '
        for n in names:
            o = WBY[n]
            fn = 'w_%s_%s' % (tag, n)
            post = ' *r = w.value; *to = w.timeout;' if o.kind in ('until', 'for') else ''
            s.append('extern "C" void %s(%s%s& o, %s const& x, %s* r, bool* to, long d, memory_order m1) { typedef boost::atomics::wait_result<%s > W; %s%s }' % (
                fn, cv, ot, T, T, T, o.expr, post))
            cases.append((fn, ok, ty, o))
    return '\n'.join(s) + '\n', cases


TB = 1 << 61
CLKNUM = {'ms': 1000000, 'third': 1000000, 's32': NS}


def inrange(v, lim=TB):
    """-lim <= v <= lim as signed 64 bit"""
    if isint(v):
        x = v - (1 << 64) if v >> 63 else v
        return z3.BoolVal(-lim <= x <= lim)
    return z3.And(v >= -lim, v <= lim)


# ------------------------------------------------------------ the outside world
class World:
    """clocks, futex, sleeping; installed into an Exec as external functions"""

    def __init__(self, ex, mods, blocks=2):
        self.ex = ex
        self.blocks = blocks
        self.fnames = set()
        for m in mods:
            for n, f in m.fns.items():
                if not f.decl:
                    continue
                h = self.handler(n)
                if h:
                    ex.ext[n] = h
                    self.fnames.add(n)

    def handler(self, n):
        if n == 'syscall':
            return self.x_syscall
        if n == 'clock_gettime':
            return self.x_gettime
        if n == 'nanosleep':
            return self.x_nanosleep
        if n == '__errno_location':
            return self.x_errno
        if n in NOWFN:
            return self.x_now
        if 'steady_clock3nowEv' in n or 'system_clock3nowEv' in n:
            return self.x_now
        if n in ('usleep', 'sched_yield'):
            return self.x_yield
        f = lp_name(n)
        if f in ('allocate_wait_state', 'free_wait_state', 'wait', 'wait_until', 'wait_for', 'notify_one', 'notify_all'):
            return getattr(self, 'p_' + f)
        return None

    # -- time
    def tick(self, st, clk):
        """a reading of the clock; mono never goes back. -> 64 bit ticks"""
        v = fresh('now_' + clk, 64)
        st.pc.append(inrange(v, TB // CLKNUM.get(clk, 1)))
        if clk == 'mono':
            last = st.x.get('mono')
            st.pc.append(v >= (last if last is not None else 0))
            st.x['mono'] = v
        if clk in ('real', 'boot'):
            st.pc.append(v >= 0)
        if clk == 's32':
            st.pc.append(z3.And(v >= -(1 << 30), v < (1 << 30)))
        return v

    def advance(self, st):
        """time passes while blocked"""
        return self.tick(st, 'mono')

    def x_now(self, ex, st, fr, ins, a, name):
        clk = NOWFN.get(name) or ('mono' if 'steady' in name else 'real')
        v = self.tick(st, clk)
        ex.event(st, Event('NOW', data=(clk, v), inst=ins))
        return extract(v, 31, 0) if clk == 's32' else v

    def x_gettime(self, ex, st, fr, ins, a, name):
        cid, p = a
        if not isint(cid):
            r = []
            for k in (0, 1, 7):
                for s, ok in ex.split(st, eqv(cid, k, 32)):
                    if ok:
                        s2 = s
                        break
                else:
                    continue
            raise Unsupported('clock_gettime with symbolic clock')
        clk = {0: 'real', 1: 'mono', 7: 'boot'}.get(cid, 'clk%d' % cid)
        # failing call: only permitted where the caller can cope; the documented calls on valid clocks fail only with EINVAL
        s2 = st.clone()
        v = self.tick(st, clk)
        ex.event(st, Event('NOW', data=(clk, v), inst=ins))
        sec = fresh('sec', 64)
        ns = fresh('nsec', 64)
        st.pc.append(z3.And(sec >= -(1 << 32), sec <= (1 << 32), ns >= 0, ns < NS, v == sec * NS + ns))
        st.x['ts_' + str(len(st.events))] = None
        ex.write_mem(st, p, 8, sec)
        ex.write_mem(st, Ptr(p.obj, binop('add', p.off, 8, 64)), 8, ns)
        outs = [(st, 0)]
        if st.x.get('gettime_may_fail', True) and not s2.x.get('clock_ok_' + clk):
            ex.event(s2, Event('NOWFAIL', data=clk, inst=ins))
            outs.append((s2, mask(32)))
        st.x['clock_ok_' + clk] = 1
        return ('fork', outs)

    def x_errno(self, ex, st, fr, ins, a, name):
        if 'errno' not in st.objs:
            p = ex.new_obj(st, 'errno', 4, 'stack', 4)
            st.objs['errno'].chunks = {0: (4, fresh('errno0', 32))}
        return Ptr('errno', 0)

    def set_errno(self, ex, st, v):
        if 'errno' not in st.objs:
            self.x_errno(ex, st, None, None, None, None)
        ex.raw_write(st, 'errno', 0, 4, v)

    def more(self, st):
        n = st.x.get('blocks', 0) + 1
        st.x['blocks'] = n
        return n > self.blocks

    def x_yield(self, ex, st, fr, ins, a, name):
        ex.event(st, Event('SLEEP', data=None, inst=ins))
        if self.more(st):
            st.status = 'cut'
            st.cuts = 'blocking-call bound'
        self.advance(st)
        return 0

    def x_nanosleep(self, ex, st, fr, ins, a, name):
        ts = self.rdts(ex, st, a[0])
        ex.event(st, Event('SLEEP', data=ts, inst=ins))
        if self.more(st):
            st.status = 'cut'
            st.cuts = 'blocking-call bound'
            return 0
        self.advance(st)
        r = fresh('slept', 32)
        st.pc.append(z3.Or(r == 0, r == mask(32)))
        return r

    def rdts(self, ex, st, p):
        if isint(p) and p == 0:
            return None
        if not isinstance(p, Ptr):
            raise Unsupported('timespec pointer')
        return (ex.read_mem(st, p, 8), ex.read_mem(st, Ptr(p.obj, binop('add', p.off, 8, 64)), 8))

    # -- futex system call
    def x_syscall(self, ex, st, fr, ins, a, name):
        nr = a[0]
        if not isint(nr) or (nr & 0xffffffff) != SYS_futex:
            raise Unsupported('system call %s' % nr)
        addr, op, val = a[1], a[2], a[3]
        t = a[4] if len(a) > 4 else 0
        addr2 = a[5] if len(a) > 5 else 0
        val3 = a[6] if len(a) > 6 else 0
        if not isint(op):
            raise Unsupported('symbolic futex operation')
        op &= 0xffffffff
        cmd = FUTEX.get(op & 127)
        d = dict(cmd=cmd, addr=addr, flags=op & ~127, val=val, addr2=addr2, val3=val3, ts=None, val2=None)
        if cmd is None:
            st.viol.append(('futex', 'unknown futex operation %d' % op))
            return fresh('fret', 64)
        if cmd in ('WAIT', 'WAIT_BITSET'):
            d['ts'] = self.rdts(ex, st, t)
            return self.fwait(ex, st, ins, d)
        d['val2'] = t
        ex.event(st, Event('FUTEX', data=d, inst=ins))
        r = fresh('woken', 64)
        lim = val if isint(val) else zext(extract(val, 31, 0), 32, 64)
        st.pc.append(z3.ULE(r, bv(lim & 0x7fffffff if isint(lim) else lim, 64)) if cmd.startswith('WAKE') else z3.And(r >= 0, r < (1 << 31)))
        return r

    def fwait(self, ex, st, ins, d):
        ex.event(st, Event('FUTEX', data=d, inst=ins))
        if self.more(st):
            st.status = 'cut'
            st.cuts = 'blocking-call bound'
            return 0
        # 0: woken or spurious; -1: any error
        prev = st.x.get('mono', 0)
        s2 = st.clone()
        self.advance(st)
        e = fresh('err', 32)
        d2 = dict(d)
        t = self.advance(s2)
        s2.pc.append(z3.And(e > 0, e < 4096))
        key = 'fsup_%s' % d['cmd']
        if s2.x.get(key):
            s2.pc.append(e != ENOSYS)
        st.x[key] = 1
        if d['ts'] is None:
            s2.pc.append(e != ETIMEDOUT)
        else:
            sec, ns = d['ts']
            lim = binop('add', binop('mul', sec, NS, 64), ns, 64)
            wf = z3.And(bv(sec, 64) >= 0, bv(ns, 64) >= 0, bv(ns, 64) < NS)
            sane = z3.And(wf, bv(sec, 64) < (1 << 32))
            if d['cmd'] == 'WAIT':
                ok = t >= bv(binop('add', prev, lim, 64), 64)
                ev = ('mono', t)
            elif d['flags'] & RT:
                v = self.tick(s2, 'real')
                ok = v >= bv(lim, 64)
                ev = ('real', v)
            else:
                ok = t >= bv(lim, 64)
                ev = ('mono', t)
            # a deadline beyond any representable time never expires; a malformed one is rejected
            s2.pc.append(z3.Implies(e == ETIMEDOUT, z3.And(sane, ok)))
            d2['evidence'] = (e, ev)
        d2['err'] = e
        self.set_errno(ex, s2, e)
        # once a call did not end with ENOSYS, the operation is supported
        outs = [(st, 0)]
        for s3, isno in ex.split(s2, eqv(e, ENOSYS, 32)):
            if not isno:
                s3.x[key] = 1
            else:
                if not s3.x.get('nosys'):
                    s3.x['blocks'] = s3.x['blocks'] - 1
                s3.x['nosys'] = 1
            ex.event(s3, Event('FRET', data=dict(d2, nosys=isno), inst=ins))
            outs.append((s3, mask(64)))
        return ('fork', outs)

    # -- lock pool interface as seen from headers
    def held(self, st, p, what):
        h = st.x.get('held')
        if not h or not (isinstance(p, Ptr) and p.obj == h and isint(p.off) and p.off == 0):
            st.viol.append(('lock-release', '%s on a lock which is not the held one' % what))
            return False
        return True

    def p_allocate_wait_state(self, ex, st, fr, ins, a, name):
        self.held(st, a[0], 'allocate_wait_state')
        ex.event(st, Event('ALLOCWS', data=a[1], inst=ins))
        if st.x.get('ws'):
            st.viol.append(('waitstate', 'a second wait state is allocated'))
        p = ex.new_obj(st, 'ws', 64, 'ext', 16)
        st.x['ws'] = p.obj
        s2 = st.clone()
        s2.x['ws'] = 'null'
        s2.x['wsnull'] = True
        return ('fork', [(st, p), (s2, 0)])

    def isws(self, st, p):
        w = st.x.get('ws')
        if w == 'null':
            return isint(p) and p == 0
        return w and isinstance(p, Ptr) and p.obj == w and isint(p.off) and p.off == 0

    def p_free_wait_state(self, ex, st, fr, ins, a, name):
        self.held(st, a[0], 'free_wait_state')
        if not self.isws(st, a[1]):
            st.viol.append(('waitstate', 'free_wait_state on something other than the allocated wait state'))
        st.x['ws'] = None
        ex.event(st, Event('FREEWS', inst=ins))
        return None

    def pwait(self, ex, st, a, ins, kind, d):
        self.held(st, a[0], kind)
        if not self.isws(st, a[1]):
            st.viol.append(('waitstate', '%s on something other than the allocated wait state' % kind))
        ex.event(st, Event('PWAIT', data=dict(d, kind=kind), inst=ins))
        if self.more(st):
            st.status = 'cut'
            st.cuts = 'blocking-call bound'
            return False
        # the lock is released meanwhile: others may do anything to the object
        c = ex.ctx
        o = st.objs[c.oid]
        if o.shared != 'havoc':
            v = fresh('locked', c.objw)
            st.pc.append(lin.inv_cond(c, v))
            st.obj_w(c.oid).chunks = {0: (c.objw // 8, v)}
        return True

    def p_wait(self, ex, st, fr, ins, a, name):
        if self.pwait(ex, st, a, ins, 'wait', {}):
            self.advance(st)
            ex.event(st, Event('WOKEN', inst=ins))
        return None

    def p_wait_until(self, ex, st, fr, ins, a, name):
        ts = self.rdts(ex, st, a[3])
        cid = a[2]
        if not isint(cid):
            raise Unsupported('symbolic clock id')
        clk = {0: 'real', 1: 'mono', 7: 'boot'}.get(cid, 'clk%d' % cid)
        if not self.pwait(ex, st, a, ins, 'wait_until', dict(clk=clk, ts=ts)):
            return 0
        s2 = st.clone()
        self.advance(st)
        ex.event(st, Event('WOKEN', inst=ins))
        v = self.tick(s2, clk)
        lim = binop('add', binop('mul', ts[0], NS, 64), ts[1], 64)
        s2.pc.append(z3.And(v >= bv(lim, 64), bv(ts[0], 64) >= 0, bv(ts[0], 64) < (1 << 32), bv(ts[1], 64) >= 0, bv(ts[1], 64) < NS))
        ex.event(s2, Event('WOKEN', data=(clk, v), inst=ins))
        return ('fork', [(st, 0), (s2, 1)])

    def p_wait_for(self, ex, st, fr, ins, a, name):
        if not self.pwait(ex, st, a, ins, 'wait_for', dict(ns=a[2])):
            return 0
        # the result is not relied upon: any value at any time
        s2 = st.clone()
        for x in (st, s2):
            self.advance(x)
            ex.event(x, Event('WOKEN', inst=ins))
        return ('fork', [(st, 0), (s2, 1)])

    def p_notify_one(self, ex, st, fr, ins, a, name):
        self.held(st, a[0], 'notify_one')
        ex.event(st, Event('PNOTIFY', data=('one', a[1]), inst=ins))
        return None

    def p_notify_all(self, ex, st, fr, ins, a, name):
        self.held(st, a[0], 'notify_all')
        ex.event(st, Event('PNOTIFY', data=('all', a[1]), inst=ins))
        return None


class WaitRunner(lin.Runner):
    def __init__(self, cfg, mod, blocks=2, symbase=False, timeout_ms=60000):
        super().__init__(cfg, mod, 'havoc', symbase=symbase, timeout_ms=timeout_ms)
        self.world = World(self.ex, [mod], blocks)
        self.timed = True
        self.mech = None
        self.ex.loop_bound = 60
        self.ex.sliced = True

    def setup_w(self, ok, ty, info, op):
        ex = self.ex
        st, c, p = self.setup(ok, ty, info)
        if not c.lockfree:
            st.obj_w(c.oid).shared = 'havoc'
        n = 1 if ty.kind == 'flag' else ty.size
        c.rn = n
        c.old = fresh('old_val', n * 8)
        xp = ex.new_obj(st, 'x', n, 'stack', max(1, min(ty.align, 16)))
        st.objs[xp.obj].chunks = {0: (n, c.old)}
        if ty.kind in ('bool', 'flag'):
            st.pc.append(z3.ULE(c.old, 1))
        if ty.kind == 'flag':
            c.old = zext(c.old, 8, c.w)
        c.rp = ex.new_obj(st, 'res', n, 'stack', 16)
        c.tp = ex.new_obj(st, 'to', 1, 'stack', 1)
        c.to0 = fresh('to0', 8)
        st.objs[c.tp.obj].chunks = {0: (1, c.to0)}
        c.d = fresh('d', 64)
        c.m1 = fresh('m1', 32)
        if self.fixorder:
            c.m1 = self.fixorder[0] if isinstance(self.fixorder, tuple) else 14
        else:
            st.pc.append(z3.Or([c.m1 == k for k in api.ORD_LOAD]))
        if op.clock:
            # the deadline or duration, in nanoseconds, is representable
            lim = TB // op.num
            st.pc.append(inrange(c.d, lim))
            if op.bits == 32:
                st.pc.append(z3.And(c.d >= -(1 << 30), c.d < (1 << 30)))
            if op.bits == -32:
                st.pc.append(z3.And(c.d >= 0, c.d < (1 << 32)))
        c.entry = fresh('entry', 64)
        st.pc.append(z3.And(c.entry >= 0, c.entry <= TB))
        st.x['mono'] = c.entry
        c.op = op
        return st, c, [c.arg0, xp, c.rp, c.tp, c.d, c.m1]

    def run_w(self, fn, ok, ty, op, info):
        st, c, a = self.setup_w(ok, ty, info, op)
        self.ex.ctx = c
        self.ex.start(fn, a, st)
        return self.ex.run(st), c

    # ------------------------------------------------------------------ conditions
    def differs(self, c, rep, old):
        """the representation found in the object denotes a value other than old"""
        return notb(self.same(c, rep, old))

    def same(self, c, rep, old):
        v = extract(rep, c.w - 1, 0)
        return tobool(eqv(masked(v, c.cmpm, c.w), masked(old, c.cmpm, c.w), c.w))

    def prove1(self, s, cond):
        """model or None"""
        return self.ex.prove(s, cond)

    def check(self, fn, ok, ty, op, info):
        fin, c = self.run_w(fn, ok, ty, op, info)
        self.last = (fin, c)
        out = []
        ended = 0
        for s in fin:
            if s.viol:
                v = s.viol[0]
                out.append((v[0], v[1], self.ex.check(s), s, c))
                continue
            if s.status not in ('ret', 'cut'):
                raise Unsupported('ended as %s' % s.status)
            ended += s.status == 'ret'
            r = self.history(s, c, op)
            if r is None and s.status == 'ret':
                r = self.outcome(s, c, op)
            if r is None and op.clock and self.timed:
                r = self.timing(s, c, op)
            if r:
                out.append(r + (s, c))
        if not ended and not out:
            out.append(('vacuous', 'no path of the operation ends', None, None, c))
        return out

    # -- per-event obligations
    def history(self, s, c, op):
        ex = self.ex
        held = False
        lastread = None       # last read since: acquisition / wake-up (lock based) or start
        fresh_read = None
        anyread = None
        timed = op.kind in ('until', 'for')
        firstnow = None
        reads = []
        for e in s.events:
            k = e.kind
            if k == 'LOCK':
                held = True
                fresh_read = None
            elif k == 'UNLOCK':
                held = False
                if s.x.get('ws_at_unlock'):
                    pass
            elif k == 'WOKEN':
                fresh_read = None
            elif k in ('W', 'RMW', 'CAS') and e.obj == c.oid:
                return ('contract', 'a waiting or notifying operation modifies the object', ex.check(s))
            elif k == 'R' and e.obj == c.oid:
                if not c.lockfree and not held:
                    return ('outside-lock', 'the object is read outside the critical section', ex.check(s))
                a, _ = self.widen(c, e, False)
                if c.lockfree and not self.is_atomic(c, e):
                    return ('plain-access', 'the object is read by a divisible access', ex.check(s))
                lastread = fresh_read = anyread = a
            elif k in ('FUTEX', 'PWAIT', 'SLEEP'):
                r = None
                if k == 'FUTEX':
                    r = self.futex_event(s, c, op, e, lastread)
                elif k == 'PWAIT':
                    if op.kind not in ('wait', 'until', 'for'):
                        return ('contract', 'a notification blocks', ex.check(s))
                    if fresh_read is None:
                        return ('lost-wakeup', 'blocks although the object was not compared with the old value after registering as a waiter: a change notified before registration is missed', ex.check(s))
                    m = ex.prove(s, self.same(c, fresh_read, c.old))
                    if m is not None:
                        return ('blocked-on-change', 'blocks although the object was seen with a different value', m)
                    if not timed and e.data['kind'] != 'wait':
                        pass
                    if timed and e.data['kind'] == 'wait':
                        return ('oversleep', 'a timed wait blocks without a deadline', ex.check(s))
                else:
                    if held:
                        return ('contract', 'sleeps while holding the pool lock', ex.check(s))
                    if op.kind not in ('wait', 'until', 'for'):
                        return ('contract', 'a notification sleeps', ex.check(s))
                    if c.lockfree is False or (c.ok not in 'IJ'):
                        return ('lost-wakeup', 'sleeps without being wakeable by a notification', ex.check(s))
                    if lastread is None:
                        return ('blocked-on-change', 'sleeps before looking at the object', ex.check(s))
                    m = ex.prove(s, self.same(c, lastread, c.old))
                    if m is not None:
                        return ('blocked-on-change', 'sleeps although the object was seen with a different value', m)
                    if e.data is not None:
                        sec, ns = e.data
                        m = ex.prove(s, band(eqv(sec, 0, 64), z3.And(bv(ns, 64) >= 0, bv(ns, 64) < NS)))
                        if m is not None:
                            return ('oversleep', 'polling interval is malformed or a second or more', m)
                if r:
                    return r
            elif k == 'ALLOCWS':
                if not (isinstance(e.data, Ptr) and e.data.obj == c.oid and isint(e.data.off) and e.data.off == 0):
                    m = ex.check(s) if not isinstance(e.data, Ptr) or e.data.obj != c.oid else ex.prove(s, eqv(e.data.off, 0, 64))
                    if m is not None:
                        return ('waitstate', 'the waiter is registered for an address other than that of the object', m)
            elif k == 'PNOTIFY':
                p = e.data[1]
                if not (isinstance(p, Ptr) and p.obj == c.oid and isint(p.off) and p.off == 0):
                    return ('notify', 'the notification is sent to an address other than that of the object', ex.check(s))
        return None

    def futex_event(self, s, c, op, e, lastread):
        ex = self.ex
        d = e.data
        a = d['addr']
        if not (isinstance(a, Ptr) and a.obj == c.oid and isint(a.off) and a.off == 0) or c.size != 4:
            return ('futex', 'futex operation on something other than the whole 4-byte object', ex.check(s))
        if c.ok in 'IJ' and d['flags'] & PRIVATE:
            return ('private', 'an inter-process operation uses a process-private futex', ex.check(s))
        if not c.lockfree:
            return ('futex', 'futex operation on an object protected by a lock', ex.check(s))
        if d['cmd'] in ('WAIT', 'WAIT_BITSET'):
            if op.kind not in ('wait', 'until', 'for'):
                return ('contract', 'a notification blocks', ex.check(s))
            if d['cmd'] == 'WAIT_BITSET':
                m = ex.prove(s, eqv(d['val3'] if isint(d['val3']) else extract(d['val3'], 31, 0), mask(32), 32) if not isint(d['val3']) else int(d['val3'] & mask(32) == mask(32)))
                if m is not None:
                    return ('futex', 'futex wait with a bit mask which some wake-ups do not match', m)
            exp = d['val'] if isint(d['val']) else extract(d['val'], 31, 0)
            rep = exp & mask(32) if isint(exp) else exp
            m = ex.prove(s, self.same(c, rep, c.old))
            if m is not None:
                return ('blocked-on-change', 'the kernel is told to compare with something other than the old value', m)
            if c.zero:
                m = ex.prove(s, eqv(masked(rep, c.zero, 32), 0, 32))
                if m is not None:
                    return ('blocked-on-change', 'the kernel is told to compare with padding bits the object never has', m)
            if lastread is not None:
                m = ex.prove(s, self.same(c, lastread, c.old))
                if m is not None:
                    return ('blocked-on-change', 'goes to sleep although the object was seen with a different value', m)
            if op.kind in ('until', 'for') and d['ts'] is None:
                return ('oversleep', 'a timed wait blocks without a deadline', ex.check(s))
            if op.kind == 'wait' and d['ts'] is not None:
                pass
            return None
        if d['cmd'] == 'WAKE':
            return None
        return ('futex', 'unexpected futex operation %s' % d['cmd'], ex.check(s))

    # -- outcome
    def outcome(self, s, c, op):
        ex = self.ex
        if s.x.get('held'):
            return ('lock-release', 'the pool lock is still held at the end', ex.check(s))
        if s.x.get('ws'):
            return ('waitstate', 'the wait state is not released', ex.check(s))
        if op.kind in ('n1', 'na'):
            return self.notify_outcome(s, c, op)
        reads = []
        for e in s.events:
            if e.kind == 'R' and e.obj == c.oid:
                reads.append(self.widen(c, e, False)[0])
        v = self.rd(s, c.rp, c.rn)
        if c.ty.kind == 'flag':
            v = zext(v, 8, c.w)
        if not reads:
            return ('contract', 'returns without reading the object', ex.check(s))
        T = lambda a: self.veq(c, v, extract(a, c.w - 1, 0))
        if op.kind == 'wait':
            m = ex.prove(s, z3.Or([band(T(a), self.differs(c, a, c.old)) for a in reads]))
            if m is not None:
                return ('contract', 'returns a value that was not observed, or one equal to the old value', m)
            return None
        to = self.rd(s, c.tp, 1)
        m = ex.prove(s, z3.Or(tobool(eqv(to, 0, 8)), tobool(eqv(to, 1, 8))))
        if m is not None:
            return ('contract', 'the timeout flag is not set', m)
        # no timeout: a different value was observed and is returned
        m = ex.prove(s, z3.Implies(tobool(eqv(to, 0, 8)), z3.Or([band(T(a), self.differs(c, a, c.old)) for a in reads])))
        if m is not None:
            return ('contract', 'reports no timeout but does not return a changed value it observed', m)
        m = ex.prove(s, z3.Implies(tobool(eqv(to, 1, 8)), z3.Or([band(T(a), self.same(c, a, c.old)) for a in reads])))
        if m is not None:
            return ('contract', 'reports a timeout but returns a changed or unobserved value', m)
        return None

    # -- deadlines.  All arithmetic in 128 bits (exact).
    def timing(self, s, c, op):
        ex = self.ex
        W = 128
        X = lambda v: sext(v, 64, W)
        add = lambda a, b: binop('add', a, b, W)
        mul = lambda a, k: binop('mul', a, k, W)
        le = lambda a, b: bv(a, W) <= bv(b, W)
        dbits = c.d
        if op.bits == 32:
            d = sext(extract(dbits, 31, 0), 32, W)
        elif op.bits == -32:
            d = zext(extract(dbits, 31, 0), 32, W)
        else:
            d = X(dbits)
        num, den = op.num, op.den

        def ticks_ns(v):
            """ticks of op.clock -> 1/den ns"""
            return mul(X(v), 1 if op.clock in ('real', 'mono', 'boot') else num)
        # for a duration: base reading before the first call that can block
        base = None
        tsns = lambda ts: add(mul(X(ts[0]), NS), X(ts[1]))
        now = None
        mono = None
        evid = []
        started = False
        pend = None
        nosys = set()
        for i, e in enumerate(s.events):
            if e.kind == 'FUTEX' and e.data['cmd'] in ('WAIT', 'WAIT_BITSET'):
                nxt = next((f for f in s.events[i + 1:] if f.kind in ('FRET', 'FUTEX', 'R')), None)
                if nxt is not None and nxt.kind == 'FRET' and nxt.data['nosys']:
                    nosys.add(i)
        scale = 1 if op.kind == 'for' else den

        def deadline():
            """in 1/den ns (for: ns, relative to the entry or base reading)"""
            if op.kind == 'until':
                return mul(d, num)
            return add(X(base if base is not None else c.entry), mul(d, num))
        early = mul(d, num) if op.kind == 'until' else add(X(c.entry), mul(d, num))
        # times before the epoch of a clock which starts at zero are in the past
        if op.clock in ('real', 'mono', 'boot') and op.kind == 'until':
            evid.append((-1, tobool(le(early, 0)) if not isint(early) else z3.BoolVal(True)))
        if op.kind == 'for':
            evid.append((-1, le(d, 0)))
        for i, e in enumerate(s.events):
            if e.kind == 'NOW':
                clk, v = e.data
                if clk == op.clock:
                    now = v
                    evid.append((i, le(early, ticks_ns(v) if op.kind == 'until' else X(v))))
                if clk == 'mono':
                    mono = v
                    if op.kind == 'for' and not started:
                        base = v
            elif e.kind == 'FRET' and e.data.get('evidence'):
                er, (clk, v) = e.data['evidence']
                if clk == op.clock:
                    evid.append((i, z3.And(er == ETIMEDOUT, le(early, ticks_ns(v) if op.kind == 'until' else X(v)))))
            elif e.kind == 'WOKEN' and e.data:
                clk, v = e.data
                if clk == op.clock:
                    evid.append((i, le(early, ticks_ns(v) if op.kind == 'until' else X(v))))
            elif e.kind in ('FUTEX', 'PWAIT'):
                if i in nosys:
                    continue
                dt = e.data
                D = deadline()
                if e.kind == 'FUTEX':
                    if dt['cmd'] not in ('WAIT', 'WAIT_BITSET'):
                        continue
                    ts = dt['ts']
                    rel = dt['cmd'] == 'WAIT'
                    clk = 'real' if dt['flags'] & RT else 'mono'
                else:
                    if dt['kind'] == 'wait_for':
                        ts, rel, clk = None, True, 'mono'
                        relns = X(dt['ns'])
                    else:
                        ts, rel, clk = dt['ts'], False, dt['clk']
                first = not started
                started = True
                if ts is not None:
                    m = ex.prove(s, z3.And(bv(ts[0], 64) >= 0, bv(ts[0], 64) < (1 << 33), bv(ts[1], 64) >= 0, bv(ts[1], 64) < NS))
                    if m is not None:
                        return ('oversleep', 'the deadline handed to the operating system is malformed', m)
                    relns = tsns(ts)
                if not rel:
                    if clk == op.clock:
                        # ts <= ceil(D)   <=>   ts*den - den < D
                        ok = bv(add(mul(relns, den if op.kind == 'until' else 1), -(den if op.kind == 'until' else 1) & mask(W)), W) < bv(D, W)
                        # a deadline rounded down would end early; that is decided by the reported timeout
                        m = ex.prove(s, ok)
                        if m is not None:
                            return ('oversleep', 'the deadline handed to the operating system is later than the requested one', m)
                        continue
                    if clk != 'mono' or mono is None or now is None:
                        return ('oversleep', 'the deadline handed to the operating system is on the wrong clock', ex.check(s))
                    relns = binop('sub', relns, X(mono), W)
                # relative: now + rel <= ceil(D)
                if op.kind == 'until':
                    if now is None:
                        return ('oversleep', 'blocks for a duration without having read the clock', ex.check(s))
                    ok = bv(add(mul(relns, den), add(ticks_ns(now), -den & mask(W))), W) < bv(D, W)
                    if e.kind == 'FUTEX' or True:
                        pos = le(0, relns)
                    ok = z3.And(ok, pos)
                else:
                    t = now if now is not None else c.entry
                    if first and now is None:
                        ok = le(relns, mul(d, num))
                    else:
                        ok = le(add(relns, X(t)), D)
                m = ex.prove(s, ok)
                if m is not None:
                    return ('oversleep', 'blocks for longer than remains until the deadline', m)
        if s.status != 'ret':
            return None
        to = self.rd(s, c.tp, 1)
        alts = []
        for i, cond in evid:
            for j, e in enumerate(s.events):
                if j > i and e.kind == 'R' and e.obj == c.oid:
                    alts.append(band(cond, self.same(c, self.widen(c, e, False)[0], c.old)))
        m = ex.prove(s, z3.Or(tobool(eqv(to, 0, 8)), *alts))
        if m is not None:
            return ('early', 'reports a timeout without having seen the old value at or after the deadline', m)
        return None

    def mechanism(self, fin, c):
        """how the waiting operations just run block: {('futex', private)}, {('pool', hash)}, {('poll',)}"""
        out = {}
        for s in fin:
            h = None
            for e in s.events:
                if e.kind == 'LOCK':
                    h = e.data
                elif e.kind == 'FUTEX' and e.data['cmd'] in ('WAIT', 'WAIT_BITSET'):
                    out.setdefault(('futex', e.data['flags'] & PRIVATE), (s, None))
                elif e.kind == 'PWAIT':
                    out.setdefault(('pool', 0), (s, h))
                elif e.kind == 'SLEEP':
                    out.setdefault(('poll', 0), (s, None))
        return out

    def notify_outcome(self, s, c, op):
        ex = self.ex
        fx = [e for e in s.events if e.kind == 'FUTEX']
        pn = [e for e in s.events if e.kind == 'PNOTIFY']
        h = None
        ph = []
        for e in s.events:
            if e.kind == 'LOCK':
                h = e.data
            elif e.kind == 'PNOTIFY':
                ph.append(h)
        for (k, f), (ws, wh) in (self.mech or {}).items():
            if k == 'futex':
                conds = []
                for e in fx:
                    if e.data['flags'] & PRIVATE != f:
                        continue
                    if e.data['cmd'] == 'WAKE_BITSET':
                        v3 = e.data['val3']
                        if not isint(v3) or v3 & mask(32) != mask(32):
                            continue
                    v = e.data['val']
                    v = v & mask(32) if isint(v) else extract(v, 31, 0)
                    lo = 1 if op.kind == 'n1' else (1 << 22)
                    conds.append(z3.And(bv(v, 32) >= lo))
                if not conds:
                    return ('notify', 'threads waiting in the kernel are not woken%s' % (' (private and shared futex calls do not meet)' if fx else ''), ex.check(s))
                m = ex.prove(s, z3.Or(conds))
                if m is not None:
                    return ('notify', 'the number of threads to wake is too small', m)
            elif k == 'pool':
                if not pn:
                    return ('notify', 'threads waiting in the lock pool are not notified', ex.check(s))
                if op.kind == 'na' and not any(e.data[0] == 'all' for e in pn):
                    return ('notify', 'notify_all notifies a single waiter', ex.check(s))
                for x in ph:
                    m = ex.prove(s, eqv(x, wh, 64)) if isint(x) or isint(wh) or x.size() == wh.size() else ex.check(s)
                    if m is not None:
                        return ('notify', 'the notification looks for waiters under another lock than the one they wait under', m)
        return None


def masked(v, m, w):
    return binop('and', v, m, w)
