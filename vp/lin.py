"""Sequential and interference semantics of single operations: runs one harness function symbolically and decides its contract."""
import z3
from . import api, build, core
from .core import (Exec, State, Ptr, Event, fresh, bv, isint, mask, binop, extract, zext, concat, eqv, tobool, simp, ite, Unsupported,
                   SolverTimeout, notb)

LP = 'lock_pool'


def lp_name(n):
    """name of the boost::atomics::detail::lock_pool function a mangled symbol denotes, or None"""
    if 'lock_pool' not in n or not n.startswith('_ZN5boost'):
        return None
    for f in ('short_lock', 'long_lock', 'unlock', 'allocate_wait_state', 'free_wait_state', 'wait_until', 'wait_for', 'wait',
              'notify_one', 'notify_all', 'thread_fence', 'signal_fence'):
        if 'lock_pool%d%s' % (len(f), f) in n:
            return f
    return None


class Ctx:
    pass


def band(*cs):
    out = []
    for c in cs:
        if isint(c):
            if not c:
                return z3.BoolVal(False)
            continue
        out.append(tobool(c))
    if not out:
        return z3.BoolVal(True)
    return z3.And(*out) if len(out) > 1 else out[0]


def masked(v, m, w):
    return binop('and', v, m, w)


class Problem(Exception):
    pass


# ------------ the lock pool as seen by header code (real pool: see pool.py) --------------
def pool_ext(ex, mods):
    """models lock_pool:: externals: lock and unlock become events; contents are havocked while unlocked"""
    names = set()
    for m in mods:
        for n in m.fns:
            f = lp_name(n)
            if f and m.fns[n].decl:
                names.add((n, f))
    for n, f in names:
        if f in ('short_lock', 'long_lock'):
            ex.ext[n] = x_lock
        elif f == 'unlock':
            ex.ext[n] = x_unlock
        elif f in ('thread_fence', 'signal_fence'):
            ex.ext[n] = x_fence
    return names


def main_obj(st):
    return st.x.get('main')


def inv_cond(c, v):
    """representation invariant on the object's whole content v (bits)"""
    z = c.zero
    W = c.objw
    conds = []
    if z:
        conds.append(eqv(masked(v, z, W), 0, W))
    return band(*conds)


def x_lock(ex, st, fr, ins, a, name):
    if st.x.get('held'):
        st.viol.append(('lock-nesting', 'a pool lock is taken while another one is held'))
    p = ex.new_obj(st, 'lockstate', 64, 'ext', 16)
    st.x['held'] = p.obj
    st.x['nlocks'] = st.x.get('nlocks', 0) + 1
    c = ex.ctx
    if c.mode == 'havoc':
        v = fresh('locked', c.objw)
        st.pc.append(inv_cond(c, v))
        o = st.obj_w(c.oid)
        o.shared = 'stable'
        o.chunks = {0: (c.objw // 8, v)}
    else:
        v = ex.raw_read(st, st.objs[c.oid], 0, c.objw // 8)
    st.x.setdefault('sect', []).append([v, None])
    ex.event(st, Event('LOCK', data=a[0], inst=ins, order=lp_name(name)))
    return p


def x_unlock(ex, st, fr, ins, a, name):
    p = a[0]
    if not st.x.get('held'):
        st.viol.append(('lock-release', 'unlock without a held lock'))
    elif not (isinstance(p, Ptr) and p.obj == st.x['held'] and isint(p.off) and p.off == 0):
        st.viol.append(('lock-release', 'unlock of something other than the held lock'))
    st.x['held'] = None
    c = ex.ctx
    v = ex.raw_read(st, st.objs[c.oid], 0, c.objw // 8)
    if st.x.get('sect'):
        st.x['sect'] = [list(s) for s in st.x['sect']]
        st.x['sect'][-1][1] = v
    if c.mode == 'havoc':
        st.obj_w(c.oid).shared = 'havoc'
    ex.event(st, Event('UNLOCK', inst=ins))
    return None


def x_fence(ex, st, fr, ins, a, name):
    ex.event(st, Event('FENCE', order='pool', data=lp_name(name), inst=ins))
    return None


# --------------------------------------------------------------------------------------
def orders_cond(op, m1, m2):
    def one(m, allowed):
        return z3.Or([m == k for k in allowed])
    if op.orders is None:
        return z3.BoolVal(True)
    if op.orders == 'load':
        return one(m1, api.ORD_LOAD)
    if op.orders == 'store':
        return one(m1, api.ORD_STORE)
    if op.orders == 'cas':
        return z3.And(one(m1, api.ORD_RMW), one(m2, api.ORD_LOAD), z3.ULE(m2 & 15, m1 & 15))
    return one(m1, api.ORD_RMW)


class Runner:
    """one module (configuration x group of types); mode: stable | havoc"""

    def __init__(self, cfg, mod, mode, cas_fail_bound=2, symbase=False, timeout_ms=60000):
        self.cfg = cfg
        self.traits = build.CONFIGS[cfg][1]
        self.mod = mod
        self.mode = mode
        self.ex = Exec([mod], timeout_ms=timeout_ms)
        self.ex.spurious_weak = mode == 'havoc'
        if mode == 'havoc':
            self.ex.cas_fail_bound = cas_fail_bound
        self.symbase = symbase
        self.fixorder = False
        pool_ext(self.ex, [mod])
        self.ex.sh_val = self.sh_val

    def sh_val(self, st, o, off, size):
        ex = self.ex
        c = ex.ctx
        if o.shared == 'havoc':
            v = fresh('env', size * 8)
            if o.id == c.oid:
                z = (c.zero >> (off * 8)) & mask(size * 8)
                if z:
                    st.pc.append(tobool(eqv(v & z, 0, size * 8)))
            return v
        return ex.raw_read(st, o, off, size)

    def ctx_for(self, ok, ty, info):
        c = Ctx()
        c.ty = ty
        c.ok = ok
        c.mode = self.mode
        c.cfg = self.cfg
        c.lockfree = bool(info[3])
        c.size = info[0]
        c.objw = info[0] * 8
        c.align = info[4] if ok in api.REFS else info[1]
        c.w = ty.w
        # bits of T which carry the value, and bits always zero in the stored representation
        clears = self.traits.get('gcc') or ty.kind == 'fp'
        c.val = ty.val
        c.zero = mask(c.objw) & ~mask(c.w)
        if clears:
            c.zero |= ty.pad
        c.cmpm = ty.val if clears else mask(c.w)
        c.clears = clears
        if ty.kind == 'bool':
            c.zero |= 0xfe
        if ty.kind == 'flag':
            c.zero = mask(c.objw) & ~1   # a set flag is stored as 1 (maintained by every operation, checked below)
        return c

    def setup(self, ok, ty, info, op=None, content=None):
        ex = self.ex
        st = State()
        c = self.ctx_for(ok, ty, info)
        ex.ctx = c
        base = None
        if self.symbase:
            base = z3.BitVec('base', 64)
            al = max(c.align, 1)
            st.pc.append(z3.And((base & (al - 1)) == 0, z3.UGE(base, 4096), z3.ULE(base, (1 << 47) - 65536)))
        p = ex.new_obj(st, 'obj', c.size, 'shared', c.align, base=base)
        c.oid = p.obj
        c.base = base
        o = st.objs[p.obj]
        o.align = c.align
        v0 = content if content is not None else fresh('old', c.objw)
        c.content0 = v0
        o.chunks = {0: (c.size, v0)}
        if ok in api.REFS:
            r = ex.new_obj(st, 'ref', info[2], 'stack', 8)
            st = self.call1(st, 'c_%s_%s' % (ok, ty.name), [r, p])
            c.arg0 = r
        else:
            if content is None:
                st.pc.append(tobool(inv_cond(c, v0)))
            c.arg0 = p
        if ok in api.REFS:
            v0 = ex.raw_read(st, st.objs[c.oid], 0, c.size)
            if not isint(v0):
                v0 = z3.simplify(v0)
            o = st.obj_w(c.oid)
            o.chunks = {0: (c.size, v0)}
            if ty.kind == 'bool' and not isint(v0):
                st.pc.append(tobool(eqv(masked(v0, 0xfe, 8), 0, 8)))
        c.content0 = v0
        st.obj_w(c.oid).shared = self.mode
        return st, c, p

    def call1(self, st, fn, args):
        """run a straight-line function to its single normal end"""
        ex = self.ex
        ex.start(fn, args, st)
        fin = ex.run(st)
        if len(fin) != 1 or fin[0].status != 'ret':
            raise Unsupported('constructor has %d outcomes: %s' % (len(fin), [f.status for f in fin]))
        s = fin[0]
        s.status = 'run'
        return s

    def args(self, st, c, op):
        ex = self.ex
        ty = c.ty
        n = ty.size
        al = max(1, min(ty.align, 16))

        def val(name):
            v = fresh(name, c.w)
            p = ex.new_obj(st, name, n, 'stack', al)
            st.objs[p.obj].chunks = {0: (n, v)}
            if ty.kind in ('bool', 'flag'):
                st.pc.append(z3.ULE(v, 1))
            return v, p
        c.x, xp = val('x')
        c.e, ep = val('e')
        rs = n if op.rt == 'T' else 1
        rp = ex.new_obj(st, 'res', rs, 'stack', 16)
        c.r0 = fresh('res0', rs * 8)
        st.objs[rp.obj].chunks = {0: (rs, c.r0)}
        c.k = fresh('k', 32)
        c.d = fresh('d', 64)
        if op.klim:
            st.pc.append(z3.ULT(c.k, c.w))
        c.m1 = fresh('m1', 32)
        c.m2 = fresh('m2', 32)
        st.pc.append(orders_cond(op, c.m1, c.m2))
        if self.fixorder:
            c.m1, c.m2 = self.fixorder if isinstance(self.fixorder, tuple) else (14, 14)
            st.pc.pop()
        c.rp, c.ep, c.xp = rp, ep, xp
        c.rw = rs * 8
        return [c.arg0, xp, ep, rp, c.k, c.d, c.m1, c.m2]

    # ------------------------------------------------------------------
    def run(self, fn, ok, ty, op, info, content=None):
        st, c, p = self.setup(ok, ty, info, op, content)
        a = self.args(st, c, op)
        ex = self.ex
        ex.start(fn, a, st)
        return ex.run(st), c

    def final(self, st, c):
        v = self.ex.raw_read(st, st.objs[c.oid], 0, c.size)
        if isinstance(v, Ptr):
            v = self.ex.ptr_bv(st, v)
        return v

    def rd(self, st, p, n):
        v = self.ex.raw_read(st, st.objs[p.obj], 0, n)
        if isinstance(v, Ptr):
            v = self.ex.ptr_bv(st, v)
        return v

    def val_of(self, c, content):
        return extract(content, c.w - 1, 0)

    def veq(self, c, a, b):
        """same value"""
        if c.ty.pad:
            return eqv(masked(a, c.val, c.w), masked(b, c.val, c.w), c.w)
        return eqv(a, b, c.w)

    def ret_cond(self, c, op, st, old, new):
        """documented result for prior value old and later value new"""
        if op.ret is None or op.rt == 'void':
            return 1
        r = self.rd(st, c.rp, c.rw // 8)
        want = op.ret(c, old, new)
        if op.rt == 'T':
            return self.veq(c, r, want)
        return eqv(r, want, 8)

    def step_cond(self, c, op, st, oldC, newC):
        """contract of one operation seen as one step oldC -> newC (whole contents)"""
        old, new = self.val_of(c, oldC), self.val_of(c, newC)
        unchanged = eqv(newC, oldC, c.objw)
        e1 = self.rd(st, c.ep, c.ty.size)
        if op.kind in ('cas', 'casw'):
            r = self.rd(st, c.rp, 1)
            eq_rep = eqv(masked(old, c.cmpm, c.w), masked(c.e, c.cmpm, c.w), c.w)
            eq_val = self.veq(c, old, c.e)
            succ = eqv(r, 1, 8)
            fail = eqv(r, 0, 8)
            S = band(succ, eq_val, self.veq(c, new, c.x), eqv(masked(newC, c.zero, c.objw), 0, c.objw) if c.zero else 1, self.veq(c, e1, c.e))
            F = band(fail, unchanged, self.veq(c, e1, old))
            if op.kind == 'cas':
                F = band(F, notb(eq_rep) if not isint(eq_rep) else 1 - eq_rep)
            return z3.Or(S, F)
        conds = [self.veq(c, e1, c.e)]
        if op.kind == 'tas':
            conds.append(tobool(notb(eqv(new, 0, c.w))) if not isint(new) else int(new != 0))
            if c.zero:
                conds.append(eqv(masked(newC, c.zero, c.objw), 0, c.objw))
            conds.append(self.ret_cond(c, op, st, old, new))
            return band(*conds)
        if op.post is None:
            conds += [unchanged, self.ret_cond(c, op, st, old, old)]
            return band(*conds)
        want = op.post(c, old)
        conds.append(self.veq(c, new, want))
        if c.zero:
            conds.append(eqv(masked(newC, c.zero, c.objw), 0, c.objw))
        conds.append(self.ret_cond(c, op, st, old, want))
        return band(*conds)

    def spurious_cond(self, c, op, st, seenC):
        """weak compare-exchange that fails although the values are equal"""
        e1 = self.rd(st, c.ep, c.ty.size)
        r = self.rd(st, c.rp, 1)
        return band(eqv(r, 0, 8), self.veq(c, e1, self.val_of(c, seenC)))

    # -------------------------------------------------------------- checks
    def check_stable(self, fn, ok, ty, op, info):
        """-> list of (kind, text, model)"""
        fin, c = self.run(fn, ok, ty, op, info)
        ex = self.ex
        out = []
        ended = False
        for s in fin:
            for v in s.viol:
                out.append((v[0], v[1], ex.check(s), s, c))
            if s.viol:
                continue
            if s.status == 'cut':
                m = ex.check(s)
                if m is not None:
                    out.append(('no-termination', 'the operation does not finish although nothing interferes (%s)' % s.cuts, m, s, c))
                continue
            if s.status != 'ret':
                raise Unsupported('ended as %s' % s.status)
            ended = True
            cond = self.step_cond(c, op, s, c.content0, self.final(s, c))
            m = ex.prove(s, cond)
            if m is not None:
                out.append(('contract', 'wrong resulting value, stored value or expected value', m, s, c))
        if not ended and not out:
            out.append(('vacuous', 'no path of the operation ends', None, None, c))
        self.last = (fin, c)
        return out

    def is_atomic(self, c, e):
        if e.locked:
            return True
        al = c.align
        aligned = e.off % e.size == 0 and al % e.size == 0 if e.size & (e.size - 1) == 0 else False
        if e.grp in ('vec', 'avx', 'sse') and e.size == 16:
            return bool(self.traits.get('avx')) and aligned
        if e.asm is not None or e.atomic or e.vol:
            return e.size <= 8 and aligned and e.data not in ('memcpy', 'memset')
        return False

    def widen(self, c, e, which):
        """extend an access narrower than the object to whole contents; the untouched bytes are arbitrary but the same before and after"""
        if e.off == 0 and e.size * 8 == c.objw:
            return (e.rval, e.wval)
        key = ('wide', id(e))
        lo = fresh('lo', e.off * 8) if e.off else None
        hb = c.objw - (e.off + e.size) * 8
        hi = fresh('hi', hb) if hb > 0 else None

        def ext(v):
            if v is None:
                return None
            parts = []
            if lo is not None:
                parts.append((lo, e.off * 8))
            parts.append((v, e.size * 8))
            if hi is not None:
                parts.append((hi, hb))
            return concat(parts)
        return (ext(e.rval), ext(e.wval))

    def check_havoc(self, fn, ok, ty, op, info):
        fin, c = self.run(fn, ok, ty, op, info)
        ex = self.ex
        out = []
        ended = False
        for s in fin:
            evs = [e for e in s.events if e.obj == c.oid]
            bad = list(s.viol)
            for e in evs:
                if e.asm is None and not e.atomic and not e.vol and c.lockfree:
                    bad.append(('plain-access', 'plain (tearable) %s of %d bytes at offset %d of the object' % (e.kind, e.size, e.off)))
            if c.lockfree and s.x.get('nlocks'):
                bad.append(('locks', 'operation of a lock-free type takes a pool lock'))
            for v in bad:
                out.append((v[0], v[1], ex.check(s), s, c))
            if bad:
                continue
            if s.status == 'cut':
                continue
            if s.status != 'ret':
                raise Unsupported('ended as %s' % s.status)
            ended = True
            if not c.lockfree:
                r = self.locked_check(s, c, op, fin)
            else:
                r = self.lockfree_check(s, c, op, evs)
            if r:
                out.append(r + (s, c))
        if not ended and not out:
            out.append(('vacuous', 'no path of the operation ends', None, None, c))
        self.last = (fin, c)
        return out

    def locked_check(self, s, c, op, fin):
        ex = self.ex
        if s.x.get('held'):
            return ('lock-release', 'the pool lock is still held at the end', ex.check(s))
        held = False
        for e in s.events:
            if e.kind == 'LOCK':
                held = True
            elif e.kind == 'UNLOCK':
                held = False
            elif e.obj == c.oid and not held:
                return ('outside-lock', '%s of the object at offset %d outside the critical section' % (e.kind, e.off), ex.check(s))
        sect = s.x.get('sect') or []
        if not sect:
            return ('no-lock', 'operation of a non-lock-free type does not take its lock', ex.check(s))
        conds = []
        for i, (a, b) in enumerate(sect):
            others = [eqv(x, y, c.objw) for j, (x, y) in enumerate(sect) if j != i]
            cc = [self.step_cond(c, op, s, a, b)] + others
            conds.append(band(*cc))
            if op.kind == 'casw':
                conds.append(band(self.spurious_cond(c, op, s, a), *[eqv(x, y, c.objw) for x, y in sect]))
        m = ex.prove(s, z3.Or(*conds))
        if m is not None:
            return ('not-one-step', 'effect is not one step inside the critical section', m)
        return None

    def lockfree_check(self, s, c, op, evs):
        ex = self.ex
        writes = [e for e in evs if e.kind in ('W', 'RMW') or (e.kind == 'CAS' and e.ok)]
        conds = []
        if len(writes) > 1:
            # writes that store back what they replaced (atomically) have no effect
            eff = []
            for e in writes:
                if e.kind in ('RMW', 'CAS') and self.is_atomic(c, e) and ex.prove(s, eqv(e.rval, e.wval, e.size * 8)) is None:
                    continue
                eff.append(e)
            if len(eff) > 1:
                return ('several-writes', 'the object is modified in %d separate steps' % len(eff), ex.check(s))
            writes = eff
        if writes:
            e = writes[0]
            if not self.is_atomic(c, e):
                return ('torn-write', 'the modifying access (%s of %d bytes at offset %d) is not indivisible' % (e.kind, e.size, e.off), ex.check(s))
            a, b = self.widen(c, e, True)
            if e.kind == 'W':
                # blind store: the prior value is arbitrary
                if op.kind in ('load',):
                    return ('contract', 'load modifies the object', ex.check(s))
                a = fresh('before', c.objw)
                lo, hi = e.off * 8, (e.off + e.size) * 8
                parts = []
                if lo:
                    parts.append((extract(a, lo - 1, 0), lo))
                parts.append((e.wval, hi - lo))
                if hi < c.objw:
                    parts.append((extract(a, c.objw - 1, hi), c.objw - hi))
                b = concat(parts)
                pre = inv_cond(c, a)
                conds.append(z3.Implies(pre, tobool(self.step_cond(c, op, s, a, b))))
            else:
                pre = inv_cond(c, a)
                conds.append(z3.Implies(pre, tobool(self.step_cond(c, op, s, a, b))))
                # a locked RMW also may be the no-effect step itself
        else:
            for e in evs:
                if e.rval is None:
                    continue
                if not self.is_atomic(c, e):
                    continue
                a, _ = self.widen(c, e, True)
                pre = inv_cond(c, a)
                conds.append(z3.Implies(pre, tobool(self.step_cond(c, op, s, a, a))))
                if op.kind == 'casw':
                    conds.append(z3.Implies(pre, tobool(self.spurious_cond(c, op, s, a))))
            if not conds:
                return ('no-step', 'no indivisible access to the object on this path', ex.check(s))
        m = ex.prove(s, z3.Or(*conds) if len(conds) > 1 else conds[0])
        if m is not None:
            return ('not-one-step', 'result or effect does not correspond to one indivisible step', m)
        return None


TYPEGROUPS = {
    'int': api.INTS[:8] + api.CHARS,
    'i16': api.INTS[8:],
    'fp': api.FPS,
    'ptr': api.PTRS + api.VPTRS,
    'enum': api.ENUMS,
    'struct': api.STRUCTS + api.PADDED + api.NTD + [api.BOOL],
    'flag': [api.FLAG],
}


def selectable(cfg, pairs):
    """drop inter-process combinations that are rejected at compile time (non-lock-free); -> [(ok, ty, info)]"""
    if not pairs:
        return []
    m = build.compile_ir(api.probe_source(pairs, build.CONFIGS[cfg][1].get('gcc')), cfg, name='p')
    out = []
    for ok, ty in pairs:
        info = api.read_info(m, ok, ty)
        out.append((ok, ty, info))
    return out
