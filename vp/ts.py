"""Threads as symbolic transition systems.

Each thread body (a C++ function using the library, compiled together with the real lock pool) is executed
symbolically from one shared-memory event to the next.  A node is a control location plus the values live there;
symbolic live values become slots.  An edge carries a guard and the new values of slots and shared cells.
Loops close on themselves, so the result describes executions of any length; vp/bmc.py composes the threads.
"""
import os
import subprocess
import z3
from . import build, ir, core
from .core import (Exec, State, Frame, Ptr, Event, fresh, bv, isint, eqv, tobool, simp, Unsupported, SolverTimeout, _collect)
from . import pool

SYS_FUTEX = 202
EAGAIN, EINTR, ETIMEDOUT = 11, 4, 110


class Yield(Exception):
    def __init__(self, kind, **kw):
        self.kind = kind
        self.kw = kw


class Restart(Exception):
    pass


OPT = '/usr/lib/llvm-18/bin/opt' if os.path.exists('/usr/lib/llvm-18/bin/opt') else 'opt'


def compile_opt(src, cfg, extra=(), name='t', passes='always-inline,function(sroa,early-cse,simplifycfg,instsimplify,dce)'):
    """like build.compile_ir, with stack slots turned into registers (no restructuring of loops)"""
    old = build.IRF, build.POST
    try:
        build.IRF = ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-fno-discard-value-names']
        build.POST = [OPT, '-S', '-passes=' + passes]
        return build.compile_ir(src, cfg, extra, name)
    finally:
        build.IRF, build.POST = old


# ---------------- liveness
def _uses(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
            out.add(x[1])
            return
        for y in x:
            _uses(y, out)
    elif isinstance(x, list):
        for y in x:
            _uses(y, out)


def _succ(ins):
    r = set()

    def rec(x, blocks):
        if isinstance(x, str) and x in blocks:
            r.add(x)
        elif isinstance(x, (tuple, list)):
            for y in x:
                rec(y, blocks)
    return r, rec


def liveness(f):
    if getattr(f, '_live', None):
        return f._live
    names = set(f.blocks)
    use, dfn, succ, phiuse = {}, {}, {}, {}
    for b, insts in f.blocks.items():
        u, d = set(), set()
        for i in insts:
            if i.op == 'phi':
                d.add(i.res)
                for v, p in i.a[0]:
                    s = set()
                    _uses(v, s)
                    phiuse.setdefault(p, set()).update((b, n) for n in s)
                continue
            s = set()
            _uses(i.a, s)
            u |= s - d
            if i.res is not None:
                d.add(i.res)
        use[b], dfn[b] = u, d
        last = insts[-1]
        r, rec = _succ(last)
        rec(last.a, names)
        succ[b] = r
    lin = {b: set() for b in names}
    ch = True
    while ch:
        ch = False
        for b in names:
            o = set()
            for s in succ[b]:
                o |= lin[s]
            o |= {n for q, n in phiuse.get(b, ()) if q in succ[b]}
            n = use[b] | (o - dfn[b])
            if n != lin[b]:
                lin[b] = n
                ch = True
    f._live = (lin, succ, phiuse)
    return f._live


def live_at(f, b, idx):
    """names live before instruction idx of block b"""
    lin, succ, phiuse = liveness(f)
    o = set()
    for s in succ[b]:
        o |= lin[s]
    o |= {n for q, n in phiuse.get(b, ()) if q in succ[b]}
    insts = f.blocks[b]
    for i in reversed(insts[idx:]):
        if i.res is not None:
            o.discard(i.res)
        if i.op != 'phi':
            _uses(i.a, o)
    return o


class TSExec(Exec):
    """execution that stops before shared-memory events"""

    def __init__(self, mods, model):
        Exec.__init__(self, mods)
        self.model = model
        self.spurious_weak = False
        self.loop_bound = 60

    def chk(self, st, p, size, write, at, kind):
        oid, off = self.resolve(st, p, size)
        M = self.model
        if oid not in M.shared or not M.active:
            return
        o = st.objs[oid]
        if o.dead:
            st.viol.append(('use-after-free', 'access to released memory'))
            return
        if write and not M.covers(oid, off, size):
            M.addcell(oid, off, size)
        ov = M.overlaps(oid, off, size)
        if not ov:
            return
        if any(not (lo <= off and off + size <= lo + n) for lo, n in ov) and at.get('atomic'):
            M.addcell(oid, off, size)
        go = st.x.get('go')
        if at.get('atomic'):
            if go != 'sync':
                raise Yield('sync', op=kind)
            if at.get('asm') is not None and st.frames[-1].asm is not None:
                st.frames[-1].asm.accd = True
            st.x['go'] = None
            st.x.setdefault('acc', []).append((kind, oid, off, size, 'atomic', at))
        else:
            st.x.setdefault('acc', []).append((kind, oid, off, size, 'plain', at))

    def read_mem(self, st, p, size, inst=None, **at):
        self.chk(st, p, size, False, at, 'R')
        return Exec.read_mem(self, st, p, size, inst, **at)

    def write_mem(self, st, p, size, val, inst=None, **at):
        self.chk(st, p, size, True, at, 'W')
        return Exec.write_mem(self, st, p, size, val, inst, **at)

    def rmw(self, st, p, size, fn, inst, **at):
        self.chk(st, p, size, True, at, 'RMW')
        return Exec.rmw(self, st, p, size, fn, inst, **at)

    def cas(self, st, p, size, exp, new, inst, **at):
        self.chk(st, p, size, True, at, 'CAS')
        rs = Exec.cas(self, st, p, size, exp, new, inst, **at)
        for s, old, ok in rs:
            s.x['casok'] = ok
        return rs


def x_errno(ex, st, fr, ins, a, name):
    return Ptr('errno', 0)


def x_syscall(ex, st, fr, ins, a, name):
    M = ex.model
    n = a[0]
    if not isint(n) or n != SYS_FUTEX:
        raise Unsupported('system call %s' % n)
    if st.x.get('go') == 'sys':
        st.x['go'] = None
        r, e = st.x['sysres']
        if e is not None:
            ex.raw_write(st, 'errno', 0, 4, e)
        return r
    opn = a[2]
    if not isint(opn):
        raise Unsupported('futex operation is symbolic')
    addr = ex.as_ptr(st, a[1])
    raise Yield('futex', addr=(addr.obj, addr.off), fop=opn & 127, flags=opn & ~127, val=simp(a[3]) if len(a) > 3 else 0, arg=a[4] if len(a) > 4 else 0,
                addr2=a[5] if len(a) > 5 else 0)


def x_clock(ex, st, fr, ins, a, name):
    ex.write_mem(st, a[1], 8, fresh('clk_s', 64) & 0xffffffff)
    v = fresh('clk_n', 64)
    st.pc.append(z3.ULT(v, 1000000000))
    ex.write_mem(st, ex.padd(st, a[1], 8), 8, v)
    return 0


def x_now(ex, st, fr, ins, a, name):
    return fresh('now', 64) & ((1 << 50) - 1)


class Node:
    def __init__(self, id, st, pend, key):
        self.id = id
        self.st = st
        self.pend = pend
        self.key = key
        self.slots = []     # symbols in order
        self.edges = []


class Edge:
    __slots__ = ('src', 'dst', 'guard', 'slots', 'cells', 'accs', 'nd', 'casok', 'what', 'havoc', 'futex', 'ret')

    def __init__(self):
        self.futex = None
        self.ret = None


class Model:
    """shared memory layout and extraction of the threads"""

    def __init__(self, mods):
        self.mods = mods
        self.shared = set()
        self.cells = []       # (oid, off, size)
        self.active = False
        self.widen = set()
        self.ex = TSExec(mods, self)
        pool.install_heap(self.ex, may_fail=0)
        self.ex.ext.update({'syscall': x_syscall, '__errno_location': x_errno, 'clock_gettime': x_clock,
                            '_ZNSt6chrono3_V212steady_clock3nowEv': x_now, '_ZNSt6chrono3_V212system_clock3nowEv': x_now})
        self.st0 = State()
        self.ex.new_obj(self.st0, 'errno', 4, 'stack', 4)
        self.ex.raw_write(self.st0, 'errno', 0, 4, 0)
        self.newcell = False
        self.hold = None      # value of the counters the harness keeps up; cells that start there stay near it (checked)
        self.inv = {}
        self.seen = {}

    # cells
    def covers(self, oid, off, size):
        return any(o == oid and lo <= off and off + size <= lo + n for o, lo, n in self.cells)

    def overlaps(self, oid, off, size):
        return [(lo, n) for o, lo, n in self.cells if o == oid and lo < off + size and off < lo + n]

    def addcell(self, oid, off, size):
        lo, hi = off, off + size
        rest = []
        for c in self.cells:
            if c[0] == oid and c[1] < hi and lo < c[1] + c[2]:
                lo, hi = min(lo, c[1]), max(hi, c[1] + c[2])
            else:
                rest.append(c)
        self.cells = rest + [(oid, lo, hi - lo)]
        raise Restart()

    def invs(self):
        """assumed ranges of the cells whose initial value is the number of references held by the harness; the composition checks them"""
        if self.hold is None:
            return []
        r = []
        for c in self.cells:
            if c not in self.inv:
                v = self.ex.raw_read(self.st0, self.st0.objs[c[0]], c[1], c[2])
                self.inv[c] = isint(v) and v == self.hold
            if self.inv[c]:
                r.append(c)
        return r

    def invcond(self, c, v=None):
        v = self.csym(c) if v is None else v
        return z3.And(z3.UGE(v, self.hold // 2), z3.ULE(v, self.hold + self.hold // 2))

    def csym(self, c):
        return z3.BitVec('C_%d' % self.cells.index(c), 8 * c[2])

    def ndname(self, name):
        return name

    # canonical nodes
    def canon(self, st, pend):
        slots = []      # (expr or 'havoc', width/'b')
        ren = {}

        def loc(fr):
            return (fr.fn.name, fr.blk, fr.idx)
        where = tuple(loc(f) for f in st.frames)

        def oname(o):
            if o in self.shared or o in self.st0.objs:
                return o
            if o not in ren:
                ren[o] = '$%d' % len(ren)
                order.append(o)
            return ren[o]
        order = []

        def slot(e):
            if isinstance(e, z3.BoolRef):
                s = z3.Bool('sb%d' % len(slots))
            elif isinstance(e, tuple):      # ('havoc', w)
                s = z3.BitVec('hs%d_%d' % (len(slots), e[1]), e[1])
            else:
                s = z3.BitVec('s%d_%d' % (len(slots), e.size()), e.size())
            slots.append((s, e))
            return s

        def cv(v, path, w=None):
            """-> (key, replacement value)"""
            if isinstance(v, Ptr):
                off = v.off if isint(v.off) else simp(v.off)
                if not isint(off):
                    raise Unsupported('symbolic address live across an event')
                return ('p', oname(v.obj), off), v
            if isinstance(v, list):
                r = [cv(x, path + (i,)) for i, x in enumerate(v)]
                return ('l', tuple(a for a, b in r)), [b for a, b in r]
            if v is None:
                return ('n',), None
            if isint(v):
                k = (where, path)
                if k in self.widen:
                    s = slot(('havoc', w or 64))
                    return ('h', w or 64), s
                if w is not None and w > 1:
                    t = self.seen.setdefault(k, set())
                    t.add(v)
                    if len(t) > 3:
                        self.widen.add(k)
                        raise Restart()
                return ('i', v), v
            e = simp(v)
            if isint(e):
                return cv(e, path, w)
            k = (where, path)
            if k in self.widen:
                s = slot(('havoc', e.size()))
                return ('h', e.size()), s
            for sy, x in slots:
                if isinstance(x, z3.ExprRef) and x.eq(e):
                    return ('d', str(sy)), sy
            # new slots under names of their own: an old symbol may have the name of a new one
            sub = [(x, sy, z3.Const('new!' + str(sy), sy.sort())) for sy, x in slots if isinstance(x, z3.ExprRef) and not z3.is_bv_value(x)]
            if sub:
                d = z3.simplify(z3.substitute(e, *[(x, nw) for x, sy, nw in sub]))
                vs = set()
                _collect(d, vs)
                if {str(v) for v in vs} <= {str(nw) for x, sy, nw in sub}:
                    d = z3.simplify(z3.substitute(d, *[(nw, sy) for x, sy, nw in sub]))
                    return ('d', d.sexpr()), d
            s = slot(e)
            return ('s', str(s.sort())), s
        out = st.clone()
        out.pc = []
        out.events = []
        out.model = None
        key = [where, pend.kind]
        for n, f in enumerate(out.frames):
            top = n == len(out.frames) - 1
            f.visits = {}
            if f.asm is not None:
                f.asm = None
            if top:
                live = live_at(f.fn, f.blk, f.idx)
            else:
                live = live_at(f.fn, f.blk, f.idx + 1)
                live.discard(f.fn.blocks[f.blk][f.idx].res)
            regs = {}
            ks = []
            tys = self.types(f.fn)
            for r in sorted(live):
                if r not in f.regs:
                    continue
                k, v = cv(f.regs[r], (n, r), tys.get(r))
                regs[r] = v
                ks.append((r, k))
            f.regs = regs
            key.append(tuple(ks))
        # private memory: everything reachable
        done = 0
        e = out.obj_w('errno')
        k, v = cv(core.bv(self.ex.raw_read(out, e, 0, 4), 32) if True else 0, ('errno',), 32)
        if k[0] == 'i':       # keep as a precise slot
            s = slot(z3.BitVecVal(v, 32))
            slots[-1] = (s, z3.BitVecVal(v, 32))
            v = s
        out.obj_w('errno').chunks = {0: (4, v)}
        while done < len(order):
            o = order[done]
            done += 1
            ob = out.obj_w(o)
            ch = {}
            ks = []
            for off in sorted(ob.chunks):
                size, val = ob.chunks[off]
                if not isint(val) and not isinstance(val, Ptr):
                    vs = set()
                    _collect(val, vs)
                k, v = cv(val, ('m', ren[o], off), size * 8 if size > 1 else None)
                ch[off] = (size, v)
                ks.append((off, size, k))
            ob.chunks = ch
            key.append((ren[o], ob.size, tuple(ks)))
        # drop private objects that are not reachable and belong to popped frames
        keepid = set(order) | self.shared | set(self.st0.objs)
        for o in list(out.objs):
            if o not in keepid and out.objs[o].kind == 'stack':
                del out.objs[o]
        out.x = {}
        return tuple(key), out, slots

    def types(self, f):
        t = getattr(f, '_tys', None)
        if t is None:
            t = {}
            for insts in f.blocks.values():
                for i in insts:
                    if i.res is None:
                        continue
                    ty = i.ty
                    w = None
                    if i.op in ('icmp', 'fcmp'):
                        w = 1
                    elif i.op == 'cast':
                        ty = None
                        for x in i.a if isinstance(i.a, (list, tuple)) else ():
                            pass
                        try:
                            ty = i.a[2]
                        except Exception:
                            ty = None
                    if w is None and isinstance(ty, tuple) and ty and ty[0] == 'i':
                        w = ty[1]
                    t[i.res] = w
            f._tys = t
        return t

    # extraction
    def extract(self, entry, args):
        """-> list of nodes (node 0 = start); raises Restart when the set of cells grows"""
        ex = self.ex
        nodes = []
        index = {}
        self.active = True

        def get(st, y):
            key, out, slots = self.canon(st, y)
            pend = y
            k = (key, pend.kind, pend.kw.get('op'))
            if k in index:
                return nodes[index[k]], slots
            nd = Node(len(nodes), out, pend, k)
            nd.slots = [s for s, e in slots]
            index[k] = nd.id
            nodes.append(nd)
            work.append(nd)
            return nd, slots
        work = []
        st = self.st0.clone()
        st.status = 'run'
        st.pc = [self.invcond(c) for c in self.invs()]
        for c in self.cells:
            ex.raw_write(st, c[0], c[1], c[2], self.csym(c))
        ex.start(entry, list(args), st)
        start = Node(-1, st, Yield('start'), None)
        init = []
        # run up to the first event
        for s, y in self.advance(st):
            e = self.edge(start, s, y, get)
            init.append(e)
        while work:
            nd = work.pop()
            if len(nodes) > 400:
                raise Unsupported('too many control states')
            self.expand(nd, get)
        self.active = False
        return nodes, init

    def advance(self, st):
        """run st (and forks) to the next yield/return"""
        ex = self.ex
        work = [st]
        done = []
        steps = 0
        while work:
            s = work.pop()
            while s.status == 'run':
                if s.viol:
                    break
                steps += 1
                if steps > 200000:
                    raise Unsupported('step limit')
                try:
                    r = ex.step(s)
                except Yield as y:
                    f = s.frames[-1]
                    y.kw['site'] = (f.fn.name, f.blk, f.idx)
                    if f.asm is not None:
                        if f.asm.accd:
                            raise Unsupported('several shared accesses in one asm statement')
                        f.asm = None
                    done.append((s, y))
                    s = None
                    break
                if r is not None:
                    for x in r:
                        if x.status != 'infeasible':
                            work.append(x)
                    s = None
                    break
            if s is not None:
                done.append((s, None))
            if len(done) > 600:
                raise Unsupported('too many paths between events')
        return done

    def edge(self, nd, s, y, get, what=''):
        e = Edge()
        e.src = nd.id
        inv = [self.invcond(c) for c in self.invs()]
        e.guard = [tobool(c) for c in s.pc if not (isinstance(c, int) and c)]
        e.guard = [g for g in e.guard if not any(g.eq(x) for x in inv)]     # assumed ranges are checked where cells are written
        e.accs = list(s.x.get('acc', []))
        e.casok = s.x.get('casok')
        e.what = what
        e.cells = {}
        for c in self.cells:
            o = s.objs[c[0]]
            v = self.ex.raw_read(s, o, c[1], c[2]) if not o.dead else self.csym(c)
            if isinstance(v, Ptr):
                v = self.ex.ptr_bv(s, v)
            v = bv(v, 8 * c[2])
            v = z3.simplify(v)
            if not v.eq(self.csym(c)):
                e.cells[c] = v
        e.slots = []
        e.dst = None
        if y is not None and not s.viol:
            d, slots = get(s, y)
            e.dst = d.id
            e.slots = [(sy, None if isinstance(x, tuple) else x) for sy, x in slots]
        elif s.viol:
            e.dst = 'bad'
            e.what = '%s: %s' % s.viol[0]
        elif s.status == 'ret':
            e.dst = 'done'
            if s.ret is not None:
                v = self.ex.ptr_bv(s, s.ret) if isinstance(s.ret, Ptr) else s.ret
                v = bv(v, v.size() if isinstance(v, z3.BitVecRef) else 64) if not isinstance(v, z3.BoolRef) else z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
                e.ret = z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
        else:
            if s.status == 'cut':
                raise Unsupported('loop without shared events: %s' % (s.cuts,))
            e.dst = 'bad'
            e.what = 'ended as %s' % s.status
        nd.edges.append(e)
        return e

    def fresh_state(self, nd):
        st = nd.st.clone()
        st.status = 'run'
        for c in self.cells:
            self.ex.raw_write(st, c[0], c[1], c[2], self.csym(c))
        st.x = {}
        st.pc = [self.invcond(c) for c in self.invs()]
        st.viol = []
        st.model = None
        return st

    def expand(self, nd, get):
        y = nd.pend
        if y.kind == 'sync':
            st = self.fresh_state(nd)
            st.x['go'] = y.kind
            for s, y2 in self.advance(st):
                self.edge(nd, s, y2, get, y.kind)
            return
        if y.kind == 'futex':
            # the arguments as seen from the canonical state
            st = self.fresh_state(nd)
            rs = self.advance(st)
            if len(rs) != 1 or rs[0][1] is None or rs[0][1].kind != 'futex':
                raise Unsupported('system call arguments fork')
            kw = rs[0][1].kw
            nd.pend = rs[0][1]
            fop = kw['fop']
            if fop in (0, 9):
                outs = [('again', -1, EAGAIN), ('eintr', -1, EINTR), ('woken', 0, None)]
                if not (isint(kw['arg']) and kw['arg'] == 0):
                    outs.append(('timeout', -1, ETIMEDOUT))
            elif fop in (1, 3):
                outs = [('ret', 'n', None)]
            else:
                raise Unsupported('futex operation %d' % fop)
            for what, r, e in outs:
                st = self.fresh_state(nd)
                st.x['go'] = 'sys'
                if r == 'n':
                    v = z3.BitVec('FUTEXRET', 64)
                    st.pc.append(z3.ULE(v, 8))
                    st.x['sysres'] = (v, None)
                else:
                    st.x['sysres'] = (r & ((1 << 64) - 1), e)
                for s, y2 in self.advance(st):
                    ed = self.edge(nd, s, y2, get, what)
                    ed.futex = what
            return
        raise Unsupported('event ' + y.kind)


def futex_syms(n):
    out = set()
    if n.pend.kind == 'futex':
        for k in ('val', 'arg', 'addr2'):
            v = n.pend.kw[k]
            if isinstance(v, z3.ExprRef):
                _collect(v, out)
    return {str(x) for x in out}


def minimise(nodes, init):
    """drop values that cannot matter and steps that change nothing"""
    live = [futex_syms(n) for n in nodes]

    def syms(e):
        s = set()
        _collect(e, s)
        return {str(x) for x in s}
    ch = True
    memo = {}

    def fv(e):
        k = e.get_id()
        if k not in memo:
            memo[k] = (syms(e), e)
        return memo[k][0]
    while ch:
        ch = False
        for n in nodes:
            l = set(live[n.id])
            for e in n.edges:
                for g in e.guard:
                    l |= fv(g)
                for v in e.cells.values():
                    l |= fv(v)
                if e.ret is not None:
                    l |= fv(e.ret)
                if isint(e.dst):
                    for sy, x in e.slots:
                        if str(sy) in live[e.dst] and x is not None and not isint(x):
                            l |= fv(x)
            l &= {str(s) for s in n.slots}
            if l != live[n.id]:
                live[n.id] = l
                ch = True
    for es in [init] + [n.edges for n in nodes]:
        for e in es:
            if isint(e.dst):
                e.slots = [(sy, x) for sy, x in e.slots if str(sy) in live[e.dst]]
    # storage for arbitrary ('havoc') values is kept apart from the rest
    taint = [set() for n in nodes]
    ch = True
    while ch:
        ch = False
        for es, src in [(init, None)] + [(n.edges, n.id) for n in nodes]:
            for e in es:
                if not isint(e.dst):
                    continue
                for sy, x in e.slots:
                    t = x is None or (src is not None and isinstance(x, z3.ExprRef) and fv(x) & taint[src])
                    if t and str(sy) not in taint[e.dst]:
                        taint[e.dst].add(str(sy))
                        ch = True
    ren = []
    for n in nodes:
        m = []
        for sy in n.slots:
            if str(sy) in taint[n.id]:
                nm = 't' + str(sy)
                m.append((sy, z3.Bool(nm) if isinstance(sy, z3.BoolRef) else z3.BitVec(nm, sy.size())))
        ren.append(m)

    def rn(src, x):
        return z3.substitute(x, *ren[src]) if src is not None and isinstance(x, z3.ExprRef) and ren[src] else x
    for es, src in [(init, None)] + [(n.edges, n.id) for n in nodes]:
        for e in es:
            e.guard = [rn(src, g) for g in e.guard]
            e.cells = {c: rn(src, v) for c, v in e.cells.items()}
            e.ret = rn(src, e.ret)
            if isint(e.dst):
                d = {str(a): b for a, b in ren[e.dst]}
                e.slots = [(d.get(str(sy), sy), rn(src, x)) for sy, x in e.slots]
    for n in nodes:
        d = {str(a): b for a, b in ren[n.id]}
        n.slots = [d.get(str(s), s) for s in n.slots]
        live[n.id] = {str(d.get(s, s)) for s in live[n.id]}
        if n.pend.kind == 'futex':
            for k in ('val', 'arg', 'addr2'):
                n.pend.kw[k] = rn(n.id, n.pend.kw[k])
    for n in nodes:
        keep = []
        for e in n.edges:
            if e.dst == n.id and not e.cells and not e.futex and all(x is None or (isinstance(x, z3.ExprRef) and x.eq(sy)) for sy, x in e.slots):
                if all(a[4] == 'atomic' and a[0] == 'R' and a[5].get('order') in ('monotonic', 'unordered', 'relaxed') for a in e.accs):
                    continue
            keep.append(e)
        n.edges = keep
        n.slots = [s for s in n.slots if str(s) in live[n.id]]


def extract_all(mods_or_model, prepare, threads):
    """prepare(model) -> args per thread; threads: entry names.  Repeats until the set of shared cells is stable"""
    M = mods_or_model
    args = prepare(M)
    for n in range(80):
        try:
            M.seen = {}
            res = []
            memo = {}
            for t, a in zip(threads, args):
                k = (t, repr(a))
                if k not in memo:
                    memo[k] = M.extract(t, a)
                    minimise(*memo[k])
                res.append(memo[k])
            return res
        except Restart:
            M.active = False
            continue
    raise Unsupported('shared cells do not stabilise')
