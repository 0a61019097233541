"""Bounded composition of extracted threads (vp/ts.py): every interleaving of their shared-memory events, the futex
system calls, spurious returns and timeouts are symbolic; SAT/SMT decides reachability of violations.

Data races are decided in every execution by happens-before knowledge propagated over the release/acquire operations
found in the code, so the answer does not rely on the interleaving (sequentially consistent) semantics of racy programs.
"""
import os
import re
import subprocess
import time
import z3
from .core import bv, isint, simp, Unsupported, Ptr
from . import build

KISSAT = '/usr/local/bin/kissat'
ACQ = {'acquire', 'acq_rel', 'seq_cst', 'consume'}
REL = {'release', 'acq_rel', 'seq_cst'}


def atom_orders(acc, casok):
    """(acquire?, release?, is read, is write, is rmw) of an atomic access"""
    kind, oid, off, size, _, at = acc
    o = at.get('order')
    if o == 'asm':
        mc = bool(at.get('memclob'))
        a = r = mc
    else:
        a, r = o in ACQ, o in REL
    if kind == 'R':
        return a, False, True, False, False
    if kind == 'W':
        return False, r, False, True, False
    if kind == 'RMW':
        return a, r, True, True, True
    if casok == 0 or casok is False:
        o2 = at.get('order2', o)
        if o2 == 'asm':
            o2 = 'acq_rel' if at.get('memclob') else 'monotonic'
        return o2 in ACQ, False, True, False, False
    return a, r, True, True, True


class Thread:
    def __init__(self, name, nodes, init):
        self.name = name
        self.edges = []       # (edge, src) numbered
        self.nodes = nodes
        self.N = len(nodes)
        self.START, self.DONE, self.BAD = self.N, self.N + 1, self.N + 2
        for e in init:
            self.edges.append((self.START, e))
        for n in nodes:
            for e in n.edges:
                self.edges.append((n.id, e))
        self.slots = {}
        for s, e in self.edges:
            for sy, x in e.slots:
                self.slots[str(sy)] = sy
        self.bits = max(3, (self.N + 3).bit_length())


class BMC:
    def __init__(self, model, threads, K, spurious=True, por=True, same=(), hb=True, sched=None):
        """threads: [(name, nodes, init)]; K steps"""
        self.M = model
        self.T = [Thread(*t) for t in threads]
        self.K = K if sched is None else len(sched)
        self.sched = sched      # step -> thread allowed to move (None: any)
        self.cells = list(model.cells)
        self.por = por
        self.spurious = spurious
        self.dohb = hb
        self.same = same          # pairs of interchangeable threads
        self.nt = len(self.T)
        self.queries = 0
        self.memo = {}
        self.time = 0.0
        self.cons = []
        self.viol = {}            # kind -> [expr]
        self.build()

    # ------------------------------------------------------------
    def cellof(self, oid, off, size):
        for c in self.cells:
            if c[0] == oid and c[1] <= off and off + size <= c[1] + c[2]:
                return c
        return None

    def analyse(self):
        """which cells take part in the happens-before bookkeeping"""
        kinds = {}
        for t in self.T:
            for s, e in t.edges:
                for a in e.accs:
                    c = self.cellof(a[1], a[2], a[3])
                    if c is None:
                        continue
                    at = a[4] == 'atomic'
                    if at:
                        _, _, r, w, _ = atom_orders(a, e.casok)
                    else:
                        r, w = a[0] == 'R', a[0] != 'R'
                    kk = kinds.setdefault(c, set())
                    if r:
                        kk.add('Ra' if at else 'Rp')
                    if w:
                        kk.add('Wa' if at else 'Wp')
        self.track = {}
        for c, kk in kinds.items():
            if 'Rp' in kk or 'Wp' in kk:
                self.track[c] = sorted(kk)
        self.sync = [c for c, kk in kinds.items() if 'Ra' in kk or 'Wa' in kk]
        self.items = [] if not self.dohb else [(c, k, u) for c, kk in self.track.items() for k in kk for u in range(self.nt)]

    def futex_addr(self, kw, key='addr'):
        o, off = kw[key]
        return (o, off, kw['flags'] & 128)

    def build(self):
        self.analyse()
        self.nar = self.narrow()
        K, nt = self.K, self.nt
        # futex addresses
        self.qaddr = []
        for t in self.T:
            for n in t.nodes:
                if n.pend.kind == 'futex':
                    a = self.futex_addr(n.pend.kw)
                    if a not in self.qaddr:
                        self.qaddr.append(a)
                    if n.pend.kw['fop'] in (3, 4):
                        p = n.pend.kw['addr2']
                        p = self.M.ex.as_ptr(n.st, p)
                        n.pend.kw['addr2p'] = (p.obj, p.off)
                        a = (p.obj, p.off, n.pend.kw['flags'] & 128)
                        if a not in self.qaddr:
                            self.qaddr.append(a)
        qb = max(2, (len(self.qaddr) + 1).bit_length())
        self.qb = qb
        self.fresh_n = 0
        V = self.var
        st = {}
        # initial state
        for i, c in enumerate(self.cells):
            v = self.M.ex.raw_read(self.M.st0, self.M.st0.objs[c[0]], c[1], c[2])
            if isinstance(v, Ptr):
                v = self.M.ex.ptr_bv(self.M.st0, v)
            st['C', c] = bv(v, 8 * c[2])
        for i, t in enumerate(self.T):
            init = t.START
            st['ret', i] = z3.BitVecVal(0, 64)
            for n, sy in t.slots.items():
                st['S', i, n] = z3.BoolVal(False) if isinstance(sy, z3.BoolRef) else z3.BitVecVal(0, sy.size())
            cur = init
            es = [e for s, e in t.edges if s == t.START]
            if len(es) == 1 and not es[0].accs and not es[0].cells and isint(es[0].dst):
                cur = es[0].dst
                for sy, x in es[0].slots:
                    if x is None:
                        st['S', i, str(sy)] = self.fresh('init', sy)
                    else:
                        st['S', i, str(sy)] = x if not isint(x) else z3.BitVecVal(x, sy.size())
                t.edges = [(s, e) for s, e in t.edges if s != t.START]
            for n in range(t.BAD + 1):
                st['at', i, n] = z3.BoolVal(n == cur)
            for a in range(1, len(self.qaddr) + 1):
                st['q', i, a] = z3.BoolVal(False)
            st['w', i] = z3.BoolVal(False)
        for it in self.items:
            for i in range(nt):
                st['K', i, it] = z3.BoolVal(True)
            for s in self.sync:
                st['M', s, it] = z3.BoolVal(True)
        self.states = [st]
        self.tr = []
        for k in range(K):
            self.step(k)
        self.final()

    def fresh(self, nm, sy):
        self.fresh_n += 1
        n = '%s!%d' % (nm, self.fresh_n)
        return z3.Bool(n) if isinstance(sy, z3.BoolRef) else z3.BitVec(n, sy.size())

    def var(self, nm, sort_of):
        return z3.Const(nm, sort_of.sort())

    def key(self, k):
        return '_'.join(self.M_name(x) for x in k)

    def M_name(self, x):
        if isinstance(x, tuple):
            if x in self.M.cells:
                return 'c%d' % self.M.cells.index(x)
            return '.'.join(self.M_name(y) for y in x)
        return str(x)

    # ------------------------------------------------------------
    def step(self, k):
        A = self.cons.append
        st = self.states[-1]
        nt = self.nt
        csub = [(self.M.csym(c), st['C', c]) for c in self.cells]
        T = []          # per thread list of bools
        upd = {key: [] for key in st}       # key -> [(cond, value)]
        allT = []
        sel = {}
        mv = {}
        viol = self.viol
        only = None if self.sched is None else self.sched[k]
        for i, t in enumerate(self.T):
            if only is not None and i != only:
                T.append([])
                continue
            sub = csub + [(sy, st['S', i, n]) for n, sy in t.slots.items()]
            Ti = []
            groups = {}
            moves = {}
            bysrc = {}
            for j, (src, e) in enumerate(t.edges):
                b = z3.Bool('T_%d_%d_%d' % (i, j, k))
                Ti.append(b)
                bysrc.setdefault(src, []).append(b)
                at = st['at', i, src]
                conds = [at]
                extra = []
                node = t.nodes[src] if src < t.N else None
                if node is not None and node.pend.kind == 'futex':
                    conds += self.futex(k, i, t, node, e, b, st, sub, upd, extra)
                for g in e.guard:
                    conds.append(tight(z3.simplify(z3.substitute(g, *(sub + extra))), self.memo))
                A(z3.Implies(b, z3.And(conds)))
                dst = e.dst if isint(e.dst) else t.DONE if e.dst == 'done' else t.BAD
                moves.setdefault(dst, []).append(b)
                if e.dst == 'bad':
                    viol.setdefault('bad', []).append((b, (k, i, e.what)))
                for c, v in e.cells.items():
                    upd['C', c].append((b, z3.substitute(v, *(sub + extra))))
                    if self.M.hold is not None and self.M.inv.get(c):
                        viol.setdefault('range', []).append((z3.And(b, z3.Not(self.M.invcond(c, z3.substitute(v, *(sub + extra))))), (k, i, 'cell %s' % (c,))))
                for sy, x in e.slots:
                    if x is None:
                        upd['S', i, str(sy)].append((b, self.fresh('h', sy)))
                    else:
                        x = bv(x, sy.size()) if not isinstance(sy, z3.BoolRef) else x
                        if isinstance(x, z3.BitVecRef) and isinstance(sy, z3.BoolRef):
                            x = x != 0
                        upd['S', i, str(sy)].append((b, z3.substitute(x, *(sub + extra))))
                if e.ret is not None:
                    upd['ret', i].append((b, z3.substitute(e.ret, *(sub + extra))))
                if e.accs:
                    sig = tuple((a[0], a[1], a[2], a[3], a[4]) + atom_orders(a, e.casok)[:5] if a[4] == 'atomic' else (a[0], a[1], a[2], a[3], a[4]) for a in e.accs)
                    groups.setdefault(sig, []).append((b, e))
            # a thread entering a futex wait
            for n in t.nodes:
                if n.pend.kind == 'futex' and n.pend.kw['fop'] in (0, 9):
                    qa = self.qaddr.index(self.futex_addr(n.pend.kw)) + 1
                    bl = z3.Bool('B_%d_%d_%d' % (i, n.id, k))
                    A(z3.Implies(bl, z3.And(st['at', i, n.id], z3.Not(st['w', i]), self.noq(st, i), self.fval(st, n, sub))))
                    upd['q', i, qa].append((bl, z3.BoolVal(True)))
                    Ti.append(bl)
                    bysrc.setdefault(n.id, []).append(bl)
                    t.blocks = getattr(t, 'blocks', {})
                    t.blocks[len(Ti) - 1] = n.id
            for src, bs in bysrc.items():
                for x in range(len(bs)):
                    for y in range(x):
                        A(z3.Or(z3.Not(bs[x]), z3.Not(bs[y])))
            T.append(Ti)
            for sig, bs in groups.items() if self.dohb else ():
                self.hb(i, sig, z3.Or([b for b, e in bs]) if len(bs) > 1 else bs[0][0], st, upd, k)
            sel[i] = z3.Or(Ti)
            mv[i] = moves
        # at most one transition; idle only when nothing can move any more
        s = [z3.Bool('sel_%d_%d' % (i, k)) if i in sel else z3.BoolVal(False) for i in range(nt)]
        for i in sel:
            A(s[i] == sel[i])
            for j in range(i):
                if j in sel:
                    A(z3.Or(z3.Not(s[i]), z3.Not(s[j])))
        if only is None:
            if k:
                A(z3.Implies(z3.Or(s), z3.Or(self.tr[-1][1])))
        elif k and self.sched[k - 1] == only:
            A(z3.Implies(s[only], self.tr[-1][1][only]))
        new = {}
        for i, t in enumerate(self.T):
            if i not in mv:
                for n in range(t.BAD + 1):
                    new['at', i, n] = st['at', i, n]
                continue
            movers = [b for j, b in enumerate(T[i]) if j < len(t.edges)]
            any_ = z3.Bool('mv_%d_%d' % (i, k))
            A(any_ == z3.Or(movers))
            for n in range(t.BAD + 1):
                inc = mv[i].get(n, [])
                nv = z3.Bool('at%d_%d_%d' % (k + 1, i, n))
                A(nv == z3.Or(inc + [z3.And(st['at', i, n], z3.Not(any_))]))
                new['at', i, n] = nv
        for key, v in st.items():
            if key[0] == 'at':
                continue
            us = upd[key]
            if not us:
                new[key] = v
                continue
            if key in self.nar:
                nn = z3.BitVec('v%d_%s' % (k + 1, self.key(key)), self.nar[key])
                nv = z3.SignExt(v.size() - self.nar[key], nn)
            else:
                nv = z3.Const('v%d_%s' % (k + 1, self.key(key)), v.sort())
            vals = {}
            for b, val in us:
                vals.setdefault(val.get_id(), [val, []])[1].append(b)
            allb = []
            for val, bs in vals.values():
                allb += bs
                if key in self.nar:
                    val = low(val, self.nar[key])
                if not (isinstance(val, z3.ExprRef) and z3.is_const(val) and val.decl().name().startswith('h!')):
                    g = z3.Or(bs) if len(bs) > 1 else bs[0]
                    A(z3.Implies(g, (nn if key in self.nar else nv) == val))
            A(z3.Implies(z3.Not(z3.Or(allb)), nn == low(v, self.nar[key]) if key in self.nar else nv == v))
            new[key] = nv
        self.tr.append((T, s))
        if k > 0 and self.por and only is None:
            self.peephole(k)
        for i, j in self.same:
            # interchangeable threads start in order
            pass
        self.states.append(new)

    def quiet(self, st):
        r = []
        for i, t in enumerate(self.T):
            r.append(z3.Or([st['at', i, t.DONE], st['at', i, t.BAD]] + self.inq(st, i)))
        return z3.And(r)

    def inq(self, st, i):
        return [st['q', i, a] for a in range(1, len(self.qaddr) + 1)]

    def noq(self, st, i):
        return z3.And([z3.Not(x) for x in self.inq(st, i)])

    def leave(self, upd, i, b):
        for a in range(1, len(self.qaddr) + 1):
            upd['q', i, a].append((b, z3.BoolVal(False)))

    def fval(self, st, n, sub):
        kw = n.pend.kw
        o, off = kw['addr']
        c = self.cellof(o, off, 4)
        if c is None:
            v = self.M.ex.raw_read(self.M.st0, self.M.st0.objs[o], off, 4)
            cur = bv(v, 32)
        else:
            cur = z3.Extract((off - c[1]) * 8 + 31, (off - c[1]) * 8, st['C', c])
        val = kw['val']
        val = z3.BitVecVal(val & 0xffffffff, 32) if isint(val) else z3.Extract(31, 0, val) if val.size() > 32 else val
        return tight(z3.simplify(cur == z3.substitute(val, *sub)), self.memo)

    def futex(self, k, i, t, node, e, b, st, sub, upd, extra):
        kw = node.pend.kw
        op = kw['fop']
        qa = self.qaddr.index(self.futex_addr(kw)) + 1
        what = e.futex
        if op in (0, 9):
            if what == 'again':
                return [self.noq(st, i), z3.Not(st['w', i]), z3.Not(self.fval(st, node, sub))]
            if what == 'eintr':
                if not self.spurious:
                    return [z3.BoolVal(False)]
                self.leave(upd, i, b)
                return [z3.Not(st['w', i])]
            if what == 'timeout':
                self.leave(upd, i, b)
                return [z3.Not(st['w', i])]
            if what == 'woken':
                upd['w', i].append((b, z3.BoolVal(False)))
                return [st['w', i]]
            raise Unsupported(what)
        # wake / requeue
        n = kw['val']
        if not isint(n):
            raise Unsupported('symbolic number of waiters')
        n &= 0xffffffff
        n = n - (1 << 32) if n >> 31 else n
        m = 0
        qb = 0
        if op in (3, 4):
            m = kw['arg']
            if isinstance(m, Ptr):
                m = m.off
            if not isint(m):
                raise Unsupported('symbolic number of waiters')
            m &= 0xffffffff
            m = m - (1 << 32) if m >> 31 else m
            o, off = kw['addr2p']
            qb = self.qaddr.index((o, off, kw['flags'] & 128)) + 1
        n, m = max(n, 0 if op in (3, 4) else 1), max(m, 0)
        others = [j for j in range(self.nt) if j != i]
        W = {j: z3.Bool('wk_%d_%d_%d' % (i, j, k)) for j in others}
        R = {j: z3.Bool('rq_%d_%d_%d' % (i, j, k)) for j in others}
        at = {j: st['q', j, qa] for j in others}
        r = []
        for j in others:
            r.append(z3.Implies(W[j], at[j]))
            r.append(z3.Implies(R[j], z3.And(at[j], z3.Not(W[j]))))
        if n == 0:
            r += [z3.Not(W[j]) for j in others]
        elif n >= len(others):
            r += [W[j] == at[j] for j in others]
        else:
            r.append(z3.PbLe([(W[j], 1) for j in others], n))
            r.append(z3.Or(z3.PbGe([(W[j], 1) for j in others], n), z3.And([W[j] == at[j] for j in others])))
        if m == 0:
            r += [z3.Not(R[j]) for j in others]
        elif m >= len(others):
            r += [R[j] == z3.And(at[j], z3.Not(W[j])) for j in others]
        else:
            r.append(z3.PbLe([(R[j], 1) for j in others], m))
            r.append(z3.Or(z3.PbGe([(R[j], 1) for j in others], m), z3.And([R[j] == z3.And(at[j], z3.Not(W[j])) for j in others])))
        for j in others:
            upd['w', j].append((z3.And(b, W[j]), z3.BoolVal(True)))
            upd['q', j, qa].append((z3.And(b, W[j]), z3.BoolVal(False)))
            if m and qb != qa:
                upd['q', j, qa].append((z3.And(b, R[j]), z3.BoolVal(False)))
                upd['q', j, qb].append((z3.And(b, R[j]), z3.BoolVal(True)))
        cnt = z3.BitVecVal(0, 64)
        for j in others:
            cnt = cnt + z3.If(W[j], z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        cn2 = cnt
        if m:
            for j in others:
                cn2 = cn2 + z3.If(R[j], z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            f = z3.Bool('frv_%d_%d' % (i, k))
            cnt = z3.If(f, cnt, cn2)
        extra.append((z3.BitVec('FUTEXRET', 64), cnt))
        return r

    CONFLICT = {'Rp': ('Wp', 'Wa'), 'Wp': ('Rp', 'Wp', 'Ra', 'Wa'), 'Ra': ('Wp',), 'Wa': ('Rp', 'Wp')}

    def hb(self, i, sig, g, st, upd, k):
        """happens-before bookkeeping of one access pattern executed by thread i when g"""
        Kn = {it: st['K', i, it] for it in self.items}
        oth = {}       # other knowledge changed
        race = []

        def access(c, kind):
            if c not in self.track:
                return
            for y in self.CONFLICT[kind]:
                if y in self.track[c]:
                    for u in range(self.nt):
                        if u != i:
                            race.append(z3.Not(Kn[c, y, u]))
            if kind in self.track[c]:
                it = (c, kind, i)
                Kn[it] = z3.BoolVal(True)
                for u in range(self.nt):
                    if u != i:
                        oth['K', u, it] = z3.BoolVal(False)
                for s in self.sync:
                    oth['M', s, it] = z3.BoolVal(False)
        for a in sig:
            c = self.cellof(a[1], a[2], a[3])
            if c is None:
                continue
            if a[4] == 'atomic':
                acq, rel, rd, wr, rmw = a[5:10]

                def mget(it):
                    return oth.get(('M', c, it), st['M', c, it])
                if acq:
                    for it in self.items:
                        Kn[it] = simplor(Kn[it], mget(it))
                if rd:
                    access(c, 'Ra')
                if wr:
                    access(c, 'Wa')
                    for it in self.items:
                        if rmw:
                            if rel:
                                oth['M', c, it] = simplor(mget(it), Kn[it])
                        else:
                            oth['M', c, it] = Kn[it] if rel else z3.BoolVal(False)
            else:
                access(c, 'Wp' if a[0] != 'R' else 'Rp')
        for it in self.items:
            if Kn[it] is not st['K', i, it]:
                upd['K', i, it].append((g, Kn[it]))
        for key, v in oth.items():
            upd[key].append((g, v))
        if race:
            self.viol.setdefault('race', []).append((z3.And(g, z3.Or(race)), (k, i, 'conflicting access without happens-before: %s' % (sig,))))

    # ------------------------------------------------------------
    def narrow(self):
        """variables that provably move by at most STEP per transition (as signed numbers) fit into few bits within K steps"""
        STEP = 8
        b = z3.BitVec('bnd', 64)
        cand = {}
        for c in self.cells:
            if c[2] in (2, 4, 8):
                cand['C', c] = 8 * c[2]
        for i, t in enumerate(self.T):
            for n, sy in t.slots.items():
                if isinstance(sy, z3.BitVecRef) and sy.size() in (16, 32, 64):
                    cand['S', i, n] = sy.size()
        inits = {}
        for c in self.cells:
            v = self.M.ex.raw_read(self.M.st0, self.M.st0.objs[c[0]], c[1], c[2])
            if isint(v):
                w = 8 * c[2]
                inits['C', c] = v - (1 << w) if v >> (w - 1) else v
            else:
                cand.pop(('C', c), None)
        big = max([abs(v) for v in inits.values() if abs(v) < 1000] + [16])
        for k, v in inits.items():
            if abs(v) > big:
                cand.pop(k, None)

        def sx(v):
            return z3.SignExt(64 - v.size(), v) if v.size() < 64 else v

        def inr(v, e):
            return z3.And(sx(v) <= e, -e <= sx(v))
        jobs = []
        for i, t in enumerate(self.T):
            for src, e in t.edges:
                for c, v in e.cells.items():
                    jobs.append((i, e, ('C', c), v))
                for sy, x in e.slots:
                    key = ('S', i, str(sy))
                    if key in cand:
                        if x is None:
                            cand.pop(key)
                        elif isint(x):
                            jobs.append((i, e, key, z3.BitVecVal(x, sy.size())))
                        else:
                            jobs.append((i, e, key, x))
        cache = {}
        while True:
            drop = set()
            for i, e, key, v in jobs:
                if key not in cand or key in drop:
                    continue
                ass = [b >= 64, b <= 1 << 13] + [g for g in e.guard]
                ass += [inr(self.M.csym(c), b) for c in self.cells if ('C', c) in cand]
                ass += [inr(sy, b) for n, sy in self.T[i].slots.items() if ('S', i, n) in cand]
                s = z3.Solver()
                s.set('timeout', 20000)
                s.add(ass)
                s.add(z3.Not(inr(v, b + STEP)))
                h = hash((s.sexpr(),))
                if h not in cache:
                    cache[h] = s.check() == z3.unsat
                    self.nq = getattr(self, 'nq', 0) + 1
                if not cache[h]:
                    if os.environ.get('DBG'): print('drop', key, v, [s.model() if False else ''], e.what, e.guard)
                    drop.add(key)
            if not drop:
                break
            for k in drop:
                cand.pop(k)
        lim = max(64, big) + STEP * (self.K + 1)
        w = lim.bit_length() + 1
        return {k: w for k, full in cand.items() if w < full}

    # static footprints for the partial-order constraint
    def foot(self, i, j):
        t = self.T[i]
        if not hasattr(t, 'fp'):
            t.fp = []
            for src, e in t.edges:
                r, w = set(), set()
                node = t.nodes[src] if src < t.N else None
                if node is not None and node.pend.kind == 'futex':
                    w.add('futex')
                    c = self.cellof(node.pend.kw['addr'][0], node.pend.kw['addr'][1], 4)
                    if c:
                        r.add(c)
                for a in e.accs:
                    c = self.cellof(a[1], a[2], a[3])
                    if c is None:
                        continue
                    (r if a[0] == 'R' or (a[0] == 'CAS' and not e.cells.get(c) is not None and (e.casok == 0)) else w).add(c)
                for c in e.cells:
                    w.add(c)
                if e.dst == 'bad':
                    w.add('bad')
                t.fp.append((r, w))
            # blocking
            r = {'x'}
            t.fb = (set(self.cells), {'futex'})
        return t.fp[j] if j < len(t.edges) else t.fb

    def peephole(self, k):
        """two adjacent independent steps: lower thread first"""
        (T0, s0), (T1, s1) = self.tr[k - 1], self.tr[k]
        for b in range(self.nt):
            for a in range(b):
                # step k-1 by b, step k by a < b: must be dependent
                cls0, cls1 = {}, {}
                for x, tb in enumerate(T0[b]):
                    f = self.foot(b, x)
                    cls0.setdefault((frozenset(f[0]), frozenset(f[1])), []).append(tb)
                for x, tb in enumerate(T1[a]):
                    f = self.foot(a, x)
                    cls1.setdefault((frozenset(f[0]), frozenset(f[1])), []).append(tb)
                for f0, l0 in cls0.items():
                    ind = []
                    for f1, l1 in cls1.items():
                        dep = (f0[1] & f1[1]) or (f0[1] & f1[0]) or (f0[0] & f1[1])
                        if not dep:
                            ind += l1
                    if ind:
                        self.cons.append(z3.Or(z3.Not(z3.Or(l0)), z3.Not(z3.Or(ind))))

    def final(self):
        st = self.states[-1]
        self.end = st
        self.done = {i: st['at', i, t.DONE] for i, t in enumerate(self.T)}
        self.blocked = {i: z3.Or(self.inq(st, i)) for i in range(self.nt)}
        self.stuckat = []
        self.stuck = {i: self.cannot(st, i, t) for i, t in enumerate(self.T)}

    def cannot(self, st, i, t):
        """thread i is not finished and nothing it could do is enabled (interrupted system calls do not count as progress)"""
        k = len(self.tr)
        csub = [(self.M.csym(c), st['C', c]) for c in self.cells]
        sub = csub + [(sy, st['S', i, n]) for n, sy in t.slots.items()]
        en = [st['at', i, t.DONE], st['at', i, t.BAD]]
        for src, e in t.edges:
            node = t.nodes[src] if src < t.N else None
            conds = [st['at', i, src]]
            if node is not None and node.pend.kind == 'futex':
                if e.futex == 'eintr':
                    continue
                if e.futex == 'again':
                    conds += [self.noq(st, i), z3.Not(st['w', i]), z3.Not(self.fval(st, node, sub))]
                elif e.futex == 'woken':
                    conds.append(st['w', i])
            if e.futex == 'ret':
                pass
            else:
                conds += [tight(z3.simplify(z3.substitute(g, *sub)), self.memo) for g in e.guard]
            en.append(z3.And(conds))
        for n in t.nodes:
            if n.pend.kind == 'futex' and n.pend.kw['fop'] in (0, 9):
                en.append(z3.And(st['at', i, n.id], z3.Not(st['w', i]), self.noq(st, i), self.fval(st, n, sub)))
        return z3.Not(z3.Or(en))

    # ------------------------------------------------------------
    def solve(self, prop, timeout=600):
        """prop: expression describing a violation; -> ('unsat'|'sat'|'unknown', model)"""
        t0 = time.time()
        g = z3.Goal()
        g.add(self.cons)
        g.add(prop)
        tac = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'card2bv', 'bit-blast', 'tseitin-cnf')
        tac = z3.With(tac, 'cardinality.encoding', 'sequential') if False else tac
        r = tac(g)
        self.queries += 1
        sg = r[0]
        if sg.inconsistent():
            self.time += time.time() - t0
            return 'unsat', None
        dim = sg.dimacs()
        t1 = time.time()
        fn = os.path.join(build.tmpdir(), 'q%d_%d.cnf' % (os.getpid(), self.queries))
        with open(fn, 'w') as f:
            f.write(dim)
        try:
            p = subprocess.run([KISSAT, '-q', '--time=%d' % timeout, fn], stdout=subprocess.PIPE, universal_newlines=True)
        finally:
            os.rename(fn, os.environ["KEEPCNF"]) if os.environ.get("KEEPCNF") else os.unlink(fn)
        self.time += time.time() - t0
        self.last = (t1 - t0, time.time() - t1, dim[:80].split('\n')[0])
        if 's UNSATISFIABLE' in p.stdout:
            return 'unsat', None
        if 's SATISFIABLE' not in p.stdout:
            return 'unknown', None
        lits = set()
        for l in p.stdout.split('\n'):
            if l.startswith('v '):
                lits.update(int(x) for x in l[2:].split())
        names = {}
        for l in dim.split('\n'):
            if l.startswith('c '):
                a = l.split()
                names[int(a[1])] = a[2]
        s = z3.Solver()
        s.add(self.cons)
        s.add(prop)
        for n, nm in names.items():
            if re.match(r'^(T|B|wk|rq|frv|sel|at|mv)[_0-9]', nm):
                s.add(z3.Bool(nm) if n in lits else z3.Not(z3.Bool(nm)))
        s.set('timeout', timeout * 1000)
        if s.check() == z3.sat:
            return 'sat', s.model()
        return 'unknown', None

    def trace(self, m):
        """-> list of (step, thread, description)"""
        out = []
        for k, (T, s) in enumerate(self.tr):
            for i, Ti in enumerate(T):
                for j, b in enumerate(Ti):
                    if z3.is_true(m.eval(b, model_completion=True)):
                        t = self.T[i]
                        if j < len(t.edges):
                            src, e = t.edges[j]
                            n = t.nodes[src] if src < t.N else None
                            out.append((k, i, src, e.dst, e.what, n.pend.kw.get('site') if n else None))
                        else:
                            v = t.blocks[j]
                            out.append((k, i, v, v, 'block', t.nodes[v].pend.kw.get('site')))
        return out


def low(e, w):
    """low w bits of e, pushed towards the leaves"""
    if e.size() == w:
        return e
    k = e.decl().kind()
    ch = e.children()
    if z3.is_bv_value(e):
        return z3.BitVecVal(e.as_long() & ((1 << w) - 1), w)
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL):
        c = [low(x, w) for x in ch]
        if k == z3.Z3_OP_BNOT:
            return ~c[0]
        if k == z3.Z3_OP_BNEG:
            return -c[0]
        r = c[0]
        for x in c[1:]:
            r = {z3.Z3_OP_BADD: lambda a, b: a + b, z3.Z3_OP_BSUB: lambda a, b: a - b, z3.Z3_OP_BAND: lambda a, b: a & b, z3.Z3_OP_BOR: lambda a, b: a | b,
                 z3.Z3_OP_BXOR: lambda a, b: a ^ b, z3.Z3_OP_BMUL: lambda a, b: a * b}[k](r, x)
        return r
    if k == z3.Z3_OP_ITE:
        return z3.If(ch[0], low(ch[1], w), low(ch[2], w))
    if k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
        n = ch[0].size()
        if n >= w:
            return low(ch[0], w)
        return (z3.SignExt if k == z3.Z3_OP_SIGN_EXT else z3.ZeroExt)(w - n, ch[0])
    if k == z3.Z3_OP_CONCAT:
        last = ch[-1]
        if last.size() >= w:
            return low(last, w)
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        if lo == 0:
            return low(ch[0], w)
    return z3.Extract(w - 1, 0, e)


def width(e):
    """smallest signed width that certainly holds e"""
    k = e.decl().kind()
    ch = e.children()
    if z3.is_bv_value(e):
        v = e.as_signed_long()
        return min(e.size(), (v if v >= 0 else ~v).bit_length() + 1)
    if k == z3.Z3_OP_SIGN_EXT:
        return ch[0].size()
    if k == z3.Z3_OP_ZERO_EXT:
        return ch[0].size() + 1
    if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT):
        return min(e.size(), max(width(c) for c in ch))
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        return min(e.size(), max(width(c) for c in ch) + len(ch) - 1)
    if k == z3.Z3_OP_ITE:
        return max(width(ch[1]), width(ch[2]))
    return e.size()


def tight(e, memo):
    """narrow the comparisons inside a condition"""
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    r = e
    if z3.is_bool(e):
        ch = e.children()
        k = e.decl().kind()
        if k == z3.Z3_OP_EQ and z3.is_bv(ch[0]):
            w = max(width(ch[0]), width(ch[1]))
            if w < ch[0].size():
                r = low(ch[0], w) == low(ch[1], w)
        elif ch and all(z3.is_bool(c) for c in ch):
            c2 = [tight(c, memo) for c in ch]
            if k == z3.Z3_OP_AND:
                r = z3.And(c2)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(c2)
            elif k == z3.Z3_OP_NOT:
                r = z3.Not(c2[0])
    memo[i] = (e, r)
    return r


def simplor(a, b):
    if z3.is_true(a) or z3.is_true(b):
        return z3.BoolVal(True)
    if z3.is_false(a):
        return b
    if z3.is_false(b):
        return a
    if a.eq(b):
        return a
    return z3.Or(a, b)
