"""Ordering of operations: signatures (the ordered accesses and barriers of one operation path, taken from its symbolic
execution) are placed into small concurrent programs; an SMT solver decides whether any compiler reordering (permitted by
the orders, clobbers and dependences found) followed by any x86-TSO execution produces the forbidden outcome."""
import time
import z3
from .core import isint

ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


class It:
    """one access or barrier"""
    __slots__ = ('k', 'r', 'w', 'locked', 'acq', 'rel', 'sc', 'full', 'vol', 'at', 'unit', 'role', 'txt')

    def __init__(self, k, **kw):
        self.k = k           # A access to the object, F barrier, L / U acquisition and release of the pool lock
        for s in self.__slots__[1:]:
            setattr(self, s, kw.get(s, False))

    def key(self):
        return (self.k,) + tuple(bool(getattr(self, s)) for s in self.__slots__[1:10]) + (self.unit, self.role)

    def show(self):
        n = {'A': ('RMW' if self.r and self.w else 'R' if self.r else 'W'), 'F': 'barrier', 'L': 'lock', 'U': 'unlock'}[self.k]
        f = [s for s in ('locked', 'acq', 'rel', 'sc', 'full', 'vol', 'at') if getattr(self, s)]
        return n + ('(%s)' % ','.join(f) if f else '')


def fence_item(e):
    if e.asm is not None:
        hw = e.order in ('mfence',) or bool(e.locked)
        return It('F', full=bool(e.memclob), locked=hw, vol=bool(e.vol))
    o = e.order
    if e.data in ('singlethread',) or (isinstance(e.data, str) and 'single' in e.data):
        return It('F', acq=o in ACQ, rel=o in REL, full=o == 'seq_cst')
    return It('F', acq=o in ACQ, rel=o in REL, full=o == 'seq_cst', locked=o == 'seq_cst')


def access_item(e, units):
    kind = e.kind
    asm = e.asm is not None
    r = kind in ('R', 'RMW', 'CAS')
    w = kind in ('W', 'RMW') or (kind == 'CAS' and bool(e.ok))
    it = It('A', r=r, w=w)
    if asm:
        it.full = bool(e.memclob)
        it.locked = bool(e.locked)
        it.vol = bool(e.vol)
        it.at = True
        it.unit = units.setdefault(id(e.asm), len(units) + 1)
        return it
    it.vol = bool(e.vol)
    it.at = bool(e.atomic) or it.vol
    if e.atomic:
        o = e.order
        if kind == 'CAS' and not e.ok:
            o = e.order2
        it.acq = r and o in ACQ
        it.rel = w and o in REL
        it.sc = o == 'seq_cst'
        it.locked = kind in ('RMW', 'CAS') or (kind == 'W' and o == 'seq_cst')
    return it


class Sig:
    def __init__(self, items):
        self.items = items
        self.ew = self.er = None
        self.where = ''
        self.names = []

    def key(self):
        return tuple(i.key() for i in self.items) + (self.ew, self.er)

    def show(self):
        return ' '.join(i.show() for i in self.items)


class Locks:
    """how the real lock pool acquires and releases (flags of the deciding accesses)"""

    def __init__(self, acqs, rels):
        self.acqs, self.rels = acqs, rels


def signatures(events, oid, locks, fences, lockfree=False):
    """one path of one operation -> list of Sig"""
    units = {}
    seqs = [[]]

    def add(*alts):
        nonlocal seqs
        seqs = [s + a for s in seqs for a in alts]
    locked = any(e.kind == 'LOCK' for e in events)
    insec = False
    sec = None
    for e in events:
        if e.kind == 'LOCK':
            k = e.order if e.order in locks.acqs else 'short_lock'
            add(*[[i] for i in locks.acqs[k]])
            insec = True
            sec = [False, False]
        elif e.kind == 'UNLOCK':
            insec = False
            a = []
            if sec and sec[0]:
                a.append(It('A', r=True))
            if sec and sec[1]:
                a.append(It('A', w=True))
            add(a)
            add(*[[i] for i in locks.rels])
        elif e.kind == 'FENCE':
            if e.order == 'pool':
                add(*[list(f) for f in fences[e.data]])
            else:
                add([fence_item(e)])
        elif e.obj == oid and e.kind in ('R', 'W', 'RMW', 'CAS'):
            it = access_item(e, units)
            if insec and not lockfree:
                sec[0] |= bool(it.r)
                sec[1] |= bool(it.w)
            else:
                add([it])
    out = []
    for s in seqs:
        g = Sig(s)
        for n, i in enumerate(s):
            if i.k == 'A':
                if i.w:
                    g.ew = n
        rd = [n for n, i in enumerate(s) if i.k == 'A' and i.r]
        if g.ew is not None:
            if s[g.ew].r:
                g.er = g.ew
            elif locked and rd and not lockfree:
                g.er = rd[-1]
        elif rd:
            g.er = rd[-1]
        out.append(g)
    return out


# ------------------------------------------------------------------------------------------
class Acc:
    __slots__ = ('t', 'n', 'it', 'loc', 'cp', 'mo', 'name', 'r', 'w', 'op')


def ordered(a, b, between, acc_a, acc_b):
    """does the compiler keep a before b (a precedes b in the source)?"""
    if a.k == 'F' or b.k == 'F':
        x, y = a, b
        if a.k == 'F' and a.full or b.k == 'F' and b.full:
            return True
        if a.vol and b.vol:
            return True
        # what a barrier itself orders (barrier -> later accesses handled for pairs around it)
        if a.k == 'F' and b.k != 'F' and a.locked and b.full:
            return True
        if b.k == 'F' and a.k != 'F' and b.locked and a.full:
            return True
        if a.k == 'F' and b.k == 'F':
            return True
        return False
    if acc_a.loc == acc_b.loc and (a.w or b.w or (a.at and b.at)):
        return True
    if a.acq or b.rel or a.full or b.full:
        return True
    if a.sc and b.sc:
        return True
    if a.vol and b.vol:
        return True
    if acc_a.op == acc_b.op and a.unit and a.unit == b.unit:
        return True
    for f in between:
        if f.full:
            return True
        if f.acq and a.r and a.at:
            return True
        if f.rel and b.w and b.at:
            return True
    return False


class Litmus:
    """threads: list of lists of parts ('W'|'R', loc) plain user accesses, (Sig, loc) operations"""

    def __init__(self, threads, hw='tso'):
        self.threads = threads
        self.accs = []
        self.by = []
        self.hw = hw
        opn = 0
        for t, parts in enumerate(threads):
            row = []
            acc_t = []
            for p, loc in parts:
                if isinstance(p, str):
                    its = [It('A', r=p == 'R', w=p == 'W')]
                else:
                    its = p.items
                cur = []
                opn += 1
                for i in its:
                    a = Acc()
                    a.t, a.n, a.it = t, len(acc_t), i
                    a.loc = ('lock', loc) if i.k in 'LU' else loc
                    a.op = opn
                    a.r = a.w = False
                    if i.k == 'A':
                        a.r, a.w = bool(i.r), bool(i.w)
                    elif i.k in 'LU':
                        a.r = a.w = True
                    acc_t.append(a)
                    cur.append(a)
                row.append(cur)
            self.by.append(row)
            self.accs.append(acc_t)

    def eff(self, t, part, what):
        p = self.threads[t][part][0]
        row = self.by[t][part]
        if isinstance(p, str):
            return row[0]
        return row[p.ew if what == 'w' else p.er]

    def solve(self, outcome, timeout=60000):
        S = z3.Solver()
        S.set('timeout', timeout)
        allm = []
        n = 0
        for t, acc in enumerate(self.accs):
            for a in acc:
                a.cp = z3.Int('c%d_%d' % (t, a.n))
                a.mo = z3.Int('m%d_%d' % (t, a.n))
                S.add(a.cp >= 0, a.cp < len(acc))
                if a.it.k != 'F':
                    allm.append(a)
            if len(acc) > 1:
                S.add(z3.Distinct([a.cp for a in acc]))
            for i, a in enumerate(acc):
                for j in range(i + 1, len(acc)):
                    b = acc[j]
                    fs = [x.it for x in acc[i + 1:j] if x.it.k == 'F']
                    if ordered(a.it, b.it, fs, a, b):
                        S.add(a.cp < b.cp)
        for a in allm:
            S.add(a.mo >= 0, a.mo < len(allm))
        S.add(z3.Distinct([a.mo for a in allm]) if len(allm) > 1 else True)
        for t, acc in enumerate(self.accs):
            hwf = [x for x in acc if x.it.k == 'F' and x.it.locked]
            ms = [x for x in acc if x.it.k != 'F']
            for a in ms:
                for b in ms:
                    if a is b:
                        continue
                    pure = a.w and not a.r and not a.it.locked and b.r and not b.w and not b.it.locked
                    if self.hw != 'tso' or not pure:
                        S.add(z3.Implies(a.cp < b.cp, a.mo < b.mo))
                    else:
                        for f in hwf:
                            S.add(z3.Implies(z3.And(a.cp < f.cp, f.cp < b.cp), a.mo < b.mo))
        self.sel = {}
        for r in allm:
            if not r.r:
                continue
            ws = [w for w in allm if w.w and w.loc == r.loc and w is not r]
            vis = {id(w): z3.Or(w.mo < r.mo, w.cp < r.cp) if w.t == r.t else w.mo < r.mo for w in ws}
            for w in ws:
                self.sel[id(r), id(w)] = z3.And([vis[id(w)]] + [z3.Or(z3.Not(vis[id(x)]), x.mo < w.mo) for x in ws if x is not w])
            self.sel[id(r), None] = z3.And([z3.Not(vis[id(w)]) for w in ws])
        # the pool lock is taken only when free and released only by its holder
        for a in allm:
            if a.it.k == 'L':
                S.add(z3.Or([self.sel[id(a), None]] + [self.sel[id(a), id(w)] for w in allm if w.it.k == 'U' and w.loc == a.loc]))
        S.add(outcome(self))
        r = S.check()
        self.model = S.model() if r == z3.sat else None
        return str(r)

    def rf(self, r, w):
        return self.sel[id(r), None if w is None else id(w)]

    def show(self):
        m = self.model
        out = []
        for t, acc in enumerate(self.accs):
            s = sorted(acc, key=lambda a: m.eval(a.cp, model_completion=True).as_long())
            out.append('thread %d executes: %s' % (t, '; '.join('%s %s' % (a.it.show(), a.loc if a.it.k != 'F' else '') for a in s)))
        mem = sorted([a for acc in self.accs for a in acc if a.it.k != 'F'], key=lambda a: m.eval(a.mo, model_completion=True).as_long())
        out.append('memory order: ' + ', '.join('T%d:%s %s' % (a.t, a.it.show().split('(')[0], a.loc) for a in mem))
        return out


# ------------------------------------------------------------------------------------------
def g(L, t, p, w):
    return L.eff(t, p, w)


def rf(t1, p1, t2, p2):
    """operation (t2,p2) reads from operation (t1,p1)"""
    return lambda L: L.rf(L.eff(t2, p2, 'r'), L.eff(t1, p1, 'w'))


def init(t, p):
    return lambda L: L.rf(L.eff(t, p, 'r'), None)


def before(t1, p1, t2, p2):
    return lambda L: L.eff(t1, p1, 'w').mo < L.eff(t2, p2, 'w').mo


def allof(*f):
    return lambda L: z3.And([x(L) for x in f])


def mp(rel, acq):
    return [[('W', 'x'), (rel, 'a')], [(acq, 'a'), ('R', 'x')]], allof(rf(0, 1, 1, 0), init(1, 1))


def lb(rel, acq):
    return [[('R', 'x'), (rel, 'a')], [(acq, 'a'), ('W', 'x')]], allof(rf(0, 1, 1, 0), rf(1, 1, 0, 0))


def chain(rel, rmw, acq):
    return [[('W', 'x'), (rel, 'a')], [(rmw, 'a')], [(acq, 'a'), ('R', 'x')]], allof(rf(0, 1, 1, 0), rf(1, 0, 2, 0), init(2, 1))


def wrc(rel, acq):
    """through a third thread and a second object"""
    return [[('W', 'x'), (rel, 'a')], [(acq, 'a'), (rel, 'b')], [(acq, 'b'), ('R', 'x')]], allof(rf(0, 1, 1, 0), rf(1, 1, 2, 0), init(2, 1))


def mpf(f1, w, r, f2):
    return [[('W', 'x'), (f1, 'f'), (w, 'a')], [(r, 'a'), (f2, 'f'), ('R', 'x')]], allof(rf(0, 2, 1, 0), init(1, 2))


def lbf(f1, w, r, f2):
    return [[('R', 'x'), (f1, 'f'), (w, 'a')], [(r, 'a'), (f2, 'f'), ('W', 'x')]], allof(rf(0, 2, 1, 0), rf(1, 2, 0, 0))


class Decider:
    def __init__(self):
        self.memo = {}
        self.n = 0
        self.time = 0.0
        self.hits = 0

    def ask(self, kind, lit, hw='tso'):
        """-> None or description of the forbidden execution"""
        threads, out = lit
        key = (kind, hw, tuple(tuple((p if isinstance(p, str) else p.key(), loc) for p, loc in t) for t in threads))
        if key in self.memo:
            self.hits += 1
            return self.memo[key]
        t0 = time.time()
        L = Litmus(threads, hw)
        r = L.solve(out)
        self.n += 1
        self.time += time.time() - t0
        if r == 'unsat':
            v = None
        elif r == 'sat':
            v = ('sat', L.show())
        else:
            v = ('unknown', [])
        self.memo[key] = v
        return v
