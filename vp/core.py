"""Symbolic executor for LLVM IR (clang 18) with z3.

Values: python int (concrete, unsigned canonical), z3 BitVec / Bool (i1), Ptr, list (aggregate / vector).
"""
import itertools
import time
import z3
from . import ir

_cnt = itertools.count()


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return '&%s+%s' % (self.obj, self.off)


def fresh(name, w):
    return z3.BitVec('%s!%d' % (name, next(_cnt)), w)


def freshb(name):
    return z3.Bool('%s!%d' % (name, next(_cnt)))


def mask(w):
    return (1 << w) - 1


def isint(v):
    return isinstance(v, int)


def bv(v, w):
    """z3 BitVec of width w"""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if v.size() != w:
        raise Unsupported('width %d vs %d' % (v.size(), w))
    return v


def simp(v):
    """simplify; return python int if constant"""
    if isinstance(v, int):
        return v
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
    return v


def toint(v):
    """constant -> int, without full simplify"""
    if isinstance(v, int):
        return v
    if z3.is_bv_value(v):
        return v.as_long()
    return v


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def binop(op, a, b, w):
    if w == 1 and (isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef) or (isint(a) and isint(b))):
        if isint(a) and isint(b):
            pass
        else:
            if op == 'and':
                if isint(a):
                    return b if a else 0
                if isint(b):
                    return a if b else 0
                return z3.And(a, b)
            if op == 'or':
                if isint(a):
                    return 1 if a else b
                if isint(b):
                    return 1 if b else a
                return z3.Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isint(a):
                    return z3.Not(b) if a else b
                if isint(b):
                    return z3.Not(a) if b else a
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
    m = mask(w)
    if isint(a) and isint(b):
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & m
        if op == 'udiv' and b:
            return a // b
        if op == 'urem' and b:
            return a % b
        if op in ('sdiv', 'srem') and b:
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == 'sdiv' else x - q * y) & m
    # light identities
    if isint(b):
        if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if b == 0 and op == 'and':
            return 0
        if b == m and op == 'and':
            return a
        if b == 1 and op in ('mul', 'udiv', 'sdiv'):
            return a
    if isint(a):
        if a == 0 and op in ('add', 'or', 'xor'):
            return b
        if a == 0 and op in ('and', 'mul', 'shl', 'lshr'):
            return 0
        if a == m and op == 'and':
            return b
    A, B = bv(a, w), bv(b, w)
    if op == 'add':
        return A + B
    if op == 'sub':
        return A - B
    if op == 'mul':
        return A * B
    if op == 'and':
        return A & B
    if op == 'or':
        return A | B
    if op == 'xor':
        return A ^ B
    if op == 'shl':
        return A << B
    if op == 'lshr':
        return z3.LShR(A, B)
    if op == 'ashr':
        return A >> B
    if op == 'udiv':
        return z3.UDiv(A, B)
    if op == 'urem':
        return z3.URem(A, B)
    if op == 'sdiv':
        return A / B
    if op == 'srem':
        return z3.SRem(A, B)
    raise Unsupported(op)


def extract(v, hi, lo):
    if isint(v):
        return (v >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == v.size() - 1:
        return v
    # structural simplification keeps byte-wise copies of one term recognisable as that term
    while True:
        if z3.is_app_of(v, z3.Z3_OP_EXTRACT):
            h0, l0 = v.params()
            hi, lo = hi + l0, lo + l0
            v = v.arg(0)
        elif z3.is_app_of(v, z3.Z3_OP_CONCAT):
            pos = 0
            hit = None
            for i in range(v.num_args() - 1, -1, -1):
                a = v.arg(i)
                n = a.size()
                if lo >= pos and hi < pos + n:
                    hit = (a, pos)
                    break
                pos += n
            if hit is None:
                break
            v, pos = hit
            hi -= pos
            lo -= pos
        elif z3.is_app_of(v, z3.Z3_OP_ZERO_EXT):
            a = v.arg(0)
            n = a.size()
            if hi < n:
                v = a
            elif lo >= n:
                return 0
            else:
                break
        else:
            break
        if lo == 0 and hi == v.size() - 1:
            return v
    if z3.is_bv_value(v):
        return (v.as_long() >> lo) & mask(hi - lo + 1)
    if z3.is_app_of(v, z3.Z3_OP_CONCAT):
        # spans several arguments: rebuild from the parts
        parts = []
        pos = 0
        for i in range(v.num_args() - 1, -1, -1):
            a = v.arg(i)
            n = a.size()
            x, y = max(lo, pos), min(hi, pos + n - 1)
            if x <= y:
                parts.append((extract(a, y - pos, x - pos), y - x + 1))
            pos += n
        return concat(parts)
    return z3.Extract(hi, lo, v)


def zext(v, fr, to):
    if isint(v):
        return v
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, to), z3.BitVecVal(0, to))
    if fr == to:
        return v
    return z3.ZeroExt(to - fr, v)


def sext(v, fr, to):
    if isint(v):
        return sgn(v, fr) & mask(to)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(mask(to), to), z3.BitVecVal(0, to))
    if fr == to:
        return v
    return z3.SignExt(to - fr, v)


def concat(parts):
    """parts: [(value,width)] least significant first"""
    if all(isint(v) for v, _ in parts):
        r = 0
        s = 0
        for v, w in parts:
            r |= v << s
            s += w
        return r
    # merge adjacent extracts of the same term
    out = []
    for v, w in parts:
        if out and not isint(v) and not isint(out[-1][0]):
            pv, pw = out[-1]
            m = _merge(pv, v)
            if m is not None:
                out[-1] = (m, pw + w)
                continue
        elif out and isint(v) and isint(out[-1][0]):
            pv, pw = out[-1]
            out[-1] = (pv | (v << pw), pw + w)
            continue
        out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    return z3.Concat(*[bv(v, w) for v, w in reversed(out)])


def _merge(lo, hi):
    if z3.is_app_of(lo, z3.Z3_OP_EXTRACT) and z3.is_app_of(hi, z3.Z3_OP_EXTRACT):
        if lo.arg(0).eq(hi.arg(0)):
            lh, ll = lo.params()
            hh, hl = hi.params()
            if hl == lh + 1:
                x = lo.arg(0)
                if ll == 0 and hh == x.size() - 1:
                    return x
                return z3.Extract(hh, ll, x)
    return None


def eqv(a, b, w):
    """equality as int(0/1) or Bool"""
    if isint(a) and isint(b):
        return int(a == b)
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        a, b = tobool(a), tobool(b)
        return simp(a == b)
    A, B = bv(a, w), bv(b, w)
    if A.eq(B):
        return 1
    return A == B


def tobool(v):
    if isint(v):
        return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef):
        return v
    return v == 1 if v.size() == 1 else v != 0


def notb(v):
    if isint(v):
        return 1 - v
    return z3.Not(v)


class Event:
    __slots__ = ('kind', 'obj', 'off', 'size', 'order', 'order2', 'vol', 'atomic', 'locked', 'asm', 'memclob', 'rval', 'wval', 'ok',
                 'expected', 'data', 'inst', 'weak', 'align', 'grp')

    def __init__(self, kind, **kw):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, kw.get(s))

    def __repr__(self):
        s = '%s' % self.kind
        if self.obj is not None:
            s += ' %s+%s:%s' % (self.obj, self.off, self.size)
        for k in ('order', 'atomic', 'vol', 'locked', 'asm', 'memclob', 'rval', 'wval', 'ok', 'expected', 'data'):
            v = getattr(self, k)
            if v is not None and v is not False:
                s += ' %s=%s' % (k, str(v).replace('\n', ' ')[:100])
        return '<' + s + '>'


class Obj:
    __slots__ = ('id', 'size', 'kind', 'chunks', 'base', 'gen', 'shared', 'ro', 'align', 'dead', 'symidx', 'data')

    def __init__(self, id, size, kind, base, gen, align=1):
        self.id = id
        self.size = size
        self.kind = kind
        self.chunks = {}
        self.base = base
        self.gen = gen
        self.shared = None
        self.ro = False
        self.align = align
        self.dead = False
        self.symidx = False
        self.data = None

    def clone(self, gen):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.size = self.size
        o.kind = self.kind
        o.chunks = dict(self.chunks)
        o.base = self.base
        o.gen = gen
        o.shared = self.shared
        o.ro = self.ro
        o.align = self.align
        o.dead = self.dead
        o.symidx = self.symidx
        o.data = self.data
        return o


class Frame:
    __slots__ = ('fn', 'mod', 'regs', 'blk', 'idx', 'prev', 'retres', 'retty', 'visits', 'asm', 'okblk', 'allocas', 'varargs')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.mod = self.mod
        f.regs = dict(self.regs)
        f.blk = self.blk
        f.idx = self.idx
        f.prev = self.prev
        f.retres = self.retres
        f.retty = self.retty
        f.visits = dict(self.visits)
        f.asm = self.asm.clone() if self.asm else None
        f.okblk = self.okblk
        f.allocas = self.allocas
        f.varargs = self.varargs
        return f


_gen = itertools.count(1)


class State:
    __slots__ = ('frames', 'objs', 'pc', 'events', 'gen', 'status', 'ret', 'viol', 'x', 'cuts', 'paused', 'model', 'steps', 'labels')

    def __init__(self):
        self.frames = []
        self.objs = {}
        self.pc = []
        self.events = []
        self.gen = next(_gen)
        self.status = 'run'
        self.ret = None
        self.viol = []
        self.x = {}
        self.cuts = None
        self.paused = False
        self.model = None
        self.steps = 0
        self.labels = []

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.pc = list(self.pc)
        s.events = list(self.events)
        self.gen = next(_gen)
        s.gen = next(_gen)
        s.status = self.status
        s.ret = self.ret
        s.viol = list(self.viol)
        s.x = {k: (v.copy() if isinstance(v, (dict, list, set)) else v) for k, v in self.x.items()}
        s.cuts = self.cuts
        s.paused = self.paused
        s.model = self.model
        s.steps = self.steps
        s.labels = list(self.labels)
        return s

    def obj_w(self, id):
        o = self.objs[id]
        if o.gen != self.gen:
            o = o.clone(self.gen)
            self.objs[id] = o
        return o


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.fns = set()
        self.insts = 0
        self.asms = set()
        self.paths = 0
        self.cuts = 0
        self.unknown = 0

    def merge(self, o):
        self.queries += o.queries
        self.time += o.time
        self.fns |= o.fns
        self.insts += o.insts
        self.asms |= o.asms
        self.paths += o.paths
        self.cuts += o.cuts
        self.unknown += o.unknown


class SolverTimeout(Exception):
    pass


class Exec:
    def __init__(self, mods, externals=None, loop_bound=40, max_paths=4000, timeout_ms=60000):
        self.mods = mods
        self.ext = dict(DEFAULT_EXT)
        if externals:
            self.ext.update(externals)
        self.override = {}
        self.loop_bound = loop_bound
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.stats = Stats()
        self.fnmap = {}
        self.spurious_weak = True
        self.havoc = False
        self.cas_fail_bound = None   # in havoc mode, cut after that many failing CAS on shared memory
        for m in mods:
            for f in m.fns.values():
                if not f.decl and f.name not in self.fnmap:
                    self.fnmap[f.name] = (f, m)
        self.base_next = 0x100000
        self.fnaddr = {}
        self.trace = False
        self.trap_assume = False
        self.asm_contract = True
        self.on_access = None
        self.inst_hook = None
        self.fork_enum = 32
        self.asm_marks = False       # report memory clobbers and locked accesses to private memory as fence events

    # ---------- solver -----------
    def check(self, st, *extra):
        cs = [c for c in list(st.pc) + list(extra) if not (isinstance(c, int) and c)]
        t = time.time()
        if self.sliced:
            from . import lia
            r = lia.solve([tobool(c) for c in cs], self.timeout_ms, self.stats)
            self.stats.time += time.time() - t
            if r == 'unknown':
                self.stats.unknown += 1
                raise SolverTimeout('solver: unknown')
            return None if r == 'unsat' else r
        s = z3.SolverFor('QF_AUFBV') if not self.use_fp else z3.Solver()
        s.set('timeout', self.timeout_ms)
        for c in cs:
            s.add(tobool(c))
        r = s.check()
        self.stats.queries += 1
        self.stats.time += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            raise SolverTimeout('solver: ' + s.reason_unknown())
        if r == z3.sat:
            return s.model()
        return None

    use_fp = False
    sliced = False

    def prove(self, st, cond):
        """None if cond holds on every assignment satisfying the path condition, else a model"""
        cond = simp(cond) if not isint(cond) else cond
        if isint(cond) and cond:
            return None
        return self.check(st, notb(cond) if not isint(cond) else 1)

    def feasible(self, st, cond):
        c = simp(cond)
        if isint(c):
            return bool(c)
        if st.model is not None:
            try:
                e = st.model.eval(c, model_completion=True)
                if z3.is_true(e):
                    return True
            except z3.Z3Exception:
                pass
        m = self.check(st, c)
        return m is not None

    def split(self, st, cond):
        """returns [(state, bool)] for the feasible outcomes of cond"""
        c = simp(cond)
        if isint(c):
            return [(st, bool(c))]
        c = tobool(c)
        t = self.check(st, c)
        f = self.check(st, z3.Not(c))
        r = []
        if t is not None and f is not None:
            s2 = st.clone()
            st.pc.append(c)
            st.model = t
            s2.pc.append(z3.Not(c))
            s2.model = f
            return [(st, True), (s2, False)]
        if t is not None:
            return [(st, True)]
        if f is not None:
            return [(st, False)]
        st.status = 'infeasible'
        return []

    # ---------- memory -----------
    def new_obj(self, st, name, size, kind='stack', align=16, base=None):
        id = '%s#%d' % (name, next(_cnt)) if name in st.objs else name
        if base is None:
            a = max(align, 16)
            b = (self.base_next + a - 1) // a * a
            self.base_next = b + (size if isint(size) else 4096) + 64
            base = b
        o = Obj(id, size, kind, base, st.gen, align)
        st.objs[id] = o
        return Ptr(id, 0)

    def ptr_bv(self, st, p):
        if isinstance(p, Ptr):
            o = st.objs.get(p.obj)
            if o is None:
                if p.obj.startswith('fn:'):
                    if p.obj not in self.fnaddr:
                        self.fnaddr[p.obj] = 0x400000 + 16 * len(self.fnaddr)
                    return self.fnaddr[p.obj]
                raise Unsupported('ptr to unknown ' + p.obj)
            return binop('add', o.base, p.off, self.pw)
        return p

    pw = 64

    def as_ptr(self, st, v):
        """resolve an integer value to Ptr if possible"""
        if isinstance(v, Ptr):
            return v
        v = simp(v)
        if isint(v):
            for o in st.objs.values():
                if isint(o.base) and o.base <= v < o.base + (o.size or 1):
                    return Ptr(o.id, v - o.base)
            raise Unsupported('dereference of wild/null pointer %#x' % v)
        vars = set()
        _collect(v, vars)
        for o in st.objs.values():
            if not isint(o.base):
                bs = set()
                _collect(o.base, bs)
                if bs & vars:
                    off = simp(v - o.base)
                    if isint(off):
                        return Ptr(o.id, off)
                    ov = set()
                    _collect(off, ov)
                    if not (ov & bs):
                        return Ptr(o.id, off)
        # solver based: is it within one object
        for o in st.objs.values():
            if o.dead or o.size in (0, None):
                continue
            lo = bv(o.base, self.pw)
            inside = z3.ULT(bv(v, self.pw) - lo, o.size)
            if self.check(st, z3.Not(inside)) is None:
                return Ptr(o.id, simp(bv(v, self.pw) - lo))
        raise Unsupported('cannot resolve pointer %s' % v)

    def conc_off(self, st, off):
        """try to make offset concrete"""
        off = simp(off)
        if isint(off):
            return off
        m = self.check(st)
        if m is None:
            return off
        v = m.eval(off, model_completion=True).as_long()
        if self.check(st, off != v) is None:
            return v
        return off

    def resolve(self, st, p, size):
        """-> (obj id, concrete offset); handles symbolic indexing"""
        p = self.as_ptr(st, p)
        off = p.off
        if not isint(off):
            off = simp(off)
        if not isint(off):
            o = st.objs[p.obj]
            if o.symidx:
                return self.resolve_sym(st, o, off)
            off = self.conc_off(st, off)
            if not isint(off):
                raise Fork(p, off)
        w = self.pw
        if off >> (w - 1):
            off -= 1 << w
        return p.obj, off

    def resolve_sym(self, st, o, off):
        c = 0
        x = off
        if z3.is_app_of(off, z3.Z3_OP_BADD):
            args = [off.arg(i) for i in range(off.num_args())]
            rest = []
            for a in args:
                if z3.is_bv_value(a):
                    c = (c + a.as_long()) & mask(self.pw)
                else:
                    rest.append(a)
            x = rest[0]
            for a in rest[1:]:
                x = x + a
            x = simp(x)
        stride, base_c = o.symidx
        # constant part may exceed a stride only if misaddressed; keep as is
        key = x.sexpr()
        tab = st.x.setdefault('symidx:' + o.id, {})
        if key in tab:
            return tab[key], c
        for k2, oid in list(tab.items()):
            x2 = st.objs[oid].data
            if self.check(st, x != x2) is None:
                tab[key] = oid
                return oid, c
            if self.check(st, x == x2) is not None:
                raise ForkCond(x == x2)
        id = '%s[%d]' % (o.id, next(_cnt))
        n = o.clone(st.gen)
        n.id = id
        n.data = x
        n.symidx = False
        n.chunks = {}
        if stride:
            n.size = stride
        st.objs[id] = n
        n.base = simp(bv(o.base, self.pw) + x)
        tab[key] = id
        # template content: element 0 of the array (uniform initial contents)
        for k, v in o.chunks.items():
            if k < (stride or o.size):
                n.chunks[k] = v
        if o.shared:
            n.shared = o.shared
        return id, c

    def raw_read(self, st, o, off, size):
        """value of bytes [off,off+size) as an int/BV or Ptr"""
        ch = o.chunks
        c = ch.get(off)
        if c is not None:
            if c[0] == size:
                return c[1]
            if c[0] > size:
                v = c[1]
                if isinstance(v, Ptr):
                    v = self.ptr_bv(st, v)
                return extract(v, size * 8 - 1, 0)
        return concat([(b, 8) for b in self.read_bytes(st, o, off, size)])

    def read_bytes(self, st, o, off, size):
        ch = o.chunks
        out = [None] * size
        # find overlapping chunks
        for k in range(off + size - 1, off - 65, -1):
            c = ch.get(k)
            if c is None:
                continue
            csz = c[0]
            if k + csz <= off:
                if csz <= 64:
                    pass
                continue
            v = c[1]
            if isinstance(v, Ptr):
                v = self.ptr_bv(st, v)
            for i in range(max(k, off), min(k + csz, off + size)):
                if out[i - off] is None:
                    out[i - off] = extract(v, (i - k) * 8 + 7, (i - k) * 8)
        for i in range(size):
            if out[i] is None:
                b = o.chunks.get(off + i)
                v = self.uninit(st, o, off + i)
                out[i] = v
        return out

    def uninit(self, st, o, off):
        v = fresh('u_%s_%d' % (o.id, off), 8)
        ow = st.obj_w(o.id)
        # do not clobber bigger chunks: only set the byte if free
        ow.chunks[off] = (1, v)
        return v

    def raw_write(self, st, oid, off, size, val):
        o = st.obj_w(oid)
        ch = o.chunks
        c = ch.get(off)
        if c is not None and c[0] == size:
            ch[off] = (size, val)
            return
        for k in range(off - 64, off + size):
            c = ch.get(k)
            if c is None:
                continue
            e = k + c[0]
            if e <= off:
                continue
            # overlap: split remaining bytes
            v = c[1]
            if isinstance(v, Ptr):
                v = self.ptr_bv(st, v)
            del ch[k]
            for i in range(k, e):
                if i < off or i >= off + size:
                    ch[i] = (1, extract(v, (i - k) * 8 + 7, (i - k) * 8))
        ch[off] = (size, val)

    def bounds(self, st, oid, off, size, what):
        o = st.objs[oid]
        if o.dead:
            st.viol.append(('use-after-free', '%s of %s+%d:%d' % (what, oid, off, size)))
            return False
        if o.size is not None and (off < 0 or off + size > o.size):
            st.viol.append(('out-of-bounds', '%s of %s+%d:%d (object size %s)' % (what, oid, off, size, o.size)))
            return False
        return True

    # typed conversion -----------------
    def load_typed(self, v, ty, mod):
        """v: raw value (int/BV/Ptr) of store size"""
        return v

    def read_mem(self, st, p, size, inst=None, **at):
        oid, off = self.resolve(st, p, size)
        o = st.objs[oid]
        if o.shared:
            return self.shared_read(st, o, off, size, inst, at)
        if not self.bounds(st, oid, off, size, 'read'):
            return fresh('oob', size * 8)
        return self.raw_read(st, o, off, size)

    def write_mem(self, st, p, size, val, inst=None, **at):
        oid, off = self.resolve(st, p, size)
        o = st.objs[oid]
        if o.shared:
            return self.shared_write(st, o, off, size, val, inst, at)
        if not self.bounds(st, oid, off, size, 'write'):
            return
        if o.ro:
            st.viol.append(('write-to-const', '%s+%d:%d' % (oid, off, size)))
        self.raw_write(st, oid, off, size, val)

    # shared memory: every access becomes an event
    def event(self, st, ev):
        st.events.append(ev)
        if self.on_access:
            self.on_access(self, st, ev)
        st.paused = True
        return ev

    def sh_val(self, st, o, off, size):
        if o.shared == 'havoc':
            return fresh('env_%s_%d' % (o.id.split('!')[0], off), size * 8)
        if o.shared == 'ext':
            return fresh('r_%s_%d' % (o.id.split('!')[0], off), size * 8)
        return self.raw_read(st, o, off, size)

    def shared_read(self, st, o, off, size, inst, at):
        self.bounds(st, o.id, off, size, 'read')
        oob = off < 0 or (o.size is not None and off + size > o.size)
        v = fresh('oob', size * 8) if oob else self.sh_val(st, o, off, size)
        self.event(st, Event('R', obj=o.id, off=off, size=size, rval=v, inst=inst, **at))
        return v

    def shared_write(self, st, o, off, size, val, inst, at):
        self.bounds(st, o.id, off, size, 'write')
        oob = off < 0 or (o.size is not None and off + size > o.size)
        if o.shared != 'havoc' and not oob:
            self.raw_write(st, o.id, off, size, val)
        self.event(st, Event('W', obj=o.id, off=off, size=size, wval=val, inst=inst, **at))

    def rmw(self, st, p, size, fn, inst, **at):
        """atomic read-modify-write; fn(old)->new ; returns old"""
        oid, off = self.resolve(st, p, size)
        o = st.objs[oid]
        if not o.shared:
            if not self.bounds(st, oid, off, size, 'rmw'):
                return fresh('oob', size * 8)
            old = self.raw_read(st, o, off, size)
            oldb = self.ptr_bv(st, old) if isinstance(old, Ptr) else old
            self.raw_write(st, oid, off, size, fn(oldb))
            if self.asm_marks and at.get('asm') is not None and at.get('locked'):
                self.event(st, Event('FENCE', order='locked-private', inst=inst, **{k: v for k, v in at.items() if k in ('asm', 'memclob', 'vol', 'locked')}))
            return old
        self.bounds(st, oid, off, size, 'rmw')
        old = self.sh_val(st, o, off, size)
        oldb = self.ptr_bv(st, old) if isinstance(old, Ptr) else old
        new = fn(oldb)
        if o.shared != 'havoc':
            self.raw_write(st, oid, off, size, new)
        self.event(st, Event('RMW', obj=oid, off=off, size=size, rval=oldb, wval=new, inst=inst, **at))
        return old

    def cas(self, st, p, size, exp, new, inst, **at):
        """-> [(state, old, success 0/1)] (forks)"""
        oid, off = self.resolve(st, p, size)
        o = st.objs[oid]
        self.bounds(st, oid, off, size, 'cas')
        w = size * 8
        old = self.sh_val(st, o, off, size) if o.shared else self.raw_read(st, o, off, size)
        if isinstance(old, Ptr):
            old = self.ptr_bv(st, old)
        if isinstance(exp, Ptr):
            exp = self.ptr_bv(st, exp)
        newv = new
        weak = at.get('weak') and self.spurious_weak and o.shared
        res = []
        for s, ok in self.split(st, eqv(old, exp, w)):
            outs = [(s, ok)]
            if ok and weak:
                s2 = s.clone()
                outs.append((s2, False))
            for s3, ok3 in outs:
                if ok3 and o.shared != 'havoc':
                    self.raw_write(s3, oid, off, size, newv)
                if o.shared:
                    self.event(s3, Event('CAS', obj=oid, off=off, size=size, rval=old, expected=exp, wval=newv if ok3 else None,
                                         ok=ok3, inst=inst, data='spurious' if (ok and not ok3) else None, **at))
                    if not ok3 and self.cas_fail_bound is not None:
                        n = sum(1 for e in s3.events if e.kind == 'CAS' and not e.ok)
                        if n > self.cas_fail_bound:
                            s3.status = 'cut'
                            s3.cuts = 'cas-retry-bound'
                elif self.asm_marks and at.get('asm') is not None and at.get('locked'):
                    self.event(s3, Event('FENCE', order='locked-private', inst=inst, **{k: v for k, v in at.items() if k in ('asm', 'memclob', 'vol', 'locked')}))
                res.append((s3, old, int(ok3)))
        return res

    # ---------- running -----------
    def start(self, fname, args, st=None):
        st = st or State()
        if fname not in self.fnmap:
            raise Unsupported('no function ' + fname)
        f, m = self.fnmap[fname]
        self.push(st, f, m, args, None, None, None)
        return st

    def push(self, st, f, m, args, retres, okblk, retty):
        ir.force(f, m)
        fr = Frame()
        fr.fn = f
        fr.mod = m
        fr.regs = {}
        for (t, nm, at), v in zip(f.params, args):
            fr.regs[nm] = v
        fr.varargs = args[len(f.params):]
        fr.blk = f.entry
        fr.idx = 0
        fr.prev = None
        fr.retres = retres
        fr.retty = retty
        fr.visits = {}
        fr.asm = None
        fr.okblk = okblk
        fr.allocas = None
        st.frames.append(fr)
        self.stats.fns.add(f.name)
        if len(st.frames) > 200:
            raise Unsupported('call depth')

    def run(self, st, until_event=False, max_steps=2000000):
        """run to completion; returns list of final states"""
        work = [st]
        done = []
        steps = 0
        while work:
            s = work.pop()
            while s.status == 'run':
                s.paused = False
                r = self.step(s)
                steps += 1
                if steps > max_steps:
                    raise Unsupported('step limit')
                if r is None:
                    if until_event and s.paused:
                        break
                    continue
                # forked
                s = None
                for x in r:
                    if x.status != 'run' or (until_event and x.paused):
                        done.append(x)
                    else:
                        work.append(x)
                break
            if s is not None:
                done.append(s)
            if len(done) + len(work) > self.max_paths:
                raise Unsupported('path limit')
        done = [d for d in done if d.status != 'infeasible']
        self.stats.paths += len(done)
        self.stats.cuts += sum(1 for d in done if d.status == 'cut')
        return done

    def step(self, st):
        fr = st.frames[-1]
        if fr.asm:
            from . import asmx86
            return self.guard(st, lambda: asmx86.step(self, st, fr))
        ins = fr.fn.blocks[fr.blk][fr.idx]
        self.stats.insts += 1
        if self.trace:
            print('   ' * len(st.frames), ins.text[:140])
        fn = DISPATCH[ins.op]
        return self.guard(st, lambda: fn(self, st, fr, ins))

    def guard(self, st, fn):
        try:
            return fn()
        except Fork as f:
            # enumerate feasible values of a symbolic offset
            out = []
            base = st
            vals = []
            excl = []
            while True:
                m = self.check(st, *excl)
                if m is None:
                    break
                v = m.eval(f.off, model_completion=True).as_long()
                vals.append(v)
                excl.append(f.off != v)
                if len(vals) > self.fork_enum:
                    raise Unsupported('too many feasible addresses for %s' % f.ptr.obj)
            for i, v in enumerate(vals):
                s = st if i == len(vals) - 1 else st.clone()
                s.pc.append(f.off == v)
                s.model = None
                out.append(s)
            return out
        except ForkCond as f:
            s2 = st.clone()
            st.pc.append(f.cond)
            s2.pc.append(z3.Not(f.cond))
            st.model = s2.model = None
            return [st, s2]

    # ---------- operands -----------
    def op(self, st, fr, o, ty):
        k = o[0]
        if k == 'l':
            return fr.regs[o[1]]
        if k == 'c':
            return o[1]
        if k == 'g':
            return self.glob(st, fr, o[1])
        if k == 'undef':
            return self.undef(fr.mod, ty)
        if k == 'zero':
            return self.zero(fr.mod, ty)
        if k == 'agg':
            t = fr.mod.resolve(ty)
            if t[0] == 'st':
                return [self.op(st, fr, x, tt) for x, tt in zip(o[1], t[2])]
            return [self.op(st, fr, x, t[2]) for x in o[1]]
        if k == 'cegep':
            return self.gep(st, fr, o[1], self.op(st, fr, o[2], ir.PTR), [(t, self.op(st, fr, v, t)) for t, v in o[3]])
        if k == 'cecast':
            v = self.op(st, fr, o[3], o[2])
            return self.cast(st, fr, o[1], o[2], o[4], v)
        if k == 'cebin':
            w = fr.mod.bits(o[2])
            return binop(o[1], self.op(st, fr, o[3], o[2]), self.op(st, fr, o[4], o[2]), w)
        raise Unsupported('operand %r' % (o,))

    def undef(self, mod, ty):
        t = mod.resolve(ty)
        if t[0] == 'i':
            return freshb('undef') if t[1] == 1 else fresh('undef', t[1])
        if t[0] == 'f':
            return fresh('undef', t[1])
        if t[0] == 'ptr':
            return fresh('undefp', mod.ptrsize * 8)
        if t[0] in ('arr', 'vec'):
            return [self.undef(mod, t[2]) for _ in range(t[1])]
        if t[0] == 'st':
            return [self.undef(mod, x) for x in t[2]]
        if t[0] == 'md':
            return None
        raise Unsupported('undef %r' % (t,))

    def zero(self, mod, ty):
        t = mod.resolve(ty)
        if t[0] in ('i', 'f', 'ptr'):
            return 0
        if t[0] in ('arr', 'vec'):
            return [self.zero(mod, t[2]) for _ in range(t[1])]
        if t[0] == 'st':
            return [self.zero(mod, x) for x in t[2]]
        raise Unsupported('zero %r' % (t,))

    def glob(self, st, fr, name):
        if name in self.fnmap or name in self.ext or name.startswith('llvm.'):
            if name not in st.objs and not any(name in m.globals for m in self.mods):
                return Ptr('fn:' + name, 0)
        id = '@' + name
        g = None
        m = fr.mod
        if name in m.globals and m.globals[name].init is not None:
            g = m.globals[name]
            if name.startswith('.str') or name.startswith('__const') or name.startswith('__PRETTY') or name.startswith('switch.table'):
                id = '@%d:%s' % (self.mods.index(m), name)
        if id in st.objs:
            return Ptr(id, 0)
        if g is None:
            for m2 in self.mods:
                if name in m2.globals and m2.globals[name].init is not None:
                    g = m2.globals[name]
                    m = m2
                    break
        if g is None:
            if name in m.fns:
                return Ptr('fn:' + name, 0)
            if name in m.globals:   # external data
                gg = m.globals[name]
                p = self.new_obj(st, id, m.size(gg.type), 'global', gg.align)
                return p
            raise Unsupported('unknown global ' + name)
        p = self.new_obj(st, id, m.size(g.type), 'global', g.align)
        o = st.objs[p.obj]
        self.init_global(st, m, p.obj, 0, g.type, g.init, fr)
        o = st.obj_w(p.obj)
        o.ro = g.const
        return p

    def init_global(self, st, m, oid, off, ty, init, fr):
        t = m.resolve(ty)
        if init[0] == 'zero':
            o = st.obj_w(oid)
            n = m.size(t)
            if n > 4096:
                # uniform zero: lazily
                o.data = 'zero'
                for i in range(0, n, 8):
                    o.chunks[off + i] = (8, 0)
                return
            i = 0
            while i < n:
                s = 8 if n - i >= 8 else 1
                o.chunks[off + i] = (s, 0)
                i += s
            return
        if init[0] == 'agg':
            if t[0] == 'st':
                offs, _ = m.struct_layout(t)
                for x, tt, oo in zip(init[1], t[2], offs):
                    self.init_global(st, m, oid, off + oo, tt, x, fr)
            else:
                es = m.size(t[2])
                for i, x in enumerate(init[1]):
                    self.init_global(st, m, oid, off + i * es, t[2], x, fr)
            return
        if init[0] == 'undef':
            return
        fr2 = Frame()
        fr2.mod = m
        fr2.regs = {}
        v = self.op(st, fr2, init, t)
        self.store_val(st, Ptr(oid, off), t, v, m, raw=True)

    # typed store/load --------------
    def store_val(self, st, p, ty, v, mod, inst=None, raw=False, **at):
        t = mod.resolve(ty)
        k = t[0]
        if k == 'st':
            offs, _ = mod.struct_layout(t)
            for x, tt, oo in zip(v, t[2], offs):
                self.store_val(st, self.padd(st, p, oo), tt, x, mod, inst, raw, **at)
            return
        if k == 'arr':
            es = mod.size(t[2])
            for i, x in enumerate(v):
                self.store_val(st, self.padd(st, p, i * es), t[2], x, mod, inst, raw, **at)
            return
        n = mod.store_size(t)
        if k == 'vec':
            w = mod.bits(t[2])
            v = concat([(self.num(st, x, w), w) for x in v])
        elif k == 'i' and t[1] == 1:
            v = zext(v, 1, 8)
        elif k == 'i' and t[1] % 8:
            v = zext(v, t[1], n * 8)
        if raw:
            self.raw_write(st, p.obj, p.off, n, v)
        else:
            self.write_mem(st, p, n, v, inst, **at)

    def num(self, st, v, w):
        if isinstance(v, Ptr):
            return self.ptr_bv(st, v)
        if isinstance(v, z3.BoolRef) and w > 1:
            return zext(v, 1, w)
        if w == 1 and isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        return v

    def load_val(self, st, p, ty, mod, inst=None, **at):
        t = mod.resolve(ty)
        k = t[0]
        if k == 'st':
            offs, _ = mod.struct_layout(t)
            return [self.load_val(st, self.padd(st, p, oo), tt, mod, inst, **at) for tt, oo in zip(t[2], offs)]
        if k == 'arr':
            es = mod.size(t[2])
            return [self.load_val(st, self.padd(st, p, i * es), t[2], mod, inst, **at) for i in range(t[1])]
        n = mod.store_size(t)
        v = self.read_mem(st, p, n, inst, **at)
        return self.conv_loaded(st, v, t, mod)

    def conv_loaded(self, st, v, t, mod):
        k = t[0]
        if k == 'ptr':
            return v
        if isinstance(v, Ptr):
            v = self.ptr_bv(st, v)
        if k == 'vec':
            w = mod.bits(t[2])
            return [extract(v, i * w + w - 1, i * w) for i in range(t[1])]
        if k == 'i':
            if t[1] == 1:
                if isint(v):
                    return v & 1
                return tobool(simpb(z3.Extract(0, 0, v)))
            n = mod.store_size(t)
            if t[1] != n * 8:
                return extract(v, t[1] - 1, 0)
            return v
        if k == 'f':
            return v
        raise Unsupported('load %r' % (t,))

    def padd(self, st, p, n):
        if isint(n) and n == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.obj, binop('add', p.off, n if not isint(n) else n & mask(self.pw), self.pw))
        return binop('add', p, n if not isint(n) else n & mask(self.pw), self.pw)

    def gep(self, st, fr, ty, base, idx):
        m = fr.mod
        w = self.pw
        off = 0
        t = ty
        first = True
        for it, iv in idx:
            iw = m.bits(it)
            if first:
                sz = m.size(t)
                off = binop('add', off, binop('mul', sext(iv, iw, w) if iw <= w else iv, sz, w), w)
                first = False
                continue
            t = m.resolve(t)
            if t[0] == 'st':
                offs, _ = m.struct_layout(t)
                iv = toint(iv)
                off = binop('add', off, offs[iv], w)
                t = t[2][iv]
            elif t[0] in ('arr', 'vec'):
                t = t[2]
                sz = m.size(t)
                off = binop('add', off, binop('mul', sext(iv, iw, w), sz, w), w)
            else:
                raise Unsupported('gep into %r' % (t,))
        return self.padd(st, base, off)

    def cast(self, st, fr, op, t1, t2, v):
        m = fr.mod
        a, b = m.resolve(t1), m.resolve(t2)
        if a[0] == 'vec' and b[0] == 'vec' and op != 'bitcast':
            return [self.cast(st, fr, op, a[2], b[2], x) for x in v]
        if op == 'bitcast':
            if a == b:
                return v
            if a[0] == 'vec':
                w = m.bits(a[2])
                v = concat([(self.num(st, x, w), w) for x in v])
            if isinstance(v, z3.BoolRef):
                v = zext(v, 1, 1)
            if b[0] == 'vec':
                w = m.bits(b[2])
                r = [extract(v, i * w + w - 1, i * w) for i in range(b[1])]
                if w == 1:
                    r = [x if isint(x) else x == 1 for x in r]
                return r
            return v
        if op == 'addrspacecast':
            return v
        if op == 'trunc':
            w = b[1]
            if isint(v):
                return v & mask(w)
            if w == 1:
                return tobool(simpb(z3.Extract(0, 0, v)))
            return z3.Extract(w - 1, 0, v)
        if op == 'zext':
            return zext(v, a[1], b[1])
        if op == 'sext':
            return sext(v, a[1], b[1])
        if op == 'ptrtoint':
            v = self.ptr_bv(st, v)
            pw = self.pw
            if b[1] < pw:
                return extract(v, b[1] - 1, 0)
            return zext(v, pw, b[1])
        if op == 'inttoptr':
            if a[1] != self.pw:
                v = zext(v, a[1], self.pw) if a[1] < self.pw else extract(v, self.pw - 1, 0)
            return v
        if op in ('fpext', 'fptrunc'):
            f = z3.Function('%s_%d_%d' % (op, a[1], b[1]), z3.BitVecSort(a[1]), z3.BitVecSort(b[1]))
            return f(bv(v, a[1]))
        if op in ('sitofp', 'uitofp'):
            f = z3.Function('%s_%d_%d' % (op, a[1], b[1]), z3.BitVecSort(a[1]), z3.BitVecSort(b[1]))
            return f(bv(v, a[1]))
        if op in ('fptosi', 'fptoui'):
            f = z3.Function('%s_%d_%d' % (op, a[1], b[1]), z3.BitVecSort(a[1]), z3.BitVecSort(b[1]))
            return f(bv(v, a[1]))
        raise Unsupported('cast ' + op)


def simpb(v):
    return z3.simplify(v)


def _collect(e, out, seen=None):
    if seen is None:
        seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        else:
            stack.extend(x.children())


class Fork(Exception):
    def __init__(self, ptr, off):
        self.ptr = ptr
        self.off = off


class ForkCond(Exception):
    def __init__(self, cond):
        self.cond = cond


# ---------------- instruction semantics -----------------
def fbin(op, a, b, w):
    """IEEE arithmetic as uninterpreted functions on bit patterns, canonical up to commutativity and sub=add(neg)"""
    srt = z3.BitVecSort(w)
    A, B = bv(a, w), bv(b, w)
    if op == 'fsub':
        op = 'fadd'
        B = z3.simplify(B ^ z3.BitVecVal(1 << (w - 1), w))
    if op in ('fadd', 'fmul'):
        A, B = z3.simplify(A), z3.simplify(B)
        if A.sexpr() > B.sexpr():
            A, B = B, A
    return z3.Function('%s%d' % (op, w), srt, srt, srt)(A, B)


def i_bin(ex, st, fr, ins):
    op, a, b = ins.a
    t = fr.mod.resolve(ins.ty)
    x = ex.op(st, fr, a, t)
    y = ex.op(st, fr, b, t)
    if t[0] == 'vec':
        w = fr.mod.bits(t[2])
        r = [binop(op, p, q, w) for p, q in zip(x, y)]
    elif t[0] == 'f':
        r = fbin(op, x, y, t[1])
    else:
        x = ex.num(st, x, t[1]) if isinstance(x, Ptr) else x
        y = ex.num(st, y, t[1]) if isinstance(y, Ptr) else y
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if not isint(y):
                if ex.check(st, bv(y, t[1]) == 0) is not None:
                    st.viol.append(('div-by-zero', ins.text))
            elif y == 0:
                st.viol.append(('div-by-zero', ins.text))
                y = 1
        r = binop(op, x, y, t[1])
    fr.regs[ins.res] = r
    fr.idx += 1


def i_fneg(ex, st, fr, ins):
    t = fr.mod.resolve(ins.ty)
    v = ex.op(st, fr, ins.a[0], t)
    fr.regs[ins.res] = binop('xor', v, 1 << (t[1] - 1), t[1])
    fr.idx += 1


def i_cast(ex, st, fr, ins):
    op, t, v = ins.a
    fr.regs[ins.res] = ex.cast(st, fr, op, t, ins.ty, ex.op(st, fr, v, t))
    fr.idx += 1


def i_alloca(ex, st, fr, ins):
    t, n, al = ins.a
    sz = fr.mod.size(t)
    if n is not None:
        c = simp(ex.op(st, fr, n[1], n[0]))
        if not isint(c):
            raise Unsupported('symbolic alloca')
        sz *= c
    p = ex.new_obj(st, 'a%d_%s_%s' % (next(_cnt), fr.fn.name[-20:], ins.res), sz, 'stack', al or 1)
    fr.regs[ins.res] = p
    fr.allocas = (p.obj, fr.allocas)
    fr.idx += 1


def i_load(ex, st, fr, ins):
    v, vol, order, al = ins.a
    p = ex.op(st, fr, v, ir.PTR)
    fr.regs[ins.res] = ex.load_val(st, p, ins.ty, fr.mod, ins, vol=vol, order=order, atomic=order is not None, align=al)
    fr.idx += 1


def i_store(ex, st, fr, ins):
    val, v, vol, order, al = ins.a
    p = ex.op(st, fr, v, ir.PTR)
    x = ex.op(st, fr, val, ins.ty)
    ex.store_val(st, p, ins.ty, x, fr.mod, ins, vol=vol, order=order, atomic=order is not None, align=al)
    fr.idx += 1


def i_gep(ex, st, fr, ins):
    t, bt, base, idx = ins.a
    b = ex.op(st, fr, base, bt)
    fr.regs[ins.res] = ex.gep(st, fr, t, b, [(it, ex.op(st, fr, iv, it)) for it, iv in idx])
    fr.idx += 1


CMP = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
    'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
}


def icmp(pred, x, y, w):
    if isint(x) and isint(y):
        if pred[0] == 's':
            x, y = sgn(x, w), sgn(y, w)
            pred = 'u' + pred[1:]
        return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
    if isinstance(x, z3.BoolRef) or isinstance(y, z3.BoolRef):
        e = tobool(x) == tobool(y)
        return e if pred == 'eq' else z3.Not(e)
    X, Y = bv(x, w), bv(y, w)
    if X.eq(Y):
        return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
    return CMP[pred](X, Y)


def ptr_cmp(ex, st, pred, x, y):
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.obj == y.obj:
            return icmp(pred, x.off, y.off, ex.pw)
        if pred in ('eq', 'ne'):
            if x.obj.startswith('fn:') or y.obj.startswith('fn:'):
                return int(pred == 'ne')
            # distinct live objects have distinct addresses
            return int(pred == 'ne')
        return icmp(pred, ex.ptr_bv(st, x), ex.ptr_bv(st, y), ex.pw)
    if pred in ('eq', 'ne'):
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Ptr) and isint(b) and b == 0:
                return int(pred == 'ne')
    return icmp(pred, ex.ptr_bv(st, x), ex.ptr_bv(st, y), ex.pw)


def i_icmp(ex, st, fr, ins):
    pred, a, b = ins.a
    t = fr.mod.resolve(ins.ty)
    x = ex.op(st, fr, a, t)
    y = ex.op(st, fr, b, t)
    if t[0] == 'vec':
        w = fr.mod.bits(t[2])
        fr.regs[ins.res] = [icmp(pred, p, q, w) for p, q in zip(x, y)]
    elif isinstance(x, Ptr) or isinstance(y, Ptr):
        fr.regs[ins.res] = ptr_cmp(ex, st, pred, x, y)
    else:
        fr.regs[ins.res] = icmp(pred, x, y, fr.mod.bits(t))
    fr.idx += 1


def i_fcmp(ex, st, fr, ins):
    pred, a, b = ins.a
    t = fr.mod.resolve(ins.ty)
    x = ex.op(st, fr, a, t)
    y = ex.op(st, fr, b, t)
    w = t[1]
    if w in (32, 64):
        F = z3.Float32() if w == 32 else z3.Float64()
        X, Y = z3.fpBVToFP(bv(x, w), F), z3.fpBVToFP(bv(y, w), F)
        un = z3.Or(z3.fpIsNaN(X), z3.fpIsNaN(Y))
        base = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if pred == 'uno':
            r = un
        elif pred == 'ord':
            r = z3.Not(un)
        elif pred == 'true':
            r = 1
        elif pred == 'false':
            r = 0
        else:
            c = base[pred[1:]](X, Y)
            r = z3.Or(un, c) if pred[0] == 'u' else z3.And(z3.Not(un), c)
        ex.use_fp = True
    else:
        r = z3.Function('fcmp_%s_%d' % (pred, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BoolSort())(bv(x, w), bv(y, w))
    fr.regs[ins.res] = r
    fr.idx += 1


def goto(ex, st, fr, blk):
    fr.prev = fr.blk
    fr.blk = blk
    fr.idx = 0
    # phis evaluated in parallel
    insts = fr.fn.blocks[blk]
    upd = []
    i = 0
    while i < len(insts) and insts[i].op == 'phi':
        ins = insts[i]
        for v, b in ins.a[0]:
            if b == fr.prev:
                upd.append((ins.res, ex.op(st, fr, v, ins.ty)))
                break
        else:
            raise Unsupported('phi without incoming %s' % fr.prev)
        i += 1
    for r, v in upd:
        fr.regs[r] = v
    fr.idx = i
    n = fr.visits.get(blk, 0) + 1
    fr.visits[blk] = n
    if n > ex.loop_bound:
        st.status = 'cut'
        st.cuts = 'loop-bound %s:%s' % (fr.fn.name, blk)


def i_br(ex, st, fr, ins):
    goto(ex, st, fr, ins.a[0])


def i_condbr(ex, st, fr, ins):
    c, a, b = ins.a
    v = ex.op(st, fr, c, ir.I1)
    r = ex.split(st, v if isint(v) else tobool(v))
    if not r:
        return []
    for s, t in r:
        goto(ex, s, s.frames[-1], a if t else b)
    if len(r) == 1:
        return None
    return [s for s, _ in r]


def i_switch(ex, st, fr, ins):
    v, d, cases = ins.a
    t = fr.mod.resolve(ins.ty)
    x = simp(ex.op(st, fr, v, t))
    w = fr.mod.bits(t)
    if isint(x):
        for cv, lb in cases:
            if (cv & mask(w)) == x:
                goto(ex, st, fr, lb)
                return None
        goto(ex, st, fr, d)
        return None
    out = []
    cur = st
    # group by target
    groups = {}
    for cv, lb in cases:
        groups.setdefault(lb, []).append(cv)
    rest = []
    for lb, cvs in groups.items():
        cond = z3.Or(*[x == (cv & mask(w)) for cv in cvs])
        rest.append(z3.Not(cond))
        m = ex.check(st, cond)
        if m is not None:
            s = st.clone()
            s.pc.append(z3.simplify(cond))
            s.model = m
            goto(ex, s, s.frames[-1], lb)
            out.append(s)
    m = ex.check(st, *rest)
    if m is not None:
        s = st.clone()
        s.pc.extend(rest)
        s.model = m
        goto(ex, s, s.frames[-1], d)
        out.append(s)
    return out


def do_ret(ex, st, v):
    fr = st.frames.pop()
    if not st.frames:
        st.status = 'ret'
        st.ret = v
        return
    # free allocas
    a = fr.allocas
    while a:
        st.objs.pop(a[0], None)
        a = a[1]
    up = st.frames[-1]
    if fr.retres is not None:
        up.regs[fr.retres] = v
    if fr.okblk:
        goto(ex, st, up, fr.okblk)
    else:
        up.idx += 1


def i_ret(ex, st, fr, ins):
    v = ins.a[0]
    r = ex.op(st, fr, v, ins.ty) if v is not None else None
    do_ret(ex, st, r)


def i_unreachable(ex, st, fr, ins):
    st.viol.append(('unreachable', 'in %s' % fr.fn.name))
    st.status = 'unreachable'


def i_select(ex, st, fr, ins):
    ct, c, a, b = ins.a
    cv = ex.op(st, fr, c, ct)
    x = ex.op(st, fr, a, ins.ty)
    y = ex.op(st, fr, b, ins.ty)
    t = fr.mod.resolve(ins.ty)
    if isinstance(cv, list):
        w = fr.mod.bits(t[2])
        fr.regs[ins.res] = [ite(q, p1, p2, w) for q, p1, p2 in zip(cv, x, y)]
        fr.idx += 1
        return None
    cv = simp(cv)
    if isint(cv):
        fr.regs[ins.res] = x if cv else y
        fr.idx += 1
        return None
    if isinstance(x, (Ptr, list)) or isinstance(y, (Ptr, list)):
        out = []
        for s, t2 in ex.split(st, cv):
            f2 = s.frames[-1]
            f2.regs[ins.res] = x if t2 else y
            f2.idx += 1
            out.append(s)
        return out
    fr.regs[ins.res] = ite(cv, x, y, fr.mod.bits(t))
    fr.idx += 1


def ite(c, x, y, w):
    if isint(c):
        return x if c else y
    if isint(x) and isint(y) and x == y:
        return x
    if w == 1:
        return z3.If(c, tobool(x), tobool(y))
    return z3.If(c, bv(x, w), bv(y, w))


def i_extractvalue(ex, st, fr, ins):
    t, v, idx = ins.a
    x = ex.op(st, fr, v, t)
    for i in idx:
        x = x[i]
    fr.regs[ins.res] = x
    fr.idx += 1


def i_insertvalue(ex, st, fr, ins):
    (t, v), _, (t2, v2), idx = (ins.a[0], ins.a[1]), None, ins.a[2], ins.a[3]
    raise Unsupported('insertvalue form')


def i_insertvalue2(ex, st, fr, ins):
    t, v, v2, idx = ins.a
    x = ex.op(st, fr, v, t)
    # type of element
    et = fr.mod.resolve(t)
    for i in idx:
        et = fr.mod.resolve(et[2][i] if et[0] == 'st' else et[2])
    y = ex.op(st, fr, v2, et)

    def ins_(a, ix):
        a = list(a)
        if len(ix) == 1:
            a[ix[0]] = y
        else:
            a[ix[0]] = ins_(a[ix[0]], ix[1:])
        return a
    fr.regs[ins.res] = ins_(x, idx)
    fr.idx += 1


def i_extractelement(ex, st, fr, ins):
    t, v, i = ins.a
    x = ex.op(st, fr, v, t)
    k = simp(ex.op(st, fr, i, ('i', 64)))
    if not isint(k):
        raise Unsupported('symbolic extractelement')
    fr.regs[ins.res] = x[k]
    fr.idx += 1


def i_insertelement(ex, st, fr, ins):
    t, v, e, i = ins.a
    x = list(ex.op(st, fr, v, t))
    tt = fr.mod.resolve(t)
    k = simp(ex.op(st, fr, i, ('i', 64)))
    if not isint(k):
        raise Unsupported('symbolic insertelement')
    y = ex.op(st, fr, e, tt[2])
    if isinstance(y, Ptr):
        y = ex.ptr_bv(st, y)
    x[k] = y
    fr.regs[ins.res] = x
    fr.idx += 1


def i_shufflevector(ex, st, fr, ins):
    t, a, b, mt, m = ins.a
    x = ex.op(st, fr, a, t)
    y = ex.op(st, fr, b, t)
    mm = fr.mod.resolve(mt)
    if m[0] == 'zero':
        ms = [0] * mm[1]
    elif m[0] == 'agg':
        ms = [e[1] if e[0] == 'c' else None for e in m[1]]
    elif m[0] == 'undef':
        ms = [None] * mm[1]
    else:
        raise Unsupported('shuffle mask')
    xy = list(x) + list(y)
    w = fr.mod.bits(fr.mod.resolve(t)[2])
    fr.regs[ins.res] = [xy[k] if k is not None else fresh('undef', w) for k in ms]
    fr.idx += 1


def i_freeze(ex, st, fr, ins):
    fr.regs[ins.res] = ex.op(st, fr, ins.a[0], ins.ty)
    fr.idx += 1


def i_fence(ex, st, fr, ins):
    order, scope = ins.a
    fr.idx += 1
    ex.event(st, Event('FENCE', order=order, data=scope, inst=ins))


RMWF = {
    'add': lambda o, v, w: binop('add', o, v, w), 'sub': lambda o, v, w: binop('sub', o, v, w),
    'and': lambda o, v, w: binop('and', o, v, w), 'or': lambda o, v, w: binop('or', o, v, w),
    'xor': lambda o, v, w: binop('xor', o, v, w), 'xchg': lambda o, v, w: v,
    'nand': lambda o, v, w: binop('xor', binop('and', o, v, w), mask(w), w),
    'max': lambda o, v, w: ite(icmp('sgt', o, v, w), o, v, w), 'min': lambda o, v, w: ite(icmp('slt', o, v, w), o, v, w),
    'umax': lambda o, v, w: ite(icmp('ugt', o, v, w), o, v, w), 'umin': lambda o, v, w: ite(icmp('ult', o, v, w), o, v, w),
}


def i_atomicrmw(ex, st, fr, ins):
    o, ptr, v, order, vol, al = ins.a
    p = ex.op(st, fr, ptr, ir.PTR)
    x = ex.op(st, fr, v, ins.ty)
    t = fr.mod.resolve(ins.ty)
    w = fr.mod.bits(t)
    keep = isinstance(x, Ptr) and o == 'xchg'
    if isinstance(x, Ptr) and not keep:
        x = ex.ptr_bv(st, x)
    if o in ('fadd', 'fsub'):
        f = lambda old: fbin(o, old, x, w)
    elif o not in RMWF:
        raise Unsupported('atomicrmw ' + o)
    else:
        f = lambda old: RMWF[o](old, x, w)
    old = ex.rmw(st, p, fr.mod.store_size(t), f, ins, atomic=True, locked=True, order=order, vol=vol, align=al)
    fr.regs[ins.res] = old
    fr.idx += 1


def i_cmpxchg(ex, st, fr, ins):
    ptr, c, n, o1, o2, weak, vol, al, t = ins.a
    p = ex.op(st, fr, ptr, ir.PTR)
    x = ex.op(st, fr, c, t)
    y = ex.op(st, fr, n, t)
    out = []
    for s, old, ok in ex.cas(st, p, fr.mod.store_size(t), x, y, ins, atomic=True, locked=True, order=o1, order2=o2, weak=weak, vol=vol, align=al):
        f2 = s.frames[-1]
        f2.regs[ins.res] = [old, ok]
        f2.idx += 1
        out.append(s)
    return out


def i_landingpad(ex, st, fr, ins):
    raise Unsupported('landingpad reached')


def i_call(ex, st, fr, ins):
    callee, args, inv, va = ins.a
    if callee[0] == 'asm':
        from . import asmx86
        vals = [ex.op(st, fr, v, t) for t, v, at in args]
        asmx86.begin(ex, st, fr, ins, callee, args, vals)
        return None
    if callee[0] == 'g':
        name = callee[1]
    else:
        f = ex.op(st, fr, callee, ir.PTR)
        if isinstance(f, Ptr) and f.obj.startswith('fn:'):
            name = f.obj[3:]
        else:
            name = None
            f = simp(f)
            for n, a in ex.fnaddr.items():
                if isint(f):
                    if f == a:
                        name = n[3:]
                elif ex.check(st, f == a) is not None:
                    if ex.check(st, f != a) is not None:
                        raise ForkCond(f == a)
                    name = n[3:]
            if name is None:
                raise Unsupported('indirect call')
    vals = [ex.op(st, fr, v, t) for t, v, at in args]
    if name in fr.mod.aliases:
        name = fr.mod.aliases[name][1]
    return do_call(ex, st, fr, ins, name, vals, inv, va)


def do_call(ex, st, fr, ins, name, vals, inv=None, va=False):
    h = ex.override.get(name)
    if h is None and name in ex.fnmap:
        f, m = ex.fnmap[name]
        # byval copies
        for i, (t, nm, at) in enumerate(f.params):
            if 'byval' in at:
                sz = m.size(ir.P(at['byval'], m).type())
                p = ex.new_obj(st, 'byval%d' % next(_cnt), sz, 'stack', 16)
                copy_mem(ex, st, p, vals[i], sz, ins)
                vals[i] = p
        ex.push(st, f, m, vals, ins.res, inv[0] if inv else None, ins.ty)
        return None
    if h is None:
        h = ex.ext.get(name)
    if h is None and name.startswith('llvm.'):
        for pre, fn in INTRIN:
            if name.startswith(pre):
                h = fn
                break
    if h is None:
        raise Unsupported('call to ' + name)
    r = h(ex, st, fr, ins, vals, name)
    if isinstance(r, tuple) and r and r[0] == 'fork':
        out = []
        for s, v in r[1]:
            if s.status == 'run':
                finish_call(ex, s, ins, v, inv)
            out.append(s)
        return out
    if st.status != 'run':
        return None
    finish_call(ex, st, ins, r, inv)
    return None


def finish_call(ex, st, ins, v, inv):
    f2 = st.frames[-1]
    if ins.res is not None:
        f2.regs[ins.res] = v
    if inv:
        goto(ex, st, f2, inv[0])
    else:
        f2.idx += 1


DISPATCH = {
    'bin': i_bin, 'fneg': i_fneg, 'cast': i_cast, 'alloca': i_alloca, 'load': i_load, 'store': i_store, 'gep': i_gep,
    'icmp': i_icmp, 'fcmp': i_fcmp, 'br': i_br, 'condbr': i_condbr, 'switch': i_switch, 'ret': i_ret,
    'unreachable': i_unreachable, 'select': i_select, 'extractvalue': i_extractvalue, 'insertvalue': i_insertvalue2,
    'extractelement': i_extractelement, 'insertelement': i_insertelement, 'shufflevector': i_shufflevector,
    'freeze': i_freeze, 'fence': i_fence, 'atomicrmw': i_atomicrmw, 'cmpxchg': i_cmpxchg, 'call': i_call,
    'landingpad': i_landingpad,
}


# ---------------- externals / intrinsics -----------------
def copy_mem(ex, st, d, s, n, ins):
    """memcpy with chunk (provenance) preservation; single event per shared side"""
    if n == 0:
        return
    so, soff = ex.resolve(st, s, n)
    do, doff = ex.resolve(st, d, n)
    a, b = st.objs[so], st.objs[do]
    if a.shared:
        v = ex.shared_read(st, a, soff, n, ins, dict(vol=False, atomic=False, data='memcpy'))
        if b.shared:
            ex.shared_write(st, st.objs[do], doff, n, v, ins, dict(vol=False, atomic=False, data='memcpy'))
        elif ex.bounds(st, do, doff, n, 'write'):
            ex.raw_write(st, do, doff, n, v)
        return
    if b.shared:
        if not ex.bounds(st, so, soff, n, 'read'):
            return
        v = ex.raw_read(st, a, soff, n)
        ex.shared_write(st, b, doff, n, v, ins, dict(vol=False, atomic=False, data='memcpy'))
        return
    if not ex.bounds(st, so, soff, n, 'read') or not ex.bounds(st, do, doff, n, 'write'):
        return
    # chunk-wise copy
    pieces = []
    i = soff
    end = soff + n
    while i < end:
        c = st.objs[so].chunks.get(i)
        if c is not None and i + c[0] <= end:
            pieces.append((i - soff, c[0], c[1]))
            i += c[0]
        else:
            b1 = ex.read_bytes(st, st.objs[so], i, 1)[0]
            pieces.append((i - soff, 1, b1))
            i += 1
    for o, sz, v in pieces:
        ex.raw_write(st, do, doff + o, sz, v)
    # coalesce byte runs that came from one term
    if len(pieces) > 1 and n in (2, 4, 8, 16) and all(p[1] == 1 for p in pieces):
        v = concat([(p[2], 8) for p in pieces])
        ex.raw_write(st, do, doff, n, v)


def x_memcpy(ex, st, fr, ins, a, name):
    n = simp(a[2])
    if not isint(n):
        n = ex.conc_off(st, n)
    if not isint(n):
        raise Unsupported('symbolic memcpy size')
    copy_mem(ex, st, a[0], a[1], n, ins)
    return a[0]


def x_memset(ex, st, fr, ins, a, name):
    n = simp(a[2])
    if not isint(n):
        n = ex.conc_off(st, n)
    if not isint(n):
        raise Unsupported('symbolic memset size')
    if n == 0:
        return a[0]
    v = a[1]
    if not isint(v):
        v = extract(v, 7, 0)
    else:
        v &= 255
    oid, off = ex.resolve(st, a[0], n)
    o = st.objs[oid]
    if o.shared:
        val = concat([(v, 8)] * n)
        ex.shared_write(st, o, off, n, val, ins, dict(vol=False, atomic=False, data='memset'))
        return a[0]
    if ex.bounds(st, oid, off, n, 'memset'):
        i = 0
        while i < n:
            s = 8 if n - i >= 8 else 1
            ex.raw_write(st, oid, off + i, s, concat([(v, 8)] * s))
            i += s
    return a[0]


def x_memcmp(ex, st, fr, ins, a, name):
    n = simp(a[2])
    if not isint(n):
        n = ex.conc_off(st, n)
    if not isint(n):
        raise Unsupported('symbolic memcmp size')
    if n == 0:
        return 0
    x = ex.read_mem(st, a[0], n, ins, atomic=False, vol=False, data='memcmp')
    y = ex.read_mem(st, a[1], n, ins, atomic=False, vol=False, data='memcmp')
    x = ex.num(st, x, n * 8)
    y = ex.num(st, y, n * 8)
    e = eqv(x, y, n * 8)
    if isint(e):
        if e:
            return 0
        r = fresh('memcmp', 32)
        st.pc.append(r != 0)
        return r
    r = fresh('memcmp', 32)
    st.pc.append(r != 0)
    return z3.If(e, z3.BitVecVal(0, 32), r)


def x_nop(ex, st, fr, ins, a, name):
    return None


def x_expect(ex, st, fr, ins, a, name):
    return a[0]


def x_assume(ex, st, fr, ins, a, name):
    c = simp(a[0])
    if isint(c) and c:
        return None
    m = ex.prove(st, tobool(c)) if not isint(c) else 1
    if m is not None:
        # clang emits an assumption that is UB to violate; keep it as violation unless it is the flag-output range
        st.viol.append(('assume-violated', ins.text))
    return None


def x_isconst(ex, st, fr, ins, a, name):
    v = simp(a[0]) if not isinstance(a[0], (Ptr, list)) else None
    s2 = st.clone()
    return ('fork', [(st, 1), (s2, 0)])


def x_overflow(ex, st, fr, ins, a, name):
    # llvm.{u,s}{add,sub,mul}.with.overflow.iN
    parts = name.split('.')
    op = parts[1]
    t = fr.mod.resolve(ins.ty)
    w = t[2][0][1]
    sg = op[0] == 's'
    o = op[1:]
    W = w * 2
    ext = sext if sg else zext
    r2 = binop(o, ext(a[0], w, W), ext(a[1], w, W), W)
    r = extract(r2, w - 1, 0)
    back = ext(r, w, W)
    ov = notb(eqv(back, r2, W)) if not isint(eqv(back, r2, W)) else 1 - eqv(back, r2, W)
    return [r, ov]


def x_ctz(ex, st, fr, ins, a, name):
    w = fr.mod.bits(ins.ty)
    v = a[0]
    if isint(v):
        if v == 0:
            return w
        return (v & -v).bit_length() - 1
    r = z3.BitVecVal(w, w)
    for i in reversed(range(w)):
        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, w), r)
    return r


def x_ctlz(ex, st, fr, ins, a, name):
    w = fr.mod.bits(ins.ty)
    v = a[0]
    if isint(v):
        return w - v.bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r


def x_ctpop(ex, st, fr, ins, a, name):
    w = fr.mod.bits(ins.ty)
    v = a[0]
    if isint(v):
        return bin(v).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    return r


def x_satarith(ex, st, fr, ins, a, name):
    w = fr.mod.bits(ins.ty)
    k = name.split('.')[1]
    if k == 'usub':
        return ite(icmp('ult', a[0], a[1], w), 0, binop('sub', a[0], a[1], w), w)
    if k == 'uadd':
        s = binop('add', a[0], a[1], w)
        return ite(icmp('ult', s, a[0], w), mask(w), s, w)
    raise Unsupported('call to ' + name)


def x_bswap(ex, st, fr, ins, a, name):
    w = fr.mod.bits(ins.ty)
    return concat([(extract(a[0], i * 8 + 7, i * 8), 8) for i in reversed(range(w // 8))])


def x_minmax(ex, st, fr, ins, a, name):
    w = fr.mod.bits(ins.ty)
    k = name.split('.')[1]
    p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]
    return ite(icmp(p, a[0], a[1], w), a[0], a[1], w)


def x_fsh(ex, st, fr, ins, a, name):
    w = fr.mod.bits(ins.ty)
    c = binop('urem', a[2], w, w)
    W = 2 * w
    v = concat([(a[1], w), (a[0], w)])
    cz = zext(c, w, W)
    if 'fshl' in name:
        return extract(binop('lshr', binop('shl', v, cz, W), w, W), w - 1, 0)
    return extract(binop('lshr', v, cz, W), w - 1, 0)


def x_trap(ex, st, fr, ins, a, name):
    st.viol.append(('trap', fr.fn.name))
    st.status = 'abort'
    return None


def sat(v, wi, wo):
    """signed saturate wi->wo"""
    lo, hi = -(1 << (wo - 1)), (1 << (wo - 1)) - 1
    if isint(v):
        s = sgn(v, wi)
        return max(lo, min(hi, s)) & mask(wo)
    V = v
    return z3.If(V > hi, z3.BitVecVal(hi, wo), z3.If(V < lo, z3.BitVecVal(lo & mask(wo), wo), z3.Extract(wo - 1, 0, V)))


def x_packss(ex, st, fr, ins, a, name):
    wi, wo = (32, 16) if 'packssdw' in name else (16, 8)
    return [sat(x, wi, wo) for x in list(a[0]) + list(a[1])]


def x_movmsk(ex, st, fr, ins, a, name):
    v = a[0]
    t = fr.mod.resolve(ins.a[1][0][0])
    w = fr.mod.bits(t[2])
    parts = [(extract(x, w - 1, w - 1), 1) for x in v]
    n = len(parts)
    return concat(parts + [(0, 32 - n)])


def x_abs(ex, st, fr, ins, a, name):
    w = fr.mod.bits(ins.ty)
    return ite(icmp('slt', a[0], 0, w), binop('sub', 0, a[0], w), a[0], w)


def x_identity(ex, st, fr, ins, a, name):
    return a[0]


def x_objsize(ex, st, fr, ins, a, name):
    return mask(fr.mod.bits(ins.ty))


def x_stacksave(ex, st, fr, ins, a, name):
    return 0


INTRIN = [
    ('llvm.lifetime', x_nop), ('llvm.dbg', x_nop), ('llvm.memcpy', x_memcpy), ('llvm.memmove', x_memcpy), ('llvm.memset', x_memset),
    ('llvm.expect', x_expect), ('llvm.assume', x_assume), ('llvm.is.constant', x_isconst),
    ('llvm.umul.with', x_overflow), ('llvm.smul.with', x_overflow), ('llvm.uadd.with', x_overflow), ('llvm.sadd.with', x_overflow),
    ('llvm.usub.with', x_overflow), ('llvm.ssub.with', x_overflow),
    ('llvm.cttz', x_ctz), ('llvm.ctlz', x_ctlz), ('llvm.bswap', x_bswap), ('llvm.umin', x_minmax), ('llvm.umax', x_minmax),
    ('llvm.smin', x_minmax), ('llvm.smax', x_minmax), ('llvm.fshl', x_fsh), ('llvm.fshr', x_fsh), ('llvm.trap', x_trap),
    ('llvm.ctpop', x_ctpop), ('llvm.usub.sat', x_satarith), ('llvm.uadd.sat', x_satarith),
    ('llvm.x86.sse2.packs', x_packss), ('llvm.x86.sse2.pmovmskb', x_movmsk), ('llvm.x86.sse.movmsk', x_movmsk),
    ('llvm.x86.sse2.movmsk', x_movmsk), ('llvm.abs', x_abs), ('llvm.launder', x_identity), ('llvm.strip', x_identity),
    ('llvm.objectsize', x_objsize), ('llvm.stacksave', x_stacksave), ('llvm.stackrestore', x_nop),
    ('llvm.experimental.noalias', x_nop), ('llvm.invariant', x_nop), ('llvm.ubsantrap', x_trap), ('llvm.threadlocal', x_identity),
    ('llvm.prefetch', x_nop), ('llvm.donothing', x_nop), ('llvm.sideeffect', x_nop),
]


def x_assert_fail(ex, st, fr, ins, a, name):
    st.viol.append(('assert', cstr(ex, st, a[0])))
    st.status = 'abort'
    return None


def cstr(ex, st, p):
    try:
        oid, off = ex.resolve(st, p, 1)
        o = st.objs[oid]
        s = ''
        for i in range(off, o.size):
            c = ex.raw_read(st, o, i, 1)
            if not isint(c) or c == 0:
                break
            s += chr(c)
        return s
    except Exception as e:
        return '?'


def x_abort(ex, st, fr, ins, a, name):
    st.viol.append(('abort', name))
    st.status = 'abort'
    return None


DEFAULT_EXT = {
    'memcpy': x_memcpy, 'memmove': x_memcpy, 'memset': x_memset, 'memcmp': x_memcmp, 'bcmp': x_memcmp,
    '__assert_fail': x_assert_fail, 'abort': x_abort, '_ZSt9terminatev': x_abort,
}
