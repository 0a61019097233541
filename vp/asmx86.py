"""x86 (AT&T) inline assembly: symbolic execution under GCC's operand-constraint contract.

Every memory access of an instruction becomes one event of the executor; register operands that the compiler allocates
are separate symbolic registers, hard registers start with an unknown caller value.  Contract breaches (undeclared
clobbers, modified inputs, outputs written too early, undeclared memory) are recorded as ('asm-contract', text) in
State.viol and the values concerned become arbitrary."""
import re
import z3
from .core import (Unsupported, Ptr, Event, fresh, bv, simp, isint, mask, binop, extract, zext, sext, concat, eqv, tobool, notb, ite, icmp)
from . import ir

R64 = {}
for l, n in zip('abcd', ('ax', 'bx', 'cx', 'dx')):
    R64['r' + n] = (l, 64, 0)
    R64['e' + n] = (l, 32, 0)
    R64[n] = (l, 16, 0)
    R64[l + 'l'] = (l, 8, 0)
    R64[l + 'h'] = (l, 8, 8)
for l, n in (('S', 'si'), ('D', 'di'), ('bp', 'bp'), ('sp', 'sp')):
    R64['r' + n] = (l, 64, 0)
    R64['e' + n] = (l, 32, 0)
    R64[n] = (l, 16, 0)
    R64[n + 'l'] = (l, 8, 0)
for i in range(8, 16):
    n = 'r%d' % i
    R64[n] = (n, 64, 0)
    R64[n + 'd'] = (n, 32, 0)
    R64[n + 'w'] = (n, 16, 0)
    R64[n + 'b'] = (n, 8, 0)
for i in range(16):
    R64['xmm%d' % i] = ('xmm%d' % i, 128, 0)
HARD = {'ax': 'a', 'bx': 'b', 'cx': 'c', 'dx': 'd', 'si': 'S', 'di': 'D', 'bp': 'bp', 'sp': 'sp'}
for k in list(R64):
    HARD[k] = R64[k][0]
SUF = {'b': 8, 'w': 16, 'l': 32, 'q': 64}


class Opnd:
    __slots__ = ('idx', 'out', 'inp', 'early', 'mem', 'reg', 'imm', 'flag', 'tied', 'ptr', 'bits', 'ty', 'code', 'pair', 'val', 'memsize')


class Ctx:
    __slots__ = ('prog', 'labels', 'ops', 'regs', 'init', 'flags', 'ip', 'clob', 'memclob', 'ins', 'early_written', 'written', 'side', 'inopnd',
                 'steps', 'fixed', 'seg', 'accd')

    def clone(self):
        c = Ctx()
        for s in self.__slots__:
            setattr(c, s, getattr(self, s, None))
        c.regs = dict(self.regs)
        c.init = dict(self.init)
        c.flags = dict(self.flags)
        c.written = set(self.written)
        c.early_written = set(self.early_written)
        return c


_cache = {}


def parse_template(t):
    """-> ([(label_list, lock, mnemonic, [operand strings])], labels)"""
    r = _cache.get(t)
    if r:
        return r
    # dialect alternatives
    t2 = re.sub(r'\$\(([^|]*?)\$\|.*?\$\)', r'\1', t)
    prog = []
    labels = {}
    lock = False
    for line in re.split(r'[\n;]', t2):
        line = re.sub(r'#.*$|//.*$', '', line).strip()
        while True:
            m = re.match(r'^([A-Za-z_.$0-9{}:]+?):(?!\S)\s*(.*)$', line) or re.match(r'^([0-9]+|[A-Za-z_.][\w.]*):\s*(.*)$', line)
            if not m or m.group(1).startswith('${'):
                break
            labels.setdefault(m.group(1), []).append(len(prog))
            line = m.group(2).strip()
        if not line:
            continue
        m = re.match(r'^(\S+)\s*(.*)$', line)
        mn, rest = m.group(1).lower(), m.group(2)
        if mn in ('lock', 'rep', 'repz', 'repe', 'xacquire', 'xrelease', 'data16'):
            if mn == 'lock':
                lock = True
            elif mn == 'rep' and rest.startswith('nop'):
                pass
            if not rest:
                continue
            m = re.match(r'^(\S+)\s*(.*)$', rest)
            mn, rest = m.group(1).lower(), m.group(2)
        if mn.startswith('.'):
            if mn in ('.align', '.p2align', '.balign'):
                continue
            raise Unsupported('asm directive ' + mn)
        ops = []
        d = 0
        cur = ''
        for ch in rest:
            if ch in '({':
                d += 1
            if ch in ')}':
                d -= 1
            if ch == ',' and d == 0:
                ops.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            ops.append(cur.strip())
        prog.append((lock, mn, ops))
        lock = False
    r = (prog, labels)
    _cache[t] = r
    return r


def parse_cons(cons):
    # split on commas not inside braces
    out = []
    d = 0
    cur = ''
    for ch in cons:
        if ch == '{':
            d += 1
        if ch == '}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def begin(ex, st, fr, ins, callee, args, vals):
    _, side, tmpl, cons = callee
    ex.stats.asms.add(tmpl)
    prog, labels = parse_template(tmpl)
    c = Ctx()
    c.prog, c.labels, c.side, c.ins = prog, labels, side, ins
    c.regs, c.init, c.flags = {}, {}, {}
    c.ip = 0
    c.steps = 0
    c.clob = set()
    c.memclob = False
    c.written = set()
    c.early_written = set()
    ops = []
    ai = 0
    rt = fr.mod.resolve(ins.ty) if ins.ty else ('void',)
    outtys = [] if rt == ('void',) else (list(rt[2]) if rt[0] == 'st' else [rt])
    oi = 0
    fixed = {}
    for k in parse_cons(cons):
        if k.startswith('~{'):
            n = k[2:-1]
            if n == 'memory':
                c.memclob = True
            elif n in ('cc', 'flags', 'dirflag', 'fpsr', 'st', 'fpcr'):
                pass
            elif n in HARD:
                c.clob.add(HARD[n])
            else:
                c.clob.add(n)
            continue
        o = Opnd()
        o.idx = len(ops)
        o.out = k.startswith('=') or k.startswith('+')
        o.inp = not o.out
        if o.out:
            k = k[1:]
        o.early = k.startswith('&')
        if o.early:
            k = k[1:]
        ind = k.startswith('*')
        if ind:
            k = k[1:]
        if k.startswith('%'):
            k = k[1:]
        o.code = k
        o.mem = o.imm = o.pair = False
        o.reg = o.flag = o.tied = o.ptr = o.val = None
        o.memsize = None
        if ind or k in ('m', 'o', 'V', 'Q!'):
            t, v, at = args[ai]
            o.mem = True
            o.ptr = vals[ai]
            if 'elementtype' in at:
                et = ir.P(at['elementtype'], fr.mod).type()
                o.memsize = fr.mod.size(et)
                o.bits = fr.mod.store_size(et) * 8
            else:
                o.bits = 64
            ai += 1
            ops.append(o)
            continue
        if o.out:
            o.ty = fr.mod.resolve(outtys[oi])
            oi += 1
        else:
            o.ty = fr.mod.resolve(args[ai][0])
            o.val = vals[ai]
            ai += 1
        o.bits = fr.mod.bits(o.ty)
        if k.startswith('{@cc'):
            o.flag = k[4:-1]
        elif k.isdigit():
            o.tied = int(k)
            ops[o.tied].inp = True
            ops[o.tied].val = o.val
            ops[o.tied].tied = o.idx if False else ops[o.tied].tied
            o.reg = ops[o.tied].reg
            o.pair = ops[o.tied].pair
        elif k.startswith('{'):
            n = k[1:-1]
            if n not in HARD:
                raise Unsupported('asm register constraint ' + k)
            o.reg = HARD[n]
            fixed.setdefault(o.reg, []).append(o)
        elif k == 'A' and o.bits == 2 * ex.pw:
            o.pair = True
            o.reg = ('a', 'd')
            fixed.setdefault('a', []).append(o)
            fixed.setdefault('d', []).append(o)
        else:
            # hard single-register letters
            single = {'a': 'a', 'b': 'b', 'c': 'c', 'd': 'd', 'S': 'S', 'D': 'D'}
            if k in single:
                o.reg = single[k]
                fixed.setdefault(o.reg, []).append(o)
            elif any(ch in k for ch in 'rqQRlxvyAabcdSDge'):
                o.reg = 'v%d' % o.idx
                o.imm = o.inp and any(ch in k for ch in 'ing') or (o.inp and any(ch in k for ch in 'IJKLMNOeZ'))
            elif o.inp and any(ch in k for ch in 'inIJKLMNOeZ'):
                o.imm = True
                o.reg = 'v%d' % o.idx
            else:
                raise Unsupported('asm constraint ' + k)
        ops.append(o)
    c.ops = ops
    c.fixed = fixed
    for o in ops:
        if o.val is None or o.reg is None:
            continue
        v = tonum(ex, st, fr, o.val, o.ty)
        w = o.bits
        if o.pair:
            set_init(c, 'a', extract(v, ex.pw - 1, 0), ex.pw)
            set_init(c, 'd', extract(v, 2 * ex.pw - 1, ex.pw), ex.pw)
        elif isinstance(v, Ptr):
            c.regs[o.reg] = v
            c.init[o.reg] = v
        else:
            set_init(c, o.reg, v, w)
    fr.asm = c


def tonum(ex, st, fr, v, ty):
    if isinstance(v, list):
        w = fr.mod.bits(ty[2])
        return concat([(ex.num(st, x, w), w) for x in v])
    if isinstance(v, z3.BoolRef):
        return zext(v, 1, 8)
    return v


def regw(r):
    return 128 if (r.startswith('xmm')) else 64


def set_init(c, r, v, w):
    full = 128 if w > 64 else 64
    if w < full:
        # upper bits of an operand register are unspecified
        v = concat([(v, w), (fresh('hi_' + r, full - w), full - w)])
    c.regs[r] = v
    c.init[r] = v


def getreg(ex, st, c, r, w, lo=0):
    if r not in c.regs:
        full = 128 if r.startswith('xmm') or w > 64 else 64
        c.regs[r] = c.init[r] = fresh('caller_' + r, full)
    v = c.regs[r]
    if isinstance(v, Ptr):
        if w == 64 and lo == 0:
            return v
        v = ex.ptr_bv(st, v)
    full = v.size() if not isint(v) else 128
    if isint(v):
        return (v >> lo) & mask(w)
    if w + lo > full:
        return zext(extract(v, full - 1, lo), full - lo, w)
    return extract(v, lo + w - 1, lo)


def setreg(ex, st, c, r, val, w, lo=0):
    getreg(ex, st, c, r, 8)
    c.written.add(r)
    if isinstance(val, Ptr):
        if w == 64:
            c.regs[r] = val
            return
        val = extract(ex.ptr_bv(st, val), w - 1, 0)
    old = c.regs[r]
    if isinstance(old, Ptr):
        old = ex.ptr_bv(st, old)
    xm = r.startswith('xmm') or (not isint(old) and old.size() == 128) or w == 128
    if xm:
        c.regs[r] = val if w == 128 else concat([(val, w), (0, 128 - w)])
        return
    if w == 64:
        c.regs[r] = val
    elif w == 32:
        c.regs[r] = zext(val, 32, 64)
    else:
        parts = []
        if lo:
            parts.append((extract(old, lo - 1, 0), lo))
        parts.append((val, w))
        parts.append((extract(old, 63, lo + w), 64 - lo - w))
        c.regs[r] = concat(parts)


# ---- operands -------
def parse_op(c, s):
    """-> ('imm',v) | ('reg',r,w,lo,opnd|None) | ('mem', opnd|None, disp, base, index, scale) | ('lab',..)"""
    if s.startswith('$$'):
        return ('imm', int(s[2:], 0))
    m = re.match(r'^\$(\d+)$', s) or re.match(r'^\$\{(\d+)(?::(\w))?\}$', s)
    if m:
        o = c.ops[int(m.group(1))]
        mod = m.group(2) if m.lastindex and m.lastindex >= 2 else None
        if o.mem:
            if mod and mod not in 'H':
                raise Unsupported('asm modifier %s on memory' % mod)
            return ('mem', o, 8 if mod == 'H' else 0, None, None, 1)
        if o.flag:
            raise Unsupported('flag operand in template')
        if mod == 'P' or mod == 'c':
            mod = None
        lo = 0
        w = o.bits if o.bits <= 64 else 128
        if mod:
            w = {'b': 8, 'w': 16, 'k': 32, 'q': 64, 'h': 8}.get(mod)
            if w is None:
                raise Unsupported('asm modifier ' + mod)
            if mod == 'h':
                lo = 8
        reg = o.reg
        if isinstance(reg, tuple):
            reg = reg[0]
        return ('reg', reg, w, lo, o)
    if s.startswith('%'):
        n = s[1:]
        if n not in R64:
            raise Unsupported('asm register ' + s)
        r, w, lo = R64[n]
        return ('reg', r, w, lo, None)
    m = re.match(r'^(-?\w+)?\+?(\$\d+|\$\{\d+(?::\w)?\})$', s)
    if m:   # disp + memory operand, e.g. 4+%[x]
        o = parse_op(c, m.group(2))
        if o[0] == 'mem':
            return ('mem', o[1], o[2] + int(m.group(1) or '0', 0), None, None, 1)
    m = re.match(r'^(\$\d+|\$\{\d+(?::\w)?\})\+(\d+)$', s)
    if m:
        o = parse_op(c, m.group(1))
        if o[0] == 'mem':
            return ('mem', o[1], o[2] + int(m.group(2), 0), None, None, 1)
    m = re.match(r'^(?:%(\w+):)?(-?\w*)\(([^,)]*)(?:,([^,)]+)(?:,(\d))?)?\)$', s)
    if m:
        base = parse_op(c, m.group(3).strip()) if m.group(3).strip() else None
        idx = parse_op(c, m.group(4).strip()) if m.group(4) else None
        return ('mem', None, int(m.group(2) or '0', 0), base, idx, int(m.group(5) or 1))
    raise Unsupported('asm operand ' + s)


def contract(st, msg):
    st.viol.append(('asm-contract', msg))


def use_input(ex, st, c, o, what):
    """reading operand o: illegal once a non-early-clobber pure output has been written (it may share the register)"""
    for k in c.early_written:
        if o is None or k == o.idx:
            continue
        e = c.ops[k]
        if o.mem or (o.inp and not o.out):
            # hard registers cannot coincide unless equal
            if not o.mem and isinstance(o.reg, str) and not o.reg.startswith('v') and isinstance(e.reg, str) and not e.reg.startswith('v') \
                    and e.reg != o.reg:
                continue
            if not o.mem and (o.bits > 64 or 'x' in o.code) != (e.bits > 64 and not e.pair or 'x' in e.code):
                continue
            if o.mem and ('x' in e.code):
                continue
            contract(st, 'output $%d is written before %s $%d is read, without an early-clobber mark: %s'
                     % (k, what, o.idx, st_text(c)))
            return True
    return False


def st_text(c):
    return ' | '.join(('lock ' if l else '') + m + ' ' + ','.join(o) for l, m, o in c.prog)


def addr(ex, st, c, op):
    _, o, disp, base, idx, scale = op
    if o is not None:
        p = o.ptr
        if use_input(ex, st, c, o, 'memory operand'):
            pass
        return ex.padd(st, p, disp)
    v = 0
    if base is not None:
        b = rd(ex, st, c, base, ex.pw)
        v = b
    if idx is not None:
        i = rd(ex, st, c, idx, ex.pw)
        i = ex.ptr_bv(st, i)
        v = ex.padd(st, v, binop('mul', i, scale, ex.pw))
    return ex.padd(st, v, disp)


def decl_mem(ex, st, c, op, n, write):
    """is the access covered by a declared operand or the memory clobber?"""
    if c.memclob:
        return
    o = op[1]
    if o is None:
        contract(st, 'memory accessed through a register without a memory operand or clobber: ' + st_text(c))
        return
    lo, hi = op[2], op[2] + n
    sz = o.memsize or n
    if lo < 0 or hi > sz:
        contract(st, 'memory access wider than its operand: ' + st_text(c))
    outs = [q for q in c.ops if q.mem and q.out and same_ptr(q.ptr, o.ptr)]
    inps = [q for q in c.ops if q.mem and not q.out and same_ptr(q.ptr, o.ptr)]
    if write and not outs:
        contract(st, 'memory operand $%d is input only but written: %s' % (o.idx, st_text(c)))
    if not write and not inps:
        contract(st, 'memory operand $%d is output only but read: %s' % (o.idx, st_text(c)))


def same_ptr(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and (a.off is b.off or (isint(a.off) and a.off == b.off) or (not isint(a.off) and not isint(b.off) and a.off.eq(b.off)))
    if isint(a) or isint(b) or isinstance(a, Ptr) or isinstance(b, Ptr):
        return a is b
    return a.eq(b)


def attrs(ex, st, c, lock, vec=None, aligned=True):
    return dict(asm=c.ins, memclob=c.memclob, vol=c.side, locked=lock, order='asm', atomic=True, grp=vec)


def rd(ex, st, c, op, w, lock=False, vec=None):
    if op[0] == 'imm':
        return op[1] & mask(w)
    if op[0] == 'reg':
        _, r, rw, lo, o = op
        if o is not None:
            if o.out and not o.inp and r not in c.written:
                contract(st, 'output-only operand $%d is read before it is written: %s' % (o.idx, st_text(c)))
            elif use_input(ex, st, c, o, 'input'):
                return fresh('shared_reg', w)
        else:
            # explicit hard register: is it declared as input or was it written?
            if r not in c.written and r not in c.init and r not in ('sp',):
                getreg(ex, st, c, r, w, lo)
        return getreg(ex, st, c, r, w, lo)
    n = w // 8
    p = addr(ex, st, c, op)
    decl_mem(ex, st, c, op, n, False)
    v = ex.read_mem(st, p, n, c.ins, **attrs(ex, st, c, lock, vec))
    return v


def wr(ex, st, c, op, val, w, lock=False, vec=None):
    if op[0] == 'reg':
        _, r, rw, lo, o = op
        setop(ex, st, c, r, val, w, lo, o)
        return
    n = w // 8
    p = addr(ex, st, c, op)
    decl_mem(ex, st, c, op, n, True)
    if isinstance(val, z3.BoolRef):
        val = zext(val, 1, w)
    ex.write_mem(st, p, n, val, c.ins, **attrs(ex, st, c, lock, vec))


def setop(ex, st, c, r, val, w, lo, o):
    if isinstance(val, z3.BoolRef):
        val = zext(val, 1, w)
    outs = [q for q in c.ops if q.out and not q.mem and (q.reg == r or (q.pair and r in q.reg))]
    if o is not None and not o.out and not outs:
        if not (o.tied is not None):
            contract(st, 'input operand $%d is modified: %s' % (o.idx, st_text(c)))
    for q in outs:
        if not q.inp and not q.early:
            c.early_written.add(q.idx)
    setreg(ex, st, c, r, val, w, lo)


def width(c, mn, suffix, ops):
    if suffix:
        return SUF[suffix]
    for o in ops:
        if o[0] == 'reg':
            return o[2]
    for o in ops:
        if o[0] == 'mem' and o[1] is not None:
            return o[1].bits
    raise Unsupported('asm operand size of ' + mn)


def flags_logic(c, r, w):
    c.flags = {'z': eqv(r, 0, w), 's': bit(r, w - 1), 'c': 0, 'o': 0, 'r8': None}


def bit(v, i):
    if isint(v):
        return (v >> i) & 1
    return z3.Extract(i, i, v) == 1


def flags_add(c, a, b, r, w, keepc=False):
    cf = icmp('ult', r, a, w)
    of = bit(binop('and', binop('xor', binop('xor', a, b, w), mask(w), w), binop('xor', a, r, w), w), w - 1)
    old = c.flags.get('c')
    c.flags = {'z': eqv(r, 0, w), 's': bit(r, w - 1), 'c': old if keepc else cf, 'o': of}


def flags_sub(c, a, b, r, w, keepc=False):
    cf = icmp('ult', a, b, w)
    of = bit(binop('and', binop('xor', a, b, w), binop('xor', a, r, w), w), w - 1)
    old = c.flags.get('c')
    c.flags = {'z': eqv(r, 0, w), 's': bit(r, w - 1), 'c': old if keepc else cf, 'o': of}


def cond(st, c, cc):
    f = c.flags

    def g(k):
        v = f.get(k)
        if v is None:
            contract(st, 'undefined or unset flag %s used: %s' % (k, st_text(c)))
            v = z3.Bool('undef_flag_%s' % k)
            from .core import freshb
            v = freshb('flag')
        return v

    def N(v):
        return 1 - v if isint(v) else z3.Not(v)

    def OR(a, b):
        return binop('or', a, b, 1)

    def XOR(a, b):
        return binop('xor', a, b, 1)
    if cc in ('e', 'z'):
        return g('z')
    if cc in ('ne', 'nz'):
        return N(g('z'))
    if cc in ('c', 'b', 'nae'):
        return g('c')
    if cc in ('nc', 'ae', 'nb'):
        return N(g('c'))
    if cc == 's':
        return g('s')
    if cc == 'ns':
        return N(g('s'))
    if cc == 'o':
        return g('o')
    if cc == 'no':
        return N(g('o'))
    if cc in ('a', 'nbe'):
        return N(OR(g('c'), g('z')))
    if cc in ('be', 'na'):
        return OR(g('c'), g('z'))
    if cc in ('l', 'nge'):
        return XOR(g('s'), g('o'))
    if cc in ('ge', 'nl'):
        return N(XOR(g('s'), g('o')))
    if cc in ('g', 'nle'):
        return N(OR(g('z'), XOR(g('s'), g('o'))))
    if cc in ('le', 'ng'):
        return OR(g('z'), XOR(g('s'), g('o')))
    raise Unsupported('condition ' + cc)


ARITH = {'add', 'sub', 'and', 'or', 'xor', 'adc', 'sbb'}


def step(ex, st, fr):
    c = fr.asm
    c = c.clone()
    fr.asm = c
    if c.ip >= len(c.prog):
        return finish(ex, st, fr, c)
    c.steps += 1
    if c.steps > 400:
        st.status = 'cut'
        st.cuts = 'asm loop bound'
        return None
    lock, mn, sops = c.prog[c.ip]
    ex.stats.insts += 1
    # jumps
    if mn[0] == 'j':
        lab = sops[0]
        m = re.match(r'^(\d+)([bf])$', lab)
        if m:
            ls = c.labels.get(m.group(1), [])
            tgt = [x for x in ls if x <= c.ip] if m.group(2) == 'b' else [x for x in ls if x > c.ip]
            if not tgt:
                raise Unsupported('asm label ' + lab)
            t = tgt[-1] if m.group(2) == 'b' else tgt[0]
        else:
            if lab not in c.labels:
                raise Unsupported('asm label ' + lab)
            t = c.labels[lab][0]
        if mn == 'jmp':
            c.ip = t
            return None
        cd = cond(st, c, mn[1:])
        rs = ex.split(st, cd)
        for s, tk in rs:
            f2 = s.frames[-1]
            if s is not st:
                pass
            f2.asm = f2.asm.clone()
            f2.asm.ip = t if tk else c.ip + 1
        if len(rs) == 1 and rs[0][0] is st:
            return None
        return [s for s, _ in rs]
    c.ip += 1
    if mn in ('pause', 'nop', 'hint'):
        return None
    if mn in ('mfence', 'lfence', 'sfence'):
        ex.event(st, Event('FENCE', order=mn, inst=c.ins, asm=c.ins, memclob=c.memclob, vol=c.side))
        return None
    if mn in ('cld', 'std', 'clc', 'stc'):
        if mn == 'clc':
            c.flags['c'] = 0
        if mn == 'stc':
            c.flags['c'] = 1
        return None
    if mn == 'cpuid':
        r = ex.cpuid(st, c) if hasattr(ex, 'cpuid') else None
        leaf = simp(getreg(ex, st, c, 'a', 32))
        sub = getreg(ex, st, c, 'c', 32)
        if hasattr(ex, 'on_cpuid'):
            vals = ex.on_cpuid(ex, st, leaf, sub)
        else:
            vals = [fresh('cpuid_' + x, 32) for x in 'abcd']
        for x, v in zip('abcd', vals):
            setop(ex, st, c, x, v, 32, 0, None)
        return None
    if mn.startswith('set'):
        op = parse_op(c, sops[0])
        v = cond(st, c, mn[3:])
        wr(ex, st, c, op, zext(v, 1, 8), 8)
        return None
    if mn in ('cmpxchg8b', 'cmpxchg16b'):
        hw = 32 if mn == 'cmpxchg8b' else 64
        op = parse_op(c, sops[0])
        if op[0] != 'mem':
            raise Unsupported(mn + ' operand')
        exp = concat([(num(ex, st, getreg(ex, st, c, 'a', hw)), hw), (num(ex, st, getreg(ex, st, c, 'd', hw)), hw)])
        new = concat([(num(ex, st, getreg(ex, st, c, 'b', hw)), hw), (num(ex, st, getreg(ex, st, c, 'c', hw)), hw)])
        p = addr(ex, st, c, op)
        decl_mem(ex, st, c, op, hw // 4, False)
        decl_mem(ex, st, c, op, hw // 4, True)
        need_align(ex, st, p, hw // 4, c)
        out = []
        for s, old, ok in ex.cas(st, p, hw // 4, exp, new, c.ins, **attrs(ex, st, c, lock)):
            f2 = s.frames[-1]
            c2 = f2.asm = f2.asm.clone()
            c2.flags = {'z': ok}
            if not ok:
                setop(ex, s, c2, 'a', extract(old, hw - 1, 0), hw, 0, None)
                setop(ex, s, c2, 'd', extract(old, 2 * hw - 1, hw), hw, 0, None)
            else:
                # written with the same value; counts as a write of the register
                setop(ex, s, c2, 'a', getreg(ex, s, c2, 'a', hw), hw, 0, None)
                setop(ex, s, c2, 'd', getreg(ex, s, c2, 'd', hw), hw, 0, None)
            out.append(s)
        return out
    m = re.match(r'^(v?movdqa|v?movdqu|v?movaps|v?movups|v?movapd|v?movupd|movntdqa|lddqu|v?lddqu)$', mn)
    if m:
        a, b = [parse_op(c, s) for s in sops]
        v = 'vec' if mn.startswith('v') else 'sse'
        if mn.endswith('u') or 'ups' in mn or 'upd' in mn:
            v += 'u'
        if a[0] == 'mem' or b[0] == 'mem':
            if v in ('vec', 'sse'):
                need_align(ex, st, addr_quiet(ex, st, c, a if a[0] == 'mem' else b), 16, c)
        x = rd(ex, st, c, a, 128, False, v)
        wr(ex, st, c, b, x, 128, False, v)
        return None
    m = re.match(r'^v?(movq|movlps|movlpd|movsd)$', mn)
    if m and (mn.startswith('v') or mn != 'movq' or any(is_xmm(c, s) for s in sops)):
        a, b = [parse_op(c, s) for s in sops]
        x = rd(ex, st, c, a, 64, False, 'mov8')
        wr(ex, st, c, b, x, 64, False, 'mov8')
        return None
    m = re.match(r'^(v?)(pand|por|pxor|pandn|andps|andpd|orps|orpd|xorps|xorpd|andnps|andnpd)$', mn)
    if m:
        ops = [parse_op(c, s) for s in sops]
        if len(ops) != (3 if m.group(1) else 2):
            raise Unsupported('operands of ' + mn)
        b = rd(ex, st, c, ops[0], 128, False, 'sse')
        a = rd(ex, st, c, ops[1], 128, False, 'sse')
        k = m.group(2)
        if 'andn' in k:
            a = binop('xor', a, mask(128), 128)
        wr(ex, st, c, ops[-1], binop('and' if 'and' in k else 'xor' if 'xor' in k else 'or', a, b, 128), 128, False, 'sse')
        return None
    m = re.match(r'^v?(movd|movss)$', mn)
    if m:
        a, b = [parse_op(c, s) for s in sops]
        x = rd(ex, st, c, a, 32, False)
        wr(ex, st, c, b, x, 32, False)
        return None
    m = re.match(r'^mov([sz])([bwl])([wlq])$', mn)
    if m:
        a, b = [parse_op(c, s) for s in sops]
        wi, wo = SUF[m.group(2)], SUF[m.group(3)]
        x = num(ex, st, rd(ex, st, c, a, wi))
        x = zext(x, wi, wo) if m.group(1) == 'z' else sext(x, wi, wo)
        wr(ex, st, c, b, x, wo)
        return None
    m = re.match(r'^(movabs|mov|xadd|xchg|cmpxchg|add|sub|and|or|xor|adc|sbb|not|neg|inc|dec|bts|btr|btc|bt|lea|test|cmp|shl|sal|shr|sar|xadd|push|pop)([bwlq])?$', mn)
    if not m:
        raise Unsupported('asm instruction ' + mn)
    base, suf = m.group(1), m.group(2)
    ops = [parse_op(c, s) for s in sops]
    w = width(c, mn, suf, list(reversed(ops)))
    for o, s in zip(ops, sops):
        if o[0] == 'reg' and o[2] != w and o[4] is None and base != 'bt':
            raise Unsupported('asm operand size mismatch: %s %s' % (mn, sops))
        if o[0] == 'reg' and o[4] is not None and o[2] != w and not (o[4].imm) and base not in ('lea',):
            contract(st, 'operand %s has %d bits in a %d-bit instruction: %s' % (s, o[2], w, st_text(c)))
    if lock and (base not in ('xadd', 'xchg', 'cmpxchg', 'add', 'sub', 'and', 'or', 'xor', 'not', 'neg', 'inc', 'dec', 'bts', 'btr', 'btc', 'adc', 'sbb')
                 or ops[-1][0] != 'mem' and not (base == 'xchg' and ops[0][0] == 'mem')):
        raise Unsupported('invalid lock prefix on ' + mn)
    if base == 'movabs':
        base = 'mov'
    if base == 'mov':
        x = rd(ex, st, c, ops[0], w)
        wr(ex, st, c, ops[1], x, w)
        return None
    if base == 'lea':
        p = addr(ex, st, c, ops[0])
        wr(ex, st, c, ops[1], p, w)
        return None
    if base in ('test', 'cmp', 'bt'):
        a = num(ex, st, rd(ex, st, c, ops[1], w))
        b = num(ex, st, rd(ex, st, c, ops[0], w))
        if base == 'test':
            flags_logic(c, binop('and', a, b, w), w)
        elif base == 'cmp':
            flags_sub(c, a, b, binop('sub', a, b, w), w)
        else:
            c.flags = {'c': bitn(a, b, w)}
        return None
    dst = ops[-1]
    src = ops[0] if len(ops) == 2 else None
    if base == 'xchg' and dst[0] == 'reg' and src[0] == 'mem':
        dst, src = src, dst
    if dst[0] == 'mem':
        p = addr(ex, st, c, dst)
        decl_mem(ex, st, c, dst, w // 8, True)
        decl_mem(ex, st, c, dst, w // 8, False)
        at = attrs(ex, st, c, lock or base == 'xchg')
        if base == 'cmpxchg':
            new = num(ex, st, rd(ex, st, c, src, w))
            exp = num(ex, st, getreg(ex, st, c, 'a', w))
            out = []
            for s, old, ok in ex.cas(st, p, w // 8, exp, new, c.ins, **at):
                f2 = s.frames[-1]
                c2 = f2.asm = f2.asm.clone()
                c2.flags = {'z': ok}
                setop(ex, s, c2, 'a', old if not ok else getreg(ex, s, c2, 'a', w), w, 0, None)
                out.append(s)
            return out
        if base in ('bts', 'btr', 'btc') and src[0] == 'reg' and not (src[4] is not None and src[4].imm and isint(src[4].val)):
            # register bit offsets address memory beyond the operand
            n = num(ex, st, rd(ex, st, c, src, w))
            inr = icmp('ult', n, w, w)
            if ex.prove(st, inr) is not None:
                st.viol.append(('out-of-bounds', 'bit offset of %s may exceed the operand' % mn))
                st.pc.append(tobool(inr))
            srcv = n
        else:
            srcv = num(ex, st, rd(ex, st, c, src, w)) if src is not None else None
        box = {}

        def fn(old):
            r, fl = alu(base, old, srcv, w, c)
            box['fl'] = fl
            return r
        old = ex.rmw(st, p, w // 8, fn, c.ins, **at)
        oldn = num(ex, st, old)
        if 'fl' not in box:
            fn(oldn)
        box['fl'](oldn)
        if base in ('xchg', 'xadd'):
            _, r, rw, lo, o = src
            setop(ex, st, c, r, old, w, lo, o)
        return None
    # register destination
    _, r, rw, lo, o = dst
    if base == 'cmpxchg':
        raise Unsupported('cmpxchg reg')
    if base == 'xor' and src is not None and src[0] == 'reg' and src[1] == r:
        setop(ex, st, c, r, 0, w, lo, o)
        flags_logic(c, 0, w)
        return None
    if base == 'xchg':
        a = rd(ex, st, c, src, w)
        b = rd(ex, st, c, dst, w)
        setop(ex, st, c, r, a, w, lo, o)
        setop(ex, st, c, src[1], b, w, src[3], src[4])
        return None
    old = num(ex, st, rd(ex, st, c, dst, w))
    if base in ('shl', 'sal', 'shr', 'sar'):
        n = num(ex, st, rd(ex, st, c, src, 8)) if src is not None else 1
        n = zext(binop('and', n, 63 if w == 64 else 31, 8), 8, w)
        res = binop({'shl': 'shl', 'sal': 'shl', 'shr': 'lshr', 'sar': 'ashr'}[base], old, n, w)
        c.flags = {'z': eqv(res, 0, w), 's': bit(res, w - 1)}
        setop(ex, st, c, r, res, w, lo, o)
        return None
    srcv = num(ex, st, rd(ex, st, c, src, w)) if src is not None else None
    if base == 'xadd':
        res = binop('add', old, srcv, w)
        flags_add(c, old, srcv, res, w)
        setop(ex, st, c, src[1], old, w, src[3], src[4])
        setop(ex, st, c, r, res, w, lo, o)
        return None
    if base in ('bts', 'btr', 'btc'):
        srcv = binop('and', srcv, w - 1, w)
    res, fl = alu(base, old, srcv, w, c)
    fl(old)
    setop(ex, st, c, r, res, w, lo, o)
    return None


def num(ex, st, v):
    return ex.ptr_bv(st, v) if isinstance(v, Ptr) else v


def bitn(a, n, w):
    return bit(binop('lshr', a, binop('and', n, w - 1, w), w), 0)


def alu(base, old, s, w, c):
    m = mask(w)
    if base in ('add', 'xadd'):
        r = binop('add', old, s, w)
        return r, lambda o: flags_add(c, o, s, binop('add', o, s, w), w)
    if base == 'sub':
        r = binop('sub', old, s, w)
        return r, lambda o: flags_sub(c, o, s, binop('sub', o, s, w), w)
    if base in ('and', 'or', 'xor'):
        r = binop(base, old, s, w)
        return r, lambda o: flags_logic(c, binop(base, o, s, w), w)
    if base == 'not':
        return binop('xor', old, m, w), lambda o: None
    if base == 'neg':
        r = binop('sub', 0, old, w)

        def fl(o):
            flags_sub(c, 0, o, binop('sub', 0, o, w), w)
        return r, fl
    if base == 'inc':
        return binop('add', old, 1, w), lambda o: flags_add(c, o, 1, binop('add', o, 1, w), w, True)
    if base == 'dec':
        return binop('sub', old, 1, w), lambda o: flags_sub(c, o, 1, binop('sub', o, 1, w), w, True)
    if base == 'xchg':
        return s, lambda o: None
    if base in ('bts', 'btr', 'btc'):
        b = binop('shl', 1, binop('and', s, w - 1, w), w)
        if base == 'bts':
            r = binop('or', old, b, w)
        elif base == 'btr':
            r = binop('and', old, binop('xor', b, m, w), w)
        else:
            r = binop('xor', old, b, w)

        def fl(o):
            c.flags = {'c': bitn(o, s, w), 'z': c.flags.get('z')}
        return r, fl
    raise Unsupported('alu ' + base)


def is_xmm(c, s):
    try:
        o = parse_op(c, s)
    except Unsupported:
        return False
    if o[0] != 'reg':
        return False
    if o[1].startswith('xmm'):
        return True
    return o[4] is not None and any(ch in o[4].code for ch in 'xvy')


def addr_quiet(ex, st, c, op):
    n = len(st.viol)
    p = addr(ex, st, c, op)
    del st.viol[n:]
    return p


def need_align(ex, st, p, n, c):
    try:
        oid, off = ex.resolve(st, p, n)
    except Exception:
        return
    o = st.objs[oid]
    if (o.align or 1) % n or (isint(off) and off % n):
        st.viol.append(('misaligned', 'access of %d bytes needs %d-byte alignment (%s): object aligned to %d' % (n, n, st_text(c), o.align)))


def finish(ex, st, fr, c):
    # undeclared clobbers
    declared = set(c.clob)
    for o in c.ops:
        if o.out and not o.mem and o.reg:
            for r in (o.reg if isinstance(o.reg, tuple) else (o.reg,)):
                declared.add(r)
    for r in sorted(c.written):
        if r in declared or r.startswith('v'):
            continue
        a, b = c.regs[r], c.init.get(r)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a is b:
                continue
            a, b = num(ex, st, a), num(ex, st, b)
        w = 128 if r.startswith('xmm') else 64
        e = simp(eqv(a, b, w))
        if isint(e) and e:
            continue
        if not isint(e) and ex.prove(st, e) is None:
            continue
        contract(st, 'register %s is overwritten but not declared: %s' % (r, st_text(c)))
    outs = []
    for o in c.ops:
        if not o.out or o.mem:
            continue
        if o.flag:
            v = cond(st, c, o.flag)
            outs.append(zext(v, 1, o.bits))
            continue
        if o.pair:
            v = concat([(num(ex, st, getreg(ex, st, c, 'a', ex.pw)), ex.pw), (num(ex, st, getreg(ex, st, c, 'd', ex.pw)), ex.pw)])
        else:
            if o.reg not in c.written and not o.inp:
                contract(st, 'output $%d is never written: %s' % (o.idx, st_text(c)))
                v = fresh('unwritten', o.bits)
            else:
                v = getreg(ex, st, c, o.reg, o.bits)
        if o.ty[0] == 'vec':
            w = fr.mod.bits(o.ty[2])
            v = [extract(v, i * w + w - 1, i * w) for i in range(o.ty[1])]
        outs.append(v)
    fr.asm = None
    ins = c.ins
    if ins.res is not None:
        rt = fr.mod.resolve(ins.ty)
        fr.regs[ins.res] = outs if rt[0] == 'st' else outs[0]
    fr.idx += 1
    if not c.prog and c.memclob:
        ex.event(st, Event('FENCE', order='compiler', inst=ins, asm=ins, memclob=True, vol=c.side))
    elif c.memclob and (ex.asm_marks or not touches_mem(c)):
        ex.event(st, Event('FENCE', order='compiler', inst=ins, asm=ins, memclob=True, vol=c.side))
    return None


def touches_mem(c):
    for l, m, ops in c.prog:
        if m in ('mfence', 'lfence', 'sfence'):
            return True
        for s in ops:
            if '(' in s:
                return True
            mm = re.match(r'^\$\{?(\d+)', s)
            if mm and not s.startswith('$$') and c.ops[int(mm.group(1))].mem:
                return True
    return False
