"""Parser for the textual LLVM IR that clang 18 emits (opaque pointers)."""
import re, struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+|\{|\())
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[-+]?[0-9]+)?)?(?![a-zA-Z_.])|0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*:|])
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('lex: %r' % s[i:i + 60])
        k = m.lastgroup
        i = m.end()
        if k == 'ws':
            continue
        t = m.group(k)
        if k in ('loc', 'glob') and t[1] == '"':
            t = t[0] + unescape(t[2:-1])
        out.append((k, t))
    return out


def unescape(s):
    return re.sub(r'\\([0-9A-Fa-f]{2}|\\)', lambda m: '\\' if m.group(1) == '\\' else chr(int(m.group(1), 16)), s)


# ---- types: tuples -------------------------------------------------------
# ('i',n) ('ptr',) ('f',32|64|80|128|16) ('void',) ('arr',n,t) ('vec',n,t) ('st',packed,(t..)) ('name',n) ('fn',ret,(args),va) ('label',) ('md',)
PTR = ('ptr',)
I1 = ('i', 1)
FLT = {'float': 32, 'double': 64, 'x86_fp80': 80, 'fp128': 128, 'half': 16, 'bfloat': 16}


class Fn:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'va', 'decl', '_live', '_tys')


class Global:
    __slots__ = ('name', 'type', 'init', 'align', 'const', 'tls')


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.aliases = {}

    # -- layout (x86-64 / i386 / generic LP64 data layout) --
    ptrsize = 8
    i64align = 8
    f64align = 8
    i128align = 16
    f80size = 16
    f80align = 16

    def resolve(self, t):
        while t[0] == 'name':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            if n == 8:
                return self.i64align
            if n == 16:
                return self.i128align
            a = 1
            while a < n:
                a *= 2
            return a
        if k == 'ptr':
            return self.ptrsize
        if k == 'f':
            return {16: 2, 32: 4, 64: self.f64align, 80: self.f80align, 128: 16}[t[1]]
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            s = self.store_size(t)
            a = 1
            while a < s:
                a *= 2
            return a
        if k == 'st':
            if t[1]:
                return 1
            return max([self.align(x) for x in t[2]] or [1])
        raise NotImplementedError('align %r' % (t,))

    def store_size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return (t[1] + 7) // 8
        if k == 'ptr':
            return self.ptrsize
        if k == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 10, 128: 16}[t[1]]
        if k == 'vec':
            return t[1] * self.bits(t[2]) // 8 if self.bits(t[2]) * t[1] >= 8 else 1
        return self.size(t)

    def bits(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return t[1]
        if t[0] == 'ptr':
            return self.ptrsize * 8
        if t[0] == 'f':
            return t[1]
        if t[0] == 'vec':
            return t[1] * self.bits(t[2])
        raise NotImplementedError('bits %r' % (t,))

    def size(self, t):
        """alloc size"""
        t = self.resolve(t)
        k = t[0]
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'st':
            return self.struct_layout(t)[1]
        if k == 'void' or k == 'fn':
            return 1
        s = self.store_size(t)
        a = self.align(t)
        return (s + a - 1) // a * a

    _lay = None

    def struct_layout(self, t):
        if self._lay is None:
            self._lay = {}
        r = self._lay.get(t)
        if r:
            return r
        off = 0
        offs = []
        for x in t[2]:
            if not t[1]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        a = self.align(t)
        if not t[1]:
            off = (off + a - 1) // a * a
        r = (offs, off)
        self._lay[t] = r
        return r


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'zeroext', 'signext', 'returned',
               'immarg', 'inreg', 'nest', 'swiftself', 'readnone', 'nofree', 'noreturn', 'nounwind', 'tail', 'inbounds',
               'allocptr', 'allocalign', 'writable', 'dead_on_unwind'}
PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'align', 'byref',
                     'preallocated', 'inalloca', 'memory', 'range', 'nofpclass', 'captures', 'alignstack'}
CCONV = {'fastcc', 'ccc', 'coldcc'}


class P:
    """token stream"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x != s:
            raise SyntaxError('expected %r got %r in %r' % (s, x, ' '.join(t[1] for t in self.t)))

    def type(self):
        k, x = self.t[self.i]
        self.i += 1
        if k == 'id':
            if x[0] == 'i' and x[1:].isdigit():
                t = ('i', int(x[1:]))
            elif x == 'ptr':
                t = PTR
                if self.peek() == 'addrspace':
                    self.i += 1
                    self.expect('(')
                    self.next()
                    self.expect(')')
            elif x in FLT:
                t = ('f', FLT[x])
            elif x in ('void', 'label', 'metadata', 'token', 'opaque'):
                t = ('md',) if x == 'metadata' else (x,)
            else:
                raise SyntaxError('type %r in %s' % (x, ' '.join(t[1] for t in self.t)))
        elif k == 'loc':
            t = ('name', x[1:])
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = ('st', True, tuple(self.typelist('}')))
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            t = ('st', False, tuple(self.typelist('}')))
        else:
            raise SyntaxError('type %r in %s' % (x, ' '.join(t[1] for t in self.t)))
        # function type?
        if self.peek() == '(' and t[0] not in ('label',) and getattr(self, 'fnty', True):
            # only in call instruction position: "ret (args)"
            save = self.i
            try:
                self.i += 1
                args = []
                va = False
                while self.peek() != ')':
                    if self.accept('...'):
                        va = True
                    else:
                        args.append(self.type())
                    self.accept(',')
                self.next()
                t = ('fn', t, tuple(args), va)
            except SyntaxError:
                self.i = save
        return t

    def typelist(self, end):
        r = []
        while self.peek() != end:
            r.append(self.type())
            self.accept(',')
        self.next()
        return r

    def skip_param_attrs(self):
        at = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                at[x] = True
                self.i += 1
            elif x in PARAM_ATTRS_PAREN:
                self.i += 1
                if self.peek() == '(':
                    st = self.i
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
                    at[x] = self.t[st + 1:self.i - 1]
                elif self.kind() == 'num':
                    at[x] = int(self.next())
            elif self.kind() == 'str':
                self.i += 1
                if self.accept('='):
                    self.next()
            elif self.kind() == 'attr':
                self.i += 1
            else:
                return at

    # constant or operand of known type -> operand descriptor
    # ('c', value) | ('l', name) | ('g', name) | ('agg',[ops]) | ('ce',...) | ('undef',)
    def value(self, ty):
        k, x = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('l', x[1:])
        if k == 'glob':
            return ('g', x[1:])
        if k == 'num':
            rt = self.mod.resolve(ty) if self.mod else ty
            if rt[0] == 'f':
                return ('c', fpbits(x, rt[1]))
            return ('c', int(x, 0) & ((1 << rt[1]) - 1) if rt[0] == 'i' else int(x, 0))
        if k == 'str':
            if x.startswith('c'):
                b = unescape(x[2:-1])
                return ('agg', [('c', ord(ch)) for ch in b])
            return ('str', x)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('c', 0)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'none':
            return ('c', 0)
        if x in ('{', '[', '<'):
            end = {'{': '}', '[': ']', '<': '>'}[x]
            packed = False
            if x == '<' and self.peek() == '{':
                self.next()
                packed = True
                end = '}'
            r = []
            while self.peek() != end:
                t = self.type()
                r.append(self.value(t))
                self.accept(',')
            self.next()
            if packed:
                self.expect('>')
            return ('agg', r)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            t = self.type()
            self.expect(',')
            bt = self.type()
            base = self.value(bt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('cegep', t, base, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cecast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            self.type()
            b = self.value(t)
            self.expect(')')
            return ('cebin', x, t, a, b)
        if x == 'asm':
            self.i -= 1
            return self.asm()
        raise SyntaxError('value %r in %s' % (x, ' '.join(t[1] for t in self.t)))

    def asm(self):
        self.expect('asm')
        side = False
        while self.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
            side |= self.next() == 'sideeffect'
        tmpl = unescape(self.next()[1:-1])
        self.expect(',')
        cons = unescape(self.next()[1:-1])
        return ('asm', side, tmpl, cons)

    def tv(self):
        t = self.type()
        self.skip_param_attrs()
        return t, self.value(t)


def fpbits(x, n):
    if x.startswith('0x'):
        if x[2] in 'KLMHR':
            return int(x[3:], 16)
        d = struct.unpack('>d', struct.pack('>Q', int(x, 16)))[0]
    else:
        d = float(x)
    if n == 64:
        return struct.unpack('>Q', struct.pack('>d', d))[0]
    if n == 32:
        return struct.unpack('>I', struct.pack('>f', d))[0]
    if n == 80:
        raise NotImplementedError
    raise NotImplementedError('fp const %s %d' % (x, n))


ORD = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'fn', 'blk', 'idx')

    def __init__(self, op, res, ty, a):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a

    def __repr__(self):
        return '<%s %s %s>' % (self.res, self.op, self.ty)


def cut_meta(s):
    """drop trailing metadata attachments and attribute groups"""
    return s


def parse_inst(line, mod):
    toks = lex(line)
    p = P(toks, mod)
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = p.next()[1:]
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        while p.peek() in ('nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst('bin', res, t, (op, a, b))
    if op == 'fneg':
        t = p.type()
        return Inst('fneg', res, t, (p.value(t),))
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        t2 = p.type()
        return Inst('cast', res, t2, (op, t, v))
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = None
        al = None
        while p.accept(','):
            if p.accept('align'):
                al = int(p.next())
            elif p.kind() == 'md':
                break
            else:
                nt = p.type()
                n = (nt, p.value(nt))
        return Inst('alloca', res, PTR, (t, n, al))
    if op == 'load':
        at = p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type()
        p.expect(',')
        pt = p.type()
        v = p.value(pt)
        order = None
        sync = None
        if at:
            if p.accept('syncscope'):
                p.expect('(')
                sync = p.next()
                p.expect(')')
            order = p.next()
        al = None
        if p.accept(',') and p.accept('align'):
            al = int(p.next())
        return Inst('load', res, t, (v, vol, order, al))
    if op == 'store':
        at = p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type()
        val = p.value(t)
        p.expect(',')
        pt = p.type()
        v = p.value(pt)
        order = None
        if at:
            if p.accept('syncscope'):
                p.expect('(')
                p.next()
                p.expect(')')
            order = p.next()
        al = None
        if p.accept(',') and p.accept('align'):
            al = int(p.next())
        return Inst('store', None, t, (val, v, vol, order, al))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = p.type()
        p.expect(',')
        bt, base = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() == 'md':
                break
            idx.append(p.tv())
        return Inst('gep', res, PTR, (t, bt, base, idx))
    if op == 'icmp' or op == 'fcmp':
        while p.peek() in ('samesign', 'fast', 'nnan'):
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, res, t, (pred, a, b))
    if op == 'br':
        if p.accept('label'):
            return Inst('br', None, None, (p.next()[1:],))
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1:]
        p.expect(',')
        p.expect('label')
        b = p.next()[1:]
        return Inst('condbr', None, None, (c, a, b))
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cases = []
        while p.peek() != ']':
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1:]))
        return Inst('switch', None, t, (v, d, cases))
    if op == 'ret':
        t = p.type()
        if t == ('void',):
            return Inst('ret', None, t, (None,))
        return Inst('ret', None, t, (p.value(t),))
    if op == 'unreachable':
        return Inst('unreachable', None, None, ())
    if op == 'resume':
        return Inst('unreachable', None, None, ())
    if op == 'landingpad':
        return Inst('landingpad', res, None, ())
    if op in ('call', 'invoke'):
        while p.peek() in CCONV or p.peek() in ('fast', 'nnan', 'nsz', 'contract'):
            p.next()
        p.skip_param_attrs()
        rt = p.type()
        va = False
        if rt[0] == 'fn':
            va = rt[3]
            rt = rt[1]
        if p.peek() == 'asm':
            callee = p.asm()
        else:
            callee = p.value(PTR)
        p.expect('(')
        args = []
        while p.peek() != ')':
            t = p.type()
            at = p.skip_param_attrs()
            if t == ('md',):
                # metadata arg: skip
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    y = p.next()
                    if y in ('(', '!{', '!('):
                        d += 1
                    elif y in (')', '}'):
                        d -= 1
                args.append((t, ('undef',), at))
            else:
                args.append((t, p.value(t), at))
            p.accept(',')
        p.next()
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            ok = p.next()[1:]
            p.expect('unwind')
            p.expect('label')
            ex = p.next()[1:]
            return Inst('call', res, rt, (callee, args, (ok, ex), va))
        return Inst('call', res, rt, (callee, args, None, va))
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1:]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
            if p.kind() == 'md':
                break
        return Inst('phi', res, t, (inc,))
    if op == 'select':
        ct, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        t, b = p.tv()
        return Inst('select', res, t, (ct, c, a, b))
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() != 'num':
                break
            idx.append(int(p.next()))
        return Inst('extractvalue', res, None, (t, v, idx))
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        t2, v2 = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() != 'num':
                break
            idx.append(int(p.next()))
        return Inst('insertvalue', res, t, (t, v, v2, idx))
    if op == 'extractelement':
        t, v = p.tv()
        p.expect(',')
        t2, i = p.tv()
        return Inst('extractelement', res, None, (t, v, i))
    if op == 'insertelement':
        t, v = p.tv()
        p.expect(',')
        t2, x = p.tv()
        p.expect(',')
        t3, i = p.tv()
        return Inst('insertelement', res, t, (t, v, x, i))
    if op == 'shufflevector':
        t, a = p.tv()
        p.expect(',')
        t, b = p.tv()
        p.expect(',')
        mt, m = p.tv()
        return Inst('shufflevector', res, t, (t, a, b, mt, m))
    if op == 'fence':
        scope = None
        if p.accept('syncscope'):
            p.expect('(')
            scope = p.next().strip('"')
            p.expect(')')
        return Inst('fence', None, None, (p.next(), scope))
    if op == 'atomicrmw':
        vol = p.accept('volatile')
        o = p.next()
        pt = p.type()
        ptr = p.value(pt)
        p.expect(',')
        t = p.type()
        v = p.value(t)
        if p.accept('syncscope'):
            p.expect('(')
            p.next()
            p.expect(')')
        order = p.next()
        al = None
        if p.accept(',') and p.accept('align'):
            al = int(p.next())
        return Inst('atomicrmw', res, t, (o, ptr, v, order, vol, al))
    if op == 'cmpxchg':
        weak = p.accept('weak')
        vol = p.accept('volatile')
        pt = p.type()
        ptr = p.value(pt)
        p.expect(',')
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.type()
        n = p.value(t)
        if p.accept('syncscope'):
            p.expect('(')
            p.next()
            p.expect(')')
        o1 = p.next()
        o2 = p.next()
        al = None
        if p.accept(',') and p.accept('align'):
            al = int(p.next())
        return Inst('cmpxchg', res, ('st', False, (t, I1)), (ptr, c, n, o1, o2, weak, vol, al, t))
    if op == 'freeze':
        t, v = p.tv()
        return Inst('freeze', res, t, (v,))
    if op == 'va_arg':
        raise NotImplementedError('va_arg')
    raise SyntaxError('instruction %r: %s' % (op, line))


LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
           'dllimport', 'dllexport', 'unnamed_addr', 'local_unnamed_addr', 'externally_initialized', 'thread_local'}


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    pend_globals = []
    pend_fns = []
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ';!$' or ln.startswith('source_filename') or ln.startswith('attributes') or ln.startswith('module asm'):
            continue
        if ln.startswith('target triple'):
            tr = ln.split('"')[1]
            mod.triple = tr
            if tr.startswith('i'):
                mod.ptrsize = 4
                mod.i64align = 4
                mod.f64align = 4
                mod.f80size = 12
                mod.f80align = 4
            continue
        if ln.startswith('target'):
            continue
        if ln[0] == '%':
            p = P(lex(ln), None)
            nm = p.next()[1:]
            p.expect('=')
            p.expect('type')
            mod.types[nm] = p.type()
            continue
        if ln[0] == '@':
            pend_globals.append(ln)
            continue
        if ln.startswith('declare') or ln.startswith('define'):
            body = None
            if ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
            pend_fns.append((ln, body))
            continue
    for ln in pend_globals:
        parse_global(ln, mod)
    for ln, body in pend_fns:
        parse_fn(ln, body, mod)
    return mod


def parse_global(ln, mod):
    p = P(lex(ln), mod)
    g = Global()
    g.name = p.next()[1:]
    p.expect('=')
    g.tls = False
    ext = False
    while p.peek() in LINKAGE or p.peek() == 'addrspace':
        x = p.next()
        if x == 'external' or x == 'extern_weak':
            ext = True
        if x == 'thread_local':
            g.tls = True
            if p.peek() == '(':
                while p.next() != ')':
                    pass
    if p.peek() == 'alias':
        p.next()
        p.type()
        p.expect(',')
        t, v = p.tv()
        mod.aliases[g.name] = v
        return
    k = p.next()
    g.const = k == 'constant'
    p.fnty = False
    g.type = p.type()
    g.init = None
    if not ext:
        g.init = p.value(g.type)
    g.align = 1
    while p.accept(','):
        if p.accept('align'):
            g.align = int(p.next())
            continue
        # section / comdat ...
        while p.peek() not in (',', None):
            p.next()
    mod.globals[g.name] = g


def parse_fn(ln, body, mod):
    # name and params
    ln2 = ln
    toks = lex(ln2)
    p = P(toks, mod)
    p.next()
    while p.peek() in LINKAGE or p.peek() in CCONV:
        p.next()
    p.skip_param_attrs()
    p.fnty = False
    f = Fn()
    f.ret = p.type()
    f.name = p.next()[1:]
    p.expect('(')
    f.params = []
    f.va = False
    n = 0
    while p.peek() != ')':
        if p.accept('...'):
            f.va = True
            continue
        t = p.type()
        at = p.skip_param_attrs()
        nm = None
        if p.kind() == 'loc':
            nm = p.next()[1:]
        if nm is None:
            nm = str(n)
        f.params.append((t, nm, at))
        n += 1
        p.accept(',')
    f.decl = body is None
    f.blocks = {}
    f.entry = None
    if body is not None:
        f.blocks = body  # lazily parsed
    if f.name in mod.fns and f.decl:
        return
    mod.fns[f.name] = f


LABEL = re.compile(r'^(?:([-a-zA-Z$._0-9]+)|"((?:[^"\\]|\\.)*)"):')


def force(f, mod):
    """parse the body on first use"""
    if not isinstance(f.blocks, list):
        return
    body = f.blocks
    f.blocks = {}
    cur = None
    # implicit entry label: number following the params when all unnamed
    entry = None
    i = 0
    n = len(body)
    blk = None
    unnamed = all(nm.isdigit() for _, nm, _ in f.params)
    while i < n:
        ln = body[i]
        i += 1
        if not ln.strip():
            continue
        m = LABEL.match(ln)
        if m and not ln.startswith(' '):
            cur = m.group(1) or unescape(m.group(2))
            blk = f.blocks[cur] = []
            if entry is None:
                entry = cur
            continue
        s = ln.strip()
        if s.startswith(';'):
            continue
        if blk is None:
            cur = str(len(f.params)) if unnamed else 'entry'
            entry = cur
            blk = f.blocks[cur] = []
        if s.startswith('switch') or ' switch ' in s[:12]:
            while ']' not in s:
                s += ' ' + body[i].strip()
                i += 1
        elif i < n and body[i].lstrip().startswith(('to label', 'catch', 'cleanup', 'filter', 'unwind label')):
            while i < n and body[i].lstrip().startswith(('to label', 'catch', 'cleanup', 'filter', 'unwind label')):
                s += ' ' + body[i].strip()
                i += 1
        if 'landingpad' in s:
            s = s.split('landingpad')[0] + 'landingpad { ptr, i32 }'
        ins = parse_inst(s, mod)
        ins.text = s
        ins.fn = f
        ins.blk = cur
        ins.idx = len(blk)
        blk.append(ins)
    f.entry = entry
