"""The public interface: value types, operations, their specifications, and the generated harness functions."""
import z3
from .core import (bv, isint, mask, binop, extract, zext, sext, concat, eqv, tobool, fbin, icmp, ite)


class Ty:
    def __init__(self, name, cxx, size, kind, signed=False, bits=None, elem=None, pad=0, decl='', align=None, padspec='', ctor=True):
        self.name = name
        self.cxx = cxx
        self.size = size
        self.kind = kind      # int bool enum fp ptr struct
        self.signed = signed
        self.w = size * 8
        self.pad = pad        # mask of padding bits inside T
        self.val = mask(size * 8) & ~pad
        self.elem = elem
        self.decl = decl
        self.align = align or size
        self.fw = bits        # fp: number of significant low bits
        self.padspec = padspec


def ints():
    r = []
    for n, b in (('8', 1), ('16', 2), ('32', 4), ('64', 8)):
        r.append(Ty('u' + n, 'std::uint%s_t' % n, b, 'int'))
        r.append(Ty('s' + n, 'std::int%s_t' % n, b, 'int', True))
    r.append(Ty('u128', 'unsigned __int128', 16, 'int'))
    r.append(Ty('s128', '__int128', 16, 'int', True))
    return r


INTS = ints()
BOOL = Ty('bool', 'bool', 1, 'bool')
CHARS = [Ty('chr', 'char', 1, 'int', True), Ty('wch', 'wchar_t', 4, 'int', True), Ty('c16', 'char16_t', 2, 'int'),
         Ty('ull', 'unsigned long long', 8, 'int')]
ENUMS = [Ty('en8', 'VpE8', 1, 'enum', decl='enum class VpE8 : unsigned char { a, b };'),
         Ty('en16', 'VpE16', 2, 'enum', True, decl='enum class VpE16 : short { a = -1, b };'),
         Ty('en32', 'VpE32', 4, 'enum', decl='enum VpE32 : unsigned { vp_e32_a, vp_e32_b };'),
         Ty('es32', 'VpES32', 4, 'enum', True, decl='enum class VpES32 : int { a = -5, b };'),
         Ty('en64', 'VpE64', 8, 'enum', True, decl='enum class VpE64 : long long { a = -3, b };')]
FPS = [Ty('flt', 'float', 4, 'fp', True, 32), Ty('dbl', 'double', 8, 'fp', True, 64),
       Ty('ldb', 'long double', 16, 'fp', True, 80, pad=mask(128) & ~mask(80),
          padspec='template<> void vp_clear_padding(long double* p) noexcept { __builtin_memset((unsigned char*)p + 10, 0, 6); }')]
PTRS = [Ty('pi', 'int*', 8, 'ptr', elem=4), Ty('pc', 'char*', 8, 'ptr', elem=1), Ty('ps', 'VpP12*', 8, 'ptr', elem=12, decl='struct VpP12 { int a[3]; };'),
        Ty('pbig', 'VpP40*', 8, 'ptr', elem=40, decl='struct VpP40 { long a[5]; };'), Ty('pcd', 'const double*', 8, 'ptr', elem=8)]
VPTRS = [Ty('pv', 'void*', 8, 'vptr'), Ty('pfn', 'VpFn', 8, 'vptr', decl='typedef int (*VpFn)(int);')]


def struct(n, al=1):
    if al == 1:
        d = 'struct VpS%d { unsigned char c[%d]; };' % (n, n)
        return Ty('s%db' % n, 'VpS%d' % n, n, 'struct', decl=d, align=1)
    t = {2: 'unsigned short', 4: 'unsigned', 8: 'unsigned long', 16: 'unsigned __int128'}[al]
    d = 'struct VpS%da%d { %s c[%d]; };' % (n, al, t, n // al)
    return Ty('s%da%d' % (n, al), 'VpS%da%d' % (n, al), n, 'struct', decl=d, align=al)


def fmask(*ranges):
    m = 0
    for a, b in ranges:
        m |= mask((b - a) * 8) << (a * 8)
    return m


STRUCTS = [struct(n) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 33)] + \
          [struct(2, 2), struct(4, 4), struct(8, 4), struct(8, 8), struct(12, 4), struct(16, 8), struct(16, 16), struct(24, 8), struct(32, 16), struct(40, 8)]


def cl(cxx, ranges):
    return 'template<> void vp_clear_padding(%s* p) noexcept { %s }' % (
        cxx, ' '.join('__builtin_memset((unsigned char*)p + %d, 0, %d);' % (a, b - a) for a, b in ranges))


PADDED = [
    Ty('p_ci', 'VpPci', 8, 'struct', decl='struct VpPci { char c; int i; };', align=4, pad=fmask((1, 4)), padspec=cl('VpPci', [(1, 4)])),
    Ty('p_ic', 'VpPic', 8, 'struct', decl='struct VpPic { int i; char c; };', align=4, pad=fmask((5, 8)), padspec=cl('VpPic', [(5, 8)])),
    Ty('p_sc', 'VpPsc', 4, 'struct', decl='struct VpPsc { short s; char c; };', align=2, pad=fmask((3, 4)), padspec=cl('VpPsc', [(3, 4)])),
    Ty('p_lc', 'VpPlc', 16, 'struct', decl='struct VpPlc { long l; char c; };', align=8, pad=fmask((9, 16)), padspec=cl('VpPlc', [(9, 16)])),
    Ty('p_lcl', 'VpPlcl', 24, 'struct', decl='struct VpPlcl { long l; char c; long m; };', align=8, pad=fmask((9, 16)), padspec=cl('VpPlcl', [(9, 16)])),
]
# trivially copyable but not trivially default constructible
NTD = [Ty('ntd', 'VpNtd', 4, 'struct', decl='struct VpNtd { int v; VpNtd() noexcept : v(7) {} explicit VpNtd(int x) noexcept : v(x) {} };', align=4)]

ALL = INTS + [BOOL] + CHARS + ENUMS + FPS + PTRS + VPTRS + STRUCTS + PADDED + NTD
BYNAME = {t.name: t for t in ALL}

RLX, CON, ACQ, REL, AR, SC = 0, 1, 2, 4, 6, 14
ORD_RMW = (RLX, CON, ACQ, REL, AR, SC)
ORD_LOAD = (RLX, CON, ACQ, SC)
ORD_STORE = (RLX, REL, SC)


class Op:
    """post(c) -> new value; ret(c) -> value; c has old,x,y,k,ty"""

    def __init__(self, name, expr, post=None, ret=None, rt='T', orders='rmw', args='x', kinds=(), objs='ARIJ', kind='rmw', klim=False, sc=False):
        self.name = name
        self.expr = expr
        self.post = post      # function(ctx, old) -> new or None for load
        self.ret = ret        # function(ctx, old, new) -> value or None
        self.rt = rt
        self.orders = orders  # rmw load store cas cas1 None
        self.args = args
        self.kinds = kinds
        self.objs = objs
        self.kind = kind      # rmw load store cas
        self.klim = klim


OLD = lambda c, o, n: o
NEW = lambda c, o, n: n
NZ = lambda c, o, n: ite(eqv(n, 0, c.w), 0, 1, 8)


def A(op, flip=False):
    def f(c, o):
        return binop(op, o, c.x, c.w)
    return f


def NEG(c, o):
    return binop('sub', 0, o, c.w)


def CPL(c, o):
    return binop('xor', o, mask(c.w), c.w)


def K1(op):
    return lambda c, o: binop(op, o, 1, c.w)


def bitmask(c):
    k = zext(c.k, 32, c.w) if c.w > 32 else extract(c.k, c.w - 1, 0)
    return binop('shl', 1, k, c.w)


def BS(c, o):
    return binop('or', o, bitmask(c), c.w)


def BR(c, o):
    return binop('and', o, binop('xor', bitmask(c), mask(c.w), c.w), c.w)


def BC(c, o):
    return binop('xor', o, bitmask(c), c.w)


def OLDBIT(c, o, n):
    return ite(eqv(binop('and', o, bitmask(c), c.w), 0, c.w), 0, 1, 8)


I = ('int',)
IE = ('int', 'enum')
ALLK = ('int', 'bool', 'enum', 'fp', 'ptr', 'vptr', 'struct')
OPS = []


def op(*a, **k):
    OPS.append(Op(*a, **k))


for nm, f in (('add', 'add'), ('sub', 'sub')):
    op('fetch_' + nm, 'o.fetch_%s(x, m1)' % nm, A(f), OLD, kinds=I)
    op(nm, 'o.%s(x, m1)' % nm, A(f), NEW, kinds=I)
    op('opaque_' + nm, 'o.opaque_%s(x, m1)' % nm, A(f), None, rt='void', kinds=I)
    op(nm + '_and_test', 'o.%s_and_test(x, m1)' % nm, A(f), NZ, rt='bool', kinds=I)
for nm in ('and', 'or', 'xor'):
    op('fetch_' + nm, 'o.fetch_%s(x, m1)' % nm, A(nm), OLD, kinds=IE)
    op('bitwise_' + nm, 'o.bitwise_%s(x, m1)' % nm, A(nm), NEW, kinds=IE)
    op('opaque_' + nm, 'o.opaque_%s(x, m1)' % nm, A(nm), None, rt='void', kinds=IE)
    op(nm + '_and_test', 'o.%s_and_test(x, m1)' % nm, A(nm), NZ, rt='bool', kinds=IE)
op('fetch_negate', 'o.fetch_negate(m1)', NEG, OLD, args='', kinds=I)
op('negate', 'o.negate(m1)', NEG, NEW, args='', kinds=I)
op('opaque_negate', 'o.opaque_negate(m1)', NEG, None, rt='void', args='', kinds=I)
op('negate_and_test', 'o.negate_and_test(m1)', NEG, NZ, rt='bool', args='', kinds=I)
op('fetch_complement', 'o.fetch_complement(m1)', CPL, OLD, args='', kinds=IE)
op('bitwise_complement', 'o.bitwise_complement(m1)', CPL, NEW, args='', kinds=IE)
op('opaque_complement', 'o.opaque_complement(m1)', CPL, None, rt='void', args='', kinds=IE)
op('complement_and_test', 'o.complement_and_test(m1)', CPL, NZ, rt='bool', args='', kinds=IE)
op('bts', 'o.bit_test_and_set(k, m1)', BS, OLDBIT, rt='bool', args='k', kinds=IE, klim=True)
op('btr', 'o.bit_test_and_reset(k, m1)', BR, OLDBIT, rt='bool', args='k', kinds=IE, klim=True)
op('btc', 'o.bit_test_and_complement(k, m1)', BC, OLDBIT, rt='bool', args='k', kinds=IE, klim=True)
op('postinc', 'o++', K1('add'), OLD, args='', orders=None, kinds=I)
op('preinc', '++o', K1('add'), NEW, args='', orders=None, kinds=I)
op('postdec', 'o--', K1('sub'), OLD, args='', orders=None, kinds=I)
op('predec', '--o', K1('sub'), NEW, args='', orders=None, kinds=I)
op('op_add', 'o += x', A('add'), NEW, orders=None, kinds=I)
op('op_sub', 'o -= x', A('sub'), NEW, orders=None, kinds=I)
for nm, s in (('and', '&'), ('or', '|'), ('xor', '^')):
    op('op_' + nm, 'o %s= x' % s, A(nm), NEW, orders=None, kinds=IE)

# generic
op('load', 'o.load(m1)', None, OLD, args='', orders='load', kinds=ALLK, kind='load')
op('conv', 'static_cast<T>(o)', None, OLD, args='', orders=None, kinds=ALLK, kind='load')
op('store', 'o.store(x, m1)', lambda c, o: c.x, None, rt='void', orders='store', kinds=ALLK, kind='store')
op('assign', '(o = x)', lambda c, o: c.x, NEW, orders=None, kinds=ALLK, kind='store')
op('exchange', 'o.exchange(x, m1)', lambda c, o: c.x, OLD, kinds=ALLK)
op('cas_s', 'o.compare_exchange_strong(e, x, m1, m2)', rt='bool', orders='cas', args='ex', kinds=ALLK, kind='cas')
op('cas_w', 'o.compare_exchange_weak(e, x, m1, m2)', rt='bool', orders='cas', args='ex', kinds=ALLK, kind='casw')
op('cas_s1', 'o.compare_exchange_strong(e, x, m1)', rt='bool', orders='rmw', args='ex', kinds=ALLK, kind='cas')
op('cas_w1', 'o.compare_exchange_weak(e, x, m1)', rt='bool', orders='rmw', args='ex', kinds=ALLK, kind='casw')


# floating point
def FA(o_):
    def f(c, o):
        n = c.ty.fw
        r = fbin(o_, extract(o, n - 1, 0), extract(c.x, n - 1, 0), n)
        return zext(r, n, c.w) if c.w > n else r
    return f


def FN(c, o):
    n = c.ty.fw
    r = binop('xor', extract(o, n - 1, 0), 1 << (n - 1), n)
    return zext(r, n, c.w) if c.w > n else r


F = ('fp',)
for nm in ('add', 'sub'):
    op('f_fetch_' + nm, 'o.fetch_%s(x, m1)' % nm, FA('f' + nm), OLD, kinds=F)
    op('f_' + nm, 'o.%s(x, m1)' % nm, FA('f' + nm), NEW, kinds=F)
    op('f_opaque_' + nm, 'o.opaque_%s(x, m1)' % nm, FA('f' + nm), None, rt='void', kinds=F)
op('f_op_add', 'o += x', FA('fadd'), NEW, orders=None, kinds=F)
op('f_op_sub', 'o -= x', FA('fsub'), NEW, orders=None, kinds=F)
op('f_fetch_negate', 'o.fetch_negate(m1)', FN, OLD, args='', kinds=F)
op('f_negate', 'o.negate(m1)', FN, NEW, args='', kinds=F)
op('f_opaque_negate', 'o.opaque_negate(m1)', FN, None, rt='void', args='', kinds=F)


# pointers
def PA(o_):
    return lambda c, o: binop(o_, o, binop('mul', c.d, c.ty.elem, 64), 64)


def P1(o_):
    return lambda c, o: binop(o_, o, c.ty.elem, 64)


PT = ('ptr',)
for nm in ('add', 'sub'):
    op('p_fetch_' + nm, 'o.fetch_%s(d, m1)' % nm, PA(nm), OLD, args='d', kinds=PT)
    op('p_' + nm, 'o.%s(d, m1)' % nm, PA(nm), NEW, args='d', kinds=PT)
    op('p_opaque_' + nm, 'o.opaque_%s(d, m1)' % nm, PA(nm), None, rt='void', args='d', kinds=PT)
    op('p_%s_and_test' % nm, 'o.%s_and_test(d, m1)' % nm, PA(nm), NZ, rt='bool', args='d', kinds=PT)
op('p_op_add', 'o += d', PA('add'), NEW, args='d', orders=None, kinds=PT)
op('p_op_sub', 'o -= d', PA('sub'), NEW, args='d', orders=None, kinds=PT)
op('p_postinc', 'o++', P1('add'), OLD, args='', orders=None, kinds=PT)
op('p_preinc', '++o', P1('add'), NEW, args='', orders=None, kinds=PT)
op('p_postdec', 'o--', P1('sub'), OLD, args='', orders=None, kinds=PT)
op('p_predec', '--o', P1('sub'), NEW, args='', orders=None, kinds=PT)

# flag
B8 = lambda c, o, n: ite(eqv(o, 0, c.w), 0, 1, 8)
op('fl_tas', 'o.test_and_set(m1)', lambda c, o: None, B8, rt='bool', args='', kinds=('flag',), kind='tas')
op('fl_clear', 'o.clear(m1)', lambda c, o: 0, None, rt='void', args='', orders='store', kinds=('flag',), kind='store')
op('fl_test', 'o.test(m1)', None, B8, rt='bool', args='', orders='load', kinds=('flag',), kind='load')

OPBY = {o.name: o for o in OPS}
FLAG = Ty('flag', 'boost::atomic_flag', 4, 'flag')

OBJ = {'A': 'boost::atomic<%s >', 'R': 'boost::atomic_ref<%s >', 'I': 'boost::ipc_atomic<%s >', 'J': 'boost::ipc_atomic_ref<%s >'}
REFS = 'RJ'


def objtype(k, ty):
    if ty.kind == 'flag':
        return 'boost::atomic_flag' if k == 'A' else 'boost::ipc_atomic_flag'
    return OBJ[k] % ty.cxx


def ops_for(ty):
    return [o for o in OPS if ty.kind in o.kinds]


def prelude(tys, cfg_gcc):
    s = ['#include <new>', '#include <boost/atomic.hpp>', '#include <cstdint>', '#include <chrono>', 'using boost::memory_order;']
    seen = set()
    for t in tys:
        if t.decl and t.decl not in seen:
            seen.add(t.decl)
            s.append(t.decl)
    if cfg_gcc:
        for t in tys:
            if t.padspec and t.padspec not in seen:
                seen.add(t.padspec)
                s.append(t.padspec)
    return s


def info_line(ok, ty):
    ot = objtype(ok, ty)
    tag = '%s_%s' % (ok, ty.name)
    T = ty.cxx if ty.kind != 'flag' else 'bool'
    if ok in REFS:
        return ('extern "C" { extern const unsigned long i_%s[] = {sizeof(%s), alignof(%s), sizeof(%s), %s::is_always_lock_free, %s::required_alignment, %s::always_has_native_wait_notify}; }'
                % (tag, T, T, ot, ot, ot, ot))
    return ('extern "C" { extern const unsigned long i_%s[] = {sizeof(%s), alignof(%s), sizeof(%s), %s::is_always_lock_free, alignof(%s), %s::always_has_native_wait_notify}; }'
            % (tag, ot, ot, T, ot, ot, ot))


def probe_source(pairs, gcc):
    tys = []
    for _, t in pairs:
        if t not in tys:
            tys.append(t)
    return '\n'.join(prelude(tys, gcc) + [info_line(k, t) for k, t in pairs]) + '\n'


def read_info(mod, ok, ty):
    g = mod.globals['i_%s_%s' % (ok, ty.name)]
    n = mod.resolve(g.type)[1]
    if g.init[0] == 'zero':
        return [0] * n
    return [x[1] if x[0] == 'c' else 0 for x in g.init[1]]


def harness(pairs, gcc, opfilter=None):
    """pairs: [(objkind, ty)] -> (source, [(fname, objkind, ty, op)])"""
    tys = []
    for _, t in pairs:
        if t not in tys:
            tys.append(t)
    s = prelude(tys, gcc)
    cases = []
    for ok, ty in pairs:
        ot = objtype(ok, ty)
        tag = '%s_%s' % (ok, ty.name)
        T = ty.cxx if ty.kind != 'flag' else 'bool'
        s.append(info_line(ok, ty))
        if ok in REFS:
            s.append('extern "C" void c_%s(%s* o, %s* v) { ::new ((void*)o) %s(*v); }' % (tag, ot, T, ot))
        else:
            if ty.kind != 'flag':
                s.append('extern "C" void c_%s(%s* o, %s const* v) { ::new ((void*)o) %s(*v); }' % (tag, ot, T, ot))
            if ty.kind != 'flag':
                s.append('extern "C" void k_%s(%s& o, %s const& x, %s& e, bool* r, unsigned, std::ptrdiff_t, memory_order m1, memory_order) { *r = o.compare_exchange_strong(e, x, m1); }' % (tag, ot, T, T))
            s.append('extern "C" void d_%s(%s* o) { ::new ((void*)o) %s; }' % (tag, ot, ot))
            s.append('extern "C" void v_%s(%s* o) { ::new ((void*)o) %s(); }' % (tag, ot, ot))
        for o in ops_for(ty):
            if opfilter and not opfilter(o, ok, ty):
                continue
            if ok not in o.objs:
                continue
            fn = 'h_%s_%s' % (tag, o.name)
            cv = 'const ' if ok in REFS else 'volatile '
            if o.name in ('conv', 'assign') and ok not in REFS:
                cv = ''
            body = o.expr + ';'
            if o.rt != 'void':
                body = '*r = ' + body
            xt = T
            if ty.kind == 'ptr' and 'd' in o.args:
                xt = T
            RT = {'T': T, 'bool': 'bool', 'void': 'char'}[o.rt]
            s.append('extern "C" void %s(%s%s& o, %s const& x, %s& e, %s* r, unsigned k, std::ptrdiff_t d, memory_order m1, memory_order m2) { typedef %s T; %s }'
                     % (fn, cv, ot, xt, T, RT, T, body))
            cases.append((fn, ok, ty, o))
    return '\n'.join(s) + '\n', cases
