"""Decides conjunctions of bit-vector constraints by independent components; components about times and durations are
translated exactly to linear integer arithmetic (every wrap-around excluded by interval analysis), the rest stays bit-vector."""
import z3

BIG = (z3.Z3_OP_BMUL, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM,
       z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I)

_vars = {}
DEBUG = False


def free(e):
    """names of the free constants of e"""
    k = e.get_id()
    r = _vars.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _vars.get(i)
        if c is not None and c[0].eq(x):
            out |= c[1]
            continue
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x)
        else:
            st.extend(x.children())
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl())
    out = frozenset(out)
    _vars[k] = (e, out)
    return out


_big = {}


def has_big(e):
    k = e.get_id()
    r = _big.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    v = e.decl().kind() in BIG if z3.is_app(e) else False
    if not v:
        for c in e.children():
            if has_big(c):
                v = True
                break
    _big[k] = (e, v)
    return v


class No(Exception):
    pass


class Tr:
    """one translation: constraint list -> integer constraints"""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.keep = []
        self.iv = {}       # var id -> (lo, hi) signed bounds
        self.n = 0
        self.ints = {}     # var id -> (bv var, Int)
        self.divs = {}

    def var(self, x):
        k = x.get_id()
        if k not in self.ints:
            w = x.size()
            i = z3.Int('i!%d' % k)
            self.ints[k] = (x, i)
            lo, hi = self.iv.get(k, (-(1 << (w - 1)), (1 << (w - 1)) - 1))
            self.side.append(i >= lo)
            self.side.append(i <= hi)
            self.iv[k] = (lo, hi)
        return self.ints[k][1], self.iv[k]

    def fresh(self):
        self.n += 1
        return z3.Int('t!%d!%d' % (id(self), self.n))

    def bounds(self, cs):
        """signed bounds of variables stated directly"""
        for c in cs:
            for a in (c.children() if z3.is_and(c) else [c]):
                self.bound1(a)

    def bound1(self, a):
        neg = False
        if z3.is_not(a):
            a = a.children()[0]
            neg = True
        if not z3.is_app(a):
            return
        k = a.decl().kind()
        ch = a.children()
        if len(ch) != 2:
            return
        if k == z3.Z3_OP_EQ and not neg:
            for x, y in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_bv(x) and isvar(x) and z3.is_bv_value(y):
                    v = y.as_signed_long()
                    self.tight(x, v, v)
            return
        m = {z3.Z3_OP_SLEQ: (0, 0), z3.Z3_OP_SLT: (0, 1), z3.Z3_OP_SGEQ: (1, 0), z3.Z3_OP_SGT: (1, 1)}.get(k)
        if m is None:
            if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT) and not neg and isvar(ch[0]) and z3.is_bv_value(ch[1]):
                v = ch[1].as_long() - (k == z3.Z3_OP_ULT)
                if 0 <= v < (1 << (ch[0].size() - 1)):
                    self.tight(ch[0], 0, v)
            return
        ge, strict = m
        x, y = ch
        if ge:
            x, y = y, x
        # x <= y (strict?)
        if neg:
            x, y = y, x
            strict = not strict
        if isvar(x) and z3.is_bv_value(y):
            self.tight(x, None, y.as_signed_long() - (1 if strict else 0))
        if isvar(y) and z3.is_bv_value(x):
            self.tight(y, x.as_signed_long() + (1 if strict else 0), None)

    def tight(self, x, lo, hi):
        k = x.get_id()
        w = x.size()
        a, b = self.iv.get(k, (-(1 << (w - 1)), (1 << (w - 1)) - 1))
        if lo is not None:
            a = max(a, lo)
        if hi is not None:
            b = min(b, hi)
        self.iv[k] = (a, b)
        self.keep.append(x)

    def wrap(self, w, e, iv):
        """the w-bit signed value congruent to e"""
        L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if iv[0] > iv[1] or (iv[0] >= L and iv[1] <= H):
            return e, iv
        if isinstance(e, int):
            v = (e - L) % (1 << w) + L
            return v, (v, v)
        mlo, mhi = (iv[0] - L) >> w, (iv[1] - L) >> w
        if mlo == mhi:
            return e - mlo * (1 << w), (iv[0] - (mlo << w), iv[1] - (mlo << w))
        r, m = self.fresh(), self.fresh()
        self.side += [e == m * (1 << w) + r, r >= L, r <= H, m >= mlo, m <= mhi]
        return r, (L, H)

    def t(self, x):
        """-> (int expression or python int, (lo, hi)) signed value"""
        k = x.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.t0(x)
            self.memo[k] = r
            self.keep.append(x)
        return r

    def t0(self, x):
        w = x.size()
        if z3.is_bv_value(x):
            v = x.as_signed_long()
            return v, (v, v)
        if isvar(x):
            return self.var(x)
        k = x.decl().kind()
        ch = x.children()
        if k == z3.Z3_OP_BADD:
            s, lo, hi = 0, 0, 0
            # a + (-1)*b chains: partial sums in any order are the same value modulo 2^w; only the total has to fit
            for c in ch:
                e, iv = self.t(c)
                s = s + e
                lo += iv[0]
                hi += iv[1]
            return self.wrap(w, s, (lo, hi))
        if k == z3.Z3_OP_BSUB:
            e, (lo, hi) = self.t(ch[0])
            for c in ch[1:]:
                f, iv = self.t(c)
                e = e - f
                lo, hi = lo - iv[1], hi - iv[0]
            return self.wrap(w, e, (lo, hi))
        if k == z3.Z3_OP_BNEG:
            e, (lo, hi) = self.t(ch[0])
            return self.wrap(w, -e, (-hi, -lo))
        if k == z3.Z3_OP_BMUL:
            r, iv = self.t(ch[0])
            for c in ch[1:]:
                f, jv = self.t(c)
                if not isinstance(f, int) and not isinstance(r, int):
                    raise No('product of variables')
                r = r * f
                p = [iv[0] * jv[0], iv[0] * jv[1], iv[1] * jv[0], iv[1] * jv[1]]
                iv = (min(p), max(p))
            return self.wrap(w, r, iv)
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            e, iv = self.t(ch[0])
            c, _ = self.t(ch[1])
            if not isinstance(c, int) or c <= 0:
                raise No('divisor')
            q, r, qiv, riv = self.divmod(ch[0], e, iv, c)
            return (q, qiv) if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else (r, riv)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            e, iv = self.t(ch[0])
            c, _ = self.t(ch[1])
            if not isinstance(c, int) or c <= 0 or iv[0] < 0:
                raise No('unsigned division')
            q, r, qiv, riv = self.divmod(ch[0], e, iv, c)
            return (q, qiv) if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else (r, riv)
        if k == z3.Z3_OP_ZERO_EXT:
            e, iv = self.t(ch[0])
            return self.uns(e, iv, ch[0].size())
        if k == z3.Z3_OP_SIGN_EXT:
            return self.t(ch[0])
        if k == z3.Z3_OP_CONCAT:
            if len(ch) == 2 and z3.is_bv_value(ch[0]) and ch[0].as_long() == 0:
                e, iv = self.t(ch[1])
                return self.uns(e, iv, ch[1].size())
            # high part * 2^n + unsigned low part
            s, iv = self.t(ch[0])
            for c in ch[1:]:
                e, jv = self.t(c)
                e, jv = self.uns(e, jv, c.size())
                s = s * (1 << c.size()) + e
                iv = ((iv[0] << c.size()) + jv[0], (iv[1] << c.size()) + jv[1])
            return s, iv
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params()
            e, iv = self.t(ch[0])
            n = hi - lo + 1
            W = ch[0].size()
            if lo == W - 1:
                if isinstance(e, int):
                    return (-1 if e < 0 else 0), (-1, 0)
                if iv[0] >= 0:
                    return 0, (0, 0)
                return z3.If(e < 0, z3.IntVal(-1), z3.IntVal(0)), (-1, 0)
            if lo:
                q, r, qiv, riv = self.floordiv(e, iv, 1 << lo)
                e, iv = q, qiv
            if hi == W - 1:
                return e, iv
            if iv[0] >= -(1 << (n - 1)) and iv[1] <= (1 << (n - 1)) - 1:
                return e, iv
            return self.wrap(n, e, iv)
        if k == z3.Z3_OP_ITE:
            c = self.b(ch[0])
            a, iv = self.t(ch[1])
            b, jv = self.t(ch[2])
            return z3.If(c, a if not isinstance(a, int) else z3.IntVal(a), b if not isinstance(b, int) else z3.IntVal(b)), \
                (min(iv[0], jv[0]), max(iv[1], jv[1]))
        if k in (z3.Z3_OP_BASHR, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            e, iv = self.t(ch[0])
            if n < w and (k == z3.Z3_OP_BASHR or iv[0] >= 0):
                q, r, qiv, riv = self.floordiv(e, iv, 1 << n)
                return q, qiv
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            e, iv = self.t(ch[0])
            iv = (iv[0] << n, iv[1] << n)
            return self.wrap(w, e * (1 << n), iv)
        if k == z3.Z3_OP_BAND and len(ch) == 2 and (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])):
            m, y = (ch[0], ch[1]) if z3.is_bv_value(ch[0]) else (ch[1], ch[0])
            m = m.as_long()
            e, iv = self.t(y)
            out, top = 0, 0
            a = 0
            while m >> a:
                if not m >> a & 1:
                    a += 1
                    continue
                b = a
                while m >> b & 1:
                    b += 1
                q, qv = e, iv
                if a:
                    q, _, qv, _ = self.floordiv(e, iv, 1 << a)
                if not (qv[0] >= 0 and qv[1] < (1 << (b - a))):
                    _, q, _, qv = self.floordiv(q, qv, 1 << (b - a))
                out = out + q * (1 << a)
                top += qv[1] << a
                a = b
            return self.wrap(w, out, (0, top))
        if k == z3.Z3_OP_BNOT:
            e, iv = self.t(ch[0])
            return -1 - e, (-1 - iv[1], -1 - iv[0])
        raise No('operator %s' % x.decl().name())

    def uns(self, e, iv, n):
        if iv[0] >= 0:
            return e, iv
        if isinstance(e, int):
            v = e % (1 << n)
            return v, (v, v)
        if iv[1] < 0:
            return e + (1 << n), (iv[0] + (1 << n), iv[1] + (1 << n))
        return z3.If(e < 0, e + (1 << n), e), (0, max((1 << n) - 1, iv[1]))

    def divmod(self, node, e, iv, c):
        """C++ truncation"""
        if isinstance(e, int):
            q = abs(e) // c * (1 if e >= 0 else -1)
            return q, e - q * c, (q, q), (e - q * c, e - q * c)
        key = (node.get_id(), c)
        if key in self.divs:
            return self.divs[key]
        q, r = self.fresh(), self.fresh()
        self.side.append(e == q * c + r)
        tr = lambda v: abs(v) // c * (1 if v >= 0 else -1)
        if iv[0] >= 0:
            self.side += [r >= 0, r < c]
            riv = (0, min(c - 1, max(iv[1], 0)))
        elif iv[1] < 0:
            self.side += [r <= 0, r > -c]
            riv = (-(c - 1), 0)
        else:
            self.side += [z3.Implies(e >= 0, z3.And(r >= 0, r < c)), z3.Implies(e < 0, z3.And(r <= 0, r > -c))]
            riv = (-(c - 1), c - 1)
        out = (q, r, (tr(iv[0]), tr(iv[1])), riv)
        self.divs[key] = out
        return out

    def floordiv(self, e, iv, c):
        if isinstance(e, int):
            return e // c, e % c, (e // c, e // c), (e % c, e % c)
        q, r = self.fresh(), self.fresh()
        self.side += [e == q * c + r, r >= 0, r < c]
        return q, r, (iv[0] // c, iv[1] // c), (0, c - 1)

    def b(self, x):
        if z3.is_true(x) or z3.is_false(x):
            return x
        k = x.decl().kind()
        ch = x.children()
        if k == z3.Z3_OP_AND:
            return z3.And([self.b(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.b(c) for c in ch])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            return x
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if z3.is_bool(ch[0]):
                r = self.b(ch[0]) == self.b(ch[1])
            else:
                r = ie(self.t(ch[0])[0]) == ie(self.t(ch[1])[0])
            return z3.Not(r) if k == z3.Z3_OP_DISTINCT else r
        sg = {z3.Z3_OP_SLEQ: '<=', z3.Z3_OP_SLT: '<', z3.Z3_OP_SGEQ: '>=', z3.Z3_OP_SGT: '>'}.get(k)
        un = {z3.Z3_OP_ULEQ: '<=', z3.Z3_OP_ULT: '<', z3.Z3_OP_UGEQ: '>=', z3.Z3_OP_UGT: '>'}.get(k)
        if sg or un:
            a, iv = self.t(ch[0])
            c, jv = self.t(ch[1])
            if un:
                a, _ = self.uns(a, iv, ch[0].size())
                c, _ = self.uns(c, jv, ch[1].size())
            a, c = ie(a), ie(c)
            return {'<=': a <= c, '<': a < c, '>=': a >= c, '>': a > c}[sg or un]
        raise No('predicate %s' % x.decl().name())


def ie(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def isvar(x):
    return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED


class Model:
    """assignment assembled from several component models"""

    def __init__(self):
        self.sub = {}

    def add(self, var, val):
        self.sub[var.get_id()] = (var, val)

    def eval(self, e, model_completion=True):
        if isinstance(e, (int, bool)):
            return e
        r = z3.simplify(z3.substitute(e, list(self.sub.values()))) if self.sub else z3.simplify(e)
        if model_completion:
            fr = [v for v in free(r) if z3.is_expr(v)]
            if fr:
                r = z3.simplify(z3.substitute(r, [(v, z3.BoolVal(False) if z3.is_bool(v) else z3.BitVecVal(0, v.size())) for v in fr if z3.is_bool(v) or z3.is_bv(v)]))
        return r


_cache = {}


def components(cs):
    parent = {}

    def find(a):
        while parent.get(a, a) != a:
            parent[a] = parent.get(parent[a], parent[a])
            a = parent[a]
        return a
    keyed = []
    for c in cs:
        f = free(c)
        ks = [v.get_id() if z3.is_expr(v) else ('f', v.name()) for v in f]
        for k in ks[1:]:
            a, b = find(ks[0]), find(k)
            if a != b:
                parent[a] = b
        keyed.append((c, ks))
    groups = {}
    for c, ks in keyed:
        groups.setdefault(find(ks[0]) if ks else None, []).append(c)
    return groups


def solve(cs, timeout_ms, stats=None):
    """-> 'unsat', 'unknown' or Model"""
    cs2 = []
    for c in cs:
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return 'unsat'
        cs2.append(c)
    out = Model()
    res = []
    for k, g in components(cs2).items():
        key = frozenset(c.get_id() for c in g)
        r = _cache.get(key)
        if r is None:
            r = (one(g, timeout_ms, stats), g)
            if len(_cache) > 20000:
                _cache.clear()
            _cache[key] = r
        r = r[0]
        if r == 'unsat':
            return 'unsat'
        res.append(r)
    for r in res:
        if r == 'unknown':
            return 'unknown'
        for var, val in r:
            out.add(var, val)
    return out


def one(g, timeout_ms, stats):
    if stats is not None:
        stats.queries += 1
    if any(has_big(c) for c in g):
        try:
            tr = Tr()
            tr.bounds(g)
            fs = [tr.b(c) for c in g]
            s = z3.Solver()
            s.set('timeout', timeout_ms)
            s.add(tr.side)
            s.add(fs)
            r = s.check()
            if r == z3.unsat:
                return 'unsat'
            if r == z3.sat:
                m = s.model()
                out = []
                for x, i in tr.ints.values():
                    v = m.eval(i, model_completion=True).as_long()
                    out.append((x, z3.BitVecVal(v, x.size())))
                names = set()
                for c in g:
                    for v in free(c):
                        if z3.is_expr(v) and z3.is_bool(v) and v.get_id() not in names:
                            names.add(v.get_id())
                            out.append((v, z3.BoolVal(z3.is_true(m.eval(v, model_completion=True)))))
                return out
        except No as e:
            if DEBUG:
                print('lia:', e, len(g), str(g[-1])[:300])
    s = z3.SolverFor('QF_AUFBV')
    s.set('timeout', timeout_ms)
    s.add(g)
    r = s.check()
    if r == z3.unknown:
        return 'unknown'
    if r == z3.unsat:
        return 'unsat'
    m = s.model()
    out = []
    seen = set()
    for c in g:
        for v in free(c):
            if z3.is_expr(v) and v.get_id() not in seen and (z3.is_bv(v) or z3.is_bool(v)):
                seen.add(v.get_id())
                out.append((v, m.eval(v, model_completion=True)))
    return out
