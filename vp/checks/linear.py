"""C01-C06, C19, C20 (operation part): one operation from an arbitrary state, with and without interference."""
import json
import os
import z3
from .. import api, build, lin, native
from ..runner import Result
from ..core import Unsupported, SolverTimeout, fresh, State, eqv, isint, tobool, simp

MEM = {'out-of-bounds', 'write-to-const', 'misaligned', 'use-after-free', 'foreign-write'}
RUN = {'contract', 'no-termination', 'assert', 'abort', 'trap', 'unreachable', 'out-of-bounds', 'use-after-free', 'vacuous', 'div-by-zero',
       'assume-violated', 'write-to-const'}
ATOM = {'not-one-step', 'several-writes', 'torn-write', 'no-step', 'plain-access', 'outside-lock', 'no-lock', 'lock-release', 'locks',
        'misaligned', 'out-of-bounds', 'vacuous', 'assert'}

GENERIC = ('load', 'conv', 'store', 'assign', 'exchange')
CAS = ('cas_s', 'cas_w', 'cas_s1', 'cas_w1')


def intop(o, ok, ty):
    return o.kind == 'rmw' and o.name != 'exchange'


FILTERS = {
    'intrmw': intop,
    'typed': intop,
    'cas': lambda o, ok, ty: o.name in CAS,
    'generic': lambda o, ok, ty: o.name in GENERIC,
    'all': lambda o, ok, ty: True,
    'havoc': lambda o, ok, ty: o.name not in ('cas_s1', 'cas_w1') or ty.size in (4, 16),
    'writes': lambda o, ok, ty: o.name in CAS or (o.kind == 'rmw' and o.name != 'exchange'),
    'flag': lambda o, ok, ty: True,
}

def padded(t):
    return t.pad or t.size & (t.size - 1)


T = lin.TYPEGROUPS
STR_Q = [api.BYNAME[n] for n in ('s1b', 's3b', 's5b', 's7b', 's8b', 's9b', 's12b', 's16b', 's17b', 's24b', 's4a4', 's8a4', 's16a8', 's16a16', 's24a8')]
PAD = api.PADDED
MISC = api.NTD + [api.BOOL]
INTS_Q = api.INTS + api.CHARS


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def mk(pid, cfg, oks, types, filt, mode, n, validate=0, **kw):
    out = []
    for ok in oks:
        for ch in chunks(types, n):
            out.append(dict(pid=pid, cfg=cfg, ok=ok, types=[t.name for t in ch], filt=filt, mode=mode, validate=validate, **kw))
    return out


ALLCFG = ['gcc', 'gcc-snb', 'gcc-snb20', 'clang', 'clang-snb', 'gcc-cx16', 'clang-cx16', 'fallback', 'asm', 'asm-old', 'gcc-noflags']


def jobs(pid, tier, **kw):
    q = tier == 'quick'
    J = []
    if pid == 'C01':
        ty = INTS_Q
        if q:
            for cfg, oks in (('gcc-snb', 'ARIJ'), ('clang-snb', 'AR'), ('gcc', 'AR'), ('fallback', 'AR'), ('asm', 'AR'), ('asm-old', 'A'), ('gcc-noflags', 'A')):
                J += mk(pid, cfg, oks, ty, 'intrmw', 'stable', 3, validate=6)
            J += mk(pid, 'clang-cx16', 'A', api.INTS[8:], 'intrmw', 'stable', 1, validate=6)
        else:
            for cfg in ALLCFG:
                J += mk(pid, cfg, 'ARIJ', ty, 'intrmw', 'stable', 3, validate=12)
    elif pid == 'C02':
        if q:
            for cfg, oks in (('gcc-snb', 'AR'), ('clang', 'A'), ('fallback', 'AR'), ('asm', 'AR'), ('asm-old', 'A')):
                J += mk(pid, cfg, oks, api.INTS[:8], 'havoc', 'havoc', 3) if cfg != 'fallback' else mk(pid, cfg, oks, api.INTS[::2], 'havoc', 'havoc', 3)
                J += mk(pid, cfg, oks, api.INTS[8:], 'havoc', 'havoc', 1)
                J += mk(pid, cfg, oks, api.FPS, 'havoc', 'havoc', 1)
                J += mk(pid, cfg, oks, api.PTRS[:3:2] + api.VPTRS + api.ENUMS[::2], 'havoc', 'havoc', 4)
                J += mk(pid, cfg, oks, STR_Q + PAD + MISC, 'havoc', 'havoc', 8)
            J += mk(pid, 'gcc-noflags', 'A', api.INTS[:8], 'havoc', 'havoc', 3)
            J += mk(pid, 'gcc-cx16', 'A', api.INTS[8:], 'havoc', 'havoc', 1)
            J += mk(pid, 'clang-cx16', 'AR', api.INTS[8:9], 'havoc', 'havoc', 1)
            J += mk(pid, 'clang-cx16', 'A', [api.BYNAME['s12b'], api.BYNAME['s16a16']], 'havoc', 'havoc', 2)
            J += mk(pid, 'gcc-snb', 'IJ', [api.BYNAME['u32'], api.BYNAME['s64'], api.BYNAME['pi'], api.BYNAME['dbl']], 'havoc', 'havoc', 2)
        else:
            for cfg in ALLCFG:
                J += mk(pid, cfg, 'ARIJ', api.INTS + api.CHARS, 'havoc', 'havoc', 2, bound=4)
                J += mk(pid, cfg, 'ARIJ', api.FPS, 'havoc', 'havoc', 1, bound=3)
                J += mk(pid, cfg, 'ARIJ', api.PTRS + api.VPTRS + api.ENUMS, 'havoc', 'havoc', 4, bound=3)
                J += mk(pid, cfg, 'ARIJ', api.STRUCTS + PAD + MISC, 'havoc', 'havoc', 6, bound=3)
    elif pid == 'C03':
        allt = api.INTS + [api.BOOL] + api.ENUMS[::2] + api.FPS + api.PTRS[:1] + api.VPTRS + STR_Q + PAD + api.NTD
        if q:
            for cfg, oks in (('gcc-snb', 'AR'), ('clang', 'AR'), ('fallback', 'AR'), ('asm', 'AR'), ('asm-old', 'AR')):
                J += mk(pid, cfg, oks, allt, 'cas', 'stable', 5, validate=6)
            J += mk(pid, 'gcc-cx16', 'A', api.INTS[8:], 'cas', 'stable', 2)
            J += mk(pid, 'clang-cx16', 'AR', api.INTS[8:9] + [api.BYNAME['s12b'], api.BYNAME['s16a16']], 'cas', 'stable', 3)
            J += mk(pid, 'gcc-snb', 'IJ', [t for t in allt if t.size in (4, 8, 16)], 'cas', 'stable', 6)
            for cfg, oks in (('gcc-snb', 'AR'), ('clang', 'A'), ('fallback', 'A'), ('asm', 'R'), ('asm-old', 'A')):
                J += mk(pid, cfg, oks, api.INTS[::2] + [api.BOOL, api.BYNAME['pi']] + STR_Q[::2] + PAD[:2], 'cas', 'havoc', 6)
                J += mk(pid, cfg, oks, api.FPS, 'cas', 'havoc', 2)
        else:
            for cfg in ALLCFG:
                J += mk(pid, cfg, 'ARIJ', api.ALL, 'cas', 'stable', 5, validate=12)
                J += mk(pid, cfg, 'ARIJ', api.ALL, 'cas', 'havoc', 4, bound=3)
    elif pid == 'C04':
        allt = [t for t in api.ALL]
        if q:
            for cfg, oks in (('gcc-snb', 'ARIJ'), ('clang', 'AR'), ('fallback', 'AR'), ('asm', 'AR'), ('clang-snb', 'A')):
                J += mk(pid, cfg, oks, allt, 'generic', 'stable', 14, validate=10, seq=True)
                J += mk(pid, cfg, oks, [t for t in allt if padded(t)], 'writes', 'stable', 6)
            J += mk(pid, 'clang-cx16', 'A', [t for t in allt if t.size in (12, 16)], 'generic', 'stable', 8)
        else:
            for cfg in ALLCFG:
                J += mk(pid, cfg, 'ARIJ', allt, 'generic', 'stable', 10, validate=20, seq=True)
                J += mk(pid, cfg, 'ARIJ', [t for t in allt if padded(t)], 'writes', 'stable', 4)
    elif pid == 'C05':
        ty = api.FPS + api.PTRS + api.ENUMS + [api.BOOL]
        if q:
            for cfg, oks in (('gcc-snb', 'ARIJ'), ('clang', 'AR'), ('fallback', 'AR'), ('asm', 'AR'), ('asm-old', 'A'), ('gcc-noflags', 'A')):
                J += mk(pid, cfg, oks, ty, 'typed', 'stable', 4, validate=8)
            for cfg, oks in (('gcc-snb', 'AR'), ('clang', 'A'), ('fallback', 'A'), ('asm', 'R'), ('asm-old', 'A')):
                J += mk(pid, cfg, oks, api.FPS, 'typed', 'havoc', 1)
                J += mk(pid, cfg, oks, api.PTRS + api.ENUMS[::2] + [api.BOOL], 'typed', 'havoc', 2)
        else:
            for cfg in ALLCFG:
                J += mk(pid, cfg, 'ARIJ', ty, 'all', 'stable', 3, validate=12)
                J += mk(pid, cfg, 'ARIJ', ty, 'typed', 'havoc', 2, bound=3)
    elif pid == 'C06':
        ty = api.INTS[::2] + api.FPS + [api.BYNAME['pi'], api.BYNAME['pv'], api.BYNAME['en8'], api.BYNAME['en16']] + api.STRUCTS + PAD[:2] + MISC
        if q:
            for cfg, oks in (('gcc-snb', 'AR'), ('clang', 'R'), ('fallback', 'AR'), ('asm', 'AR'), ('asm-old', 'R')):
                J += mk(pid, cfg, oks, ty, 'all', 'stable', 5, fixorder=True)
        else:
            for cfg in ALLCFG:
                J += mk(pid, cfg, 'ARIJ', api.ALL, 'all', 'stable', 5, fixorder=True)
    elif pid == 'C19':
        for cfg in (('gcc-snb', 'clang', 'fallback', 'asm', 'asm-old', 'gcc') if q else ALLCFG):
            for ok in ('AI' if cfg != 'fallback' else 'A'):
                for mode in ('stable', 'havoc'):
                    J.append(dict(pid=pid, cfg=cfg, ok=ok, types=['flag'], filt='flag', mode=mode, validate=12 if mode == 'stable' else 0))
                w = dict(pid=pid, waiting=True, cfg=cfg, ok=ok, types=['flag'], fixorder=True)
                J.append(dict(w, ops=['wait'], blocks=3, validate=1))
                J.append(dict(w, ops=['wait', 'notify_one', 'notify_all'], blocks=1, symbase=True))
                for o in () if q and cfg not in ('gcc-snb', 'fallback', 'clang') else ('until_sys', 'for_ns') if q and cfg == 'clang' else ('until_sys', 'until_std', 'until_pico', 'for_ns', 'for_ms'):
                    J.append(dict(w, ops=[o], blocks=1 if q else 2))
    elif pid == 'C20':
        ty = api.INTS + [api.BOOL, api.BYNAME['pi'], api.BYNAME['flt'], api.BYNAME['ldb'], api.BYNAME['s16b']]
        for cfg, oks in ((('asm', 'AR'), ('asm-old', 'A'), ('gcc-snb', 'A'), ('gcc-noflags', 'A'), ('gcc-cx16', 'A')) if q else
                         tuple((c, 'ARIJ') for c in ('asm', 'asm-old', 'gcc-snb', 'gcc-noflags', 'gcc-cx16', 'clang-snb', 'gcc', 'gcc-snb20'))):
            J += mk(pid, cfg, oks, ty, 'all', 'stable', 3, fixorder=q)
    return J


KEEP = {'C01': RUN, 'C02': ATOM, 'C03': RUN, 'C04': RUN, 'C05': RUN, 'C06': MEM, 'C19': RUN | ATOM, 'C20': {'asm-contract', 'contract'}, 'C17': RUN | ATOM}


def ev(m, v):
    if v is None:
        return None
    if isint(v):
        return v
    x = m.eval(v, model_completion=True)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    return None


def inputs(c, m):
    return dict(content=ev(m, c.content0), x=ev(m, c.x), e=ev(m, c.e), r0=ev(m, c.r0), k=ev(m, c.k), d=ev(m, c.d), m1=ev(m, c.m1), m2=ev(m, c.m2))


def show(c, op, i):
    return dict(object='%s<%s>' % (c.ok, c.ty.cxx), op=op.expr, config=c.cfg, initial=hex(i['content']), x=hex(i['x']), e=hex(i['e']), k=i['k'],
                d=hex(i['d']), m1=i['m1'], m2=i['m2'])


def run_job(job):
    if job.get('waiting'):
        from . import waiting
        return waiting.run_job(job)
    R = Result()
    cfg, ok, pid = job['cfg'], job['ok'], job['pid']
    tb = dict(api.BYNAME)
    tb['flag'] = api.FLAG
    tys = [tb[n] for n in job['types']]
    sel = lin.selectable(cfg, [(ok, t) for t in tys])
    infos = {}
    use = []
    for k, t, i in sel:
        if k in 'IJ' and not i[3]:
            continue
        infos[t.name] = i
        use.append((k, t))
    if not use:
        return R
    src, cases = api.harness(use, build.CONFIGS[cfg][1].get('gcc'), FILTERS[job['filt']])
    mod = build.compile_ir(src, cfg)
    run = lin.Runner(cfg, mod, job['mode'], cas_fail_bound=job.get('bound', 2))
    keep = KEEP[pid] | (ATOM if job['mode'] == 'havoc' else set())
    vals = []
    fixorder = job.get('fixorder')
    if fixorder:
        oc = lin.orders_cond
        run.fixorder = True
    for n, (fn, k, ty, op) in enumerate(cases):
        where = '%s %s' % (cfg, fn[2:])
        R.cases += 1
        try:
            f = run.check_stable if job['mode'] == 'stable' else run.check_havoc
            vs = f(fn, k, ty, op, infos[ty.name])
        except (Unsupported, SolverTimeout, RecursionError) as e:
            R.undecided.append('%s: %s' % (where, str(e)[:200]))
            continue
        fin, c = run.last
        R.events += sum(len(s.events) for s in fin)
        for kind, text, m, s, cc in vs:
            if kind not in keep:
                continue
            det = {}
            rep = {}
            if m is not None:
                i = inputs(cc, m)
                det = show(cc, op, i)
                rep = dict(case=(k, ty.name, op.name), cfg=cfg, info=infos[ty.name], inputs=i, mode=job['mode'])
                if job['mode'] == 'havoc':
                    det['events'] = [trace(e, m) for e in s.events][:40]
            R.viol(where, kind, text, det, rep)
        if n == 0 or (n % 37 == 5):
            wit(run, fn, k, ty, op, infos[ty.name], R, where)
        if job.get('validate') and len(vals) < job['validate'] and fin and cc_ok(op, ty):
            for s in fin[-2:]:
                if s.status == 'ret' and not s.viol and len(vals) < job['validate']:
                    m = run.ex.check(s)
                    if m is not None:
                        vals.append((k, ty, op, infos[ty.name], inputs(c, m), pred(run, s, c, op, m)))
            if len(R.samples) < 2 and vals:
                R.samples.append(show(c, op, vals[-1][4]))
    if job.get('seq'):
        sequences(run, use, infos, R, cfg, keep)
    R.stats(run.ex.stats)
    if vals:
        validate(cfg, vals, R)
    return R


def trace(e, m):
    d = dict(kind=e.kind, offset=e.off, size=e.size)
    for n in ('rval', 'wval', 'expected'):
        v = getattr(e, n)
        if v is not None:
            try:
                d[n] = hex(ev(m, v))
            except Exception:
                pass
    if e.asm is not None:
        d['asm'] = str(e.inst)[:120] if e.inst is not None else True
    return d


def cc_ok(op, ty):
    return not (ty.kind == 'fp' and op.kind == 'rmw' and op.name not in ('exchange',))


def pred(run, s, c, op, m):
    """what the encoding says the memory looks like afterwards"""
    n = 1 if c.ty.kind == 'flag' else c.ty.size
    rn = n if op.rt == 'T' else 1
    e1 = run.rd(s, c.ep, n)
    r = run.rd(s, c.rp, rn)
    vm = c.val & ((1 << 8 * n) - 1)
    rm = vm if op.rt == 'T' else 255
    cm = (c.val | c.zero) if c.clears or not c.ty.pad else c.val
    return [(ev(m, run.final(s, c)), cm), (ev(m, e1), vm), (ev(m, r), rm if op.rt != 'void' else 0)]


def validate(cfg, vals, R):
    tests = [dict(ok=k, ty=t, op=o, info=i, **inp) for k, t, o, i, inp, p in vals]
    src = native.program(tests)
    pool = any(not i[3] for _, _, _, i, _, _ in vals)
    res, out = native.run(cfg, src, pool, opt='-O1')
    if res is None:
        R.notes.append('native validation did not build: ' + str(out)[:300])
        R.undecided.append('%s: encoding validation program: %s' % (cfg, str(out)[-400:]))
        return
    rc, rows = res
    for n, (k, t, o, i, inp, p) in enumerate(vals):
        if n >= len(rows):
            R.undecided.append('%s %s_%s_%s: native run ended early (%s)' % (cfg, k, t.name, o.name, out[-200:]))
            break
        got = rows[n]
        bad = [q for q, ((want, mk), g) in enumerate(zip(p, got)) if want is not None and (want ^ g) & mk]
        if bad:
            R.undecided.append('encoding disagrees with the native run: %s %s_%s_%s inputs %s predicted %s native %s' % (
                cfg, k, t.name, o.name, inp, [hex(w) for w, _ in p], [hex(g) for g in got]))
        else:
            R.validated += 1


def wit(run, fn, k, ty, op, info, R, where):
    """reachability witness: a deliberately false contract must be refuted"""
    keep = run.step_cond
    try:
        run.step_cond = lambda c, o, st, a, b: z3.And(tobool(keep(c, o, st, a, b)), eqv(fresh('w', 8), 0, 8))
        sp = run.spurious_cond
        run.spurious_cond = lambda *a: z3.BoolVal(False)
        f = run.check_stable if run.mode == 'stable' else run.check_havoc
        vs = f(fn, k, ty, op, info)
        run.spurious_cond = sp
        if any(m is not None for _, _, m, _, _ in vs):
            R.witness += 1
        else:
            R.undecided.append('%s: the assertion is not reachable (vacuous)' % where)
    finally:
        run.step_cond = keep


# ---------------------------------------------------------------- C04: construction and sequences
def sequences(run, use, infos, R, cfg, keep):
    ex = run.ex
    for ok, ty in use:
        info = infos[ty.name]
        if ok in api.REFS:
            continue
        where = '%s %s_%s' % (cfg, ok, ty.name)
        R.cases += 1
        try:
            # construct from a value over arbitrary garbage, then the invariant and the value hold, and a value-equal CAS succeeds
            st = State()
            c = run.ctx_for(ok, ty, info)
            ex.ctx = c
            p = ex.new_obj(st, 'obj', c.size, 'shared', c.align)
            c.oid = p.obj
            garbage = fresh('garbage', c.objw)
            st.objs[p.obj].chunks = {0: (c.size, garbage)}
            vp = ex.new_obj(st, 'v', ty.size, 'stack', 16)
            v = fresh('v', c.w)
            st.objs[vp.obj].chunks = {0: (ty.size, v)}
            if ty.kind == 'bool':
                st.pc.append(z3.ULE(v, 1))
            c.content0 = garbage
            st = run.call1(st, 'c_%s_%s' % (ok, ty.name), [p, vp])
            got = run.final(st, c)
            m = ex.prove(st, run.veq(c, run.val_of(c, got), v))
            if m is not None and 'contract' in keep:
                R.viol(where + ' ctor', 'contract', 'the constructed object does not hold the given value', dict(v=hex(ev(m, v))), {})
            if c.lockfree or c.clears:
                z = c.zero & ((1 << c.w) - 1)
                m = ex.prove(st, eqv(got & z, 0, c.objw)) if z and not isint(got) else None
                if m is not None and ty.kind != 'bool':
                    R.viol(where + ' ctor', 'contract', 'padding bits of the constructed object are not cleared', dict(v=hex(ev(m, v))), {})
            if ty.kind != 'flag':
                casok(run, st, c, ok, ty, p, v, R, where + ' ctor then compare_exchange')
            # value initialisation
            for pre in ('v', 'd'):
                if ty.kind == 'struct' and ty.name == 'ntd':
                    want = 7
                else:
                    want = 0
                st = State()
                p = ex.new_obj(st, 'obj', c.size, 'shared', c.align)
                c.oid = p.obj
                st.objs[p.obj].chunks = {0: (c.size, fresh('garbage', c.objw))}
                st = run.call1(st, '%s_%s_%s' % (pre, ok, ty.name), [p])
                got = run.final(st, c)
                m = ex.prove(st, run.veq(c, run.val_of(c, got), want))
                if m is not None:
                    R.viol(where + ' default ctor', 'contract', 'a default-constructed object does not hold T()', {}, {})
        except (Unsupported, SolverTimeout) as e:
            R.undecided.append('%s ctor: %s' % (where, str(e)[:200]))


def casok(run, st, c, ok, ty, p, v, R, where):
    """compare_exchange_strong on an object just built from v, expecting a value equal to v (other padding), must succeed"""
    ex = run.ex
    fn = 'k_%s_%s' % (ok, ty.name)
    if fn not in ex.fnmap:
        return
    c.arg0 = p
    op = api.OPBY['cas_s1']
    a = run.args(st, c, op)
    st.pc.append(tobool(run.veq(c, c.e, v)) if c.clears else tobool(eqv(c.e, v, c.w)))
    st.pc.append(c.m1 == 14)
    st.obj_w(c.oid).shared = 'stable'
    ex.start(fn, a, st)
    n = 0
    for s in ex.run(st):
        if s.status != 'ret' or s.viol:
            R.undecided.append('%s: ended as %s %s' % (where, s.status, s.viol[:1]))
            continue
        n += 1
        m = ex.prove(s, eqv(run.rd(s, c.rp, 1), 1, 8))
        if m is not None:
            R.viol(where, 'contract', 'compare_exchange_strong fails although the object was constructed from an equal value',
                   dict(v=hex(ev(m, v)), e=hex(ev(m, c.e))), {})
    if not n:
        R.undecided.append('%s: no path' % where)


# ---------------------------------------------------------------- replay
def replay(v, d):
    r = v.get('replay') or {}
    if 'script' in r:
        from . import waiting
        return waiting.replay(v, d)
    with open(os.path.join(d, 'inputs.json'), 'w') as f:
        json.dump(dict(where=v['where'], kind=v['kind'], text=v['text'], detail=v['detail']), f, indent=1, default=str)
    if not r or 'inputs' not in r:
        return 'symbolic trace only'
    if r['mode'] == 'havoc':
        return 'schedule recorded (needs the interference shown in violation.json)'
    k, tn, on = r['case']
    ty = dict(api.BYNAME, flag=api.FLAG)[tn]
    op = api.OPBY[on]
    res, out = native.run(r['cfg'], native.program([dict(ok=k, ty=ty, op=op, info=r['info'], **r['inputs'])]), not r['info'][3], keep=d, timeout=20)
    with open(os.path.join(d, 'native-output.txt'), 'w') as f:
        f.write(str(res) + '\n' + str(out))
    if res is None:
        return 'native program: %s' % out[-200:]
    rc, rows = res
    if rc != 0 or not rows:
        return 'reproduced on the real build: the program ended with status %s' % rc
    # judge the native outcome with the specification
    run = lin.Runner.__new__(lin.Runner)
    run.cfg = r['cfg']
    run.traits = build.CONFIGS[r['cfg']][1]
    run.mode = 'stable'
    from ..core import Exec
    run.ex = Exec([])
    c = run.ctx_for(k, ty, r['info'])
    st = State()
    i = r['inputs']
    for n in ('x', 'e', 'k', 'd', 'm1', 'm2', 'r0'):
        setattr(c, n, i[n])
    got = rows[0]
    c.ep = run.ex.new_obj(st, 'e', ty.size, 'stack', 16)
    st.objs[c.ep.obj].chunks = {0: (ty.size, got[1])}
    rn = ty.size if op.rt == 'T' else 1
    c.rw = rn * 8
    c.rp = run.ex.new_obj(st, 'r', rn, 'stack', 16)
    st.objs[c.rp.obj].chunks = {0: (rn, got[2])}
    if ty.kind == 'fp' and op.kind == 'rmw' and op.name != 'exchange':
        return 'native result: object %s result %s (compare with the IEEE operation)' % (hex(got[0]), hex(got[2]))
    okv = simp(run.step_cond(c, op, st, i['content'], got[0]))
    return ('NOT reproduced by this compiler: ' if okv == 1 or (not isint(okv) and z3.is_true(okv)) else 'reproduced on the real build: ') + \
        'object %s -> %s, expected argument %s, result %s' % (hex(i['content']), hex(got[0]), hex(got[1]), hex(got[2]))


def level(pid):
    return 'model_checking' if pid in ('C02',) else 'other'


def explain(pid, tier):
    return {
        'C01': 'For every integer type, object kind and configuration listed in DESIGN.md each read-modify-write operation of the public interface was executed symbolically (clang IR of the real headers, inline assembly interpreted instruction by instruction) from an arbitrary prior value with arbitrary operands and every permitted memory order; stored value and result were proved equal to the documented functions.',
        'C02': 'Each operation was executed symbolically while every read of the object returns a fresh arbitrary value (any interference between any two accesses); the solver proved that on every path exactly one indivisible access carries the documented effect and result.',
        'C03': 'compare_exchange_strong/weak in both forms from an arbitrary state: success exactly on equality, exact stored value, exact write-back into expected.',
        'C04': 'constructors over arbitrary memory, load, conversion, store, assignment, exchange: bit-exact values, cleared padding, following compare_exchange succeeds.',
        'C05': 'floating-point (arithmetic uninterpreted: the same IEEE operation on the same bits), pointer, enum and bool operations against their documented results.',
        'C06': 'Every access of every operation was resolved to object and offset; the solver proved that none leaves the object, that nothing else is written and that alignment requirements of the instructions are met.',
        'C19': 'test_and_set, clear, test from both states, with and without interference.',
        'C20': 'Each inline assembly statement reached by the operations was interpreted for the registers its constraints permit; undeclared clobbers, early writes and undeclared memory accesses are reported, and the results were checked with all undeclared registers holding arbitrary values.',
    }[pid]


def assumptions(pid):
    a = ['the IR clang 18 produces without optimisation has the meaning the language gives the source (undefined behaviour is reported, not exploited)',
         'x86 instruction semantics as encoded in vp/asmx86.py (validated natively on the counted inputs)',
         'g++-only code paths are encoded with clang masquerading as g++ 13 (vp/masq.hpp); __builtin_clear_padding is modelled from the known layouts',
         'bool objects and operands hold 0 or 1; bit numbers are less than the width; memory orders are those the operation permits']
    if pid in ('C02', 'C19'):
        a.append('at most %d failing compare-and-swap attempts per path (further ones repeat the loop from an arbitrary value)' % 2)
        a.append('an aligned access of up to 8 bytes (16 with AVX vector moves) and every locked instruction is indivisible')
    if pid == 'C05':
        a.append('IEEE addition is an uninterpreted commutative function of the bit patterns; subtraction is addition of the negated operand')
    return a
