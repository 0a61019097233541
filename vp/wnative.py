"""Scripted runs of the real waiting and notifying operations: system calls, clocks and the lock pool are replaced by stand-ins that follow
a script taken from a solver model, record what they are asked, and change the object where the script says another thread does."""
import json
import os
import subprocess
from . import api, build, native, waits
from .core import isint, Ptr


def ev(m, v):
    if v is None or isint(v):
        return v
    x = m.eval(v, model_completion=True)
    try:
        return x.as_long()
    except Exception:
        return None


K = dict(now=1, gettime=2, futex=3, nanosleep=4, lock=5, unlock=6, allocws=7, freews=8, pwait=9, pnotify=10)


def script(run, s, c, op, m, info):
    """-> dict or None when the path cannot be scripted"""
    if c.ok in api.REFS and c.ty.kind == 'flag':
        return None
    n = c.size
    steps = []
    cur = None
    init = None
    evs = s.events
    i = 0
    for i, e in enumerate(evs):
        k = e.kind
        if k == 'R' and e.obj == c.oid:
            if e.off != 0 or e.size != n:
                return None
            v = ev(m, e.rval)
            if v is None:
                return None
            if init is None and not steps:
                init = cur = v
            elif cur is None or v != cur:
                if not steps:
                    if init is None:
                        init = v
                    else:
                        return None
                elif steps[-1].get('set') is not None or steps[-1].get('closed'):
                    return None
                else:
                    steps[-1]['set'] = v
                cur = v
            if steps:
                steps[-1]['closed'] = True
        elif k == 'NOW':
            if isinstance(e.data[0], str) and e.inst is not None and False:
                pass
            steps.append(dict(k='now', clk=e.data[0], v=ev(m, e.data[1])))
        elif k == 'NOWFAIL':
            steps.append(dict(k='now', clk=e.data, v=None))
        elif k == 'FUTEX':
            d = e.data
            nx = next((f for f in evs[i + 1:] if f.kind in ('FRET', 'FUTEX', 'R', 'NOW')), None)
            err = ev(m, nx.data['err']) if nx is not None and nx.kind == 'FRET' else 0
            steps.append(dict(k='futex', op=(d['flags'] | {v: q for q, v in waits.FUTEX.items()}[d['cmd']]), val=ev(m, d['val']) & 0xffffffff,
                              ts=[ev(m, t) for t in d['ts']] if d['ts'] else None, err=err))
        elif k == 'SLEEP':
            steps.append(dict(k='nanosleep', ts=[ev(m, t) for t in e.data] if e.data else None))
        elif k == 'LOCK':
            steps.append(dict(k='lock'))
        elif k == 'UNLOCK':
            steps.append(dict(k='unlock'))
        elif k == 'ALLOCWS':
            steps.append(dict(k='allocws', null=s.x.get('allocnull%d' % i) or False))
        elif k == 'FREEWS':
            steps.append(dict(k='freews'))
        elif k == 'PWAIT':
            d = e.data
            nx = next((f for f in evs[i + 1:] if f.kind in ('WOKEN',)), None)
            steps.append(dict(k='pwait', kind=d['kind'], ts=[ev(m, t) for t in d['ts']] if d.get('ts') else None, ns=ev(m, d.get('ns')), ret=int(bool(nx is not None and nx.data))))
        elif k == 'PNOTIFY':
            steps.append(dict(k='pnotify', all=e.data[0] == 'all'))
    for st in steps:
        st.pop('closed', None)
        if st['k'] == 'allocws':
            st.pop('null', None)
    if init is None:
        init = 0
    rn = 1 if c.ty.kind == 'flag' else c.ty.size
    complete = s.status == 'ret'
    exp = None
    if complete:
        exp = dict(r=ev(m, run.rd(s, c.rp, rn)), to=ev(m, run.rd(s, c.tp, 1)), mask=c.val & ((1 << 8 * rn) - 1), void=op.kind in ('n1', 'na'), nto=op.kind in ('until', 'for'))
    return dict(ok=c.ok, ty=c.ty.name, op=op.name, size=n, init=init, old=ev(m, c.old), d=ev(m, c.d), m1=ev(m, c.m1), steps=steps, expect=exp, align=max(16, c.align),
                nullws=s.x.get('wsnull', False))


STUB = r'''
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <chrono>
#include <boost/atomic/detail/lock_pool.hpp>
struct VpStep { int k; long a, b, c; int err; bool has; unsigned char set[64]; };
static VpStep* vp_s; static int vp_n, vp_i; static unsigned char* vp_obj; static unsigned vp_size; static bool vp_over;
static char vp_dummy[64], vp_ws[64]; static bool vp_null;
[[noreturn]] static void vp_stop(const char* w) { std::printf("STOP %s\n", w); std::fflush(stdout); _Exit(0); }
static VpStep* vp_next(int k, const char* n) {
    if (vp_i >= vp_n) vp_stop("end-of-script");
    VpStep* s = &vp_s[vp_i++];
    if (s->k != k) { std::printf("CALL %s\n", n); vp_stop("different-call"); }
    return s; }
static void vp_done(VpStep* s) { if (s->has) std::memcpy(vp_obj, s->set, vp_size); }
static long vp_clock(const char* n) { VpStep* s = vp_next(1, n); std::printf("CALL now %s\n", n); vp_done(s); return s->a; }
extern "C" long vp_now_pico() noexcept { return vp_clock("pico"); } extern "C" long vp_now_ms() noexcept { return vp_clock("ms"); }
extern "C" long vp_now_third() noexcept { return vp_clock("third"); } extern "C" int vp_now_s32() noexcept { return (int)vp_clock("s32"); }
extern "C" long vp_now_boot() noexcept { return vp_clock("boot"); } extern "C" long vp_now_umono() noexcept { return vp_clock("mono"); }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vp_clock("mono"))); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vp_clock("real"))); } } } }
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
    const char* n = id == 0 ? "real" : id == 1 ? "mono" : id == 7 ? "boot" : "other";
    VpStep* s = vp_next(1, n); std::printf("CALL now %s\n", n); vp_done(s);
    if (s->err) { errno = EINVAL; return -1; }
    t->tv_sec = s->a / 1000000000; t->tv_nsec = s->a % 1000000000; return 0; }
extern "C" int nanosleep(const struct timespec* t, struct timespec*) { VpStep* s = vp_next(4, "nanosleep"); std::printf("CALL nanosleep %ld %ld\n", (long)t->tv_sec, (long)t->tv_nsec); vp_done(s); return 0; }
extern "C" long syscall(long nr, ...) noexcept {
    va_list ap; va_start(ap, nr); void* p = va_arg(ap, void*); long op = va_arg(ap, long) & 0xffffffff; unsigned long v = va_arg(ap, unsigned long) & 0xffffffff; long t = va_arg(ap, long); va_end(ap);
    if (nr != 202) vp_stop("other-system-call");
    VpStep* s = vp_next(3, "futex");
    int cmd = op & 127; bool w = cmd == 0 || cmd == 9;
    std::printf("CALL futex %ld %lu", op, v);
    if (w && t) std::printf(" %ld %ld", (long)((timespec*)t)->tv_sec, (long)((timespec*)t)->tv_nsec);
    std::printf("%s\n", p == (void*)vp_obj ? "" : " WRONG-ADDRESS");
    vp_done(s); if (s->err) { errno = s->err; return -1; } return 0; }
namespace boost { namespace atomics { namespace detail { namespace lock_pool {
void* short_lock(uintptr_t) noexcept { VpStep* s = vp_next(5, "lock"); std::printf("CALL lock\n"); vp_done(s); return vp_dummy; }
void* long_lock(uintptr_t) noexcept { VpStep* s = vp_next(5, "lock"); std::printf("CALL lock\n"); vp_done(s); return vp_dummy; }
void unlock(void*) noexcept { VpStep* s = vp_next(6, "unlock"); std::printf("CALL unlock\n"); vp_done(s); }
void* allocate_wait_state(void*, const volatile void* p) noexcept { VpStep* s = vp_next(7, "allocws"); std::printf("CALL allocws%s\n", p == (void*)vp_obj ? "" : " WRONG-ADDRESS"); vp_done(s); return vp_null ? nullptr : vp_ws; }
void free_wait_state(void*, void*) noexcept { VpStep* s = vp_next(8, "freews"); std::printf("CALL freews\n"); vp_done(s); }
void wait(void*, void*) noexcept { VpStep* s = vp_next(9, "pwait"); std::printf("CALL pwait\n"); vp_done(s); }
bool wait_until(void*, void*, clockid_t, timespec const& t) noexcept { VpStep* s = vp_next(9, "pwait"); std::printf("CALL pwait %ld %ld\n", (long)t.tv_sec, (long)t.tv_nsec); vp_done(s); return s->a; }
bool wait_for(void*, void*, std::chrono::nanoseconds n) noexcept { VpStep* s = vp_next(9, "pwait"); std::printf("CALL pwait %ld\n", (long)n.count()); vp_done(s); return s->a; }
void notify_one(void*, const volatile void* p) noexcept { VpStep* s = vp_next(10, "pnotify"); std::printf("CALL pnotify one%s\n", p == (void*)vp_obj ? "" : " WRONG-ADDRESS"); vp_done(s); }
void notify_all(void*, const volatile void* p) noexcept { VpStep* s = vp_next(10, "pnotify"); std::printf("CALL pnotify all%s\n", p == (void*)vp_obj ? "" : " WRONG-ADDRESS"); vp_done(s); }
void thread_fence() noexcept {} void signal_fence() noexcept {}
} } } }
'''


def sgn(v):
    return v - (1 << 64) if v >> 63 else v


def lit(v):
    v = sgn(v & ((1 << 64) - 1))
    return '(-9223372036854775807l-1)' if v == -(1 << 63) else '%dl' % v


def arr(v, n):
    return '{' + ','.join('0x%02x' % b for b in (v & ((1 << 8 * n) - 1)).to_bytes(n, 'little')) + '}'


def calls(sc):
    out = []
    for st in sc['steps']:
        k = st['k']
        if k == 'now':
            out.append('now %s' % st['clk'])
        elif k == 'futex':
            t = ' %d %d' % tuple(sgn(x) for x in st['ts']) if st['ts'] else ''
            out.append('futex %d %d%s' % (st['op'], st['val'], t))
        elif k == 'nanosleep':
            out.append('nanosleep %d %d' % tuple(st['ts']) if st['ts'] else 'nanosleep')
        elif k == 'pwait':
            out.append('pwait' + (' %d %d' % tuple(sgn(x) for x in st['ts']) if st['ts'] else ' %d' % sgn(st['ns']) if st['ns'] is not None else ''))
        elif k == 'pnotify':
            out.append('pnotify ' + ('all' if st['all'] else 'one'))
        else:
            out.append(k)
    return out


def program(sc):
    tb = dict(api.BYNAME, flag=api.FLAG)
    ty = tb[sc['ty']]
    src, cases = waits.source([(sc['ok'], ty)], False, [sc['op']])
    T = ty.cxx if ty.kind != 'flag' else 'bool'
    n = 1 if ty.kind == 'flag' else ty.size
    ot = api.objtype(sc['ok'], ty)
    s = [src, native.HELP, STUB, 'int main() {']
    s.append('static VpStep steps[] = {')
    for st in sc['steps']:
        a = st.get('v')
        err = st.get('err') or 0
        if st['k'] == 'now' and a is None:
            a, err = 0, 22
        if st['k'] == 'pwait':
            a = st['ret']
        set_ = st.get('set')
        s.append('{%d, %s, 0, 0, %d, %s, %s},' % (K[st['k']], lit(a or 0), err, 'true' if set_ is not None else 'false', arr(set_ or 0, sc['size'])))
    s.append('{0, 0, 0, 0, 0, false, {0}} };')
    s.append('alignas(%d) static unsigned char ob[] = %s, xb[] = %s, rb[%d] = {}, rs[%d]; static bool to = false;' % (
        sc['align'], arr(sc['init'], sc['size']), arr(sc['old'], n), max(n, 1), 64))
    s.append('vp_null = %s;' % ('true' if sc['nullws'] else 'false'))
    s.append('vp_s = steps; vp_n = %d; vp_obj = ob; vp_size = %d;' % (len(sc['steps']), sc['size']))
    tag = '%s_%s' % (sc['ok'], ty.name)
    if sc['ok'] in api.REFS:
        s.append('%s* rp = (%s*)rs; c_%s(rp, (%s*)ob);' % (ot, ot, tag, T))
        o = '*rp'
    else:
        o = '*(%s*)ob' % ot
    s.append('w_%s_%s(%s, *(%s*)xb, (%s*)rb, &to, %s, (memory_order)%d);' % (tag, sc['op'], o, T, T, lit(sc['d']), sc['m1']))
    s.append('std::printf("END "); vp_hex(rb, %d); std::printf("%%d %%d\\n", (int)to, vp_i); return 0; }' % n)
    return '\n'.join(s) + '\n'


def run(cfg, sc, keep=None, timeout=20):
    cc, flags = native.NATIVE[cfg]
    d = build.tmpdir()
    p = os.path.join(d, 'w%d_%d.cpp' % (os.getpid(), run.n))
    run.n += 1
    exe = p[:-4]
    open(p, 'w').write(program(sc))
    cmd = [cc] + flags + ['-O1', '-w', '-pthread', '-fno-strict-aliasing', '-I', build.REPO + '/include', '-I', build.REPO + '/src', '-DBOOST_ATOMIC_STATIC_LINK', '-DBOOST_ATOMIC_NO_LIB', p, '-o', exe]
    if keep:
        os.makedirs(keep, exist_ok=True)
        open(os.path.join(keep, 'replay.cpp'), 'w').write(program(sc))
        open(os.path.join(keep, 'build.txt'), 'w').write(' '.join(cmd) + '\n')
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        return None, r.stdout[-1500:]
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    finally:
        os.unlink(exe)
    return r.returncode, r.stdout


run.n = 0


def compare(sc, out):
    """-> None if the native run follows the script exactly, else text"""
    lines = out.splitlines()
    got = [l[5:] for l in lines if l.startswith('CALL ')]
    want = calls(sc)
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            return 'call %d: %r instead of %r' % (i, g, w)
    stop = [l for l in lines if l.startswith('STOP')]
    if sc['expect'] is None:
        if len(got) < len(want):
            return 'ended after %d of %d calls' % (len(got), len(want))
        return None
    end = [l for l in lines if l.startswith('END')]
    if stop or not end:
        return (stop or ['no result'])[0]
    if len(got) != len(want):
        return '%d calls instead of %d' % (len(got), len(want))
    w = end[0].split()
    e = sc['expect']
    if not e['void']:
        v = int.from_bytes(bytes.fromhex(w[1]), 'little')
        if (v ^ e['r']) & e['mask']:
            return 'result %#x instead of %#x' % (v, e['r'])
    if e['nto'] and int(w[2]) != e['to']:
        return 'timeout flag %s instead of %s' % (w[2], e['to'])
    return None


def validate(cfg, vals, R):
    for sc in vals:
        rc, out = run(cfg, sc)
        if rc is None:
            R.undecided.append('%s %s_%s_%s: scripted native run: %s' % (cfg, sc['ok'], sc['ty'], sc['op'], str(out)[-300:]))
            continue
        bad = compare(sc, out)
        if bad:
            R.undecided.append('encoding disagrees with the scripted native run: %s %s_%s_%s: %s; script %s' % (cfg, sc['ok'], sc['ty'], sc['op'], bad, json.dumps(sc)[:600]))
        else:
            R.validated += 1


def replay(cfg, sc, d):
    rc, out = run(cfg, sc, keep=d)
    with open(os.path.join(d, 'script.json'), 'w') as f:
        json.dump(sc, f, indent=1)
    with open(os.path.join(d, 'native-output.txt'), 'w') as f:
        f.write(str(out))
    if rc is None:
        return 'scripted native program: %s' % str(out)[-200:]
    bad = compare(sc, out)
    if bad:
        return 'the scripted native run went differently: %s' % bad
    return 'reproduced on the real build: the scripted run makes the same calls and ends with the same result'
