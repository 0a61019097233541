"""Runs operations of the real build on concrete inputs: validates the encoding and replays counterexamples."""
import os
import subprocess
import shutil
from . import api, build

GXX = shutil.which('g++')
CLANG = build.CLANG
SNB = ['-march=sandybridge']
NOLF = []
for x in ('BOOL', 'CHAR', 'SHORT', 'INT', 'LONG', 'LLONG'):
    NOLF += ['-U__GCC_ATOMIC_%s_LOCK_FREE' % x, '-D__GCC_ATOMIC_%s_LOCK_FREE=1' % x]
NATIVE = {
    'gcc': (GXX, ['-std=c++11']), 'gcc-snb': (GXX, ['-std=c++17'] + SNB), 'gcc-snb20': (GXX, ['-std=c++20'] + SNB),
    'clang': (CLANG, ['-std=c++17']), 'clang-snb': (CLANG, ['-std=c++17'] + SNB),
    'gcc-cx16': (GXX, ['-std=c++17', '-mcx16']), 'clang-cx16': (CLANG, ['-std=c++14', '-mcx16']),
    'fallback': (GXX, ['-std=c++17', '-DBOOST_ATOMIC_FORCE_FALLBACK']),
    'asm': (GXX, ['-std=c++17'] + SNB + NOLF),
    'asm-old': (GXX, ['-std=c++17', '-mcx16', '-U__GCC_ASM_FLAG_OUTPUTS__', '-DBOOST_ATOMIC_DETAIL_X86_NO_ASM_AX_DX_PAIRS'] + NOLF),
    'gcc-noflags': (GXX, ['-std=c++17', '-U__GCC_ASM_FLAG_OUTPUTS__', '-mcx16']),
}


def hexb(v, n):
    return (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little').hex()


def arr(v, n):
    return '{' + ','.join('0x%02x' % b for b in v.to_bytes(n, 'little')) + '}'


HELP = r'''
#include <cstdio>
#include <cstring>
#include <cstdlib>
static void vp_hex(const void* p, unsigned n) { const unsigned char* b = (const unsigned char*)p; for (unsigned i = 0; i < n; ++i) std::printf("%02x", b[i]); std::printf(" "); }
'''


def program(tests):
    """tests: [dict(ok, ty, op, info, content, x, e, r0, k, d, m1, m2)] -> C++ source"""
    pairs = []
    ops = set()
    for t in tests:
        if (t['ok'], t['ty']) not in pairs:
            pairs.append((t['ok'], t['ty']))
        ops.add((t['ok'], t['ty'].name, t['op'].name))
    src, cases = api.harness(pairs, False, lambda o, ok, ty: (ok, ty.name, o.name) in ops)
    s = [src, HELP, 'int main() {']
    for t in tests:
        ok, ty, op, info = t['ok'], t['ty'], t['op'], t['info']
        tag = '%s_%s' % (ok, ty.name)
        T = ty.cxx if ty.kind != 'flag' else 'bool'
        ot = api.objtype(ok, ty)
        n = 1 if ty.kind == 'flag' else ty.size
        al = max(16, info[4] if ok in api.REFS else info[1])
        RT = {'T': T, 'bool': 'bool', 'void': 'char'}[op.rt]
        rn = n if op.rt == 'T' else 1
        s.append('{ alignas(%d) static unsigned char ob[] = %s, xb[] = %s, eb[] = %s, rb[] = %s;' % (
            al, arr(t['content'], info[0]), arr(t['x'] & ((1 << 8 * n) - 1), n), arr(t['e'] & ((1 << 8 * n) - 1), n),
            arr(t['r0'] & ((1 << 8 * rn) - 1), rn)))
        if ok in api.REFS:
            s.append('static %s* rp = (%s*)std::malloc(sizeof(%s)); c_%s(rp, (%s*)ob);' % (ot, ot, ot, tag, T))
            o = '*rp'
        else:
            o = '*(%s*)ob' % ot
        s.append('h_%s_%s(%s, *(%s*)xb, *(%s*)eb, (%s*)rb, %du, (std::ptrdiff_t)%dll, (memory_order)%d, (memory_order)%d);' % (
            tag, op.name, o, T, T, RT, t['k'], t['d'] - (1 << 64) if t['d'] >> 63 else t['d'], t['m1'], t['m2']))
        s.append('vp_hex(ob, sizeof ob); vp_hex(eb, sizeof eb); vp_hex(rb, sizeof rb); std::printf("\\n"); std::fflush(stdout); }')
    s.append('return 0; }')
    return '\n'.join(s).replace('-9223372036854775808ll', '(-9223372036854775807ll-1)') + '\n'


def run(cfg, src, need_pool, opt='-O2', keep=None, timeout=120):
    cc, flags = NATIVE[cfg]
    d = build.tmpdir()
    p = os.path.join(d, 'n%d.cpp' % os.getpid())
    exe = p[:-4]
    open(p, 'w').write(src)
    if keep:
        os.makedirs(keep, exist_ok=True)
        open(os.path.join(keep, 'replay.cpp'), 'w').write(src)
    cmd = [cc] + flags + [opt, '-w', '-pthread', '-fno-strict-aliasing', '-I', build.REPO + '/include', '-I', build.REPO + '/src',
                          '-DBOOST_ATOMIC_STATIC_LINK', '-DBOOST_ATOMIC_NO_LIB', p, '-o', exe]
    if need_pool:
        obj = os.path.join(d, 'pool_%s.o' % cfg)
        if not os.path.exists(obj):
            r = subprocess.run([cc] + [f for f in flags if 'FORCE_FALLBACK' not in f] + ['-O2', '-w', '-pthread', '-I', build.REPO + '/include', '-I', build.REPO + '/src', '-DBOOST_ATOMIC_STATIC_LINK',
                                '-DBOOST_ATOMIC_SOURCE', '-DBOOST_ATOMIC_NO_LIB', '-c', build.REPO + '/src/lock_pool.cpp', '-o', obj],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if r.returncode:
                return None, r.stdout[-1500:]
        cmd += [obj]
    if keep:
        open(os.path.join(keep, 'build.txt'), 'w').write(' '.join(cmd) + '\n')
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        return None, r.stdout[-1500:]
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    finally:
        os.unlink(exe)
    out = []
    for l in r.stdout.splitlines():
        w = l.split()
        if len(w) == 3 and all(all(ch in '0123456789abcdef' for ch in x) for x in w):
            out.append([int.from_bytes(bytes.fromhex(x), 'little') for x in w])
    return (r.returncode, out), r.stdout[-600:]
