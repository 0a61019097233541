"""Compile real sources of /repo (through generated harnesses) to LLVM IR; nothing is written inside /repo."""
import os
import subprocess
import tempfile
import shutil
import atexit
import time
from . import ir

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = shutil.which('clang++-18') or shutil.which('clang++')
_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None or not os.path.isdir(_tmp[1]) or _tmp[0] != os.getpid():
        _tmp = (os.getpid(), tempfile.mkdtemp(prefix='vpboost.'))
        pid = os.getpid()
        atexit.register(lambda d=_tmp[1]: shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
    return _tmp[1]


MASQ = ['-include', os.path.join(HERE, 'masq.hpp')]
COMMON = ['-I', REPO + '/include', '-I', REPO + '/src', '-DBOOST_ATOMIC_NO_LIB', '-DBOOST_ATOMIC_STATIC_LINK', '-w', '-pthread']
IRF = ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-fno-discard-value-names', '-ftrivial-auto-var-init=uninitialized']

# name -> (flags, traits)
SNB = ['-march=sandybridge']
CONFIGS = {
    # what the pinned test configurations compile: gcc C++11, gcc C++20 + sandybridge, clang C++17 + sandybridge
    'gcc': (MASQ + ['-std=c++11'], dict(gcc=True)),
    'gcc-snb': (MASQ + ['-std=c++17'] + SNB, dict(gcc=True, avx=True, cx16=True)),
    'gcc-snb20': (MASQ + ['-std=c++20'] + SNB, dict(gcc=True, avx=True, cx16=True)),
    'clang': (['-std=c++17'], dict()),
    'clang-snb': (['-std=c++17'] + SNB, dict(avx=True, cx16=True)),
    'gcc-cx16': (MASQ + ['-std=c++17', '-mcx16'], dict(gcc=True, cx16=True)),
    'clang-cx16': (['-std=c++14', '-mcx16'], dict(cx16=True)),
    # non-lock-free fallback for everything
    'fallback': (MASQ + ['-std=c++17', '-DBOOST_ATOMIC_FORCE_FALLBACK'], dict(gcc=True, fallback=True)),
    # assembly core operations for every width (compilers whose __atomic builtins are not always lock-free)
    'asm': (MASQ + ['-std=c++17'] + SNB + ['-U__GCC_ATOMIC_%s_LOCK_FREE' % x for x in ('BOOL', 'CHAR', 'SHORT', 'INT', 'LONG', 'LLONG')]
            + ['-D__GCC_ATOMIC_%s_LOCK_FREE=1' % x for x in ('BOOL', 'CHAR', 'SHORT', 'INT', 'LONG', 'LLONG')],
            dict(gcc=True, avx=True, cx16=True, asm=True)),
    # the same for compilers without flag outputs and without register-pair constraints
    'asm-old': (MASQ + ['-std=c++17', '-mcx16', '-U__GCC_ASM_FLAG_OUTPUTS__', '-DBOOST_ATOMIC_DETAIL_X86_NO_ASM_AX_DX_PAIRS']
                + ['-U__GCC_ATOMIC_%s_LOCK_FREE' % x for x in ('BOOL', 'CHAR', 'SHORT', 'INT', 'LONG', 'LLONG')]
                + ['-D__GCC_ATOMIC_%s_LOCK_FREE=1' % x for x in ('BOOL', 'CHAR', 'SHORT', 'INT', 'LONG', 'LLONG')],
                dict(gcc=True, cx16=True, asm=True)),
    'gcc-noflags': (MASQ + ['-std=c++17', '-U__GCC_ASM_FLAG_OUTPUTS__', '-mcx16'], dict(gcc=True, cx16=True)),
}


POST = None


class BuildError(Exception):
    pass


def compile_ir(src, cfg, extra=(), name='h'):
    """src: C++ text or a path; returns (Module, ir path)"""
    flags = CONFIGS[cfg][0] if isinstance(cfg, str) else list(cfg)
    d = tmpdir()
    if '\n' in src or not os.path.exists(src):
        p = os.path.join(d, '%s_%d.cpp' % (name, int(time.time() * 1e6) % 10 ** 10))
        with open(p, 'w') as f:
            f.write(src)
    else:
        p = src
    out = os.path.join(d, os.path.basename(p) + '.%s.ll' % (cfg if isinstance(cfg, str) else 'x'))
    cmd = [CLANG] + flags + list(extra) + COMMON + IRF + ['-o', out, p]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    if POST:
        r = subprocess.run(POST + ['-o', out + '.o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode:
            raise BuildError('%s\n%s' % (' '.join(POST), r.stdout[-4000:]))
        os.rename(out + '.o', out)
    text = open(out).read()
    os.unlink(out)
    return ir.parse_module(text)


LOCK_POOL_FLAGS = ['-DBOOST_ATOMIC_SOURCE', '-DBOOST_ATOMIC_USE_SSE2', '-DBOOST_ATOMIC_USE_SSE41']


def compile_lock_pool(variant='futex', cfg='gcc', extra=()):
    x = list(LOCK_POOL_FLAGS)
    return compile_ir(REPO + '/src/lock_pool.cpp', cfg, x + list(extra))
