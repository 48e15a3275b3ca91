"""Compile the harnesses against /repo's current working tree (bitcode + native)."""
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NEO_REPO', '/repo')
CXX = '/usr/bin/clang++-18'

CONFIGS = {
    # name: (arch flags, has FMA contraction)
    'v3': (['-march=x86-64-v3', '-DNEO_HAS_XSIMD=1'], True),          # the repository's own test configuration
    'v3n': (['-march=x86-64-v3'], True),                              # AVX2 without xsimd
    'base': (['-march=x86-64'], False),                               # SSE2 only
    'sse4': (['-march=x86-64-v2'], False),                            # SSE4.1/4.2
    'sse4x': (['-march=x86-64-v2', '-DNEO_HAS_XSIMD=1'], False),
    'v4': (['-march=x86-64-v4'], True),                               # AVX-512
    'v4x': (['-march=x86-64-v4', '-DNEO_HAS_XSIMD=1'], True),
}
UB = 'signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,return,unreachable,bounds'
COMMON = ['-std=c++20', '-I', REPO + '/src', '-I', VERIF + '/shim', '-I', VERIF + '/harness', '-w']
BC = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fsanitize=' + UB,
      '-fsanitize-trap=' + UB, '-fno-discard-value-names', '-emit-llvm', '-c', '-DVH_ENCODER']

_work = None


def work():
    global _work
    if _work is None:
        base = os.path.join(VERIF, '.work')
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix='run', dir=base)
    return _work


def cleanup():
    global _work
    if _work:
        shutil.rmtree(_work, ignore_errors=True)
        _work = None


class BuildError(Exception):
    pass


def cmd_bc(tu, cfg, out, defs=()):
    return [CXX] + COMMON + BC + CONFIGS[cfg][0] + list(defs) + [os.path.join(VERIF, 'harness', tu + '.cpp'), '-o', out]


def cmd_native(tu, cfg, out, san=False, defs=()):
    opt = ['-O1', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all'] if san else ['-O2']
    return [CXX] + COMMON + opt + CONFIGS[cfg][0] + list(defs) + [
        os.path.join(VERIF, 'harness', tu + '.cpp'), os.path.join(VERIF, 'harness', 'driver_main.cc'), '-rdynamic', '-ldl', '-o', out]


def run_all(cmds):
    """run compile commands in parallel; raise BuildError with the compiler's message"""
    procs = []
    pend = list(cmds)
    errs = []
    running = []
    ncpu = os.cpu_count() or 4
    while pend or running:
        while pend and len(running) < ncpu:
            c = pend.pop(0)
            running.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = running.pop(0)
        out, _ = p.communicate()
        if p.returncode:
            errs.append('%s\n%s' % (' '.join(c), out.decode(errors='replace')[:3000]))
    if errs:
        raise BuildError('\n'.join(errs))
