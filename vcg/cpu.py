"""Time limits in processor time of this process, so that a loaded machine does not change what is proved."""
import ctypes, os, subprocess
import z3
from z3 import z3core

_lib = None


def lib():
    global _lib
    if _lib is None:
        from .program import WORK, VERIF
        src = os.path.join(VERIF, 'front', 'cpuwatch.c')
        so = os.path.join(WORK, 'bin', 'cpuwatch.so')
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            os.makedirs(os.path.dirname(so), exist_ok=True)
            tmp = '%s.%d' % (so, os.getpid())
            subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-pthread', src, '-o', tmp], check=True)
            os.replace(tmp, so)
        L = ctypes.CDLL(so)
        L.cpuwatch_start.argtypes = [ctypes.c_double, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
        f = ctypes.cast(z3core.Z3_solver_interrupt.__defaults__[0].f, ctypes.c_void_p)
        _lib = (L, f)
    return _lib


def check(s, ms):
    """s.check() with a limit of ms milliseconds of processor time (and a generous one of real time)"""
    L, f = lib()
    s.set('timeout', int(max(ms * 12, 2000)))
    c, h = s.ctx.ref(), s.solver
    L.cpuwatch_start(float(ms), f, ctypes.cast(c, ctypes.c_void_p), ctypes.cast(h, ctypes.c_void_p))
    try:
        return s.check()
    except z3.Z3Exception as e:
        if 'cancel' in str(e) or 'interrupt' in str(e):
            return z3.unknown
        raise
    finally:
        L.cpuwatch_stop()
