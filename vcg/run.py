"""developer entry: python3-vt -m vcg.run SPEC [-v] [-k substring] [-t]"""
import sys, importlib, argparse, time
from . import program as P, driver as D


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('spec')
    ap.add_argument('-k')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-t', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--timeout', type=int, default=20000)
    a = ap.parse_args()
    m = importlib.import_module('specs.' + a.spec)
    t0 = time.time()
    prog = P.load(m.S.srcs)
    print('extracted %d functions in %.1fs' % (len(prog.functions), time.time() - t0))
    m.S.prepare(prog)
    opts = dict(trace=a.t, verbose=a.v, timeout=a.timeout, opts_fn=m.S.setup)
    res = D.verify(prog, m.S.contracts, only=lambda c: (not a.k or a.k in c.name) and (not m.S.props or bool(set(c.prop) & set(m.S.props))), opts=opts, jobs=1 if a.t else a.j)
    if not a.k:
        res += D.verify_lemmas(prog, m.S, opts)
    D.show(res, a.v)
    from collections import Counter
    print(Counter(r.status for r in res), '%.1fs' % (time.time() - t0))


main()
