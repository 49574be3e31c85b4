"""Discharging obligations: z3 first, cvc5 as second back end."""
import os, time, resource, multiprocessing as mp, subprocess, tempfile
import z3
z3.set_param("warning", False)
from . import cpu

_OBL = None
_CFG = None


def check_z3(facts, goal, timeout_ms, seed=0, opts=None):
    s = z3.Solver()
    if seed:
        s.set('random_seed', seed)
    for k, v in (opts or {}).items():
        s.set(k, v)
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    r = cpu.check(s, timeout_ms)
    if r == z3.unsat:
        return 'proved', ''
    if r == z3.sat:
        m = s.model()
        out = []
        for d in m.decls():
            if d.arity() == 0:
                t = str(m[d])
                out.append('%s = %s' % (d.name(), t[:200]))
        return 'failed', '\n'.join(sorted(out)[:80])
    return 'unknown', s.reason_unknown()


def to_smt2(facts, goal):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()


def check_cvc5(facts, goal, timeout_ms):
    txt = '(set-logic ALL)\n' + to_smt2(facts, goal)
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        os.write(fd, txt.encode())
        os.close(fd)
        sec = max(1, int(timeout_ms / 1000 + 0.5))
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout_ms * 12), '--strings-exp', '--full-saturate-quant', p],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout_ms * 12 / 1000 + 5,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (sec, sec)))
        o = r.stdout.decode('utf-8', 'replace').strip().split('\n')[0]
        if o == 'unsat':
            return 'proved', ''
        return 'unknown', o[:200]
    except Exception as e:
        return 'unknown', 'cvc5: ' + str(e)[:100]
    finally:
        os.unlink(p)


def sat_check(facts, timeout_ms=2000):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    return str(cpu.check(s, timeout_ms))


def solve_obl(o, tm, cvc5=True, absstr_on=False, algebra_on=False):
    """decide one obligation; sets status, detail, backend, time"""
    t0 = time.time()
    st, det, be = 'unknown', '', 'z3'
    try:
        if algebra_on:
            from . import algebra
            st, det = algebra.check(o.facts, o.goal, algebra_on if algebra_on is not True else 25.0)
            if st == 'proved':
                o.status, o.detail, o.backend, o.time = st, det, 'polynomial algebra', time.time() - t0
                return
            tm = min(tm, 4000)
        if absstr_on:
            from . import absstr
            st, det = absstr.check(o.facts, o.goal, 3000)
            if st == 'proved':
                o.status, o.detail, o.backend, o.time = st, det, 'z3 (uninterpreted strings)', time.time() - t0
                return
        # quantifier instantiation depends on the order the search happens to take: short attempts with several seeds
        st, det = check_z3(o.facts, o.goal, min(tm, 1000), opts={'smt.mbqi': False})
        for seed, mb in ((1, False), (3, True)) if o.soft is not None and tm <= 1500 else ((1, False), (2, True), (3, False), (4, True), (5, False), (6, False)):
            if st != 'unknown':
                break
            st, det = check_z3(o.facts, o.goal, min(tm, 400) if tm <= 1500 else min(tm, 1400), seed=seed, opts={} if mb else {'smt.mbqi': False})
        if st == 'unknown' and (o.soft is None or '(String' in to_smt2(o.facts, o.goal)):
            s2, d2 = check_cvc5(o.facts, o.goal, min(tm, 5000) if o.soft is None else 2000)
            if s2 == 'proved':
                st, det, be = s2, d2, 'cvc5'
        if o.soft is None:
            if st == 'unknown':
                st, det = check_z3(o.facts, o.goal, min(tm, 4000))
            if st == 'unknown' and tm > 4000:
                st, det = check_z3(o.facts, o.goal, tm / 2, seed=7, opts={'smt.mbqi': False})
            if st == 'unknown' and tm > 5000 and cvc5:
                s2, d2 = check_cvc5(o.facts, o.goal, tm)
                if s2 == 'proved':
                    st, det, be = s2, d2, 'cvc5'
            if st == 'unknown' and tm > 4000:
                st, det = check_z3(o.facts, o.goal, tm, seed=3)
    except z3.Z3Exception as e:
        st, det = 'unknown', 'z3 exception %s' % e
    o.status, o.detail, o.backend, o.time = st, det, be, time.time() - t0
