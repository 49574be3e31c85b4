#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's working tree."""
import sys, os, json, time, argparse, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vcg import program as P, driver as D, harness as H
import registry

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--no-proof', action='store_true')
ap.add_argument('--no-harness', action='store_true')
a = ap.parse_args()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
PROP = a.prop
R = registry.PROPS[PROP]
T0 = time.time()
os.makedirs(os.path.join(P.VERIF, 'evidence'), exist_ok=True)
os.makedirs(P.WORK, exist_ok=True)
REPLAY = os.path.join(P.VERIF, 'replay')
os.makedirs(REPLAY, exist_ok=True)


def known_findings():
    f = os.path.join(P.VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: property=%s ' % PROP):
                out.append(l[len('known: property=%s ' % PROP):])
    return out


def main():
    violations = []
    notes = []
    KF = known_findings()
    kf_keys = [k.split(' ', 1)[0] for k in KF]
    # ---- 1. the specification as an executable oracle over concrete inputs
    hres = []
    for h in ([] if a.no_harness else R.get('harness', [])):
        binary, err = H.build(h)
        if binary is None:
            notes.append('bounded cross-check not run: ' + err)
            print('note: ' + err.split('\n')[0])
            hres.append((h, dict(status='error', text=err, cases=0, distinct=0, samples=[], time=0, known=[])))
            continue
        r = H.run(binary, PROP, SEED, a.tier, timeout=h.get('timeout', 240 if a.tier == 'quick' else 3000), known=kf_keys)
        hres.append((h, r))
        if r['status'] == 'fail':
            p = os.path.join(REPLAY, '%s-input.txt' % PROP)
            open(p, 'w').write('property %s\nreplay: %s %s %d %s   (harness %s)\n\n%s\n' % (PROP, binary, PROP, SEED, a.tier, h['src'], r['text']))
            violations.append((p, False))
            print(r['text'][:1500])
    # ---- 2. deductive verification of the functions under contract
    results, trusted, contracts_n = [], [], 0
    back = {}
    solver_time = 0.0
    modules = [] if a.no_proof else R.get('specs', [])
    for mn in modules:
        m = importlib.import_module('specs.' + mn)
        opts = dict(opts_fn=m.S.setup, timeout=20000 if a.tier == 'quick' else 120000, max_fail=3, feas_ms=300)
        if violations:
            opts.update(timeout=3000, max_fail=1, soft_timeout=1500, retry=False)
        try:
            prog = P.load(m.S.srcs)
            m.S.prepare(prog)
        except P.ExtractError as e:
            r = D.FnResult('extraction of ' + ', '.join(str(s) for s in m.S.srcs), mn)
            r.status, r.reason = 'unsupported', str(e)[:600]
            results.append(r)
            continue
        for c in m.S.contracts:
            if c.trusted and (PROP in c.prop or c.prop == ['*']):
                trusted.append('%s: %s' % (c.name, c.note or 'assumed contract'))
        only = lambda c: PROP in c.prop
        results += D.verify(prog, m.S.contracts, only=only, opts=opts)
        results += D.verify_lemmas(prog, m.S, opts, only=lambda props: PROP in props)
    for x in R.get('external', []):
        if not a.no_proof:
            results += x(a.tier, bool(violations))
    D.show([r for r in results if r.status != 'proved'])
    failed = [r for r in results if r.status == 'failed']
    unsup = [r for r in results if r.status == 'unsupported']
    nobl = sum(len(r.obls) for r in results)
    ndis = sum(1 for r in results for o in r.obls if o['status'] == 'proved')
    for r in results:
        for o in r.obls:
            solver_time += o['time']
            if o['status'] == 'proved':
                back[o['backend']] = back.get(o['backend'], 0) + 1
    # soft obligations that were not provable are dropped candidates, not part of the proof
    if failed and not violations:
        p = os.path.join(REPLAY, '%s-obligation.txt' % PROP)
        with open(p, 'w') as f:
            f.write('property %s: %d function(s) no longer meet their contract\n' % (PROP, len(failed)))
            for r in failed:
                f.write('\n== %s (%s)\n%s\n' % (r.name, r.key, r.reason))
                for o in r.obls:
                    if o['status'] != 'proved':
                        f.write('-- failed obligation: [%s] %s, line %s, path %s: %s\n%s\n' % (o['kind'], o['name'], o['line'], o['path'], o['status'], o['detail']))
                        if o.get('smt'):
                            f.write('; SMT-LIB of the negated obligation (unsat expected)\n%s\n' % o['smt'][:200000])
        violations.append((p, True))
    # ---- 3. evidence
    level = R['level']
    fns = ['%s [%s] %d obligations, %.2fs%s' % (r.name, r.status, len(r.obls), r.time, (' -- ' + r.reason[:160]) if r.reason else '') for r in results]
    assumed = sorted({x for r in results for x in r.assumed})
    used_trusted = sorted({'contract assumed: ' + n for r in results for n, t in r.used if t})
    cases = sum(r['cases'] for _, r in hres)
    distinct = sum(r['distinct'] for _, r in hres)
    cov = dict(obligations=nobl, discharged=ndis,
               checker_cmd='/verif/check.py %s --tier %s' % (PROP, a.tier),
               trusted_base=sorted(set(registry.TRUSTED + R.get('trusted', []) + trusted + used_trusted)),
               functions_under_contract=fns, functions_proved=sum(r.status == 'proved' for r in results),
               outside_reach=['%s: %s' % (r.name, r.reason[:300]) for r in unsup],
               inlined_functions=sorted({x for r in results for x in r.inlined})[:200],
               loop_invariants=[dict(function=r.name, line=l['line'], invariants=l['invariants']) for r in results for l in r.loops],
               backends=back, solver_time_s=round(solver_time, 2),
               bounded_cross_check=dict(label='bounded: never counted as proved', evaluations=cases, distinct_nontrivial=distinct,
                                        rule=R.get('rule', 'seeded generation of inputs around the boundaries of the specification; distinct by the printed input'),
                                        samples=[s for _, r in hres for s in r['samples']][:6], status=[r['status'] for _, r in hres]))
    cov.update(evaluations=cases, distinct_nontrivial=distinct, samples=[s for _, r in hres for s in r['samples']][:6],
               rule=R.get('rule', 'seeded generation of inputs around the boundaries of the specification; distinct by the printed input'))
    if notes:
        cov['notes'] = notes
    ev = dict(property=PROP, tier='thorough' if a.tier == 'thorough' else 'quick', seed=SEED, level=level, coverage=cov,
              assumptions=sorted(set(R.get('assumptions', []) + assumed + registry.ASSUMPTIONS)), wall_s=round(time.time() - T0, 2), violations=len(violations))
    with open(os.path.join(P.VERIF, 'evidence', PROP + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d obligations, %d discharged, %d functions proved, %d outside reach, %d bounded cases, %.1fs'
          % (PROP, nobl, ndis, cov['functions_proved'], len(unsup), cases, time.time() - T0))
    # ---- 4. verdict
    for k in KF:
        print('KNOWN-FINDING: property=%s %s' % (PROP, k))
    for p, nf in violations[:1]:
        print('VIOLATION property=%s replay=%s%s' % (PROP, p, ' no-failing-input-found' if nf else ''))
    if violations:
        return 1
    if any(r['status'] == 'error' for _, r in hres) and not results:
        print('error: nothing could be checked')
        return 2
    return 0


sys.exit(main())
