"""Verify the functions under contract of a specification module."""
import os, sys, time, traceback, fnmatch
import concurrent.futures as cf
import multiprocessing as mp
import multiprocessing.connection
from . import program as P
from . import engine as E
from . import solve as S
from .lib import core as L


class FnResult:
    def __init__(self, name, key):
        self.name, self.key = name, key
        self.status = None          # proved / failed / unsupported
        self.reason = ''
        self.obls = []              # dicts
        self.time = 0.0
        self.assumed, self.inlined, self.used = [], [], []
        self.loops = []
        self.paths = 0
        self.rounds = 0
        self.line = 0
        self.file = ''


def targets(prog, contract):
    out = []
    for k in prog.find(contract.q):
        d = prog.decls[k]
        if contract.match is None or contract.match(d):
            out.append(k)
    return out


def verify_one(prog, contracts, key, contract, opts):
    """verification of one function; a failure is only reported when it persists with wider limits"""
    R = verify_once(prog, contracts, key, contract, opts)
    if R.status == 'failed' and opts.get('retry', True) and R.time < 150:
        o2 = dict(opts, soft_timeout=opts.get('soft_timeout', 1500) * 4, feas_ms=opts.get('feas_ms', 300) * 4, max_fail=2)
        R2 = verify_once(prog, contracts, key, contract, o2)
        R2.time += R.time
        if R2.status != 'unsupported':
            return R2
    return R


def verify_once(prog, contracts, key, contract, opts):
    t0 = time.time()
    R = FnResult(contract.name, key)
    fn = prog.functions[key]
    R.line = fn.get('line', 0)
    R.file = fn.get('file', '')
    X = E.Executor(prog, contracts, L.Lib(), opts)
    if opts.get('opts_fn'):
        opts['opts_fn'](X)
    deadline = time.process_time() + opts.get('fn_budget', 400)
    try:
        rounds = 0
        while True:
            rounds += 1
            obls = X.verify_function(key, contract)
            soft = [o for o in obls if o.soft is not None]
            todo = [o for o in soft if o.status is None]
            killed = False
            if todo:
                # entry obligations first: they are the cheapest to refute
                for o in todo:
                    info, n = o.soft
                    if n in info.dead:
                        continue
                    S.solve_obl(o, opts.get('soft_timeout', 1500), False, contract.opts.get('absstr'), contract.opts.get('algebra'))
                    if o.status != 'proved':
                        info.dead[n] = o.status
                        import os as _o, sys as _s; _o.environ.get("VCG_DEAD") and print("dead", n, o.status, o.name, file=_s.stderr)
                        killed = True
                        if opts.get('verbose'):
                            print('   drop %s (%s)' % (n, o.status))
            if not killed:
                break
            if rounds > 60:
                raise E.Unsupported('invariant inference does not converge')
            if time.process_time() > deadline:
                raise E.Unsupported('invariant inference exceeded its time budget')
        R.rounds = rounds
        hard = [o for o in obls if o.soft is None]
        nf = 0
        for o in hard:
            if o.status is None:
                tm = contract.timeout or opts.get('timeout', 20000)
                if nf >= opts.get('max_fail', 4):
                    o.status, o.detail = 'skipped', 'not attempted after %d failures' % nf
                    continue
                S.solve_obl(o, tm, True, contract.opts.get('absstr'), contract.opts.get('algebra'))
                if o.status != 'proved':
                    nf += 1
        # vacuity
        live = 0
        for pc in X.normal_paths + [p for p, _ in X.exc_paths]:
            if S.sat_check(pc) != 'unsat':
                live += 1
                break
        R.paths = len(X.normal_paths) + len(X.exc_paths)
        if not live:
            R.status, R.reason = 'failed', 'vacuous: no feasible path reaches the end of the function'
        bad = [o for o in hard if o.status != 'proved']
        for o in obls:
            R.obls.append(dict(name=o.name, kind=o.kind, line=o.line, status=o.status, backend=o.backend, time=o.time,
                               detail=o.detail, path=o.path, soft=o.soft is not None,
                               smt=S.to_smt2(o.facts, o.goal) if o in bad and o.status != 'skipped' else None))
        if R.status is None:
            R.status = 'failed' if bad else 'proved'
            if bad:
                R.reason = '; '.join('%s [line %s]' % (o.name, o.line) for o in bad[:4])
        for (tk, k), info in X.loopinfo.items():
            if info.cut:
                R.loops.append(dict(line=k[2], invariants=sorted({o.soft[1] for o in soft if o.soft[0] is info and o.status == 'proved'})))
    except E.Unsupported as e:
        R.status, R.reason = 'unsupported', str(e)
        if opts.get('trace'):
            traceback.print_exc()
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError, RecursionError) as e:
        tb = traceback.format_exc()
        R.status, R.reason = 'unsupported', 'internal: %s' % tb.strip().split('\n')[-1]
        if opts.get('trace'):
            print(tb)
    except Exception as e:      # z3 exceptions
        R.status, R.reason = 'unsupported', 'internal: %s' % str(e)[:300]
        if opts.get('trace'):
            traceback.print_exc()
    R.assumed = sorted(X.assumed)
    R.inlined = sorted(X.inlined)
    R.used = sorted(X.used_contracts)
    R.time = time.time() - t0
    return R


_G = {}


def _work(i):
    key, contract = _G['jobs'][i]
    return verify_one(_G['prog'], _G['contracts'], key, contract, _G['opts'])


def verify(prog, contracts, only=None, opts=None, jobs=8):
    opts = opts or {}
    todo = []
    missing = []
    for c in contracts:
        if not c.verify:
            continue
        if only is not None and not only(c):
            continue
        ks = targets(prog, c)
        if not ks and not c.opts.get('optional'):
            missing.append(c)
        for k in ks:
            todo.append((k, c))
    _G.update(prog=prog, contracts=contracts, opts=opts, jobs=todo)
    out = []
    for c in missing:
        r = FnResult(c.name, c.q)
        r.status, r.reason = 'unsupported', 'function %s not found in the extracted program' % c.q
        out.append(r)
    if jobs == 1:
        out += [_work(i) for i in range(len(todo))]
    elif todo:
        out += run_jobs(todo, jobs)
    return out


def run_jobs(todo, jobs):
    """one forked process per function, so that a crash of a back end stays local"""
    ctx = mp.get_context('fork')

    def child(i, w):
        r = _work(i)
        w.send(r)
        w.close()
    res, running, nxt, tries = {}, {}, 0, {}
    queue = list(range(len(todo)))
    while queue or running:
        while queue and len(running) < jobs:
            i = queue.pop(0)
            rd, w = ctx.Pipe(False)
            pr = ctx.Process(target=child, args=(i, w))
            pr.start()
            w.close()
            running[rd] = (i, pr)
        for rd in mp.connection.wait(list(running), 5):
            i, pr = running.pop(rd)
            try:
                res[i] = rd.recv()
            except (EOFError, OSError):
                tries[i] = tries.get(i, 0) + 1
                if tries[i] < 2:
                    queue.append(i)
                else:
                    r = FnResult(todo[i][1].name, todo[i][0])
                    r.status, r.reason = 'unsupported', 'the back end crashed'
                    res[i] = r
            rd.close()
            pr.join()
    return [res[i] for i in range(len(todo))]


def show(results, verbose=False):
    for r in results:
        n = len([o for o in r.obls])
        p = len([o for o in r.obls if o['status'] == 'proved'])
        print('%-11s %-60s obl %d/%d paths %d rounds %d %.1fs %s' % (r.status, r.name, p, n, r.paths, r.rounds, r.time, r.reason[:300]))
        if verbose or r.status == 'failed':
            for o in r.obls:
                if (o['status'] != 'proved' and not o['soft']) or verbose:
                    print('      [%s] %s line %s: %s (%s, %.2fs) path %s%s' % (o['kind'], o['name'], o['line'], o['status'], o['backend'], o['time'], o['path'], ' soft' if o['soft'] else ''))
                    if o['status'] == 'failed' and verbose:
                        print('          ' + (o['detail'] or '').replace('\n', '\n          ')[:3000])


def verify_lemmas(prog, spec, opts, only=None):
    from .spec import Lem
    out = []
    for name, props, f in spec.lemmas:
        if only is not None and not only(props):
            continue
        t0 = time.time()
        R = FnResult('lemma: ' + name, 'lemma')
        X = E.Executor(prog, spec.contracts, L.Lib(), opts)
        if opts.get('opts_fn'):
            opts['opts_fn'](X)
        X.init_path()
        X.top = E.Contract('lemma')
        X.obls, X.newfrom, X.script, X.work, X.npaths, X.topkey, X.line = [], 0, [], [], 0, 'lemma', 0
        try:
            X.ghost = True
            for n, t in f(Lem(X)):
                o = E.Obligation(n, 'lemma', list(X.pc), t, 0, name)
                S.solve_obl(o, opts.get('timeout', 20000), True, False, getattr(spec, 'algebra', False))
                R.obls.append(dict(name=n, kind='lemma', line=0, status=o.status, backend=o.backend, time=o.time, detail=o.detail,
                                   path='', soft=False, smt=S.to_smt2(o.facts, o.goal) if o.status != 'proved' else None))
            bad = [o for o in R.obls if o['status'] != 'proved']
            R.status = 'failed' if bad or not R.obls else 'proved'
            R.reason = '; '.join(o['name'] for o in bad)
        except Exception as e:
            R.status, R.reason = 'unsupported', '%s: %s' % (type(e).__name__, e)
            if opts.get('trace'):
                traceback.print_exc()
        R.time = time.time() - t0
        out.append(R)
    return out
