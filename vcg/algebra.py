"""Back end for polynomial goals over the reals.

An equality of real terms is decided by bringing both sides over a common
denominator (denominators must be provably non-zero, otherwise the quotient is
an atom) and reducing the numerator of the difference modulo the equalities
among the facts (division with remainder, then a Groebner basis).  Every term
that is not built by + - * / from rationals is an atom.  A zero remainder is a
proof; anything else is 'unknown'.  Inequalities go to z3's nonlinear solver
after the atoms have been replaced by constants.
"""
import time, signal
import z3
from . import cpu
from sympy.polys.rings import ring
from sympy.polys.domains import QQ
from sympy.polys.orderings import grevlex, lex
from sympy.polys.groebnertools import groebner

REAL = z3.RealSort()


class TimeUp(Exception):
    pass


def is_real(t):
    return t.sort_kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT)


def conj(f):
    out, st = [], [f]
    while st:
        x = st.pop()
        if z3.is_and(x):
            st.extend(reversed(x.children()))
        else:
            out.append(x)
    return out


def expand_eq(f):
    """equality of tuples -> equalities of components"""
    if not z3.is_eq(f):
        return [f]
    a, b = f.arg(0), f.arg(1)
    s = a.sort()
    if s.kind() != z3.Z3_DATATYPE_SORT or s.num_constructors() != 1:
        return [f]
    out = []
    for i in range(s.constructor(0).arity()):
        ac = s.accessor(0, i)
        out += expand_eq(z3.simplify(ac(a)) == z3.simplify(ac(b)))
    return out


class Alg:
    def __init__(self, facts, goals, deadline, rev=False):
        self.rev = rev
        self.deadline = deadline
        self.ids = {}          # term id -> atom index
        self.atoms = []
        self.keep = []
        self.subst = {}
        self.divcache = {}
        self.nzmemo = {}
        self.facts = facts
        self.goals = goals if isinstance(goals, list) else [goals]

    # -- atoms
    def leaves(self, t, out):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            k = x.decl().kind() if z3.is_app(x) else None
            if z3.is_rational_value(x) or z3.is_int_value(x):
                continue
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                st.extend(x.children())
            elif k == z3.Z3_OP_DIV:
                st.extend(x.children())
                out[x.get_id()] = x
            elif k == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) and x.arg(1).denominator_as_long() == 1 and 0 <= x.arg(1).numerator_as_long() < 20:
                st.append(x.arg(0))
            elif k == z3.Z3_OP_TO_REAL:
                if z3.is_int_value(x.arg(0)):
                    continue
                st.append(x.arg(0))
            else:
                out[x.get_id()] = x
        return out

    def setup(self):
        eqs, nzs, others = [], [], []
        goals = self.goals
        facts = []
        for f in self.facts:
            for g in conj(f):
                facts += expand_eq(g)
        rel = {}
        for g in goals:
            for t in real_terms(g):
                self.leaves(t, rel)
        fl = []
        for f in facts:
            ts = real_terms(f)
            if not ts or has_quant(f):
                continue
            lv = {}
            for t in ts:
                self.leaves(t, lv)
            fl.append((f, lv))
        # transitive relevance
        used = [False] * len(fl)
        for _ in range(6):
            ch = False
            for i, (f, lv) in enumerate(fl):
                if not used[i] and any(k in rel for k in lv):
                    used[i] = True
                    ch = True
                    rel.update(lv)
            if not ch:
                break
        self.rel = [f for i, (f, lv) in enumerate(fl) if used[i]]
        for t in rel.values():
            if t.get_id() not in self.ids:
                self.ids[t.get_id()] = len(self.atoms)
                self.atoms.append(t)
                self.keep.append(t)
        if self.rev:
            self.atoms.reverse()
            self.ids = {t.get_id(): i for i, t in enumerate(self.atoms)}
        names = ['v%d' % i for i in range(len(self.atoms))] or ['v0']
        self.R, *gens = ring(names, QQ, grevlex)
        self.gens = gens
        self.G = []
        self.NZ = []
        self.eqfacts = []
        for f in self.rel:
            if z3.is_eq(f) and is_real(f.arg(0)):
                self.eqfacts.append(f)
            elif z3.is_not(f) and z3.is_eq(f.arg(0)) and is_real(f.arg(0).arg(0)):
                self.NZ.append((f.arg(0).arg(0), f.arg(0).arg(1)))
            elif z3.is_distinct(f) and f.num_args() == 2 and is_real(f.arg(0)):
                self.NZ.append((f.arg(0), f.arg(1)))
            elif z3.is_gt(f) or z3.is_lt(f):
                self.NZ.append((f.arg(0), f.arg(1)))
            elif z3.is_not(f) and (z3.is_le(f.arg(0)) or z3.is_ge(f.arg(0))):
                self.NZ.append((f.arg(0).arg(0), f.arg(0).arg(1)))
        self.nzp = []
        for _ in range(2):
            self.nzp = []
            self.nzmemo, self.divcache = {}, {}
            for a, b in self.NZ:
                try:
                    n, d = self.rat(a - b)
                    if n != 0:
                        self.nzp += [self.red(n).monic() if self.red(n) != 0 else n.monic()]
                        self.nzp += [n.monic()]
                except TimeUp:
                    raise
            self.G = []
            self.sub = {}
            for f in self.eqfacts:
                n, d = self.rat(f.arg(0) - f.arg(1))
                n = self.red(n)
                if n != 0:
                    self.add_eq(n)
            self.divcache = {}

    def add_eq(self, n):
        """linear in an atom with constant coefficient: eliminate; otherwise a generator of the ideal"""
        for i, g in enumerate(self.gens):
            if n.degree(i) == 1:
                c = n.diff(g)
                if c.is_ground:
                    rest = -(n - c * g) / self.R.domain_new(c.LC)
                    for j in list(self.sub):
                        if self.sub[j].degree(i) > 0:
                            self.sub[j] = self.sub[j].compose(g, rest)
                    self.sub[i] = rest
                    G2 = []
                    for p in self.G:
                        p = self.comp(p)
                        if p != 0:
                            G2.append(p.monic())
                    self.G = G2
                    return
        self.G.append(n.monic())

    def comp(self, p):
        sub = [(self.gens[i], q) for i, q in getattr(self, 'sub', {}).items() if p.degree(i) > 0]
        for g, q in sub:
            p = p.compose(g, q)
        return p

    def tick(self):
        if time.process_time() > self.deadline:
            raise TimeUp()

    def red(self, p):
        p = self.comp(p)
        if self.G:
            p = p.rem(self.G)
        return p

    # -- terms to rational functions
    def rat(self, t):
        memo = {}
        st = [(t, False)]
        one = self.R.one
        while st:
            x, done = st.pop()
            i = x.get_id()
            if i in memo:
                continue
            self.tick()
            if z3.is_rational_value(x):
                memo[i] = (self.R(QQ(x.numerator_as_long(), x.denominator_as_long())), one)
                continue
            if z3.is_int_value(x):
                memo[i] = (self.R(x.as_long()), one)
                continue
            k = x.decl().kind()
            if k == z3.Z3_OP_TO_REAL and not z3.is_int_value(x.arg(0)) or k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
                ch = x.children()
                if k == z3.Z3_OP_POWER:
                    if i in self.ids:
                        memo[i] = (self.gens[self.ids[i]], one)
                        continue
                    ch = [x.arg(0)]
                if not done:
                    st.append((x, True))
                    for c in ch:
                        st.append((c, False))
                    continue
                vs = [memo[c.get_id()] for c in ch]
                if k == z3.Z3_OP_ADD:
                    r = vs[0]
                    for v in vs[1:]:
                        r = self.addr(r, v)
                elif k == z3.Z3_OP_SUB:
                    r = vs[0]
                    for v in vs[1:]:
                        r = self.addr(r, (-v[0], v[1]))
                elif k == z3.Z3_OP_UMINUS:
                    r = (-vs[0][0], vs[0][1])
                elif k == z3.Z3_OP_MUL:
                    r = vs[0]
                    for v in vs[1:]:
                        r = self.mulr(r, v)
                elif k == z3.Z3_OP_POWER:
                    e = x.arg(1).numerator_as_long()
                    r = (vs[0][0] ** e, vs[0][1] ** e)
                elif k == z3.Z3_OP_TO_REAL:
                    r = vs[0]
                else:
                    n, d = vs[1]
                    if self.nonzero(n):
                        r = self.mulr(vs[0], (d, n))
                    else:
                        r = (self.gens[self.ids[i]], one)
                memo[i] = r
            elif k == z3.Z3_OP_TO_REAL:
                memo[i] = (self.R(x.arg(0).as_long()), one)
            else:
                memo[i] = (self.gens[self.ids[i]], one)
        return memo[t.get_id()]

    def addr(self, a, b):
        if a[1] == b[1]:
            return (a[0] + b[0], a[1])
        if b[1].is_ground:
            return (a[0] * b[1].LC + b[0] * a[1], a[1] * b[1].LC)
        if a[1].is_ground:
            return (a[0] * b[1] + b[0] * a[1].LC, b[1] * a[1].LC)
        # reuse a common denominator where one divides the other
        q, r = divmod(a[1], b[1])
        if r == 0:
            return (a[0] + b[0] * q, a[1])
        q, r = divmod(b[1], a[1])
        if r == 0:
            return (a[0] * q + b[0], b[1])
        return (a[0] * b[1] + b[0] * a[1], a[1] * b[1])

    def mulr(self, a, b):
        n, d = a[0] * b[0], a[1] * b[1]
        if not d.is_ground:
            q, r = divmod(n, d)
            if r == 0:
                return (q, self.R.one)
        return (n, d)

    def nonzero(self, p):
        if p.is_ground:
            return p != 0
        k = p
        if k in self.nzmemo:
            return self.nzmemo[k]
        r = self._nonzero(p)
        self.nzmemo[k] = r
        return r

    def _nonzero(self, p):
        q = self.red(p)
        if q == 0:
            return False
        for m in (p, q):
            if m.is_ground:
                return True
            if m.monic() in self.nzp:
                return True
        for m in (p, q):
            try:
                c, fs = m.factor_list()
            except Exception:
                continue
            if all(f.monic() in self.nzp or self.red(f).is_ground and self.red(f) != 0 for f, _ in fs):
                return True
        # a factor of a non-zero polynomial
        for m in self.nzp:
            for d in (p, q):
                if m != 0 and m.rem(d) == 0:
                    return True
        # products of known non-zero polynomials modulo the ideal
        for m in self.nzp:
            d = self.red(p - m * (p.LC))
            if d == 0:
                return True
        if len(q.terms()) <= 4:
            d = self.red(q * q)
            if d.is_ground and d != 0:
                return True
        g = self.polyz3(p) != 0
        key = g.sexpr()
        r = nra([f for f in self.rel], None, g, 60 if key in HARD and not getattr(self, 'full', False) else 800)
        if not r:
            HARD.add(key)
        return r

    def polyz3(self, p):
        t = z3.RealVal(0)
        for mon, c in p.terms():
            m = z3.RealVal('%s/%s' % (c.numerator, c.denominator))
            for i, e in enumerate(mon):
                a = self.atoms[i] if i < len(self.atoms) else z3.RealVal(0)
                if z3.is_int(a):
                    a = z3.ToReal(a)
                for _ in range(e):
                    m = m * a
            t = t + m
        return t

    def prove_eq(self, a, b, quick=False):
        n, d = self.rat(a - b)
        r = self.red(n)
        if r == 0:
            return True
        if quick:
            return any(self.red(r * m) == 0 for m in self.nzp[:4])
        if self.G:
            for order in (grevlex,):
                try:
                    B = run_limited(lambda: groebner(self.G, self.R), max(1.0, min(10, self.deadline - time.process_time())))
                except TimeUp:
                    return False
                r = r.rem(B)
                if r == 0:
                    return True
                # a known non-zero factor times the goal may be in the ideal
                for m in self.nzp[:8]:
                    if (self.comp(r * m)).rem(B) == 0:
                        return True
        return False


def run_limited(f, secs):
    def h(s, fr):
        raise TimeUp()
    old = signal.signal(signal.SIGPROF, h)
    signal.setitimer(signal.ITIMER_PROF, secs)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def real_terms(f):
    """real-sorted arguments of the comparisons in f"""
    out = []
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if (z3.is_eq(x) or z3.is_le(x) or z3.is_ge(x) or z3.is_lt(x) or z3.is_gt(x) or z3.is_distinct(x)) and is_real(x.arg(0)):
            out += x.children()
        elif z3.is_bool(x):
            st.extend(x.children())
    return out


def has_quant(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def abstract(fs):
    """replace atoms by constants"""
    m = {}

    def go(t, memo):
        st = [(t, False)]
        while st:
            x, done = st.pop()
            i = x.get_id()
            if i in memo:
                continue
            if not z3.is_app(x):
                memo[i] = x
                continue
            k = x.decl().kind()
            arith = k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL, z3.Z3_OP_ITE, z3.Z3_OP_POWER)
            boolean = z3.is_bool(x) and k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)
            if x.num_args() == 0 and (z3.is_rational_value(x) or z3.is_int_value(x) or z3.is_true(x) or z3.is_false(x)):
                memo[i] = x
                continue
            if x.num_args() and (is_real(x) and arith or boolean and all(is_real(c) or z3.is_bool(c) for c in x.children())):
                if not done:
                    st.append((x, True))
                    st.extend((c, False) for c in x.children())
                    continue
                memo[i] = x.decl()(*[memo[c.get_id()] for c in x.children()])
                continue
            c = m.get(i)
            if c is None:
                c = m[i] = (z3.Const('a!%d' % len(m), x.sort()), x)
            memo[i] = c[0]
        return memo[t.get_id()]
    memo = {}
    return [go(f, memo) for f in fs]


HARD = set()   # goals on which a full attempt failed before


def nra(facts, extra, goal, ms):
    fs = [f for f in facts if not has_quant(f)]
    fs = abstract(fs + [z3.Not(goal)])
    for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.Solver()):
        s = mk()
        try:
            s.add(*fs)
            if cpu.check(s, ms) == z3.unsat:
                return True
        except z3.Z3Exception:
            pass
    return False


def parts(goal, hyp):
    """[(extra hypotheses, literal goal)]"""
    g = goal
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += parts(c, hyp)
        return out
    if z3.is_implies(g):
        return parts(g.arg(1), hyp + conj(g.arg(0)))
    if z3.is_eq(g) and z3.is_bool(g.arg(0)):
        return parts(g.arg(1), hyp + conj(g.arg(0))) + parts(g.arg(0), hyp + conj(g.arg(1)))
    e = expand_eq(g)
    if len(e) > 1:
        out = []
        for x in e:
            out += parts(x, hyp)
        return out
    return [(hyp, e[0])]


def linearized(fs):
    """every monomial becomes a constant of its own, so that linear reasoning applies"""
    from .lib.eigen import poly
    memo, mons, props, cache = {}, {}, {}, {}

    def mono(m):
        c = mons.get(m)
        if c is None:
            c = mons[m] = z3.Real('m!%d' % len(mons))
        return c

    def go(f):
        i = f.get_id()
        if i in cache:
            return cache[i]
        r = None
        if z3.is_app(f):
            if z3.is_true(f) or z3.is_false(f):
                r = f
            elif (z3.is_eq(f) or z3.is_le(f) or z3.is_ge(f) or z3.is_lt(f) or z3.is_gt(f) or z3.is_distinct(f) and f.num_args() == 2) and is_real(f.arg(0)):
                p = dict(poly(f.arg(0), memo))
                for m, v in poly(f.arg(1), memo).items():
                    p[m] = p.get(m, 0) - v
                t = z3.Sum([z3.RealVal(v) * mono(m) if m else z3.RealVal(v) for m, v in p.items() if v] or [z3.RealVal(0)])
                z = z3.RealVal(0)
                r = t == z if z3.is_eq(f) else t <= z if z3.is_le(f) else t >= z if z3.is_ge(f) else t < z if z3.is_lt(f) else t > z if z3.is_gt(f) else t != z
            elif f.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or f.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_ITE) and all(z3.is_bool(c) for c in f.children()):
                r = f.decl()(*[go(c) for c in f.children()]) if f.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And if z3.is_and(f) else z3.Or)([go(c) for c in f.children()])
        if r is None:
            r = props.get(i)
            if r is None:
                r = props[i] = z3.Bool('b!%d' % len(props))
        cache[i] = r
        return r
    return [go(f) for f in fs]


def closed(facts, hyp, ms=400, limit=4.0):
    """consequents of the implications among the facts whose antecedents follow from the others (linear reasoning over abstracted atoms)"""
    end = time.process_time() + limit
    todo, rest = [], []
    for f in facts + hyp:
        for g in conj(f):
            (todo if z3.is_implies(g) else rest).append(g)
    if not todo:
        return facts + hyp, hyp
    rest = [g for g in rest if not has_quant(g)]
    ab = linearized(rest + [t.arg(0) for t in todo] + [t.arg(1) for t in todo])
    n, m = len(rest), len(todo)
    s = z3.SolverFor('QF_LRA')
    s.add(*ab[:n])
    new = []
    pend = list(range(m))
    ch = True
    while ch and pend:
        ch = False
        for i in list(pend):
            if time.process_time() > end:
                break
            a = ab[n + i]
            s.push()
            s.add(z3.Not(a))
            r = cpu.check(s, ms)
            s.pop()
            if r == z3.unsat:
                pend.remove(i)
                new.append(todo[i].arg(1))
                s.add(ab[n + m + i])
                ch = True
    return facts + hyp + new, hyp + new


def sign(a, g, facts):
    """t > 0 for a non-zero t that is known not to be negative; goals that follow from the inequalities about their own atoms"""
    try:
        if z3.is_gt(g) and z3.is_rational_value(g.arg(1)) and g.arg(1).numerator_as_long() == 0:
            t = g.arg(0)
            if any(z3.is_ge(f) and f.arg(0).eq(t) and z3.is_rational_value(f.arg(1)) and f.arg(1).numerator_as_long() == 0 for h in facts for f in conj(h)):
                n, d = a.rat(t)
                a.full = True
                a.nzmemo.pop(n, None)
                if a.nonzero(n):
                    return True
        own = {}
        for t in real_terms(g):
            a.leaves(t, own)
        small = []
        for h in facts:
            for f in conj(h):
                if z3.is_gt(f) or z3.is_lt(f) or z3.is_ge(f) or z3.is_le(f):
                    lv = {}
                    for t in real_terms(f):
                        a.leaves(t, lv)
                    if lv and all(k in own for k in lv):
                        small.append(f)
        return nra(small, None, g, 500)
    except z3.Z3Exception:
        return False


def contradictory(fs):
    """do the facts contradict each other by linear reasoning alone?"""
    s = z3.SolverFor('QF_LRA')
    s.add(*linearized([g for f in fs for g in conj(f) if not has_quant(g)]))
    return cpu.check(s, 500) == z3.unsat


def linear_rest(fs, gs):
    """the goals that do not follow by reasoning that is linear in the monomials"""
    fs = [g for f in fs for g in conj(f) if not has_quant(g)]
    ab = linearized(fs + list(gs))
    s = z3.SolverFor('QF_LRA')
    s.add(*ab[:len(fs)])
    out = []
    for g, a in zip(gs, ab[len(fs):]):
        s.push()
        s.add(z3.Not(a))
        if cpu.check(s, 500) != z3.unsat:
            out.append(g)
        s.pop()
    return out


def check(facts, goal, timeout=20.0):
    t0 = time.process_time()
    fs = [f for f in facts if not z3.is_quantifier(f)]
    groups = {}
    for hyp, g in parts(goal, []):
        if z3.is_true(z3.simplify(g)):
            continue
        groups.setdefault(tuple(h.get_id() for h in hyp), (hyp, []))[1].append(g)
    for hyp, gs in groups.values():
        deadline = t0 + timeout
        gs = linear_rest(fs + hyp, gs)
        if not gs:
            continue
        try:
            allf, hyp = closed(fs, hyp) if any(z3.is_implies(g) for f in fs for g in conj(f)) else (fs + hyp, hyp)
            a = Alg(allf, gs, deadline)
            a.setup()
            b = None
            for g in gs:
                eq = z3.is_eq(g) and is_real(g.arg(0))
                ok = eq and a.prove_eq(g.arg(0), g.arg(1), quick=True)
                if eq and not ok:
                    if b is None:
                        b = Alg(allf, gs, deadline, rev=True)
                        b.setup()
                    ok = b.prove_eq(g.arg(0), g.arg(1), quick=True)
                if eq and not ok:
                    ok = a.prove_eq(g.arg(0), g.arg(1))
                if not ok and not eq:
                    ok = sign(a, g, allf)
                if not ok:
                    ok = nra(a.rel + hyp, None, g, 3000)
                if not ok:
                    return 'unknown', 'algebra: not derived: %s' % str(z3.simplify(g))[:300]
        except TimeUp:
            return 'unknown', 'algebra: time limit'
    return 'proved', ''
