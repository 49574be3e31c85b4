"""Strings as uninterpreted terms.

Replaces the string sort by an uninterpreted sort and the string operations by
uninterpreted functions, with ground instances of facts about length,
concatenation and substrings.  Every fact is true of strings and facts are only
dropped or weakened, so that unsatisfiability carries over."""
import z3
from . import cpu

STR = z3.StringSort()
INT = z3.IntSort()
U = z3.DeclareSort('Str')
LEN = z3.Function('str_len', U, INT)
CAT = z3.Function('str_cat', U, U, U)
SUB = z3.Function('str_sub', U, INT, INT, U)


class Skip(Exception):
    pass


def touched(s, cache={}):
    k = s.get_id() if hasattr(s, 'get_id') else str(s)
    r = cache.get(k)
    if r is None:
        r = cache[k] = (s, 'String' in s.sexpr())
    return r[1]


class Abs:
    def __init__(self):
        self.memo, self.sorts, self.lits, self.fns = {}, {}, {}, {}
        self.facts, self.subs, self.cats, self.seen, self.strs = [], [], [], set(), []
        self.keep = []

    def sort(self, s):
        if s == STR:
            return U
        if not touched(s) and not self.dt_touched(s):
            return s
        n = s.sexpr()
        if n not in self.sorts:
            self.sorts[n] = z3.DeclareSort('Abs%d' % len(self.sorts))
        return self.sorts[n]

    def dt_touched(self, s, cache={}):
        if s.kind() == z3.Z3_DATATYPE_SORT:
            k = s.get_id()
            if k not in cache:
                cache[k] = (s, False)
                cache[k] = (s, any(touched(s.accessor(i, j).range()) or self.dt_touched(s.accessor(i, j).range())
                                   for i in range(s.num_constructors()) for j in range(s.constructor(i).arity())))
            return cache[k][1]
        if s.kind() == z3.Z3_ARRAY_SORT:
            return self.dt_touched(s.domain()) or self.dt_touched(s.range())
        return False

    def lit(self, v):
        if v not in self.lits:
            self.lits[v] = z3.Const('lit!%d' % len(self.lits), U)
        return self.lits[v]

    def tr(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self._tr(t)
        self.memo[k] = r
        self.keep.append(t)
        if r.sort() == U:
            self.note(r)
        return r

    def note(self, r):
        if r.get_id() not in self.seen:
            self.seen.add(r.get_id())
            self.strs.append(r)

    def _tr(self, t):
        if z3.is_quantifier(t):
            if 'String' in t.sexpr():
                raise Skip()
            return t
        if z3.is_var(t):
            raise Skip()
        d = t.decl()
        k = d.kind()
        if t.sort() == STR and z3.is_string_value(t):
            return self.lit(t.as_string())
        a = [self.tr(x) for x in t.children()]
        if not a:
            s = self.sort(t.sort())
            if s is t.sort() or s == t.sort():
                return t
            return z3.Const('c!' + d.name() + '!%d' % t.get_id() if k != z3.Z3_OP_UNINTERPRETED else 'c!' + d.name(), s)
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_ITE:
            return z3.If(*a)
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*a)
        if k == z3.Z3_OP_SEQ_CONCAT:
            r = a[-1]
            for x in reversed(a[:-1]):
                r = self.cat(x, r)
            return r
        if k == z3.Z3_OP_SEQ_LENGTH:
            return LEN(a[0])
        if k == z3.Z3_OP_SEQ_EXTRACT:
            return SUB(*a)
        if all(x.sort() == y.sort() for x, y in zip(a, t.children())) and self.sort(t.sort()) == t.sort():
            return d(*a)
        key = (d.sexpr(), d.name())
        if key not in self.fns:
            self.fns[key] = z3.Function('f!%d!%s' % (len(self.fns), d.name()), *([x.sort() for x in a] + [self.sort(t.sort())]))
        return self.fns[key](*a)

    def cat(self, x, y):
        e = self.lits.get('')
        if e is not None and x.eq(e):
            return y
        if e is not None and y.eq(e):
            return x
        r = CAT(x, y)
        self.note(r)
        return r

    def is_cat(self, x):
        return z3.is_app(x) and x.decl().eq(CAT)

    def close(self):
        """ground facts for all string terms"""
        e = self.lit('')
        self.note(e)
        i = 0
        cats = []
        while i < len(self.strs) and len(self.strs) < 400:
            t = self.strs[i]
            i += 1
            f = self.facts
            f.append(LEN(t) >= 0)
            if not t.eq(e):
                f.append((LEN(t) == 0) == (t == e))
            if not z3.is_app(t):
                continue
            if t.decl().eq(CAT):
                x, y = t.children()
                for q in (x, y):
                    self.note(q)
                f.append(LEN(t) == LEN(x) + LEN(y))
                f.append(z3.Implies(x == e, t == y))
                f.append(z3.Implies(y == e, t == x))
                if self.is_cat(x):
                    r = CAT(x.arg(1), y)
                    self.note(r)
                    r = CAT(x.arg(0), r)
                    self.note(r)
                    f.append(t == r)
                cats.append(t)
            elif t.decl().eq(SUB):
                s, p, n = t.children()
                L = LEN(s)
                self.note(s)
                f.append(z3.Implies(z3.And(0 <= p, p <= L, 0 <= n, p + n <= L), LEN(t) == n))
                f.append(z3.Implies(z3.And(0 <= p, p <= L, p + n >= L), LEN(t) == L - p))
                f.append(z3.Implies(z3.And(p == 0, n >= L), t == s))
                f.append(z3.Implies(z3.Or(p < 0, p >= L, n <= 0), t == e))
                f.append(LEN(t) <= L)
                if z3.is_app(s) and s.decl().eq(SUB):
                    r, q, m = s.children()
                    u = SUB(r, z3.simplify(q + p), n)
                    self.note(u)
                    f.append(z3.Implies(z3.And(0 <= q, 0 <= p, q <= LEN(r), 0 <= n, p + n <= LEN(s)), t == u))
                self.subs.append(t)
        for n, a in enumerate(self.subs):
            for b in self.subs:
                if a.arg(0).eq(b.arg(0)) and not a.eq(b):
                    c = CAT(a, b)
                    if c.get_id() in self.seen:
                        s = a.arg(0)
                        self.facts.append(z3.Implies(z3.And(0 <= a.arg(1), 0 <= a.arg(2), 0 <= b.arg(2), b.arg(1) == a.arg(1) + a.arg(2), b.arg(1) + b.arg(2) <= LEN(s)), c == SUB(s, a.arg(1), a.arg(2) + b.arg(2))))
        for v, c in self.lits.items():
            self.facts.append(LEN(c) == len(v))
        if len(self.lits) > 1:
            self.facts.append(z3.Distinct(*self.lits.values()))


def check(facts, goal, timeout_ms):
    A = Abs()
    A.lit('')
    s = z3.Solver()
    s.set('smt.mbqi', False)
    try:
        g = A.tr(goal)
    except (Skip, z3.Z3Exception):
        return 'unknown', 'quantified over strings'
    fs = []
    for f in facts:
        try:
            fs.append(A.tr(f))
        except (Skip, z3.Z3Exception):
            pass
    A.close()
    for f in fs + A.facts:
        s.add(f)
    s.add(z3.Not(g))
    r = cpu.check(s, timeout_ms)
    return ('proved', '') if r == z3.unsat else ('unknown', str(r))
