"""kwiver::vital::sparse_matrix_enumerator: every stored entry once, in storage order"""
from vcg.spec import *
from vcg.lib import sparse as E

S = Spec(['/verif/inst/enumerate.cpp'], props=['C18'])
N = 'kwiver::vital::sparse_matrix_enumerator'
I = N + '::iterator'
S.setup = E.enable
BOX = None


class St:
    """state of an iterator object: matrix, end, outer index, inner iterator (reference and value)"""
    def __init__(self, c, o, post=False):
        v = c.post if post else c.pre
        self.m, self.end, self.o, self.r = v.f(o, 'm_matrix'), v.f(o, 'm_end'), v.f(o, 'm_outer'), v.f(o, 'm_inner')
        with c.X.at(c._post if post else c._pre):
            self.inner = c.X.hmap('box<%s>' % IT.id, E.it_sort())
        self.v = z3.Select(self.inner, self.r)
        self.p = E.P(self.v)

    def at(self):
        return self.r != 0

    def shape(self):
        """the inner iterator belongs to the outer index"""
        return And(self.m != 0, self.end == E.OUTER(self.m), 0 <= self.o, self.o < self.end, E.M(self.v) == self.m, E.O(self.v) == self.o, E.FIRST(self.m, self.o) <= self.p)

    def ok(self):
        return Implies(self.at(), And(self.shape(), self.p < E.LAST(self.m, self.o)))


class _IT:
    id = None


IT = _IT()


def setup(X):
    E.enable(X)
    IT.id = next(t.id for t in (X.prog.ty(d['params'][0]) if 0 else X.prog.ty(d['ret']).unref() for k, d in X.prog.decls.items() if d.get('q') == I + '::operator*'))


S.setup = setup


def stored(m, o, p):
    return And(0 <= o, o < E.OUTER(m), E.FIRST(m, o) <= p, p < E.LAST(m, o))


def before(o, p, o2, p2):
    return Or(o < o2, And(o == o2, p < p2))


def none_between(m, after, upto):
    """no stored entry comes after the position `after` (all if None) and before `upto` (end if None)"""
    o, p = z3.Ints('o!nb p!nb')
    g = [stored(m, o, p)]
    if after is not None:
        g.append(before(after[0], after[1], o, p))
    if upto is not None:
        g.append(before(o, p, upto[0], upto[1]))
    return forall([o, p], Not(And(g)), patterns=[z3.MultiPattern(E.LAST(m, o), E.INDEX(m, p))])


def result_is_next(m, after, s):
    """the iterator state s stands at the first stored entry after the position, or at the end when there is none"""
    return [('it stands at a stored entry of the matrix or at the end', And(s.ok(), Implies(s.at(), s.m == m))),
            ('no stored entry is skipped', Implies(s.at(), none_between(m, after, (s.o, s.p)))),
            ('it goes forward', Implies(And(s.at(), z3.BoolVal(True)), before(after[0], after[1], s.o, s.p)) if after is not None else z3.BoolVal(True)),
            ('the end is reached only when no stored entry is left', Implies(Not(s.at()), none_between(m, after, None)))]


AX = lambda c: E.facts()


def inc_post(c):
    a, b = St(c, c.this), St(c, c.this, True)
    out = [(n, Implies(a.at(), f)) for n, f in result_is_next(a.m, (a.o, a.p), b)]
    return out + [('at the end it stays', Implies(Not(a.at()), Not(b.at()))), ('it is the same object', c.result.ref == c.this.ref if hasattr(c.result, 'ref') else c.result == c.this.ref)]


class Now:
    """state of the iterator at a loop head"""
    def __init__(self, X, o):
        f = lambda n: X.read(X.fld(o, n))
        self.m, self.end, self.o, self.r = f('m_matrix'), f('m_end'), f('m_outer'), f('m_inner')
        self.v = z3.Select(X.hmap('box<%s>' % IT.id, E.it_sort()), self.r)
        self.p = E.P(self.v)
    at, shape = St.at, St.shape


def inc_loops(lc):
    X, c = lc.X, lc.c
    n, a = (lambda: Now(X, c.this)), St(c, c.this)
    yield 'same matrix', lambda: And(n().m == a.m, n().end == a.end)
    yield 'valid', lambda: n().at()
    yield 'shape', lambda: Implies(n().at(), n().shape())
    yield 'outer', lambda: And(a.o <= n().o, n().o <= n().end)
    yield 'outer inside', lambda: n().o < n().end
    yield 'not before', lambda: Or(a.o < n().o, And(a.o == n().o, a.p <= n().p))
    yield 'after', lambda: before(a.o, a.p, n().o, n().p)
    yield 'nothing skipped', lambda: Implies(n().at(), none_between(a.m, (a.o, a.p), (n().o, n().p)))
    yield 'nothing left', lambda: Implies(Not(n().at()), none_between(a.m, (a.o, a.p), None))
    yield 'nothing skipped in earlier columns', lambda: none_between(a.m, (a.o, a.p), (n().o, z3.IntVal(-1)))
    yield 'nothing skipped up to here', lambda: none_between(a.m, (a.o, a.p), (n().o + 1, z3.IntVal(-1)))


S.fn(I + '::operator++', loops=inc_loops, requires=lambda c: [('consistent iterator', Implies(St(c, c.this).at(), St(c, c.this).shape()))],
     axioms=AX,
     modifies=lambda c: [c.pre.loc(c.this, 'm_outer'), c.pre.loc(c.this, 'm_inner'), BoxLoc(c.pre.f(c.this, 'm_inner'), IT_TY(c), 'box<%s>' % IT.id)], allocates=True, ensures=inc_post)
S.fn(I + '::operator==', requires=lambda c: [('consistent iterators', And(St(c, c.this).ok(), St(c, c.arg(0)).ok()))],
     axioms=AX, ensures=lambda c: [('equal exactly at the same entry, or both at the end', c.result == same(St(c, c.this), St(c, c.arg(0))))])


def same(a, b):
    return Or(And(Not(a.at()), Not(b.at())), And(a.at(), b.at(), a.m == b.m, a.o == b.o, a.p == b.p))


def IT_TY(c):
    return c.X.prog.ty(IT.id)


def first_post(c):
    s, m = St(c, c.this, True), refof(c, c.args[0])
    return [('it stands at a stored entry of the matrix or at the end', And(s.ok(), Implies(s.at(), s.m == m))), ('no stored entry is skipped', Implies(s.at(), none_between(m, None, (s.o, s.p)))),
            ('the end only when nothing is stored', Implies(Not(s.at()), none_between(m, None, None)))]


def refof(c, a):
    if isinstance(a, ObjLoc):
        return a.ref
    return a


def ctor_post(c):
    n = len(c.decl['params'])
    s = St(c, c.this, True)
    if n == 0:
        return [('at the end', Not(s.at()))]
    if 'iterator' in c.decl['params'][0]:
        o = St(c, c.args[0])
        return [('a copy stands where the original stands', same(s, o)), ('and is consistent', s.ok())]
    return first_post(c)


S.fn(I + '::(ctor)', axioms=AX, allocates=True, requires=lambda c: [('consistent iterator', St(c, c.args[0]).ok())] if c.decl['params'] and 'iterator' in c.decl['params'][0] else [],
     modifies=lambda c: [c.this], ensures=ctor_post)
S.fn(I + '::operator!=', axioms=AX, requires=lambda c: [('consistent iterators', And(St(c, c.this).ok(), St(c, c.arg(0)).ok()))], ensures=lambda c: [('the opposite of equal', c.result == Not(same(St(c, c.this), St(c, c.arg(0)))))])
S.fn(I + '::operator*', axioms=AX, requires=lambda c: [('it stands at an entry', And(St(c, c.this).at(), St(c, c.this).ok()))], ensures=lambda c: [('the entry it stands at', c.result == St(c, c.this).v)])


def begin_post(c):
    m = c.pre.f(c.this, 'm_matrix')
    s = St(c, c.result, True)
    return [('it stands at a stored entry of the matrix or at the end', And(s.ok(), Implies(s.at(), s.m == m))), ('no stored entry is skipped', Implies(s.at(), none_between(m, None, (s.o, s.p)))),
            ('the end only when nothing is stored', Implies(Not(s.at()), none_between(m, None, None)))]


S.fn(N + '::begin', axioms=AX, allocates=True, requires=lambda c: [('the enumerator refers to a matrix', c.pre.f(c.this, 'm_matrix') != 0)], ensures=begin_post)
S.fn(N + '::end', axioms=AX, allocates=True, ensures=lambda c: [('the end', Not(St(c, c.result, True).at()))])
S.fn(N + '::(ctor)', match=lambda d: 'SparseMatrix' in d['params'][0], modifies=lambda c: [c.this], ensures=lambda c: [('it refers to the matrix', c.post.f(c.this, 'm_matrix') == refof(c, c.args[0]))])
S.fn('kwiver::vital::enumerate', allocates=True, ensures=lambda c: [('an enumerator of the matrix', c.post.f(c.result, 'm_matrix') == refof(c, c.args[0]))])
