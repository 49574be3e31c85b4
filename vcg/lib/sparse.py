"""Trusted model of Eigen::SparseMatrix as it is read by its InnerIterator.

A matrix is identified by its address and has functions for the outer size, the
range of stored positions of every outer index, and the inner index of a stored
position (strictly increasing within one outer index: Eigen's storage invariant).
An inner iterator is (matrix, outer index, position); its constructor and every
read carry Eigen's own bounds as obligations.
"""
from ..engine import *

NAMES = ('Eigen::SparseCompressedBase::InnerIterator',)
MAT = 'Eigen::SparseMatrix'
OUTER = z3.Function('sparse.outer', INT, INT)
FIRST = z3.Function('sparse.first', INT, INT, INT)
LAST = z3.Function('sparse.last', INT, INT, INT)
INDEX = z3.Function('sparse.index', INT, INT, INT)


def it_sort():
    return datatype('SparseInner', [('m', INT), ('o', INT), ('p', INT)])


def mk(m, o, p):
    return it_sort().constructor(0)(m, o, p)


def M(t):
    return acc(it_sort(), 0, t)


def O(t):
    return acc(it_sort(), 1, t)


def P(t):
    return acc(it_sort(), 2, t)


def valid(t):
    return P(t) < LAST(M(t), O(t))


def facts():
    """storage invariants of every matrix"""
    m, o, p, q = z3.Ints('m!sp o!sp p!sp q!sp')
    return [z3.ForAll([m], OUTER(m) >= 0, patterns=[OUTER(m)]),
            z3.ForAll([m, o], And(FIRST(m, o) >= 0, FIRST(m, o) <= LAST(m, o), LAST(m, o) < 2**31), patterns=[LAST(m, o)]),
            z3.ForAll([m, o, p, q], Implies(And(FIRST(m, o) <= p, p < q, q < LAST(m, o)), INDEX(m, p) < INDEX(m, q)), patterns=[z3.MultiPattern(LAST(m, o), INDEX(m, p), INDEX(m, q))])]


def ref(X, v):
    return v.ref if isinstance(v, ObjLoc) else v


def enable(X):
    X.lib.ref_types.add(MAT)
    h = X.lib.h

    def ctor(X, c):
        a = [X.ev(n) for n in c.nodes]
        if len(a) == 1:
            return X.read(a[0]) if isinstance(a[0], Loc) else a[0]
        m = ref(X, a[0])
        o = X.read(a[1]) if isinstance(a[1], Loc) else a[1]
        X.oblige('inner iterator of an outer index that the matrix does not have', 'safety', And(o >= 0, o < OUTER(m)), c.line)
        return mk(m, o, FIRST(m, o))

    def inc(X, c):
        v = X.read(c.o)
        X.write(c.o, mk(M(v), O(v), P(v) + 1))
        return c.o

    def read(f):
        def g(X, c):
            v = X.read(c.o) if isinstance(c.o, Loc) else c.obj
            X.oblige('inner iterator is read outside of its range', 'safety', And(P(v) >= FIRST(M(v), O(v)), P(v) < LAST(M(v), O(v))), c.line)
            return f(v)
        return g

    def conv(X, c):
        v = X.read(c.o) if isinstance(c.o, Loc) else c.obj
        return valid(v)
    for n in NAMES:
        h[n + '::(ctor)'] = ctor
        h[n + '::operator++'] = inc
        h[n + '::(conv)'] = conv
        h[n + '::index'] = read(lambda v: INDEX(M(v), P(v)))
    h[MAT + '::outerSize'] = lambda X, c: OUTER(ref(X, c.o))
