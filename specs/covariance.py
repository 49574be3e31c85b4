"""kwiver::vital::covariance_: C14, a symmetric matrix packed by lower triangle"""
import os
from vcg.program import VERIF
from vcg.spec import *
from vcg.lib import eigen as E

S = Spec([os.path.join(VERIF, 'inst/cov.cpp')], props=['C14'])
V = 'kwiver::vital::'


def pos(i, j):
    """where the element of row i and column j is kept, the same for (i, j) and (j, i)"""
    if isinstance(i, int):
        a, b = max(i, j), min(i, j)
        return a * (a + 1) // 2 + b
    a, b = If(i > j, i, j), If(i > j, j, i)
    return z3.If(a == 0, 0, z3.If(a == 1, 1, z3.If(a == 2, 3, z3.If(a == 3, 6, a * (a + 1) / 2)))) + b


def data(v, loc):
    return v.f(loc, 'data_')


def el(v, loc, i, j):
    return z3.Select(data(v, loc), pos(i, j))


def all_ij(n, f):
    return And([f(i, j) for i in range(n) for j in range(n)])


for n in (2, 3, 4):
    for T in ('double', 'float'):
        C_ = V + 'covariance_<%d, %s>' % (n, T)
        O = V + 'covariance_<%d, %s>' % (n, 'float' if T == 'double' else 'double')
        M = 'Eigen::Matrix<%s, %d, %d, 0, %d, %d>' % (T, n, n, n, n)
        N = V + 'covariance_'
        nm = 'covariance_<%d, %s>' % (n, T)
        mod = lambda c: [c.pre.loc(c.this, 'data_')]
        is_ = lambda *ps, C_=C_: (lambda d: d.get('cls') == C_ and (not ps or d['params'] == list(ps)))
        same = lambda c, n=n: [('every element', all_ij(n, lambda i, j: el(c.post, c.this, i, j) == el(c.pre, c.arg(0), i, j)))]
        S.fn(N + '::(ctor)', name=nm + '(copy)', match=is_('const %s &' % C_), modifies=mod, ensures=same)
        S.fn(N + '::(ctor)', name=nm + '(other precision)', match=is_('const %s &' % O), modifies=mod, ensures=same)
        S.fn(N + '::operator=', name=nm + '::operator=', match=is_('const %s &' % C_), modifies=mod, ensures=same)
        S.fn(N + '::(ctor)', name=nm + '(scalar)', match=is_('const %s &' % T), modifies=mod,
             ensures=lambda c, n=n: [('multiple of the identity', all_ij(n, lambda i, j: el(c.post, c.this, i, j) == (c.val(0) if i == j else 0)))])
        S.fn(N + '::(ctor)', name=nm + '(matrix)', match=is_('const %s &' % M), modifies=mod,
             ensures=lambda c, n=n: [('symmetric part of the matrix', all_ij(n, lambda i, j: el(c.post, c.this, i, j) == (c.val(0).m[i][j] + c.val(0).m[j][i]) / 2))])
        S.fn(N + '::(conv)', name=nm + '::operator matrix', match=is_(), value=lambda c, n=n: MatVal([[el(c.pre, c.this, i, j) for j in range(n)] for i in range(n)]))
        S.fn(N + '::vector_index', name=nm + '::vector_index', match=is_(), requires=lambda c, n=n: [And(c.val(0) < n, c.val(1) < n)],
             value=lambda c: pos(c.val(0), c.val(1)), ensures=lambda c, n=n: [('inside the storage', And(0 <= c.result, c.result < n * (n + 1) // 2))])
        S.fn(N + '::operator()', name=nm + '::operator()', match=lambda d, C_=C_: d.get('cls') == C_ and not d.get('const'), requires=lambda c, n=n: [And(c.val(0) < n, c.val(1) < n)],
             ensures=lambda c, n=n: [('the element', c.post.get(c.result) == el(c.pre, c.this, c.val(0), c.val(1)))])
        S.fn(N + '::data', name=nm + '::data', match=is_(), inline=True,
             ensures=lambda c, n=n: [('first element', And(c.result.loc.idx == 0, c.result.loc.base.name == 'data_'))])


@S.lemma('one place for each pair')
def places(L):
    i, j, k, l = z3.Ints('i j k l')
    for n in (2, 3, 4):
        rng = And([And(0 <= x, x < n) for x in (i, j, k, l)])
        yield 'order of the indices does not matter (%d)' % n, Implies(rng, pos(i, j) == pos(j, i))
        yield 'different pairs have different places (%d)' % n, Implies(And(rng, pos(i, j) == pos(k, l)), Or(And(i == k, j == l), And(i == l, j == k)))
        yield 'inside the storage (%d)' % n, Implies(rng, And(0 <= pos(i, j), pos(i, j) < n * (n + 1) // 2))
