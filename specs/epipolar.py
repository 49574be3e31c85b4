"""essential and fundamental matrices: C25

What the accessors of the abstract classes return is a function of the
object; the concrete classes are specified on their stored values and proved
to return them. The singular value decomposition of Eigen is trusted (orthogonal
factors, descending values, product equal to the matrix).
"""
from vcg.spec import *
from vcg.lib import eigen as E
from vcg.lib.eigen import vec, mul, eqm, dot, cross, entries, mapm, ident, transpose, det
from specs import rotation
from specs.rotation import Rm, q_, unit

S = Spec(['vital/types/essential_matrix.cxx', 'vital/types/fundamental_matrix.cxx', 'vital/types/rotation.cxx'], props=['C25'])
S.algebra = 60.0
V = 'kwiver::vital::'
for _c in rotation.S.contracts:
    if 'rotation_<' in (_c.name or ''):
        _c.opts['optional'] = True
        S.contracts.append(_c)
ZERO = z3.RealVal(0)
FN = lambda n: z3.Function(n, INT, REAL)
ROT, TRA = [FN('essential rotation %s' % k) for k in 'xyzw'], [FN('essential translation %s' % k) for k in 'xyz']
val = lambda fs, r: vec(*[f(r) for f in fs])
EM = V + 'essential_matrix'
FMF = [[FN('fundamental matrix %d%d' % (i, j)) for j in range(3)] for i in range(3)]
FMAT = lambda r: MatVal([[f(r) for f in row] for row in FMF])


def tx(t):
    """the matrix of the cross product with t"""
    x, y, z = entries(t)
    return MatVal([[ZERO, -z, y], [z, ZERO, -x], [-y, x, ZERO]])


def half_turn(t):
    return vec(*(entries(t) + [ZERO]))


S.fn(EM + '::rotation', trusted=True, ensures=lambda c: [('rotation', And(eqm(q_(c.post, c.result), val(ROT, c.this.ref)), unit(q_(c.post, c.result))))])
S.fn(EM + '::translation', trusted=True, value=lambda c: val(TRA, c.this.ref))
S.fn(EM + '::twisted_rotation', algebra=True, ensures=lambda c: [('half a turn about the translation after the rotation', eqm(q_(c.post, c.result), E.qmul(half_turn(val(TRA, c.this.ref)), val(ROT, c.this.ref))))])

for T in ('double', 'float'):
    cls = V + 'essential_matrix_<%s>' % T
    nm = 'essential_matrix_<%s>' % T
    is_ = lambda *ps, T=T: (lambda d: d.get('cls') == V + 'essential_matrix_<%s>' % T and (not ps or d['params'] == list(ps)))
    np_ = lambda n, T=T: (lambda d: d.get('cls') == V + 'essential_matrix_<%s>' % T and len(d['params']) == n)
    Q = EM + '_::'
    M3 = 'Eigen::Matrix<%s, 3, 3, 0, 3, 3>' % T
    rot = lambda v, loc: v.f(loc, 'rot_', 'q_')
    tra = lambda v, loc: v.f(loc, 'trans_')
    mod = lambda c: [c.pre.loc(c.this, 'rot_'), c.pre.loc(c.this, 'trans_')]
    em = lambda v, loc: mul(tx(tra(v, loc)), Rm(rot(v, loc)))
    uq = lambda c: [('unit quaternion', unit(rot(c.pre, c.this)))]
    S.fn(Q + '(ctor)', name=nm + '(rotation, translation)', match=np_(2), modifies=mod, algebra=True, requires=lambda c: [('translation different from zero', dot(c.val(1), c.val(1)) > 0)],
         ensures=lambda c: [('the rotation', eqm(rot(c.post, c.this), q_(c.pre, c.arg(0)))), ('unit translation', dot(tra(c.post, c.this), tra(c.post, c.this)) == 1), ('the direction', eqm(cross(tra(c.post, c.this), c.val(1)), vec(ZERO, ZERO, ZERO))),
                            ('the same sense', dot(tra(c.post, c.this), c.val(1)) > 0)])

    def from_matrix(c):
        m, t, q = c.val(0), tra(c.post, c.this), rot(c.post, c.this)
        e = mul(tx(t), Rm(q))
        p = mul(transpose(e), m)
        return [('proper rotation', unit(q)), ('unit translation', dot(t, t) == 1), ('left null vector', Implies(det(m) == 0, eqm(mul(transpose(m), t), vec(ZERO, ZERO, ZERO))))] + \
            [('closest', And([p.m[i][j] == p.m[j][i] for i in range(3) for j in range(i)]))]

    S.fn(Q + '(ctor)', name=nm + '(matrix)', match=is_('const %s &' % M3), modifies=mod, algebra=True, ensures=from_matrix)
    S.fn(Q + '(ctor)', name=nm + '(same type)', optional=True, match=is_('const %s &' % cls), modifies=mod, ensures=lambda c: [('the rotation', eqm(rot(c.post, c.this), rot(c.pre, c.arg(0)))), ('the translation', eqm(tra(c.post, c.this), tra(c.pre, c.arg(0))))])
    S.fn(Q + '(ctor)', name=nm + '(base)', match=is_('const %s &' % EM), modifies=mod, ensures=lambda c: [('the rotation', eqm(rot(c.post, c.this), val(ROT, c.arg(0).ref))), ('the translation', eqm(tra(c.post, c.this), val(TRA, c.arg(0).ref)))])
    S.fn(Q + 'clone', name=nm + '::clone', match=is_(), ensures=lambda c, cls=cls: [('another object', And(c.result != 0, c.result != c.this.ref)), ('the same rotation', eqm(rot(c.post, c.X.obj(c.result, cls)), rot(c.pre, c.this))), ('the same translation', eqm(tra(c.post, c.X.obj(c.result, cls)), tra(c.pre, c.this)))])
    S.fn(Q + 'compute_matrix', name=nm + '::compute_matrix', match=is_(), algebra=True, requires=uq, value=lambda c: em(c.pre, c.this))
    S.fn(Q + 'matrix', name=nm + '::matrix', match=is_(), algebra=True, requires=uq, value=lambda c: em(c.pre, c.this))
    S.fn(Q + 'rotation', name=nm + '::rotation', match=is_(), ensures=lambda c: [('the stored rotation', eqm(q_(c.post, c.result), rot(c.pre, c.this)))])
    S.fn(Q + 'translation', name=nm + '::translation', match=is_(), value=lambda c: tra(c.pre, c.this))
    S.fn(Q + 'get_rotation', name=nm + '::get_rotation', match=is_(), inline=True, ensures=lambda c: [('the stored rotation', eqm(q_(c.post, c.result), rot(c.pre, c.this)))])
    S.fn(Q + 'get_translation', name=nm + '::get_translation', match=is_(), inline=True, ensures=lambda c: [('the stored translation', eqm(c.post.get(c.result), tra(c.pre, c.this)))])
    for f in ('compute_twisted_rotation', 'twisted_rotation'):
        S.fn(Q + f, name=nm + '::' + f, match=is_(), algebra=True, ensures=lambda c: [('half a turn about the translation after the rotation', eqm(q_(c.post, c.result), E.qmul(half_turn(tra(c.pre, c.this)), rot(c.pre, c.this))))])

FM = V + 'fundamental_matrix'
S.fn(FM + '::matrix', trusted=True, value=lambda c: FMAT(c.this.ref))
for T in ('double', 'float'):
    cls = V + 'fundamental_matrix_<%s>' % T
    nm = 'fundamental_matrix_<%s>' % T
    is_ = lambda *ps, T=T: (lambda d: d.get('cls') == V + 'fundamental_matrix_<%s>' % T and (not ps or d['params'] == list(ps)))
    Q = FM + '_::'
    M3 = 'Eigen::Matrix<%s, 3, 3, 0, 3, 3>' % T
    mat = lambda v, loc: v.f(loc, 'mat_')
    mod = lambda c: [c.pre.loc(c.this, 'mat_')]

    def closest(c):
        m, f = c.val(0), mat(c.post, c.this)
        p = mul(transpose(f), m)
        return [('singular', det(f) == 0), ('norm one', dot(f, f) == 1)] + \
            [('closest', And([p.m[i][j] == p.m[j][i] for i in range(3) for j in range(i)]))]

    S.fn(Q + '(ctor)', name=nm + '(same type)', optional=True, match=is_('const %s &' % cls), modifies=mod, ensures=lambda c: [('the matrix', eqm(mat(c.post, c.this), mat(c.pre, c.arg(0))))])
    S.fn(Q + '(ctor)', name=nm + '(base)', match=is_('const %s &' % FM), modifies=mod, ensures=lambda c: [('the matrix', eqm(mat(c.post, c.this), FMAT(c.arg(0).ref)))])
    S.fn(Q + '(ctor)', name=nm + '(matrix)', match=is_('const %s &' % M3), modifies=mod, algebra=True,
         requires=lambda c: [('not zero', dot(c.val(0), c.val(0)) > 0)], ensures=closest)
    S.fn(Q + 'clone', name=nm + '::clone', match=is_(), ensures=lambda c, cls=cls: [('another object', And(c.result != 0, c.result != c.this.ref)), ('the same matrix', eqm(mat(c.post, c.X.obj(c.result, cls)), mat(c.pre, c.this)))])
    S.fn(Q + 'matrix', name=nm + '::matrix', match=is_(), value=lambda c: mat(c.pre, c.this))


@S.lemma('corresponding directions satisfy the epipolar constraint')
def epipolar_lemma(L):
    q, t, x = vec(*z3.Reals('qx qy qz qw')), vec(*z3.Reals('tx ty tz')), vec(*z3.Reals('x y z'))
    k = z3.Real('k')
    y = mapm(zipm2(mul(Rm(q), x), mapm(t, lambda e: e * k)), lambda e: e)
    yield 'a point seen from both views', mul(transpose(y), mul(mul(tx(t), Rm(q)), x)).m[0][0] == 0
    yield 'the twisted pair gives the opposite matrix', Implies(And(dot(t, t) == 1, unit(q)), eqm(mul(tx(t), Rm(E.qmul(half_turn(t), q))), mapm(mul(tx(t), Rm(q)), lambda e: -e)))


@S.lemma('products with orthogonal matrices')
def orthogonal_lemma(L):
    """the facts the model of Eigen's products states for orthogonal factors"""
    a, b = (MatVal([[z3.Real('%s%d%d' % (n, i, j)) for j in range(3)] for i in range(3)]) for n in 'ab')
    o = eqm(mul(transpose(a), a), ident(3))
    p = mul(a, b)
    yield 'the norm stays', Implies(o, dot(p, p) == dot(b, b))
    yield 'cancelled from the left', Implies(o, eqm(mul(transpose(a), p), b))
    yield 'determinants multiply', det(p) == det(a) * det(b)


def zipm2(a, b):
    return vec(*[x + y for x, y in zip(entries(a), entries(b))])
