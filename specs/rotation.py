"""kwiver::vital::rotation_ and similarity_: C15

The oracle is the action on points: a rotation with unit quaternion q acts as
the matrix R(q); every operation is specified by the map it induces, for a
symbolic point, and decided by polynomial algebra over the reals.
"""
import os
from vcg.program import VERIF
from vcg.spec import *
from vcg.lib import eigen as E
from vcg.lib.eigen import vec, mul, eqm, dot, cross, entries, mapm, zipm, ident, transpose, canon

S = Spec(['vital/types/rotation.cxx', 'vital/types/similarity.cxx', os.path.join(VERIF, 'inst/linear.cpp')], props=['C15'])
V = 'kwiver::vital::'


def Rm(q):
    """the rotation matrix of a unit quaternion (x, y, z, w), written independently of the model of Eigen"""
    x, y, z, w = entries(q)
    return MatVal([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                   [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                   [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]])


def q_(v, loc):
    return v.f(loc, 'q_')


def unit(q):
    return dot(q, q) == 1


def point(n='pt'):
    return vec(*[z3.Const('%s_%s' % (n, k), REAL) for k in 'xyz'])


def add(a, b):
    return zipm(a, b, lambda x, y: x + y)


def scale(s, a):
    return mapm(a, lambda x: s * x)


def rodrigues(k, co, si, v):
    """rotation of v about the unit axis k by the angle with cosine co and sine si"""
    return add(add(scale(co, v), scale(si, cross(k, v))), scale(dot(k, v) * (1 - co), k))


def cosine(t):
    return canon_cos(canon(t))


def canon_cos(t):
    return E.COS(canon(-t)) if E.neg_lead(t) else E.COS(t)


def canon_sin(t):
    return -E.SIN(canon(-t)) if E.neg_lead(t) else E.SIN(t)


def C(t):
    return canon_cos(canon(t))


def Sn(t):
    return canon_sin(canon(t))


def half_angle(t):
    """cos and sin of an angle from those of its half"""
    h = t / 2
    return [C(t) == C(h) * C(h) - Sn(h) * Sn(h), Sn(t) == 2 * Sn(h) * C(h), C(h) * C(h) + Sn(h) * Sn(h) == 1]


PIL = z3.RealVal('3.141592653589793')      # M_PI, taken for the number pi


def rot_x(c, s):
    o, l = z3.RealVal(0), z3.RealVal(1)
    return MatVal([[l, o, o], [o, c, -s], [o, s, c]])


def rot_y(c, s):
    o, l = z3.RealVal(0), z3.RealVal(1)
    return MatVal([[c, o, s], [o, l, o], [-s, o, c]])


def rot_z(c, s):
    o, l = z3.RealVal(0), z3.RealVal(1)
    return MatVal([[c, -s, o], [s, c, o], [o, o, l]])


def ypr_matrix(cy, sy, cp, sp, cr, sr):
    """X by -roll after Y by -pitch after Z by -yaw after the exchange of north-east-down and east-north-up"""
    o, l = z3.RealVal(0), z3.RealVal(1)
    ned = MatVal([[o, l, o], [l, o, o], [o, o, -l]])
    return mul(rot_x(cr, -sr), mul(rot_y(cp, -sp), mul(rot_z(cy, -sy), ned)))


def half(q):
    """norm of the vector part, half of the angle before wrapping"""
    x, y, z, w = entries(q)
    i = E.SQRT(canon(dot(vec(x, y, z), vec(x, y, z))))
    return i, E.ATAN2(canon(i), canon(w))


def angle_of(q):
    i, t = half(q)
    return If(2 * t > PIL, 2 * t - 2 * PIL, 2 * t)


def angle_facts(q):
    i, t = half(q)
    return half_angle(2 * t) + [C(2 * t - 2 * PIL) == C(2 * t), Sn(2 * t - 2 * PIL) == Sn(2 * t), E.PI == PIL, Implies(And(t < 0, t > -PIL), E.SIN(t) < 0)]


def angle_props(q, a=None):
    """cosine, sine and range of the angle"""
    x, y, z, w = entries(q)
    i, t = half(q)
    a = angle_of(q) if a is None else a
    return [('the cosine of the angle', If(2 * t > PIL, C(2 * t - 2 * PIL), C(2 * t)) == w * w - (x * x + y * y + z * z)),
            ('the sine of the angle', If(2 * t > PIL, Sn(2 * t - 2 * PIL), Sn(2 * t)) == 2 * w * i),
            ('within half a turn', And(a >= -PIL, a <= PIL))]


def axis_of(q):
    x, y, z, w = entries(q)
    v = vec(x, y, z)
    i = E.SQRT(canon(dot(v, v)))
    return i, v


def axis_props(q, r):
    i, v = axis_of(q)
    return [('direction of the vector part', And(Implies(i == 0, eqm(r, vec(z3.RealVal(0), z3.RealVal(0), z3.RealVal(1)))), Implies(i != 0, eqm(scale(i, r), v)))),
            ('unit', dot(r, r) == 1)]


def part_turn(q, th):
    """quaternion that turns by th about the axis of q"""
    i, v = axis_of(q)
    k = [If(i == 0, z3.RealVal(1 if n == 2 else 0), e / i) for n, e in enumerate(entries(v))]
    return i, v, C(th / 2), Sn(th / 2)


def interp_q(A, q, th, r):
    """r is A after the turn by th about the axis of q"""
    i, v, c, s = part_turn(q, th)
    x, y, z = [s * e / i for e in entries(v)]
    return And(Implies(i != 0, eqm(r, E.qmul(A, vec(x, y, z, c)))), Implies(i == 0, eqm(r, E.qmul(A, vec(z3.RealVal(0), z3.RealVal(0), s, c)))))


def ip(c, a, b, f, r):
    """r is what interpolate_rotation gives for a, b and f"""
    P = z3.Function('interpolation!%s' % a.sort().name(), a.sort(), b.sort(), REAL, a.sort(), BOOL)
    return P(a, b, f, r)


def evenly(c, v0, v1, m, a, b, n):
    """the first m elements of v1 after those of v0, which stay"""
    k, i = z3.Int('k!ev'), z3.Int('i!ev')
    return And(forall([i], Implies(And(0 <= i, i < vlen(v0)), z3.Select(varr(v1), i) == z3.Select(varr(v0), i)), [z3.Select(varr(v1), i)]),
               forall([k], Implies(And(vlen(v0) <= k, k < vlen(v0) + m), ip(c, a, b, z3.ToReal(k - vlen(v0) + 1) / z3.ToReal(n + 1), z3.Select(varr(v1), k))), [z3.Select(varr(v1), k)]))


def inst(T):
    return V + 'rotation_<%s>' % T


def cls_is(cid, *ps):
    return lambda d: d.get('cls') == cid and (not ps or d['params'] == list(ps))


for T in ('double', 'float'):
    R = inst(T)
    M = lambda r, c: 'Eigen::Matrix<%s, %d, %d, 0, %d, %d>' % (T, r, c, r, c)
    N = V + 'rotation_'
    nm = 'rotation_<%s>' % T
    mod = lambda c: [c.pre.loc(c.this, 'q_')]

    S.fn(N + '::(ctor)', name=nm + '()', match=cls_is(R, ) and (lambda d, R=R: d.get('cls') == R and not d['params']), modifies=mod, algebra=True,
         ensures=lambda c: [('identity map', eqm(Rm(q_(c.post, c.this)), ident(3))), ('unit', unit(q_(c.post, c.this)))])
    S.fn(N + '::(ctor)', name=nm + '(quaternion)', match=cls_is(R, 'const Eigen::Quaternion<%s, 0> &' % T), modifies=mod, algebra=True,
         ensures=lambda c: [('quaternion stored', eqm(q_(c.post, c.this), c.val(0)))])
    S.fn(N + '::(ctor)', name=nm + '(4-vector)', match=cls_is(R, 'const %s &' % M(4, 1)), modifies=mod, algebra=True,
         ensures=lambda c: [('quaternion stored', eqm(q_(c.post, c.this), c.val(0)))])
    S.fn(N + '::(ctor)', name=nm + '(matrix)', match=cls_is(R, 'const %s &' % M(3, 3)), modifies=mod, algebra=True,
         requires=lambda c: [E.orthonormal(c.val(0))],
         ensures=lambda c: [('acts as the matrix', eqm(Rm(q_(c.post, c.this)), c.val(0))), ('unit', unit(q_(c.post, c.this)))])

    def rodr_axioms(c):
        v = c.val(0)
        n = E.SQRT(canon(dot(v, v)))
        return half_angle(n)

    def rodr_ens(c):
        v = c.val(0)
        n2 = dot(v, v)
        n = E.SQRT(canon(n2))
        q = q_(c.post, c.this)
        return [('unit', unit(q)),
                ('the zero vector is the identity', Implies(n2 == 0, eqm(mul(Rm(q), point()), point()))),
                ('turns about the vector by its length', Implies(n2 != 0, eqm(mul(Rm(q), point()), rodrigues(mapm(v, lambda x: x / n), C(n), Sn(n), point()))))]
    S.fn(N + '::(ctor)', name=nm + '(rodrigues)', match=cls_is(R, 'const %s &' % M(3, 1)), modifies=mod, algebra=True, axioms=rodr_axioms, ensures=rodr_ens)

    def aa_ens(c):
        a, v = c.val(0), c.val(1)
        n2 = dot(v, v)
        n = E.SQRT(canon(n2))
        q = q_(c.post, c.this)
        x, y, z, w = entries(q)
        return [('unit', Implies(n2 > 0, unit(q))), ('length of a unit axis', Implies(n2 == 1, n == 1)),
                ('quaternion of a unit axis', Implies(n2 == 1, And(w == C(a / 2), eqm(vec(x, y, z), scale(Sn(a / 2), v))))),
                ('turns about the axis by the angle', Implies(n2 > 0, eqm(mul(Rm(q), point()), rodrigues(mapm(v, lambda x: x / n), C(a), Sn(a), point()))))]
    S.fn(N + '::(ctor)', name=nm + '(angle, axis)', hide=('turns about the axis by the angle', 'length of a unit axis'), match=cls_is(R, T, 'const %s &' % M(3, 1)), modifies=mod, algebra=True,
         axioms=lambda c: half_angle(c.val(0)), ensures=aa_ens)

    S.fn(N + '::inverse', name=nm + '::inverse', hide=('undoes the rotation',), match=cls_is(R), algebra=True,
         requires=lambda c: [unit(q_(c.pre, c.this))], sets=lambda c: [('conjugate', c.post.loc(c.result, 'q_'), E.qconj(q_(c.pre, c.this)))],
         ensures=lambda c: [('unit', unit(q_(c.post, c.result))),
                            ('undoes the rotation', eqm(mul(Rm(q_(c.post, c.result)), mul(Rm(q_(c.pre, c.this)), point())), point()))])
    S.fn(N + '::operator*', name=nm + '::operator*(rotation)', hide=('acts as the composition',), match=cls_is(R, 'const %s &' % R), algebra=True,
         sets=lambda c: [('quaternion product', c.post.loc(c.result, 'q_'), E.qmul(q_(c.pre, c.this), q_(c.pre, c.arg(0))))],
         ensures=lambda c: [('acts as the composition', eqm(mul(Rm(q_(c.post, c.result)), point()), mul(Rm(q_(c.pre, c.this)), mul(Rm(q_(c.pre, c.arg(0))), point())))),
                            ('norm is the product', dot(q_(c.post, c.result), q_(c.post, c.result)) == dot(q_(c.pre, c.this), q_(c.pre, c.this)) * dot(q_(c.pre, c.arg(0)), q_(c.pre, c.arg(0))))])
    S.fn(N + '::operator*', name=nm + '::operator*(vector)', match=cls_is(R, 'const %s &' % M(3, 1)), algebra=True,
         requires=lambda c: [unit(q_(c.pre, c.this))],
         value=lambda c: mul(Rm(q_(c.pre, c.this)), c.val(0)),
         ensures=lambda c: [('length preserved', dot(c.result, c.result) == dot(c.val(0), c.val(0)))])
    S.fn(N + '::(conv)', name=nm + '::operator matrix', match=cls_is(R), algebra=True,
         requires=lambda c: [unit(q_(c.pre, c.this))],
         value=lambda c: Rm(q_(c.pre, c.this)),
         ensures=lambda c: [('proper rotation matrix', E.orthonormal(c.result))])
    S.fn(N + '::quaternion', name=nm + '::quaternion', match=cls_is(R), algebra=True, value=lambda c: q_(c.pre, c.this))
    S.fn(N + '::operator==', name=nm + '::operator==', match=cls_is(R), algebra=True, value=lambda c: eqm(q_(c.pre, c.this), q_(c.pre, c.arg(0))))
    S.fn(N + '::operator!=', name=nm + '::operator!=', match=cls_is(R), algebra=True, value=lambda c: Not(eqm(q_(c.pre, c.this), q_(c.pre, c.arg(0)))))

    # ---- angle, axis, Rodrigues vector
    Q = lambda c: q_(c.pre, c.this)
    S.fn(N + '::angle', name=nm + '::angle', match=cls_is(R), algebra=True, requires=lambda c: [unit(Q(c))], axioms=lambda c: angle_facts(Q(c)), value=lambda c: angle_of(Q(c)),
         ensures=lambda c: angle_props(Q(c), c.result))
    S.fn(N + '::axis', name=nm + '::axis', match=cls_is(R), algebra=True, ensures=lambda c: axis_props(Q(c), c.result))

    def rod_ens(c):
        a = angle_of(Q(c))
        i, v = axis_of(Q(c))
        r = c.result
        return [('zero for the zero angle', Implies(a == 0, eqm(r, E.zeros(3, 1)))),
                ('axis times angle', Implies(And(a != 0, i != 0), eqm(scale(i, r), scale(a, v)))),
                ('no turn without an axis', Implies(And(a != 0, i == 0), eqm(r, vec(z3.RealVal(0), z3.RealVal(0), a))))]
    S.fn(N + '::rodrigues', name=nm + '::rodrigues', match=cls_is(R), algebra=True, requires=lambda c: [unit(q_(c.pre, c.this))], ensures=rod_ens)

    # ---- yaw, pitch and roll
    def ypr_ens(c):
        y, p, r = c.val(0), c.val(1), c.val(2)
        q = q_(c.post, c.this)
        return [('turns by yaw, pitch and roll and from north-east-down to east-north-up', eqm(Rm(q), ypr_matrix(C(y), Sn(y), C(p), Sn(p), C(r), Sn(r)))), ('unit', unit(q))]
    S.fn(N + '::(ctor)', name=nm + '(yaw, pitch, roll)', match=cls_is(R, *['const %s &' % T] * 3), modifies=mod, algebra=60.0,
         axioms=lambda c: sum([half_angle(c.val(i)) for i in range(3)], []), ensures=ypr_ens)

    def get_ypr_ens(c):
        y, p, r = [c.post.get(c.arg(i)) for i in range(3)]
        m = Rm(q_(c.pre, c.this))
        cp = E.SQRT(canon(m.m[1][2] * m.m[1][2] + m.m[2][2] * m.m[2][2]))
        o = m
        n1 = E.SQRT(canon(o.m[0][0] * o.m[0][0] + o.m[0][1] * o.m[0][1]))
        n2 = E.SQRT(canon(o.m[0][2] * o.m[0][2] + cp * cp))
        n3 = E.SQRT(canon(o.m[1][2] * o.m[1][2] + o.m[2][2] * o.m[2][2]))
        return [('length of the first two in the first row', n1 * n1 == cp * cp), ('cosine of pitch', n1 == cp), ('length of the first row', n2 * n2 == 1), ('length one', n2 == 1), ('same length', n3 == cp)] + \
            [('the rotation rebuilt from yaw, pitch and roll', Implies(m.m[1][2] * m.m[1][2] + m.m[2][2] * m.m[2][2] > 0, eqm(m, ypr_matrix(C(y), Sn(y), C(p), Sn(p), C(r), Sn(r)))))]
    S.fn(N + '::get_yaw_pitch_roll', name=nm + '::get_yaw_pitch_roll', match=cls_is(R), algebra=60.0, modifies=lambda c: [c.arg(0), c.arg(1), c.arg(2)],
         requires=lambda c: [unit(q_(c.pre, c.this))], ensures=get_ypr_ens)

    # ---- conversion from the other precision
    O = inst('float' if T == 'double' else 'double')
    S.fn(N + '::(ctor)', name=nm + '(other precision)', match=cls_is(R, 'const %s &' % O), modifies=mod, algebra=True,
         ensures=lambda c: [('same quaternion', eqm(q_(c.post, c.this), q_(c.pre, c.arg(0))))])

    # ---- interpolation
    def between(c):
        return E.qmul(E.qconj(q_(c.pre, c.arg(0))), q_(c.pre, c.arg(1)))

    def interp_ens(c):
        A, B, f = q_(c.pre, c.arg(0)), q_(c.pre, c.arg(1)), c.val(2)
        q = between(c)
        i, v = axis_of(q)
        th = angle_of(q) * f
        r = q_(c.post, c.result)
        return [('unit', unit(r)), ('turns the first by the part of the turn between them', interp_q(A, q, th, r))]
    S.fn(V + 'interpolate_rotation', name='interpolate_rotation<%s>' % T, match=lambda d, T=T: d['params'][-1] == T, algebra=60.0,
         requires=lambda c: [unit(q_(c.pre, c.arg(0))), unit(q_(c.pre, c.arg(1)))],
         axioms=lambda c: angle_facts(between(c)), ensures=interp_ens,
         post_axioms=lambda c: [ip(c, c.pre.get(c.arg(0)), c.pre.get(c.arg(1)), c.val(2), c.post.get(c.result))])

    def list_inv(lc):
        c = lc.c
        L = c.arg(3)
        v0 = c.pre.get(L)
        a, b, n = c.pre.get(c.arg(0)), c.pre.get(c.arg(1)), c.val(2)
        v = lambda: lc.X.read(L)
        out = [('list of the evenly spaced rotations', lambda: evenly(c, v0, v(), vlen(v()) - vlen(v0), a, b, n)), ('list grows', lambda: vlen(v()) >= vlen(v0))]
        for nm_, f in lc.positions():
            for k in (0, 1):
                out.append(('%s counts (%d)' % (nm_, k), lambda f=f, k=k: vlen(v()) == vlen(v0) + f() - k))
        return out

    def list_ens(c):
        L = c.arg(3)
        v0, v1 = c.pre.get(L), c.post.get(L)
        return [('as many as asked for', vlen(v1) == vlen(v0) + c.val(2)),
                ('evenly spaced, in order, after the ones already there', evenly(c, v0, v1, c.val(2), c.pre.get(c.arg(0)), c.pre.get(c.arg(1)), c.val(2)))]
    S.fn(V + 'interpolated_rotations', name='interpolated_rotations<%s>' % T, match=lambda d, T=T: '<%s>' % T in d['params'][0], modifies=lambda c: [c.arg(3)], loops=list_inv, ensures=list_ens,
         requires=lambda c: [unit(q_(c.pre, c.arg(0))), unit(q_(c.pre, c.arg(1))), ('countable', And(c.val(2) < 2 ** 62, vlen(c.pre.get(c.arg(3))) < 2 ** 62))])


# ---- what the contracts say about the maps
S.algebra = 60.0


def quat(n):
    return vec(*[z3.Const('%s_%s' % (n, k), REAL) for k in 'xyzw'])


@S.lemma('interpolation: the map between')
def interp_lemma(L):
    A, r = quat('A'), quat('r')
    k = vec(*z3.Reals('k_x k_y k_z'))
    th = z3.Real('theta')
    x, y, z = entries(k)
    c, s = C(th / 2), Sn(th / 2)
    t = vec(s * x, s * y, s * z, c)
    yield 'turns about the axis', Implies(And(dot(k, k) == 1, And(half_angle(th))), eqm(mul(Rm(t), point()), rodrigues(k, C(th), Sn(th), point())))
    yield 'after the first', Implies(eqm(r, E.qmul(A, t)), eqm(mul(Rm(r), point()), mul(Rm(A), mul(Rm(t), point()))))
    yield 'the part zero gives the first', Implies(And(eqm(r, E.qmul(A, t)), c == 1, s == 0), eqm(r, A))


@S.lemma('interpolation: the part one gives the second')
def interp_one(L):
    """q = A^-1 B, its axis k and half of the angle (up to a full turn, sign e)"""
    A, B, q = quat('A'), quat('B'), quat('q')
    e, i = z3.Reals('e i')
    k = vec(*z3.Reals('k_x k_y k_z'))
    x, y, z, w = entries(q)
    t = vec(*([e * i * n for n in entries(k)] + [e * w]))
    hyp = And(unit(A), e * e == 1, eqm(vec(x, y, z), scale(i, k)), eqm(q, E.qmul(E.qconj(A), B)))
    yield 'same map', Implies(hyp, eqm(E.qmul(A, t), scale(e, B)))


@S.lemma('angle and axis reproduce the rotation')
def angle_axis_lemma(L):
    q = quat('q')
    i, v = axis_of(q)
    th = z3.Real('theta')
    w = q.m[3][0]
    n2 = dot(v, v)
    hyp = And(unit(q), i * i == n2, C(th) == w * w - n2, Sn(th) == 2 * w * i)
    ez = vec(z3.RealVal(0), z3.RealVal(0), z3.RealVal(1))
    yield 'about the axis', Implies(And(hyp, i != 0), eqm(mul(Rm(q), point()), rodrigues(mapm(v, lambda e: e / i), C(th), Sn(th), point())))
    yield 'about z', Implies(And(hyp, i == 0), eqm(mul(Rm(q), point()), rodrigues(ez, C(th), Sn(th), point())))


@S.lemma('the Rodrigues vector reproduces the rotation')
def rodrigues_lemma(L):
    """a vector that is the unit axis k times the angle a turns about k by a, whichever sign a has"""
    a, s = z3.Reals('a s')
    k = vec(*z3.Reals('k_x k_y k_z'))
    r = scale(a, k)
    yield 'same turn', Implies(And(dot(k, k) == 1, s * s == a * a, a != 0, s != 0),
                               eqm(rodrigues(k, C(a), Sn(a), point()), rodrigues(mapm(r, lambda e: e / s), C(a), Sn(a) * (a / s), point())))


@S.lemma('group laws of rotations')
def group_lemma(L):
    p, q, r = quat('p'), quat('q'), quat('r')
    e = vec(z3.RealVal(0), z3.RealVal(0), z3.RealVal(0), z3.RealVal(1))
    yield 'associative', eqm(E.qmul(E.qmul(p, q), r), E.qmul(p, E.qmul(q, r)))
    yield 'identity', And(eqm(E.qmul(e, q), q), eqm(E.qmul(q, e), q))
    yield 'inverse', Implies(unit(q), And(eqm(E.qmul(q, E.qconj(q)), e), eqm(E.qmul(E.qconj(q), q), e)))
    yield 'composition of the maps', eqm(mul(Rm(E.qmul(p, q)), point()), mul(Rm(p), mul(Rm(q), point())))
    yield 'closed', Implies(And(unit(p), unit(q)), unit(E.qmul(p, q)))
    yield 'opposite quaternions are the same map', eqm(Rm(q), Rm(scale(z3.RealVal(-1), q)))


# ---------------------------------------------------------------- similarity
def sq(v, loc):
    return v.f(loc, 'rot_', 'q_')


def st(v, loc):
    return v.f(loc, 'trans_')


def ss(v, loc):
    return v.f(loc, 'scale_')


def sact(s, q, t, x):
    return add(scale(s, mul(Rm(q), x)), t)


def sim_of(v, loc):
    return ss(v, loc), sq(v, loc), st(v, loc)


for T in ('double', 'float'):
    R = V + 'similarity_<%s>' % T
    RT = inst(T)
    N = V + 'similarity_'
    nm = 'similarity_<%s>' % T
    M = lambda r, c: 'Eigen::Matrix<%s, %d, %d, 0, %d, %d>' % (T, r, c, r, c)
    mod = lambda c: [c.pre.loc(c.this, 'scale_'), c.pre.loc(c.this, 'trans_'), c.pre.loc(c.this, 'rot_', 'q_'), c.pre.loc(c.this, 'm_logger')]

    def put(loc, s, q, t):
        """(name, location, value) of a similarity"""
        return lambda c: [('scale', c.post.loc(loc(c), 'scale_'), s(c)), ('rotation', c.post.loc(loc(c), 'rot_', 'q_'), q(c)), ('translation', c.post.loc(loc(c), 'trans_'), t(c))]

    this = lambda c: c.this
    res = lambda c: c.result
    one, o3 = z3.RealVal(1), E.zeros(3, 1)
    e4 = vec(z3.RealVal(0), z3.RealVal(0), z3.RealVal(0), one)
    usq = lambda c: [('unit quaternion', unit(sq(c.pre, c.this)))]
    S.fn(N + '::(ctor)', name=nm + '()', match=lambda d, R=R: d.get('cls') == R and not d['params'], modifies=mod, algebra=True,
         ensures=lambda c: [('identity map', eqm(sact(*sim_of(c.post, c.this), point()), point())), ('unit', unit(sq(c.post, c.this)))])
    S.fn(N + '::(ctor)', name=nm + '(scale, rotation, translation)', match=cls_is(R, 'const %s &' % T, 'const %s &' % RT, 'const %s &' % M(3, 1)), modifies=mod, algebra=True,
         sets=put(this, lambda c: c.val(0), lambda c: q_(c.pre, c.arg(1)), lambda c: c.val(2)))
    O = V + 'similarity_<%s>' % ('float' if T == 'double' else 'double')
    S.fn(N + '::(ctor)', name=nm + '(other precision)', match=cls_is(R, 'const %s &' % O), modifies=mod, algebra=True,
         sets=put(this, lambda c: ss(c.pre, c.arg(0)), lambda c: sq(c.pre, c.arg(0)), lambda c: st(c.pre, c.arg(0))))
    S.fn(N + '::scale', name=nm + '::scale', match=cls_is(R), value=lambda c: ss(c.pre, c.this))
    S.fn(N + '::rotation', name=nm + '::rotation', match=cls_is(R), algebra=True, ensures=lambda c: [('the rotation', eqm(q_(c.post, c.result), sq(c.pre, c.this)))], inline=True)
    S.fn(N + '::translation', name=nm + '::translation', match=cls_is(R), algebra=True, value=lambda c: st(c.pre, c.this))
    S.fn(N + '::operator*', name=nm + '::operator*(vector)', match=cls_is(R, 'const %s &' % M(3, 1)), algebra=True, requires=usq,
         value=lambda c: sact(*sim_of(c.pre, c.this), c.val(0)))
    S.fn(N + '::operator*', name=nm + '::operator*(similarity)', match=cls_is(R, 'const %s &' % R), algebra=True, requires=usq,
         sets=put(res, lambda c: ss(c.pre, c.this) * ss(c.pre, c.arg(0)), lambda c: E.qmul(sq(c.pre, c.this), sq(c.pre, c.arg(0))),
                  lambda c: sact(*sim_of(c.pre, c.this), st(c.pre, c.arg(0)))),
         hide=('acts as the composition',),
         ensures=lambda c: [('acts as the composition', eqm(sact(*sim_of(c.post, c.result), point()), sact(*sim_of(c.pre, c.this), sact(*sim_of(c.pre, c.arg(0)), point()))))])
    S.fn(N + '::inverse', name=nm + '::inverse', match=cls_is(R), algebra=True, requires=lambda c: usq(c) + [('scale', ss(c.pre, c.this) != 0)],
         sets=put(res, lambda c: 1 / ss(c.pre, c.this), lambda c: E.qconj(sq(c.pre, c.this)),
                  lambda c: scale(-1 / ss(c.pre, c.this), mul(Rm(E.qconj(sq(c.pre, c.this))), st(c.pre, c.this)))),
         hide=('undoes the map', 'undone by the map'),
         ensures=lambda c: [('undoes the map', eqm(sact(*sim_of(c.post, c.result), sact(*sim_of(c.pre, c.this), point())), point())),
                            ('undone by the map', eqm(sact(*sim_of(c.pre, c.this), sact(*sim_of(c.post, c.result), point())), point()))])
    S.fn(N + '::(conv)', name=nm + '::operator matrix', match=cls_is(R), algebra=True, requires=usq,
         ensures=lambda c: [('acts alike in homogeneous coordinates', eqm(mul(c.result, vec(*entries(point()), one)), vec(*entries(sact(*sim_of(c.pre, c.this), point())), one)))])

    def sim_from(c):
        m = c.val(0)
        b = MatVal([r[:3] for r in m.m[:3]])
        d = E.det(b)
        s = E.CBRT(canon(d))
        # the matrix of a similarity: s times a rotation matrix above (0, 0, 0, 1)
        u = mapm(b, lambda x: x / s)
        return m, b, d, s, u

    def sim_req(c):
        m, b, d, s, u = sim_from(c)
        return [('last row', And([m.m[3][k] == (1 if k == 3 else 0) for k in range(4)])), ('positive', d > 0), ('a rotation times the scale', E.orthonormal(u))]
    S.fn(N + '::(ctor)', name=nm + '(matrix)', match=cls_is(R, 'const %s &' % M(4, 4)), modifies=mod, algebra=True, requires=sim_req,
         ensures=lambda c: [('unit', unit(sq(c.post, c.this))), ('scale', And(ss(c.post, c.this) > 0, ss(c.post, c.this) * ss(c.post, c.this) * ss(c.post, c.this) == sim_from(c)[2])),
                            ('acts as the matrix', eqm(vec(*entries(sact(*sim_of(c.post, c.this), point())), one), mul(c.val(0), vec(*entries(point()), one))))])
    eqs = lambda c: And(ss(c.pre, c.this) == ss(c.pre, c.arg(0)), eqm(sq(c.pre, c.this), sq(c.pre, c.arg(0))), eqm(st(c.pre, c.this), st(c.pre, c.arg(0))))
    S.fn(N + '::operator==', name=nm + '::operator==', match=cls_is(R), algebra=True, value=eqs)
    S.fn(N + '::operator!=', name=nm + '::operator!=', match=cls_is(R), algebra=True, value=lambda c: Not(eqs(c)))


@S.lemma('group laws of similarities')
def sim_lemma(L):
    def sim(n):
        return z3.Real('s_' + n), quat(n), vec(*[z3.Real('t_%s_%s' % (n, k)) for k in 'xyz'])

    def comp(a, b):
        return a[0] * b[0], E.qmul(a[1], b[1]), sact(*a, b[2])

    def same(a, b):
        return And(a[0] == b[0], eqm(a[1], b[1]), eqm(a[2], b[2]))
    a, b, c = sim('a'), sim('b'), sim('c')
    e = (z3.RealVal(1), vec(z3.RealVal(0), z3.RealVal(0), z3.RealVal(0), z3.RealVal(1)), E.zeros(3, 1))
    inv = (1 / a[0], E.qconj(a[1]), scale(-1 / a[0], mul(Rm(E.qconj(a[1])), a[2])))
    u = And(unit(a[1]), unit(b[1]), unit(c[1]))
    yield 'associative', Implies(u, same(comp(comp(a, b), c), comp(a, comp(b, c))))
    yield 'identity', Implies(u, And(same(comp(a, e), a), same(comp(e, a), a)))
    yield 'inverse', Implies(And(u, a[0] != 0), And(same(comp(a, inv), e), same(comp(inv, a), e)))
