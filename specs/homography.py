"""homographies, also between numbered frames: C16

The matrix of an abstract homography is what its accessor matrix() returns;
the concrete classes are specified on their stored matrix and proved to
return it there.
"""
from vcg.spec import *
from vcg.lib import eigen as E
from vcg.lib.eigen import vec, mul, eqm, entries, mapm, ident, det, canon

S = Spec(['vital/types/homography.cxx', 'vital/types/homography_f2f.cxx', 'vital/types/homography_f2w.cxx'], props=['C16'])
S.algebra = True
V = 'kwiver::vital::'
H = V + 'homography'
INF, SING, BADOP = V + 'point_maps_to_infinity', V + 'non_invertible_matrix', V + 'invalid_matrix_operation'
EPS = {'double': z3.RealVal('1/1000000000000'), 'float': z3.RealVal('1/100000')}
MF = [[z3.Function('matrix of homography %d%d' % (i, j), INT, REAL) for j in range(3)] for i in range(3)]


def MAT(r):
    return MatVal([[MF[i][j](r) for j in range(3)] for i in range(3)])


def aabs(t):
    return If(t >= 0, t, -t)


def hom(h, p):
    x, y = entries(p)
    return entries(mul(h, vec(x, y, z3.RealVal(1))))


def maps(eps, h, k=0):
    """the contract of mapping a point (argument k) by the matrix h(c)"""
    return dict(throws=lambda c: {INF: aabs(hom(h(c), c.val(k))[2]) <= eps},
                ensures=lambda c: [('dehomogenized product', point(c, h, k))])


def point(c, h, k):
    X, Y, W = hom(h(c), c.val(k))
    x, y = entries(c.result)
    return And(x * W == X, y * W == Y, W != 0)


for T in ('double', 'float'):
    is_ = lambda *ps, T=T: (lambda d: d.get('cls') == V + 'homography_<%s>' % T and (not ps or d['params'] == list(ps)))
    np_ = lambda n, T=T: (lambda d: d.get('cls') == V + 'homography_<%s>' % T and len(d['params']) == n)
    M3, nm = 'Eigen::Matrix<%s, 3, 3, 0, 3, 3>' % T, 'homography_<%s>' % T
    Q = V + 'homography_::'
    cls = V + 'homography_<%s>' % T
    h_ = lambda v, loc: v.f(loc, 'h_')
    pre = lambda c: h_(c.pre, c.this)
    mod = lambda c: [c.pre.loc(c.this, 'h_')]
    for Tm in {T, 'double'}:
        S.fn(V + '(anonymous)::h_map_point', name='h_map_point<%s>' % Tm, match=lambda d, Tm=Tm: d['params'][0].startswith('const Eigen::Matrix<%s,' % Tm), **maps(EPS[Tm], lambda c: c.val(0), 1))
    S.fn(Q + '(ctor)', name=nm + '()', match=np_(0), modifies=mod, ensures=lambda c: [('identity', eqm(h_(c.post, c.this), ident(3)))])
    S.fn(Q + '(ctor)', name=nm + '(matrix)', match=is_('const %s &' % M3), modifies=mod, sets=lambda c: [('the matrix', c.pre.loc(c.this, 'h_'), c.val(0))], ensures=lambda c: [('the matrix', eqm(h_(c.post, c.this), c.val(0)))])
    S.fn(Q + '(ctor)', name=nm + '(homography_ of the same type)', optional=True, match=is_('const %s &' % cls), modifies=mod, ensures=lambda c: [('the matrix', eqm(h_(c.post, c.this), h_(c.pre, c.arg(0))))])
    S.fn(Q + '(ctor)', name=nm + '(base)', match=is_('const %shomography &' % V), modifies=mod, ensures=lambda c: [('the matrix of the other', eqm(h_(c.post, c.this), MAT(c.arg(0).ref)))])
    S.fn(Q + 'matrix', name=nm + '::matrix', match=is_(), value=pre)
    S.fn(Q + 'get_matrix', name=nm + '::get_matrix', match=is_(), inline=True, ensures=lambda c: [('the stored matrix', eqm(c.post.get(c.result), h_(c.pre, c.this)))])
    S.fn(Q + 'map', name=nm + '::map', match=is_(), **maps(EPS['double'], pre))
    S.fn(Q + 'map_point', name=nm + '::map_point', match=is_(), **maps(EPS[T], pre))
    S.fn(Q + 'operator*', name=nm + '::operator*', match=is_(), ensures=lambda c: [('matrix product', eqm(h_(c.post, c.result), mul(h_(c.pre, c.this), h_(c.pre, c.arg(0)))))])

    def new(c, cls=cls):
        return h_(c.post, c.X.obj(c.result, cls))
    S.fn(Q + 'clone', name=nm + '::clone', match=is_(), ensures=lambda c, new=new: [('another object', And(c.result != 0, c.result != c.this.ref)), ('same matrix', eqm(new(c), pre(c)))])
    S.fn(Q + 'normalize', name=nm + '::normalize', match=is_(),
         ensures=lambda c, T=T, new=new: [('another object', And(c.result != 0, c.result != c.this.ref)), ('normalized', normalized(pre(c), new(c), EPS[T]))])
    S.fn(Q + 'inverse', name=nm + '::inverse', match=is_(), throws=lambda c, T=T: {SING: aabs(det(pre(c))) <= EPS[T]}, algebra=30,
         ensures=lambda c, new=new: [('another object', And(c.result != 0, c.result != c.this.ref))] + [('inverse matrix (%d, %d)' % (i, j), mul(new(c), pre(c)).m[i][j] == (1 if i == j else 0)) for i in range(3) for j in range(3)])


def normalized(h, n, eps):
    s = h.m[2][2]
    return If(aabs(s) >= eps, And([y * s == x for x, y in zip(entries(h), entries(n))]), eqm(n, h))


# ---- the abstract interface
S.fn(H + '::matrix', trusted=True, value=lambda c: MAT(c.this.ref))
S.fn(H + '::clone', trusted=True, fresh_result=True, ensures=lambda c: [('same matrix', And(c.result != 0, eqm(MAT(c.result), MAT(c.this.ref))))])
S.fn(H + '::inverse', trusted=True, fresh_result=True, throws=lambda c: {SING: ('may', SINGULAR(c.this.ref))}, ensures=lambda c: [('inverse matrix', And(c.result != 0, eqm(mul(MAT(c.result), MAT(c.this.ref)), ident(3))))])
SINGULAR = z3.Function('has no inverse', INT, BOOL)

# ---- between frames
F = V + 'f2f_homography::'
FW = V + 'f2w_homography::'
fr, to, hh = (lambda v, loc: v.f(loc, 'from_id_')), (lambda v, loc: v.f(loc, 'to_id_')), (lambda v, loc: v.f(loc, 'h_'))
fmod = lambda c: [c.pre.loc(c.this, n) for n in ('h_', 'from_id_', 'to_id_')]
HD = V + 'homography_<double>'


def dmat(c, ref):
    return c.post.f(c.X.obj(ref, HD), 'h_')


S.fn(F + '(ctor)', name='f2f_homography(frame)', match=lambda d: d['params'] == ['const long'] or d['params'] == ['long'], modifies=fmod,
     ensures=lambda c: [('identity', And(hh(c.post, c.this) != 0, eqm(dmat(c, hh(c.post, c.this)), ident(3)))), ('one frame', And(fr(c.post, c.this) == c.val(0), to(c.post, c.this) == c.val(0)))])
S.fn(F + '(ctor)', name='f2f_homography(homography, from, to)', match=lambda d: len(d['params']) == 3 and 'shared_ptr' in d['params'][0], requires=lambda c: [('given', c.val(0) != 0)], modifies=fmod, allocates=True,
     ensures=lambda c: [('same matrix', And(hh(c.post, c.this) != 0, eqm(MAT(hh(c.post, c.this)), MAT(c.val(0))))), ('own copy', hh(c.post, c.this) != c.val(0)), ('frames', And(fr(c.post, c.this) == c.val(1), to(c.post, c.this) == c.val(2)))])
S.fn(F + '(ctor)', name='f2f_homography(matrix, from, to)', match=lambda d: len(d['params']) == 3 and 'Eigen' in d['params'][0], modifies=fmod, allocates=True,
     ensures=lambda c: [('the matrix', And(hh(c.post, c.this) != 0, eqm(dmat(c, hh(c.post, c.this)), c.val(0)))), ('frames', And(fr(c.post, c.this) == c.val(1), to(c.post, c.this) == c.val(2)))])
S.fn(F + '(ctor)', name='f2f_homography(copy)', match=lambda d: len(d['params']) == 1 and 'f2f' in d['params'][0], requires=lambda c: [('valid', hh(c.pre, c.arg(0)) != 0)], modifies=fmod, allocates=True,
     ensures=lambda c: [('same matrix', And(hh(c.post, c.this) != 0, eqm(MAT(hh(c.post, c.this)), MAT(hh(c.pre, c.arg(0)))))), ('own copy', hh(c.post, c.this) != hh(c.pre, c.arg(0))),
                        ('frames', And(fr(c.post, c.this) == fr(c.pre, c.arg(0)), to(c.post, c.this) == to(c.pre, c.arg(0))))])
S.fn(F + 'homography', value=lambda c: hh(c.pre, c.this))
S.fn(F + 'from_id', value=lambda c: fr(c.pre, c.this))
S.fn(F + 'to_id', value=lambda c: to(c.pre, c.this))
S.fn(F + 'inverse', name='f2f_homography::inverse', requires=lambda c: [('valid', hh(c.pre, c.this) != 0)], throws=lambda c: {SING: ('may', SINGULAR(hh(c.pre, c.this)))},
     ensures=lambda c: [('frames swapped', And(fr(c.post, c.result) == to(c.pre, c.this), to(c.post, c.result) == fr(c.pre, c.this))),
                        ('inverse matrix', And(hh(c.post, c.result) != 0, eqm(mul(MAT(hh(c.post, c.result)), MAT(hh(c.pre, c.this))), ident(3))))])
S.fn(F + 'operator*', name='f2f_homography::operator*', requires=lambda c: [('valid', And(hh(c.pre, c.this) != 0, hh(c.pre, c.arg(0)) != 0))],
     throws=lambda c: {BADOP: fr(c.pre, c.this) != to(c.pre, c.arg(0))},
     ensures=lambda c: [('from the first to the last frame', And(fr(c.post, c.result) == fr(c.pre, c.arg(0)), to(c.post, c.result) == to(c.pre, c.this))),
                        ('product of the matrices', And(hh(c.post, c.result) != 0, eqm(dmat(c, hh(c.post, c.result)), mul(MAT(hh(c.pre, c.this)), MAT(hh(c.pre, c.arg(0)))))))])
wid = lambda v, loc: v.f(loc, 'frame_id_')
wmod = lambda c: [c.pre.loc(c.this, n) for n in ('h_', 'frame_id_')]
S.fn(FW + '(ctor)', name='f2w_homography(frame)', match=lambda d: d['params'] in (['const long'], ['long']), modifies=wmod,
     ensures=lambda c: [('identity', And(hh(c.post, c.this) != 0, eqm(dmat(c, hh(c.post, c.this)), ident(3)))), ('frame', wid(c.post, c.this) == c.val(0))])
S.fn(FW + '(ctor)', name='f2w_homography(homography, frame)', match=nparams(2), requires=lambda c: [('given', c.val(0) != 0)], modifies=wmod, allocates=True,
     ensures=lambda c: [('same matrix', And(hh(c.post, c.this) != 0, eqm(MAT(hh(c.post, c.this)), MAT(c.val(0))))), ('own copy', hh(c.post, c.this) != c.val(0)), ('frame', wid(c.post, c.this) == c.val(1))])
S.fn(FW + '(ctor)', name='f2w_homography(copy)', match=lambda d: len(d['params']) == 1 and 'f2w' in d['params'][0], requires=lambda c: [('valid', hh(c.pre, c.arg(0)) != 0)], modifies=wmod, allocates=True,
     ensures=lambda c: [('same matrix', And(hh(c.post, c.this) != 0, eqm(MAT(hh(c.post, c.this)), MAT(hh(c.pre, c.arg(0)))))), ('own copy', hh(c.post, c.this) != hh(c.pre, c.arg(0))), ('frame', wid(c.post, c.this) == wid(c.pre, c.arg(0)))])
S.fn(FW + 'homography', value=lambda c: hh(c.pre, c.this))
S.fn(FW + 'frame_id', value=lambda c: wid(c.pre, c.this))


def msym(n):
    return MatVal([[z3.Const('%s_%d%d' % (n, i, j), REAL) for j in range(3)] for i in range(3)])


@S.lemma('the maps of composition, inverse and normalization')
def maps_agree(L):
    a, b, n = msym('a'), msym('b'), msym('n')
    x, y, u, v, s, t, k = z3.Reals('x y u v s t k')
    p = lambda p, q: vec(p, q)
    B, A, P = hom(b, p(x, y)), hom(a, p(u, v)), hom(mul(a, b), p(x, y))
    at = lambda h, q, r: And(q * h[2] == h[0], r * h[2] == h[1])
    # (u, v) is the image of (x, y) under b, (s, t) that of (u, v) under a: then (s, t) is the image of (x, y) under the product
    yield 'composition maps like one after the other', Implies(And(B[2] != 0, A[2] != 0, at(B, u, v), at(A, s, t)), And(P[2] != 0, at(P, s, t)))
    Q, N, w = hom(a, p(x, y)), hom(n, p(u, v)), z3.Real('w')
    inv = And(eqm(mul(n, a), ident(3)), at(Q, u, v))
    # N(u, v, 1) * w = N A (x, y, 1) = (x, y, 1), row by row
    for i, z in enumerate((x, y, z3.RealVal(1))):
        yield 'the inverse maps back (row %d)' % i, Implies(inv, N[i] * Q[2] == z)
    c0, c1, c2 = z3.Reals('c0 c1 c2')
    yield 'the inverse maps back', Implies(And(c0 * w == x, c1 * w == y, c2 * w == 1), And(c2 != 0, at([c0, c1, c2], x, y)))
    yield 'normalization keeps the map', Implies(And(k != 0, And([q * k == r for q, r in zip(entries(n), entries(a))]), hom(a, p(x, y))[2] != 0, at(hom(a, p(x, y)), u, v)), And(hom(n, p(x, y))[2] != 0, at(hom(n, p(x, y)), u, v)))
