"""camera_intrinsics, camera and their simple implementations: C17

What the (virtual) accessors of the abstract classes return is a function of
the object; the simple classes are specified on their stored fields and proved
to return them.
"""
from vcg.spec import *
from vcg.lib import eigen as E
from vcg.lib.eigen import vec, mul, eqm, dot, cross, entries, mapm, zipm, ident, transpose
from specs import rotation
from specs.rotation import Rm, q_, unit, add, scale

S = Spec(['vital/types/camera.cxx', 'vital/types/camera_intrinsics.cxx', 'vital/types/rotation.cxx'], props=['C17'])
S.algebra = 60.0
V = 'kwiver::vital::'
CI, SCI, CAM, SCAM = V + 'camera_intrinsics', V + 'simple_camera_intrinsics', V + 'camera', V + 'simple_camera'
sel = z3.Select
for _c in rotation.S.contracts:
    if 'rotation_<double>' in (_c.name or ''):
        _c.opts['optional'] = True
        S.contracts.append(_c)
ZERO, ONE = z3.RealVal(0), z3.RealVal(1)

# ---- what the accessors of an abstract calibration and camera return
FN = lambda n: z3.Function(n, INT, REAL)
F_, AR, SK = FN('focal length'), FN('aspect ratio'), FN('skew')
PP = [FN('principal point %s' % k) for k in 'xy']
DIS = [z3.Function('distort %s' % k, INT, REAL, REAL, REAL) for k in 'xy']
UND = [z3.Function('undistort %s' % k, INT, REAL, REAL, REAL) for k in 'xy']
CEN, TRA = [FN('camera center %s' % k) for k in 'xyz'], [FN('camera translation %s' % k) for k in 'xyz']
ROT = [FN('camera rotation %s' % k) for k in 'xyzw']
CCOV = z3.Function('camera center covariance', INT, INT, REAL)
INTR = z3.Function('camera intrinsics', INT, INT)


def val(fs, r, *a):
    return vec(*[f(r, *a) for f in fs])


def kmat(r):
    return MatVal([[F_(r), SK(r), PP[0](r)], [ZERO, F_(r) / AR(r), PP[1](r)], [ZERO, ZERO, ONE]])


def kmap(r, x, y):
    """pixel of the point (x, y) of the image plane"""
    u, v = val(DIS, r, x, y).m[0][0], val(DIS, r, x, y).m[1][0]
    return vec(F_(r) * u + SK(r) * v + PP[0](r), F_(r) / AR(r) * v + PP[1](r))


S.fn(CI + '::focal_length', trusted=True, value=lambda c: F_(c.this.ref))
S.fn(CI + '::principal_point', trusted=True, value=lambda c: val(PP, c.this.ref))
S.fn(CI + '::aspect_ratio', trusted=True, value=lambda c: AR(c.this.ref))
S.fn(CI + '::skew', trusted=True, value=lambda c: SK(c.this.ref))
COEF = z3.Function('distortion coefficients', INT, z3.ArraySort(INT, REAL))
NCOEF = z3.Function('number of distortion coefficients', INT, INT)
S.fn(CI + '::dist_coeffs', axioms=lambda c: [NCOEF(c.this.ref) == 0], ensures=lambda c: [('as many', vlen(c.result) == NCOEF(c.this.ref)), ('each', forall_idx(vlen(c.result), lambda i: sel(varr(c.result), i) == sel(COEF(c.this.ref), i), patterns=lambda i: [sel(varr(c.result), i)]))])
# the implementation of the abstract class is the one of a lens without distortion
xy = lambda c, k=0: entries(c.val(k))
S.fn(CI + '::distort', value=lambda c: val(DIS, c.this.ref, *xy(c)), axioms=lambda c: [eqm(val(DIS, c.this.ref, *xy(c)), c.val(0))])
S.fn(CI + '::undistort', value=lambda c: val(UND, c.this.ref, *xy(c)), axioms=lambda c: [eqm(val(UND, c.this.ref, *xy(c)), c.val(0))])

S.fn(CI + '::clone', trusted=True, fresh_result=True, ensures=lambda c: [('same calibration', And(c.result != 0, *[a == b for a, b in zip(entries(kmat(c.result)), entries(kmat(c.this.ref)))]))])
lens = lambda c: [('focal length and aspect ratio different from zero', And(F_(c.this.ref) != 0, AR(c.this.ref) != 0))]
S.fn(CI + '::as_matrix', algebra=True, requires=lens, value=lambda c: kmat(c.this.ref))
S.fn(CI + '::map', name='camera_intrinsics::map(2d)', match=lambda d: '2, 1' in d['params'][0], algebra=True, requires=lens, value=lambda c: kmap(c.this.ref, *xy(c)))
S.fn(CI + '::map', name='camera_intrinsics::map(3d)', match=lambda d: '3, 1' in d['params'][0], algebra=True, requires=lambda c: lens(c) + [('off the camera plane', c.val(0).m[2][0] != 0)],
     value=lambda c: kmap(c.this.ref, xy(c)[0] / xy(c)[2], xy(c)[1] / xy(c)[2]))


def unmapped(r, p):
    u, v = entries(p)
    y = (v - PP[1](r)) * AR(r) / F_(r)
    return (u - PP[0](r) - SK(r) * y) / F_(r), y


S.fn(CI + '::unmap', algebra=True, requires=lens, value=lambda c: val(UND, c.this.ref, *unmapped(c.this.ref, c.val(0))))

# ---- distortion
r2_, X_, Y_, S_, D_ = z3.Reals('r2!d X!d Y!d scale!d dscale!d')
DV = z3.ArraySort(INT, REAL)
RS = z3.Function('radial scale', INT, DV, REAL, REAL)
RD = z3.Function('derivative of the radial scale', INT, DV, REAL, REAL)


def den(a, r2):
    return 1 + sel(a, 5) * r2 + sel(a, 6) * r2 * r2 + sel(a, 7) * r2 * r2 * r2


def radial(a, n, r2):
    """1 + k1 r^2 + k2 r^4 + k3 r^6 over 1 + k4 r^2 + k5 r^4 + k6 r^6 with as many terms as there are coefficients"""
    d = lambda i: sel(a, i)
    s1 = 1 + d(0) * r2
    s2 = s1 + d(1) * r2 * r2
    s3 = s2 + d(4) * r2 * r2 * r2
    return [(n > 7, s3 / den(a, r2)), (And(n > 4, n <= 7), s3), (And(n > 1, n <= 4), s2), (n == 1, s1), (n <= 0, ONE)]


def tangential(a, x, y):
    p1, p2, r2 = sel(a, 2), sel(a, 3), x * x + y * y
    return [p1 * 2 * x * y + p2 * (r2 + 2 * x * x), p2 * 2 * x * y + p1 * (r2 + 2 * y * y)]


def diff(t, v):
    """derivative of a rational expression; S_ stands for a function of the squared radius with derivative D_"""
    if t.eq(v):
        return ONE
    if t.eq(S_):
        return D_ * 2 * v
    if not t.children() or t.decl().kind() == z3.Z3_OP_SELECT:
        return ZERO
    k, cs = t.decl().kind(), t.children()
    if k == z3.Z3_OP_ADD:
        return z3.Sum([diff(c, v) for c in cs])
    if k == z3.Z3_OP_SUB:
        r = diff(cs[0], v)
        for c in cs[1:]:
            r = r - diff(c, v)
        return r
    if k == z3.Z3_OP_MUL:
        out = []
        for i in range(len(cs)):
            p = diff(cs[i], v)
            for j, c in enumerate(cs):
                if j != i:
                    p = p * c
            out.append(p)
        return z3.Sum(out)
    if k == z3.Z3_OP_DIV:
        a, b = cs
        return (diff(a, v) * b - a * diff(b, v)) / (b * b)
    raise Unsupported('derivative')


def nice(d, r2):
    """the rational model has no pole at the squared radius"""
    return Implies(vlen(d) > 7, den(varr(d), r2) != 0)


def scale_def(d, r2):
    """definition of the radial scale"""
    return [Implies(g, RS(vlen(d), varr(d), r2) == t) for g, t in radial(varr(d), vlen(d), r2)]


def deriv_def(d, r2):
    """the derivative of the radial scale by the squared radius"""
    return [Implies(g, RD(vlen(d), varr(d), r2) == z3.substitute(diff(t, r2_), (r2_, r2))) for g, t in radial(varr(d), vlen(d), r2_)]


AN = V + '(anonymous)::'
r2c = lambda c: E.canon(xy(c)[0] * xy(c)[0] + xy(c)[1] * xy(c)[1])
two = lambda d: len(d['params']) == 2
S.fn(AN + 'radial_distortion_scale', algebra=True, axioms=lambda c: scale_def(c.val(1), E.canon(c.val(0))),
     ensures=lambda c: [('scale', Implies(nice(c.val(1), c.val(0)), c.result == RS(vlen(c.val(1)), varr(c.val(1)), E.canon(c.val(0))))), ('none without coefficients', Implies(vlen(c.val(1)) <= 0, c.result == 1))])
S.fn(AN + 'radial_distortion_deriv', algebra=True, axioms=lambda c: deriv_def(c.val(1), E.canon(c.val(0))),
     ensures=lambda c: [('derivative of the scale', Implies(nice(c.val(1), c.val(0)), c.result == RD(vlen(c.val(1)), varr(c.val(1)), E.canon(c.val(0)))))])


def lens_cases(d):
    """(condition, tangential part) for a symbolic point"""
    return [(vlen(d) > 3, tangential(varr(d), X_, Y_)), (vlen(d) <= 3, [ZERO, ZERO])]


def at(c, d, t):
    """an expression of the symbolic point at the argument of the function"""
    x, y = xy(c)
    r2 = r2c(c)
    return z3.substitute(t, (X_, x), (Y_, y), (S_, RS(vlen(d), varr(d), r2)), (D_, RD(vlen(d), varr(d), r2)))


def so_ens(c):
    d = c.val(1)
    s, o = c.post.get(c.arg(2)), entries(c.post.get(c.arg(3)))
    return [('scale', Implies(nice(d, r2c(c)), s == RS(vlen(d), varr(d), r2c(c)))), ('no scale without coefficients', Implies(vlen(d) <= 0, s == 1))] + \
        [('offset %d, case %d' % (k, i), Implies(g, o[k] == at(c, d, t[k]))) for i, (g, t) in enumerate(lens_cases(d)) for k in (0, 1)]


S.fn(AN + 'distortion_scale_offset', algebra=True, modifies=lambda c: [c.arg(2), c.arg(3)], ensures=so_ens)


def jac_ens(c):
    d = c.val(1)
    out = []
    for i, (g, t) in enumerate(lens_cases(d)):
        for r, f in enumerate((S_ * X_ + t[0], S_ * Y_ + t[1])):
            for k, v in enumerate((X_, Y_)):
                out.append(('derivative of coordinate %d by %d, case %d' % (r, k, i), Implies(And(nice(d, r2c(c)), g), c.result.m[r][k] == at(c, d, diff(f, v)))))
    return out


S.fn(AN + 'distortion_jacobian', algebra=True, ensures=jac_ens)

# ---- calibration with stored values
st = lambda v, loc: (v.f(loc, 'focal_length_'), v.f(loc, 'principal_point_'), v.f(loc, 'aspect_ratio_'), v.f(loc, 'skew_'), v.f(loc, 'dist_coeffs_'))
FIELDS = ('focal_length_', 'principal_point_', 'aspect_ratio_', 'skew_', 'dist_coeffs_')


def same_coeffs(d, n, f):
    return And(vlen(d) == n, forall_idx(n, lambda i: sel(varr(d), i) == f(i), patterns=lambda i: [sel(varr(d), i)]))


def same_vec(a, b):
    return same_coeffs(a, vlen(b), lambda i: sel(varr(b), i))


def holds(s, f, p, a, k, d):
    return [('focal length', s[0] == f), ('principal point', eqm(s[1], p)), ('aspect ratio', s[2] == a), ('skew', s[3] == k), ('distortion coefficients', d(s[4]))]


def stored(c, f, p, a, k, d):
    return holds(st(c.post, c.this), f, p, a, k, d)


Q = SCI + '::'
smod = lambda c: [c.pre.loc(c.this, n) for n in FIELDS]
default = (ONE, vec(ZERO, ZERO), ONE, ZERO, lambda d: vlen(d) == 0)
S.fn(Q + '(ctor)', name='simple_camera_intrinsics()', match=nparams(0), modifies=smod, ensures=lambda c: stored(c, *default))
S.fn(Q + '(ctor)', name='simple_camera_intrinsics(values)', match=nparams(5), modifies=smod, ensures=lambda c: stored(c, c.val(0), c.val(1), c.val(2), c.val(3), lambda d: same_vec(d, c.val(4))))
S.fn(Q + '(ctor)', name='simple_camera_intrinsics(base)', match=lambda d: d['params'] == ['const %s &' % CI], modifies=smod,
     ensures=lambda c: stored(c, F_(c.arg(0).ref), val(PP, c.arg(0).ref), AR(c.arg(0).ref), SK(c.arg(0).ref), lambda d: same_coeffs(d, NCOEF(c.arg(0).ref), lambda i: sel(COEF(c.arg(0).ref), i))))
S.fn(Q + '(ctor)', name='simple_camera_intrinsics(matrix, coefficients)', match=nparams(2), modifies=smod, requires=lambda c: [('not degenerate', And(c.val(0).m[0][0] != 0, c.val(0).m[1][1] != 0))],
     ensures=lambda c: stored(c, c.val(0).m[0][0], vec(c.val(0).m[0][2], c.val(0).m[1][2]), c.val(0).m[0][0] / c.val(0).m[1][1], c.val(0).m[0][1], lambda d: same_vec(d, c.val(1))))
for i, n in enumerate(FIELDS):
    g = n[:-1]
    if g != 'dist_coeffs':
        S.fn(Q + g, value=lambda c, n=n: c.pre.f(c.this, n))
    S.fn(Q + 'get_' + g, inline=True, ensures=lambda c, n=n: [('the stored value', c.post.get(c.result) == c.pre.f(c.this, n) if n not in ('principal_point_', 'dist_coeffs_') else
                                                              eqm(c.post.get(c.result), c.pre.f(c.this, n)) if n == 'principal_point_' else same_vec(c.post.get(c.result), c.pre.f(c.this, n)))])
    S.fn(Q + 'set_' + g, modifies=lambda c, n=n: [c.pre.loc(c.this, n)],
         ensures=lambda c, n=n: [('the given value', eqm(c.post.f(c.this, n), c.val(0)) if n == 'principal_point_' else same_vec(c.post.f(c.this, n), c.val(0)) if n == 'dist_coeffs_' else c.post.f(c.this, n) == c.val(0))])
S.fn(Q + 'dist_coeffs', ensures=lambda c: [('the stored coefficients', same_vec(c.result, c.pre.f(c.this, 'dist_coeffs_')))])
S.fn(Q + 'clone', ensures=lambda c: [('another object', And(c.result != 0, c.result != c.this.ref))] + [(n, f) for n, f in holds(
    st(c.post, c.X.obj(c.result, SCI)), *[x for x in st(c.pre, c.this)[:4]], lambda d: same_vec(d, c.pre.f(c.this, 'dist_coeffs_')))])
dc = lambda c: c.pre.f(c.this, 'dist_coeffs_')
S.fn(Q + 'distort', algebra=True, ensures=lambda c: [
    ('coordinate %d, case %d' % (k, i), Implies(And(nice(dc(c), r2c(c)), g), c.result.m[k][0] == at(c, dc(c), (S_ * X_ + t[0], S_ * Y_ + t[1])[k]))) for i, (g, t) in enumerate(lens_cases(dc(c))) for k in (0, 1)]
    + [('none without coefficients', Implies(vlen(dc(c)) <= 0, eqm(c.result, c.val(0))))])


def undist_inv(lc):
    c = lc.c
    is2 = lambda v: isinstance(v, MatVal) and (v.r, v.c) == (2, 1)
    return [('%s stays without coefficients' % n, lambda loc=loc: Implies(vlen(dc(c)) <= 0, eqm(lc.X.read(loc), c.val(0)))) for n, loc in lc.changed(None, is2)]


S.fn(Q + 'undistort', loops=undist_inv, ensures=lambda c: [('none without coefficients', Implies(vlen(dc(c)) <= 0, eqm(c.result, c.val(0))))])

# ---- cameras
K = CAM + '::'
cval = lambda c: c.this.ref
S.fn(K + 'center', trusted=True, value=lambda c: val(CEN, cval(c)))
S.fn(K + 'translation', trusted=True, value=lambda c: val(TRA, cval(c)))
S.fn(K + 'rotation', trusted=True, ensures=lambda c: [('rotation', And(eqm(q_(c.post, c.result), val(ROT, cval(c))), unit(q_(c.post, c.result))))])
S.fn(K + 'center_covar', trusted=True, ensures=lambda c: [('covariance', And([sel(c.post.f(c.result, 'data_'), i) == CCOV(cval(c), i) for i in range(6)]))])
S.fn(K + 'intrinsics', trusted=True, value=lambda c: INTR(cval(c)))
S.fn(K + 'clone', trusted=True, fresh_result=True)


def camera_ok(r):
    """a camera with a calibration and a rotation, whose translation is that of its center"""
    R, q = Rm(val(ROT, r)), val(ROT, r)
    k = INTR(r)
    return [('calibration present', k != 0), ('focal length and aspect ratio different from zero', And(F_(k) != 0, AR(k) != 0)), ('unit quaternion', unit(q))]


def in_camera(r, p):
    """the point in the coordinates of the camera"""
    return mul(Rm(val(ROT, r)), zipm(p, val(CEN, r), lambda a, b: a - b))


ok = lambda c: camera_ok(c.this.ref)
S.fn(K + 'as_matrix', algebra=True, requires=ok, value=lambda c: pmat(kmat(INTR(c.this.ref)), Rm(val(ROT, c.this.ref)), val(TRA, c.this.ref)))
S.fn(K + 'depth', algebra=True, requires=lambda c: ok(c)[2:], value=lambda c: in_camera(c.this.ref, c.val(0)).m[2][0])
S.fn(K + 'project', algebra=True, requires=lambda c: ok(c) + [('off the camera plane', in_camera(c.this.ref, c.val(0)).m[2][0] != 0)],
     value=lambda c: proj(INTR(c.this.ref), in_camera(c.this.ref, c.val(0))))


def proj(k, p):
    x, y, z = entries(p)
    return kmap(k, x / z, y / z)


def pmat(k, r, t):
    return mul(k, MatVal([r.m[i] + [t.m[i][0]] for i in range(3)]))


# ---- cameras with stored values
G = SCAM + '::'
CF = ('center_', 'center_covar_', 'orientation_', 'intrinsics_')
cmod = lambda *n: (lambda c: [c.pre.loc(c.this, f) for f in (n or CF)])
cov6 = lambda v, loc: [sel(v.f(loc, 'center_covar_', 'data_'), i) for i in range(6)]
cen = lambda v, loc: v.f(loc, 'center_')
ori = lambda v, loc: v.f(loc, 'orientation_', 'q_')
itr = lambda v, loc: v.f(loc, 'intrinsics_')
same = lambda a, b: And([x == y for x, y in zip(a, b)])


def default_intr(c, r):
    """a calibration object of its own holding the default values"""
    return And([r != 0] + [f for _, f in holds(st(c.post, c.X.obj(r, SCI)), *default)])


def intr_given(c, r, g):
    return And(Implies(g != 0, r == g), Implies(g == 0, default_intr(c, r)))


idq = vec(ZERO, ZERO, ZERO, ONE)
S.fn(G + '(ctor)', name='simple_camera()', match=nparams(0), modifies=cmod(), allocates=True,
     ensures=lambda c: [('at the origin', eqm(cen(c.post, c.this), vec(ZERO, ZERO, ZERO))), ('not rotated', And(eqm(Rm(ori(c.post, c.this)), ident(3)), unit(ori(c.post, c.this)))), ('default calibration', default_intr(c, itr(c.post, c.this)))])
S.fn(G + '(ctor)', name='simple_camera(center, rotation, calibration pointer)', match=lambda d: len(d['params']) == 3 and 'shared_ptr' in d['params'][2], modifies=cmod(), allocates=True,
     ensures=lambda c: [('center', eqm(cen(c.post, c.this), c.val(0))), ('rotation', eqm(ori(c.post, c.this), q_(c.pre, c.arg(1)))), ('calibration', intr_given(c, itr(c.post, c.this), c.val(2)))])
S.fn(G + '(ctor)', name='simple_camera(center, rotation, calibration)', match=lambda d: len(d['params']) == 3 and 'shared_ptr' not in d['params'][2], modifies=cmod(), allocates=True,
     ensures=lambda c: [('center', eqm(cen(c.post, c.this), c.val(0))), ('rotation', eqm(ori(c.post, c.this), q_(c.pre, c.arg(1)))),
                        ('a copy of the calibration', And(itr(c.post, c.this) != 0, itr(c.post, c.this) != c.arg(2).ref, eqm(kmat(itr(c.post, c.this)), kmat(c.arg(2).ref))))])
S.fn(G + '(ctor)', name='simple_camera(base)', match=lambda d: d['params'] == ['const %s &' % CAM], modifies=cmod(),
     ensures=lambda c: [('center', eqm(cen(c.post, c.this), val(CEN, c.arg(0).ref))), ('rotation', eqm(ori(c.post, c.this), val(ROT, c.arg(0).ref))), ('calibration', itr(c.post, c.this) == INTR(c.arg(0).ref)),
                        ('covariance', same(cov6(c.post, c.this), [CCOV(c.arg(0).ref, i) for i in range(6)]))])
S.fn(G + 'clone', ensures=lambda c: [('another object', And(c.result != 0, c.result != c.this.ref))] + copied(c, c.X.obj(c.result, SCAM), c.this))


def copied(c, n, o):
    return [('center', eqm(cen(c.post, n), cen(c.pre, o))), ('rotation', eqm(ori(c.post, n), ori(c.pre, o))), ('calibration', itr(c.post, n) == itr(c.pre, o)), ('covariance', same(cov6(c.post, n), cov6(c.pre, o)))]


uq = lambda c: [('unit quaternion', unit(ori(c.pre, c.this)))]
S.fn(G + 'center', value=lambda c: cen(c.pre, c.this))
S.fn(G + 'rotation', ensures=lambda c: [('the stored rotation', eqm(q_(c.post, c.result), ori(c.pre, c.this)))])
S.fn(G + 'intrinsics', value=lambda c: itr(c.pre, c.this))
S.fn(G + 'get_intrinsics', value=lambda c: itr(c.pre, c.this))
S.fn(G + 'center_covar', ensures=lambda c: [('the stored covariance', same([sel(c.post.f(c.result, 'data_'), i) for i in range(6)], cov6(c.pre, c.this)))])
S.fn(G + 'get_center', inline=True, ensures=lambda c: [('the stored center', eqm(c.post.get(c.result), cen(c.pre, c.this)))])
S.fn(G + 'get_rotation', inline=True, ensures=lambda c: [('the stored rotation', eqm(q_(c.post, c.result), ori(c.pre, c.this)))])
S.fn(G + 'get_center_covar', inline=True, ensures=lambda c: [('the stored covariance', same([sel(c.post.f(c.result, 'data_'), i) for i in range(6)], cov6(c.pre, c.this)))])
S.fn(G + 'translation', algebra=True, requires=uq, value=lambda c: mapm(mul(Rm(ori(c.pre, c.this)), cen(c.pre, c.this)), lambda t: -t))
S.fn(G + 'set_center', modifies=cmod('center_'), ensures=lambda c: [('the given center', eqm(cen(c.post, c.this), c.val(0)))])
S.fn(G + 'set_rotation', modifies=cmod('orientation_'), ensures=lambda c: [('the given rotation', eqm(ori(c.post, c.this), q_(c.pre, c.arg(0))))])
S.fn(G + 'set_center_covar', modifies=cmod('center_covar_'), ensures=lambda c: [('the given covariance', same(cov6(c.post, c.this), [sel(c.pre.f(c.arg(0), 'data_'), i) for i in range(6)]))])
S.fn(G + 'set_intrinsics', modifies=cmod('intrinsics_'), allocates=True, ensures=lambda c: [('the given or a default calibration', intr_given(c, itr(c.post, c.this), c.val(0)))])
S.fn(G + 'set_translation', algebra=True, requires=uq, modifies=cmod('center_'),
     ensures=lambda c: [('the center of that translation', eqm(cen(c.post, c.this), mapm(mul(transpose(Rm(ori(c.pre, c.this))), c.val(0)), lambda t: -t))),
                        ('translation is the given one', eqm(mapm(mul(Rm(ori(c.pre, c.this)), cen(c.post, c.this)), lambda t: -t), c.val(0)))])


def sub(a, b):
    return zipm(a, b, lambda x, y: x - y)


def look_ens(c):
    d, up = sub(c.val(0), cen(c.pre, c.this)), c.val(1)
    R = Rm(ori(c.post, c.this))
    p, u = mul(R, d), mul(R, up)
    z, un = E.unit_atoms(d), E.unit_atoms(up)
    x0 = mapm(cross(un, z), lambda t: -t)
    m = E.SQRT(E.canon(dot(x0, x0)))
    x = mapm(x0, lambda t: t / m)
    y = cross(z, x)
    rows = [x, y, z]
    D, U = E.SQRT(E.canon(dot(d, d))), E.SQRT(E.canon(dot(up, up)))
    dt = lambda r, v: dot(r, v)
    cr = cross(up, d)
    return [('proper rotation', unit(ori(c.post, c.this)))] + \
        [('rows', And([R.m[i][j] == rows[i].m[j][0] for i in range(3) for j in range(3)])),
         ('axes, direction and up', And(dt(x, d) == 0, dt(y, d) == 0, dt(z, d) == D, dt(x, up) == 0, dt(y, up) == -m * U))] + \
        [('the point is on the principal axis', And(p.m[0][0] == 0, p.m[1][0] == 0)), ('the distance is the depth', p.m[2][0] == D), ('the point is in front', p.m[2][0] > 0),
            ('up has no horizontal component', u.m[0][0] == 0), ('height of up', u.m[1][0] == -m * U), ('length of the direction and of up', And(D > 0, U > 0)),
            ('length of the cross product', And(m * m * U * U * D * D == dot(cr, cr), dot(cr, cr) > 0)), ('the first axis has a length', m > 0), ('product of the lengths', m * U > 0), ('up is up', u.m[1][0] < 0)]


nonzero = lambda v: dot(v, v) > 0
S.fn(G + 'look_at', wlog=lambda c: [(c.arg(0), zipm(cen(c.pre, c.this), vec(*z3.Reals('view_x view_y view_z')), lambda a, b: a + b))],
     algebra=60.0, unit_vectors=True, modifies=cmod('orientation_'), ensures=look_ens,
     requires=lambda c: [('up is a direction', nonzero(c.val(1))), ('looks somewhere', nonzero(sub(c.val(0), cen(c.pre, c.this)))), ('up and the direction of view are not parallel', nonzero(cross(c.val(1), sub(c.val(0), cen(c.pre, c.this))))),
                         ('logger', c.pre.f(c.this, 'm_logger') != 0)])


@S.lemma('mapping to and from image coordinates are inverse for a lens without distortion')
def inverse_lemma(L):
    r = z3.Int('calibration')
    u, v, x, y = z3.Reals('u v x y')
    ok = And(F_(r) != 0, AR(r) != 0)
    a, b = unmapped(r, vec(u, v))
    yield 'map after unmap', Implies(And(ok, DIS[0](r, a, b) == a, DIS[1](r, a, b) == b), eqm(kmap(r, a, b), vec(u, v)))
    m = kmap(r, x, y)
    a, b = unmapped(r, m)
    yield 'unmap after map', Implies(And(ok, DIS[0](r, x, y) == x, DIS[1](r, x, y) == y), And(a == x, b == y))


@S.lemma('projection is the homogeneous product of the camera matrix')
def matrix_lemma(L):
    r = z3.Int('camera')
    k = INTR(r)
    p = vec(*z3.Reals('x y z'))
    q = in_camera(r, p)
    x, y, z = entries(q)
    h = mul(pmat(kmat(k), Rm(val(ROT, r)), val(TRA, r)), vec(*(entries(p) + [ONE])))
    pose = eqm(val(TRA, r), mapm(mul(Rm(val(ROT, r)), val(CEN, r)), lambda t: -t))
    a, b = x / z, y / z
    hyp = And(*([pose] + [f for _, f in camera_ok(r)] + [z != 0]))
    yield 'third component is the depth', Implies(hyp, h.m[2][0] == z)
    pr = proj(k, q)
    hyp = And(hyp, DIS[0](k, a, b) == a, DIS[1](k, a, b) == b)
    yield 'first two over the depth are the projection', Implies(hyp, And(h.m[0][0] == pr.m[0][0] * z, h.m[1][0] == pr.m[1][0] * z))
