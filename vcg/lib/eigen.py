"""Trusted model of Eigen: matrices of static size (and dynamic column vectors) over exact reals.

Expressions are evaluated eagerly (the repository has no aliasing assignment);
float and double are both the reals.  A quaternion is its coefficient vector
(x, y, z, w).  Quaternion-from-matrix and the decompositions are not computed:
only their specification is assumed.
"""
import z3
from fractions import Fraction
from ..engine import *
from . import core as _core

SQRT = z3.Function('sqrt', REAL, REAL)
SIN = z3.Function('sin', REAL, REAL)
COS = z3.Function('cos', REAL, REAL)
TAN = z3.Function('tan', REAL, REAL)
ATAN2 = z3.Function('atan2', REAL, REAL, REAL)
POW = z3.Function('pow', REAL, REAL, REAL)
EXP = z3.Function('exp', REAL, REAL)
CBRT = z3.Function('cbrt', REAL, REAL)
PI = z3.Const('pi!real', REAL)
QFROM = {}


def is_eigen(ty):
    return ty.k == 'rec' and ty.q.startswith('Eigen::')


def dims(ty):
    """(rows, cols) of a type with static size"""
    if ty.k != 'rec':
        return None
    if ty.q == 'Eigen::Quaternion':
        return (4, 1)
    if ty.q == 'Eigen::Matrix':
        r, c = ty.arg(1), ty.arg(2)
        if r > 0 and c > 0:
            return (r, c)
    return None


def is_dynvec(ty):
    return ty.k == 'rec' and ty.q == 'Eigen::Matrix' and ty.arg(1) == -1 and ty.arg(2) == 1


def is_mat(ty):
    return dims(ty) is not None


def elem_sort(X, ty):
    return X.sort(ty.arg(0))


def sort(X, ty):
    if ty.k != 'rec':
        return None
    d = dims(ty)
    if d:
        return mat_sort(d[0], d[1], elem_sort(X, ty))
    if is_dynvec(ty):
        return vec_sort(elem_sort(X, ty))
    return None


def unpack(X, ty, t):
    if isinstance(t, MatVal):
        return t
    r, c = dims(ty)
    return MatVal.make(r, c, lambda i, j: acc(t.sort(), i * c + j, t))


def pack(X, ty, v):
    d = dims(ty)
    if d is None:
        raise Unsupported('matrix stored as ' + ty.id)
    es = elem_sort(X, ty)
    return mat_sort(d[0], d[1], es).constructor(0)(*[v.m[i][j] for i in range(d[0]) for j in range(d[1])])


def havoc(X, ty, name):
    d = dims(ty)
    es = elem_sort(X, ty)
    out = []
    for i in range(d[0]):
        row = []
        for j in range(d[1]):
            v = X.fresh('%s_%d%d' % (name, i, j), es)
            row.append(v)
            if es == INT:
                X.ref_fact(v, ty.arg(0))
        out.append(row)
    m = MatVal(out)
    if name.startswith('p_'):
        for row in out:
            for v in row:
                X.initial.add(v.decl().name())
    return m


def mat_get(X, m, i, j):
    return m.m[i][j]


def mat_set(X, m, i, j, v):
    n = MatVal(m.m)
    n.m[i][j] = v
    return n


# ----------------------------------------------------------------- real functions
_canon_cache = {}
_keep = []


def poly(t, memo):
    """polynomial over atoms: {((atom id, exponent), ...): Fraction}; None when too large"""
    i = t.get_id()
    if i in memo:
        return memo[i]
    r = None
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        r = {(): f} if f else {}
    elif z3.is_int_value(t):
        r = {(): Fraction(t.as_long())} if t.as_long() else {}
    elif z3.is_app(t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = {}
            for n, c in enumerate(t.children()):
                sg = -1 if n and k == z3.Z3_OP_SUB else 1
                for m, v in poly(c, memo).items():
                    r[m] = r.get(m, 0) + sg * v
            r = {m: v for m, v in r.items() if v}
        elif k == z3.Z3_OP_UMINUS:
            r = {m: -v for m, v in poly(t.arg(0), memo).items()}
        elif k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children():
                q = poly(c, memo)
                if len(q) * len(r) > 4000:
                    r = None
                    break
                o = {}
                for m1, v1 in r.items():
                    for m2, v2 in q.items():
                        d = dict(m1)
                        for a, e in m2:
                            d[a] = d.get(a, 0) + e
                        m = tuple(sorted(d.items()))
                        o[m] = o.get(m, 0) + v1 * v2
                r = {m: v for m, v in o.items() if v}
        elif k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)) and t.arg(1).numerator_as_long():
            f = Fraction(t.arg(1).denominator_as_long(), t.arg(1).numerator_as_long())
            r = {m: v * f for m, v in poly(t.arg(0), memo).items()}
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() in (2, 3, 4):
            n = int(t.arg(1).as_fraction())
            x = t.arg(0)
            for _ in range(n - 1):
                x = x * t.arg(0)
            _keep.append(x)
            r = poly(x, memo)
    if r is None:
        _keep.append(t)
        r = {((i, 1),): Fraction(1)}
        memo.setdefault('atoms', {})[i] = t
    memo[i] = r
    return r


def canon(t):
    """canonical form of a real term as a polynomial over its atoms"""
    if t.sort() != REAL:
        return z3.simplify(t)
    memo = {}
    p = poly(t, memo)
    atoms = memo.get('atoms', {})
    # the atoms keep their creation order: the ids of hash-consed terms do not change while they live
    key = tuple(sorted(p.items()))
    r = _canon_cache.get(key)
    if r is not None:
        return r
    ts = []
    for m, v in sorted(p.items()):
        x = None
        for a, e in m:
            for _ in range(e):
                x = atoms[a] if x is None else x * atoms[a]
        cst = z3.RealVal(v)
        ts.append(cst if x is None else x if v == 1 else cst * x)
    r = z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts)
    _canon_cache[key] = r
    return r


def lead(t):
    """leading coefficient of a canonical term"""
    if z3.is_add(t):
        return lead(t.arg(0)) if not z3.is_rational_value(t.arg(0)) or t.num_args() == 1 else lead(t.arg(1))
    if z3.is_rational_value(t):
        return t.as_fraction()
    if z3.is_mul(t) and z3.is_rational_value(t.arg(0)):
        return t.arg(0).as_fraction()
    return Fraction(1)


def neg_lead(t):
    return lead(t) < 0


def sos(t):
    """evidently non-negative"""
    if z3.is_rational_value(t):
        return t.numerator_as_long() >= 0
    if z3.is_add(t):
        return all(sos(c) for c in t.children())
    if z3.is_mul(t):
        cs = list(t.children())
        if len(cs) == 2 and cs[0].eq(cs[1]):
            return True
        return all(sos(c) for c in cs)
    return z3.is_app(t) and t.decl().name() == 'sqrt' and sos(t.arg(0)) and False


def sqrt(X, t):
    nonneg = sos(t)
    t = canon(t)
    r = SQRT(t)
    if not X.ghost and (nonneg or z3.is_rational_value(t) and t.numerator_as_long() >= 0):
        X.assume(r >= 0)
        X.assume(r * r == t)
        X.assume(Implies(t > 0, r > 0))
    elif not X.ghost:
        X.assume(Implies(t >= 0, r >= 0))
        X.assume(Implies(t >= 0, r * r == t))
        X.assume(Implies(t > 0, r > 0))
    return r


def sin(X, t):
    t = canon(t)
    if z3.is_rational_value(t) and t.numerator_as_long() == 0:
        return z3.RealVal(0)
    s = 1
    if neg_lead(t):
        t, s = canon(-t), -1
    trig_facts(X, t)
    return SIN(t) if s > 0 else -SIN(t)


def cos(X, t):
    t = canon(t)
    if z3.is_rational_value(t) and t.numerator_as_long() == 0:
        return z3.RealVal(1)
    if neg_lead(t):
        t = canon(-t)
    trig_facts(X, t)
    return COS(t)


def trig_facts(X, t):
    if not X.ghost:
        X.assume(SIN(t) * SIN(t) + COS(t) * COS(t) == 1)


def atan2(X, y, x):
    y, x = canon(y), canon(x)
    a = ATAN2(y, x)
    r = sqrt(X, x * x + y * y)
    if not X.ghost:
        c, s = cos(X, a), sin(X, a)
        X.assume(r * c == x)
        X.assume(r * s == y)
        X.assume(And(a > -PI, a <= PI))
    return a


def power(X, a, b):
    a, b = canon(a), canon(b)
    if z3.is_rational_value(b):
        f = Fraction(b.numerator_as_long(), b.denominator_as_long())
        if f == Fraction(1, 2):
            return sqrt(X, a)
        if abs(f - Fraction(1, 3)) < Fraction(1, 10 ** 15):
            r = CBRT(a)
            if not X.ghost:
                X.assume(Implies(a > 0, r > 0))
                X.assume(Implies(a > 0, r * r * r == a))
            return r
        if f.denominator == 1 and 0 <= f < 9:
            out = z3.RealVal(1)
            for _ in range(int(f)):
                out = out * a
            return out
    return POW(a, b)


def real(v):
    if isinstance(v, (int, float)):
        return z3.RealVal(v)
    if isinstance(v, z3.ExprRef) and v.sort() == INT:
        return z3.ToReal(v) if not z3.is_int_value(v) else z3.RealVal(v.as_long())
    return v


def _f1(f):
    def h(X, c):
        return f(X, real(c.val(0)))
    return h


for n, f in (('sqrt', sqrt), ('sin', sin), ('cos', cos)):
    for q in ('std::' + n, n, n + 'f', 'std::' + n + 'f'):
        _core.HANDLERS[q] = _f1(f)
        _core.PURE.add(q)
for n, f in (('tan', TAN), ('exp', EXP)):
    for q in ('std::' + n, n):
        _core.HANDLERS[q] = _f1(lambda X, t, f=f: f(canon(t)))
for q in ('std::atan2', 'atan2'):
    _core.HANDLERS[q] = lambda X, c: atan2(X, real(c.val(0)), real(c.val(1)))
for q in ('std::pow', 'pow'):
    _core.HANDLERS[q] = lambda X, c: power(X, real(c.val(0)), real(c.val(1)))


# ----------------------------------------------------------------- linear algebra on MatVal
def zero(e=REAL):
    return z3.RealVal(0) if e == REAL else z3.IntVal(0)


def is0(t):
    return (z3.is_rational_value(t) or z3.is_int_value(t)) and t.as_fraction() == 0 if z3.is_rational_value(t) else z3.is_int_value(t) and t.as_long() == 0


def is1(t):
    return z3.is_rational_value(t) and t.as_fraction() == 1 or z3.is_int_value(t) and t.as_long() == 1


def times(a, b):
    if is0(a) or is0(b):
        return zero(a.sort())
    if is1(a):
        return b
    if is1(b):
        return a
    return a * b


def plus(a, b):
    if is0(a):
        return b
    if is0(b):
        return a
    return a + b


def mul(a, b):
    def f(i, j):
        t = times(a.m[i][0], b.m[0][j])
        for k in range(1, a.c):
            t = plus(t, times(a.m[i][k], b.m[k][j]))
        return t
    if a.c != b.r:
        raise Unsupported('matrix sizes')
    return MatVal.make(a.r, b.c, f)


def zipm(a, b, f):
    if (a.r, a.c) != (b.r, b.c):
        raise Unsupported('matrix sizes')
    return MatVal.make(a.r, a.c, lambda i, j: f(a.m[i][j], b.m[i][j]))


def mapm(a, f):
    return MatVal.make(a.r, a.c, lambda i, j: f(a.m[i][j]))


def transpose(a):
    return MatVal.make(a.c, a.r, lambda i, j: a.m[j][i])


def ident(n):
    return MatVal.make(n, n, lambda i, j: z3.RealVal(1 if i == j else 0))


def zeros(r, c):
    return MatVal.make(r, c, lambda i, j: z3.RealVal(0))


def minor(a, i, j):
    return MatVal([[a.m[p][q] for q in range(a.c) if q != j] for p in range(a.r) if p != i])


def det(a):
    if a.r == 1:
        return a.m[0][0]
    t = None
    for j in range(a.c):
        x = times(a.m[0][j], det(minor(a, 0, j)))
        if j % 2:
            x = -x
        t = x if t is None else plus(t, x)
    return t


def adjugate(a):
    def f(i, j):
        d = det(minor(a, j, i)) if a.r > 1 else z3.RealVal(1)
        return d if (i + j) % 2 == 0 else -d
    return MatVal.make(a.r, a.c, f)


def entries(a):
    return [a.m[i][j] for i in range(a.r) for j in range(a.c)]


def dot(a, b):
    t = None
    for x, y in zip(entries(a), entries(b)):
        t = times(x, y) if t is None else plus(t, times(x, y))
    return t


def cross(a, b):
    a, b = entries(a), entries(b)
    return MatVal([[a[1] * b[2] - a[2] * b[1]], [a[2] * b[0] - a[0] * b[2]], [a[0] * b[1] - a[1] * b[0]]])


def vec(*v):
    return MatVal([[x] for x in v])


def skew(t):
    x, y, z = entries(t)
    o = z3.RealVal(0)
    return MatVal([[o, -z, y], [z, o, -x], [-y, x, o]])


def eqm(a, b):
    return And([x == y for x, y in zip(entries(a), entries(b))])


# quaternions (x, y, z, w)
def qmul(a, b):
    ax, ay, az, aw = entries(a)
    bx, by, bz, bw = entries(b)
    p, q = times, plus

    def m(*ts):
        out = None
        for s, u, v in ts:
            t = times(u, v)
            if s < 0:
                t = -t if not is0(t) else t
            out = t if out is None else plus(out, t)
        return out
    return vec(m((1, aw, bx), (1, ax, bw), (1, ay, bz), (-1, az, by)),
               m((1, aw, by), (1, ay, bw), (1, az, bx), (-1, ax, bz)),
               m((1, aw, bz), (1, az, bw), (1, ax, by), (-1, ay, bx)),
               m((1, aw, bw), (-1, ax, bx), (-1, ay, by), (-1, az, bz)))


def qconj(a):
    x, y, z, w = entries(a)
    return vec(-x, -y, -z, w)


def qrot(q, v):
    """Eigen's QuaternionBase::_transformVector"""
    x, y, z, w = entries(q)
    u = vec(x, y, z)
    uv = cross(u, v)
    uv = mapm(uv, lambda t: t + t)
    return zipm(zipm(v, mapm(uv, lambda t: times(w, t)), lambda a, b: a + b), cross(u, uv), lambda a, b: a + b)


def qmat(q):
    """Eigen's toRotationMatrix"""
    x, y, z, w = entries(q)
    tx, ty, tz = 2 * x, 2 * y, 2 * z
    one = z3.RealVal(1)
    return MatVal([[one - (ty * y + tz * z), ty * x - tz * w, tz * x + ty * w],
                   [ty * x + tz * w, one - (tx * x + tz * z), tz * y - tx * w],
                   [tz * x - ty * w, tz * y + tx * w, one - (tx * x + ty * y)]])


def qnorm2(q):
    return dot(q, q)


def orthonormal(m):
    """conditions for a proper rotation matrix"""
    p = mul(transpose(m), m)
    return And([p.m[i][j] == (1 if i == j else 0) for i in range(3) for j in range(i, 3)] + [det(m) == 1])


def qfrom(X, m):
    """a quaternion for a rotation matrix; unspecified for other matrices"""
    es = [z3.simplify(x) for x in entries(m)]
    fs = [z3.Function('quat_of_matrix_%d' % i, *([REAL] * 9 + [REAL])) for i in range(4)]
    q = vec(*[f(*es) for f in fs])
    if not X.ghost:
        R = qmat(q)
        o = orthonormal(MatVal([es[0:3], es[3:6], es[6:9]]))
        if all(k.get_id() in X.pcset for k in o.children()):
            X.assume(qnorm2(q) == 1)
            for i in range(3):
                for j in range(3):
                    X.assume(R.m[i][j] == es[3 * i + j])
        else:
            X.assume(Implies(o, And([qnorm2(q) == 1] + [R.m[i][j] == es[3 * i + j] for i in range(3) for j in range(3)])))
    return q


class AngleAxisVal:
    def __init__(self, angle, axis):
        self.angle, self.axis = angle, axis

    def quat(self, X):
        h = self.angle / 2
        s, c = sin(X, h), cos(X, h)
        x, y, z = entries(self.axis)
        return vec(times(s, x), times(s, y), times(s, z), c)


class Comma:
    def __init__(self, loc, r, c):
        self.loc, self.r, self.c, self.n = loc, r, c, 0

    def put(self, X, v):
        if self.n >= self.r * self.c:
            raise Unsupported('too many coefficients for the comma initialiser')
        m = MatVal(X.read(self.loc).m)
        m.m[self.n // self.c][self.n % self.c] = v
        self.n += 1
        X.write(self.loc, m)
        return self


class Ldlt:
    def __init__(self, m):
        self.m = m


class Svd:
    """m = u diag(s) v^T with orthogonal u and v and descending s >= 0"""
    def __init__(self, X, m):
        k = m.r
        if (m.c, k) != (3, 3):
            raise Unsupported('singular value decomposition of a matrix that is not 3 x 3')
        self.u, self.v = (MatVal.make(k, k, lambda i, j: X.fresh('svd_%s%d%d' % (n, i, j), REAL)) for n in 'uv')
        self.s = MatVal.make(k, 1, lambda i, j: X.fresh('svd_s%d' % i, REAL))
        es = entries(self.s)
        d = MatVal.make(k, k, lambda i, j: es[i] if i == j else z3.RealVal(0))
        du, dv = orthogonal(X, self.u), orthogonal(X, self.v)
        col = lambda x, i: vec(*[x.m[r][i] for r in range(k)])
        fs = [eqm(mul(mul(self.u, d), transpose(self.v)), m)]
        for i in range(k):
            fs += [eqm(mul(m, col(self.v, i)), mapm(col(self.u, i), lambda t: es[i] * t)), eqm(mul(transpose(m), col(self.u, i)), mapm(col(self.v, i), lambda t: es[i] * t))]
        for f in fs:
            for g in f.children():
                X.assume(g)
        for i in range(k):
            X.assume(es[i] >= (es[i + 1] if i + 1 < k else 0))
        X.assume(es[0] * es[0] >= es[1] * es[1])
        X.assume(es[1] * es[1] >= es[2] * es[2])
        X.assume(es[2] * es[2] >= 0)
        X.assume(det(m) == du * dv * es[0] * es[1] * es[2])
        X.assume(Implies(det(m) == 0, es[2] == 0))
        X.assume(dot(m, m) == es[0] * es[0] + es[1] * es[1] + es[2] * es[2])


# matrices known to be orthogonal, by their elements: the determinant (products with them
# get elements of their own and the facts that hold for products with orthogonal matrices)
def okey(m):
    return tuple(x.get_id() for x in entries(m))


def orthogonal(X, m, d=None):
    """m is an orthogonal 3 x 3 matrix: its cofactors are its elements times the determinant, +1 or -1"""
    e, d = d, X.fresh('det', REAL)
    for f in [d * d == 1, Implies(d < 0, d == -1), Implies(d >= 0, d == 1)] + ([d == e] if e is not None else []):
        X.assume(f)
    for p in (mul(transpose(m), m), mul(m, transpose(m))):
        for i in range(3):
            for j in range(i, 3):
                X.assume(p.m[i][j] == (1 if i == j else 0))
    X.assume(det(m) == d)
    a = adjugate(m)
    for i in range(3):
        for j in range(3):
            X.assume(a.m[j][i] == d * m.m[i][j])
    orth(X)[okey(m)] = (d, m)
    return d


def orth(X):
    if not hasattr(X, 'orth_memo'):
        X.orth_memo = {}
    return X.orth_memo


def invariants(X, m):
    """determinant and squared norm"""
    if not hasattr(X, 'orth_inv'):
        X.orth_inv = {}
    for k in (m, transpose(m)):
        r = X.orth_inv.get(okey(k))
        if r is not None:
            return r
    if frozenset(x.get_id() for x in entries(m) if not is0(x)) in unit_known(X):
        return z3.simplify(det(m)), z3.RealVal(1)
    return z3.simplify(det(m)), plus_all([times(x, x) for x in entries(m)])


def unit_known(X):
    if not hasattr(X, 'unit_memo'):
        X.unit_memo = set()
        X.scaled_memo = {}
    return X.unit_memo


def plus_all(xs):
    r = z3.RealVal(0)
    for x in xs:
        r = plus(r, x)
    return r


def orth_det(X, m):
    """determinant of a matrix known to be orthogonal"""
    if (m.r, m.c) != (3, 3):
        return None
    for k in (m, transpose(m)):
        r = orth(X).get(okey(k))
        if r is not None:
            return r[0]
    if all(z3.is_rational_value(z3.simplify(x)) for x in entries(m)):
        p = mul(transpose(m), m)
        if all(z3.is_true(z3.simplify(p.m[i][j] == (1 if i == j else 0))) for i in range(3) for j in range(3)):
            return z3.simplify(det(m))
    return None


def prod(X, a, b):
    if X.ghost or not orth(X):
        return mul(a, b)
    p = mul(a, b)
    da, db = orth_det(X, a), orth_det(X, b) if (b.r, b.c) == (3, 3) else None
    if (da is None and db is None) or (p.r, p.c) != (3, 3):
        return p
    r = MatVal.make(3, 3, lambda i, j: X.fresh('prod_%d%d' % (i, j), REAL))
    fs = [eqm(r, p)]
    if da is not None:
        fs.append(eqm(mul(transpose(a), r), b))
    if db is not None:
        fs.append(eqm(mul(r, transpose(b)), a))
    unit_known(X)
    for x, o, left in ((a, b, False), (b, a, True)):
        es = [y for y in entries(x) if not is0(y)]
        sc = X.scaled_memo.get(tuple(y.get_id() for y in es))
        if sc is not None:
            # a multiple of one factor gives that multiple of the product
            it = iter(sc[1])
            w = mapm(x, lambda y: y if is0(y) else next(it))
            w = mul(o, w) if left else mul(w, o)
            fs.append(eqm(mapm(r, lambda y: times(y, sc[0])), w))
            X.scaled_memo[tuple(y.get_id() for y in entries(r))] = (sc[0], entries(w))
            break
    if da is not None and db is not None:
        orthogonal(X, r, times(da, db))
    else:
        o, d = (b, da) if da is not None else (a, db)
        do, n2 = invariants(X, o)
        do = times(d, do)
        X.orth_inv[okey(r)] = (do, n2)
        fs += [And(dot(r, r) == n2, det(r) == do)]
    for f in fs:
        for g in f.children():
            X.assume(g)
    return r


# ----------------------------------------------------------------- values
def rd(X, v):
    if isinstance(v, ObjLoc):
        return v
    if isinstance(v, Loc):
        v = X.read(v)
    return v


def matof(X, v):
    v = rd(X, v)
    if isinstance(v, MatVal):
        return v
    if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_DATATYPE_SORT and v.sort().name().startswith('Mat'):
        raise Unsupported('packed matrix')
    raise Unsupported('matrix operand %s' % type(v).__name__)


def conv_function(X, frm, to):
    """conversion operator of a repository class to an Eigen type"""
    for k, d in X.prog.decls.items():
        if d.get('conv') and d.get('cls') == frm.id and X.prog.ty(d['ret']).unref().id == to.id:
            return k
    return None


def construct(X, e, ty):
    d = X.prog.decls[e['fn']]
    ps = d['params']
    args = X.eval_args(d, e['a']) if e['a'] else []
    if ty.q == 'Eigen::AngleAxis':
        if len(args) == 2:
            return AngleAxisVal(real(rd(X, args[0])), matof(X, args[1]))
        if len(args) == 1:
            return rd(X, args[0])
        raise Unsupported('AngleAxis construction')
    if ty.q == 'Eigen::JacobiSVD':
        return Svd(X, matof(X, args[0]))
    if ty.q == 'Eigen::Quaternion':
        if not args:
            return havoc(X, ty, 'uninit')
        if len(args) == 4:
            w, x, y, z = [real(rd(X, a)) for a in args]
            return vec(x, y, z, w)
        v = rd(X, args[0])
        if isinstance(v, AngleAxisVal):
            return v.quat(X)
        m = matof(X, v)
        if (m.r, m.c) == (4, 1):
            return m
        if (m.r, m.c) == (3, 3):
            return qfrom(X, m)
        raise Unsupported('Quaternion construction')
    if ty.q == 'Eigen::Matrix':
        dm = dims(ty)
        if dm is None:
            if not is_dynvec(ty):
                raise Unsupported('construction of ' + ty.id)
            s = X.sort(ty)
            if not args:
                return vmk(s, z3.IntVal(0), X.fresh('data', s.accessor(0, 1).range()))
            v = rd(X, args[0])
            if isinstance(v, z3.ExprRef) and v.sort() == INT:
                return vmk(s, v, X.fresh('data', s.accessor(0, 1).range()))
            return dynof(X, v, ty)
        es = elem_sort(X, ty)
        if not args:
            return havoc(X, ty, 'uninit')
        vals = [rd(X, a) for a in args]
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, MatVal):
                if (v.r, v.c) != dm:
                    raise Unsupported('matrix sizes')
                return v
            if isinstance(v, ObjLoc):
                k = conv_function(X, v.ty, ty)
                if k is None:
                    raise Unsupported('conversion of %s to %s' % (v.ty.id, ty.id))
                r = X.invoke(k, v, [], e)
                return matof(X, r)
            if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_DATATYPE_SORT:
                pt = X.prog.ty(ps[0]).unref()
                if X.is_record(pt):
                    o = X.new_obj(pt)
                    X.unpack(o, v)
                    k = conv_function(X, pt, ty)
                    if k:
                        return matof(X, X.invoke(k, o, [], e))
            if dm == (1, 1):
                return MatVal([[real(v)]])
            if isinstance(v, z3.ExprRef) and X.prog.ty(ps[0]).is_ptr():
                raise Unsupported('matrix from raw memory')
            raise Unsupported('matrix construction from one argument')
        if dm[1] == 1 and len(vals) == dm[0] or dm[0] == 1 and len(vals) == dm[1]:
            vals = [real(v) if es == REAL else v for v in vals]
            return MatVal([[v] for v in vals]) if dm[1] == 1 else MatVal([vals])
        raise Unsupported('matrix construction')
    raise Unsupported('construction of ' + ty.id)


def dynof(X, v, ty=None):
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, MatVal):
        s = X.sort(ty)
        a = X.fresh('data', s.accessor(0, 1).range())
        for i, x in enumerate(entries(v)):
            a = z3.Store(a, z3.IntVal(i), x)
        return vmk(s, z3.IntVal(len(entries(v))), a)
    raise Unsupported('dynamic vector')


class MapMem:
    """Eigen::Map over unknown memory"""
    def __init__(self, addr, n):
        self.addr, self.n = addr, n


def cidx(v):
    v = simp(v)
    if z3.is_int_value(v):
        return v.as_long()
    return None


def elem_loc(X, c, i, j, line):
    """reference to an element; symbolic indices are split into cases"""
    v = c.obj
    o = c.o
    if not isinstance(o, Loc):
        o = X.new_cell(c.cty, v, 'tmp')
    ci = cidx(i)
    cj = cidx(j) if j is not None else 0
    if not isinstance(v, MatVal):
        raise Unsupported('element of ' + type(v).__name__)
    if j is None and v.r == 1:
        ci, cj, i, j = 0, ci, z3.IntVal(0), i
    X.oblige('matrix element outside the matrix', 'safety', And(i >= 0, i < v.r, (j >= 0) if j is not None else True, (j < v.c) if j is not None else v.c == 1), line)
    if ci is None:
        for k in range(v.r):
            if k == v.r - 1 or X.decide(i == k):
                ci = k
                break
    if cj is None:
        for k in range(v.c):
            if k == v.c - 1 or X.decide(j == k):
                cj = k
                break
    if ci < 0 or cj < 0 or ci >= v.r or cj >= v.c:
        raise PathEnd()
    return MatElemLoc(o, ci, cj, X.prog.ty('double'))


def norm(X, v):
    return sqrt(X, dot(v, v))


def maxabs(X, es):
    m = es[0]
    for x in es[1:]:
        m = If(x > m, x, m)
    return m


def call(X, c):
    d, e = c.d, c.e
    q = d['q']
    n = q.rsplit('::', 1)[1]
    cls = q.rsplit('::', 2)[-2] if d.get('cls') else ''
    line = c.line
    args = c.args
    na = len(args)
    h = FUN.get((cls, n, na)) or FUN.get((n, na)) or FUN.get((cls, n)) or FUN.get(n)
    if h is None:
        raise Unsupported('no model of %s with %d arguments' % (q, na))
    return h(X, c)


FUN = {}


def fun(*names):
    def deco(f):
        for n in names:
            FUN[n] = f
        return f
    return deco


def ret_dims(X, c):
    t = X.prog.ty(c.d['cls'])
    # DenseBase<Matrix<...>> / MatrixBase<...>: the derived type is the first argument
    while t.q != 'Eigen::Matrix':
        t = t.arg(0)
    return dims(t)


@fun(('DenseBase', 'Zero', 0))
def _zero(X, c):
    r, k = ret_dims(X, c)
    return zeros(r, k)


@fun(('DenseBase', 'Ones', 0))
def _ones(X, c):
    r, k = ret_dims(X, c)
    return MatVal.make(r, k, lambda i, j: z3.RealVal(1))


@fun(('DenseBase', 'Constant', 1))
def _const(X, c):
    r, k = ret_dims(X, c)
    v = c.val(0)
    return MatVal.make(r, k, lambda i, j: v)


@fun(('MatrixBase', 'Identity', 0))
def _ident(X, c):
    r, k = ret_dims(X, c)
    return MatVal.make(r, k, lambda i, j: z3.RealVal(1 if i == j else 0))


@fun(('MatrixBase', 'UnitX', 0), ('MatrixBase', 'UnitY', 0), ('MatrixBase', 'UnitZ', 0))
def _unit(X, c):
    r, k = ret_dims(X, c)
    p = 'XYZ'.index(c.d['q'][-1])
    return MatVal.make(r, k, lambda i, j: z3.RealVal(1 if i == p else 0))


@fun('setIdentity')
def _setident(X, c):
    v = c.obj
    if c.d['q'].startswith('Eigen::Quaternion'):
        c.set(vec(z3.RealVal(0), z3.RealVal(0), z3.RealVal(0), z3.RealVal(1)))
    else:
        c.set(MatVal.make(v.r, v.c, lambda i, j: z3.RealVal(1 if i == j else 0)))
    return c.o


@fun('setZero')
def _setzero(X, c):
    v = c.obj
    c.set(zeros(v.r, v.c))
    return c.o


@fun(('DenseBase', 'block', 2), ('DenseBase', 'block', 4))
def _block(X, c):
    i, j = cidx(c.val(0)), cidx(c.val(1))
    if len(c.args) == 4:
        r, k = cidx(c.val(2)), cidx(c.val(3))
    else:
        t = X.prog.ty(c.d['ret']).unref()
        r, k = t.arg(1), t.arg(2)
    if None in (i, j, r, k) or not isinstance(r, int):
        raise Unsupported('block position')
    return block(X, c, i, j, r, k)


def block(X, c, i, j, r, k):
    v = c.obj
    if not isinstance(v, MatVal):
        raise Unsupported('block of a dynamic matrix')
    X.oblige('block outside the matrix', 'safety', z3.BoolVal(0 <= i and i + r <= v.r and 0 <= j and j + k <= v.c), c.line)
    if not (0 <= i and i + r <= v.r and 0 <= j and j + k <= v.c):
        raise PathEnd()
    o = c.o
    if not isinstance(o, Loc):
        o = X.new_cell(c.cty, v, 'tmp')
    return MatBlockLoc(o, i, j, r, k)


@fun(('DenseBase', 'col', 1))
def _col(X, c):
    j = cidx(c.val(0))
    if j is None:
        raise Unsupported('column position')
    return block(X, c, 0, j, c.obj.r, 1)


@fun(('DenseBase', 'row', 1))
def _row(X, c):
    i = cidx(c.val(0))
    if i is None:
        raise Unsupported('row position')
    return block(X, c, i, 0, 1, c.obj.c)


@fun(('DenseBase', 'head', 0), ('DenseBase', 'tail', 0), ('DenseBase', 'head', 1), ('DenseBase', 'tail', 1))
def _headtail(X, c):
    v = c.obj
    if c.args:
        n = cidx(c.val(0))
    else:
        t = X.prog.ty(c.d['ret']).unref()
        n = max(t.arg(1), t.arg(2)) if t.q == 'Eigen::VectorBlock' and t.nargs() > 2 else t.arg(1)
    if n is None or not isinstance(n, int):
        raise Unsupported('head of unknown size')
    off = 0 if c.d['q'].endswith('head') else v.r - n
    return block(X, c, off, 0, n, 1)


@fun('cast', 'eval', 'noalias', 'derived', 'array', 'matrix')
def _cast(X, c):
    v = c.obj
    if c.d['q'].endswith('cast'):
        return v
    return c.o if isinstance(c.o, Loc) else v


@fun(('DenseBase', 'maxCoeff', 0))
def _maxc(X, c):
    return maxabs(X, entries(matof(X, c.obj)))


@fun(('DenseBase', 'sum', 0))
def _sum(X, c):
    t = None
    for x in entries(matof(X, c.obj)):
        t = x if t is None else t + x
    return t


@fun(('MatrixBase', 'trace', 0))
def _trace(X, c):
    m = matof(X, c.obj)
    t = m.m[0][0]
    for i in range(1, m.r):
        t = t + m.m[i][i]
    return t


@fun('cwiseAbs')
def _abs(X, c):
    return mapm(matof(X, c.obj), lambda t: If(t >= 0, t, -t))


@fun('transpose', 'adjoint')
def _tr(X, c):
    v = c.obj
    if not isinstance(v, MatVal):
        return v
    return transpose(v)


@fun(('DenseBase', 'operator<<', 1))
def _comma0(X, c):
    v = c.obj
    cm = Comma(c.o, v.r, v.c)
    return cm.put(X, real(c.val(0)))


@fun(('CommaInitializer', 'operator,', 1))
def _comma(X, c):
    cm = rd(X, c.o)
    if not isinstance(cm, Comma):
        raise Unsupported('comma initialiser')
    v = c.val(0)
    if isinstance(v, MatVal):
        raise Unsupported('comma initialiser of blocks')
    return cm.put(X, real(v))


@fun(('CommaInitializer', 'finished', 0))
def _fin(X, c):
    return rd(X, c.o).loc


@fun(('DenseBase', 'operator*=', 1), ('MatrixBase', 'operator*=', 1), ('DenseBase', 'operator/=', 1), ('MatrixBase', 'operator/=', 1))
def _scale_assign(X, c):
    v = matof(X, c.obj)
    s = c.val(0)
    if isinstance(s, MatVal):
        c.set(mul(v, s))
        return c.o
    s = real(s)
    div = c.d['q'].endswith('/=')
    if div and orth(X) and not X.ghost:
        from .. import algebra
        fs = [f for f in X.pc if not algebra.has_quant(f)]
        if algebra.contradictory(fs + [s == 0]):
            X.assume(s != 0)
            r = mapm(v, lambda t: t if is0(t) else X.fresh('quot', REAL))
            for a, b in zip(entries(r), entries(v)):
                if not is0(b):
                    X.assume(a * s == b)
            unit_known(X)
            X.scaled_memo[tuple(x.get_id() for x in entries(r) if not is0(x))] = (s, [x for x in entries(v) if not is0(x)])
            if s.eq(sqrt(X, dot(v, v))):
                # a vector over its length has length one
                X.assume(plus_all([times(x, x) for x in entries(r)]) == 1)
                unit_known(X).add(frozenset(x.get_id() for x in entries(r) if not is0(x)))
            c.set(r)
            return c.o
    c.set(mapm(v, lambda t: t / s if div else times(t, s)))
    return c.o


@fun(('MatrixBase', 'operator+=', 1), ('MatrixBase', 'operator-=', 1), ('DenseBase', 'operator+=', 1), ('DenseBase', 'operator-=', 1))
def _add_assign(X, c):
    v, s = matof(X, c.obj), matof(X, c.val(0))
    sub = c.d['q'].endswith('-=')
    c.set(zipm(v, s, lambda a, b: a - b if sub else a + b))
    return c.o


@fun(('operator-', 0))
def _neg(X, c):
    return mapm(matof(X, c.obj), lambda t: -t)


@fun(('DenseBase', 'operator/', 1), ('MatrixBase', 'operator/', 1))
def _div(X, c):
    s = real(c.val(0))
    return mapm(matof(X, c.obj), lambda t: t / s)


@fun(('MatrixBase', 'operator*', 1), ('DenseBase', 'operator*', 1), ('DiagonalBase', 'operator*', 1))
def _mulop(X, c):
    a, b = matof(X, c.obj), c.val(0)
    if isinstance(b, MatVal):
        return prod(X, a, b)
    b = real(b)
    return mapm(a, lambda t: times(t, b))


@fun(('operator*', 2))
def _smul(X, c):
    a, b = c.val(0), c.val(1)
    if isinstance(a, MatVal) and isinstance(b, MatVal):
        return mul(a, b)
    if isinstance(a, MatVal):
        a, b = b, a
    return mapm(matof(X, b), lambda t: times(real(a), t))


@fun(('MatrixBase', 'operator+', 1), ('MatrixBase', 'operator-', 1))
def _addop(X, c):
    a, b = matof(X, c.obj), matof(X, c.val(0))
    sub = c.d['q'].endswith('-')
    return zipm(a, b, lambda x, y: x - y if sub else plus(x, y))


@fun(('MatrixBase', 'operator==', 1), ('MatrixBase', 'operator!=', 1))
def _eqop(X, c):
    a, b = c.obj, c.val(0)
    if isinstance(a, MatVal):
        r = eqm(a, matof(X, b))
    else:
        i = z3.Int('i!eq')
        X.oblige('comparison of vectors of different sizes', 'safety', vlen(a) == vlen(b), c.line)
        r = And(vlen(a) == vlen(b), z3.ForAll([i], Implies(And(0 <= i, i < vlen(a)), select(varr(a), i) == select(varr(b), i))))
    return Not(r) if c.d['q'].endswith('!=') else r


@fun(('DenseCoeffsBase', 'operator()', 2), ('DenseCoeffsBase', 'coeff', 2), ('DenseCoeffsBase', 'coeffRef', 2), ('PlainObjectBase', 'coeff', 2), ('PlainObjectBase', 'coeffRef', 2))
def _at2(X, c):
    return elem_loc(X, c, c.val(0), c.val(1), c.line)


@fun(('DenseCoeffsBase', 'operator()', 1), ('DenseCoeffsBase', 'operator[]', 1), ('DenseCoeffsBase', 'coeff', 1))
def _at1(X, c):
    v = c.obj
    i = c.val(0)
    if isinstance(v, z3.ExprRef):
        X.oblige('vector element outside the vector', 'safety', And(i >= 0, i < vlen(v)), c.line)
        o = c.o if isinstance(c.o, Loc) else X.new_cell(c.cty, v, 'tmp')
        return ElemLoc(o, i, X.prog.ty('double'), 'vec')
    return elem_loc(X, c, i, None, c.line)


@fun(('DenseCoeffsBase', 'x', 0), ('DenseCoeffsBase', 'y', 0), ('DenseCoeffsBase', 'z', 0), ('DenseCoeffsBase', 'w', 0),
     ('QuaternionBase', 'x', 0), ('QuaternionBase', 'y', 0), ('QuaternionBase', 'z', 0), ('QuaternionBase', 'w', 0))
def _xyzw(X, c):
    i = 'xyzw'.index(c.d['q'][-1])
    return elem_loc(X, c, z3.IntVal(i), None, c.line)


@fun('size', 'rows', 'cols')
def _size(X, c):
    v = c.obj
    n = c.d['q'].rsplit('::', 1)[1]
    if isinstance(v, MatVal):
        return z3.IntVal({'size': v.r * v.c, 'rows': v.r, 'cols': v.c}[n])
    return vlen(v) if n != 'cols' else z3.IntVal(1)


@fun('resize', 'conservativeResize')
def _resize(X, c):
    v = c.obj
    if isinstance(v, MatVal):
        raise Unsupported('resize')
    n = c.val(0)
    old = varr(v) if c.d['q'].endswith('conservativeResize') else X.fresh('data', varr(v).sort())
    keep = If(vlen(v) == n, varr(v), old)
    c.set(vmk(v.sort(), n, keep))
    return None


@fun(('PlainObjectBase', 'data', 0))
def _data(X, c):
    v = c.obj
    if isinstance(v, MatVal):
        raise Unsupported('raw data of a matrix')
    return PtrTo(ElemLoc(c.o, z3.IntVal(0), X.prog.ty('double'), 'vec'))


@fun(('PlainObjectBase', 'Map', 2))
def _map(X, c):
    p, n = rd(X, c.args[0]), rd(X, c.args[1])
    if isinstance(p, PtrTo) and isinstance(p.loc, ElemLoc) and p.loc.kind == 'vec':
        v = X.read_raw(p.loc.base)
        s = v.sort()
        X.oblige('mapped vector outside its memory', 'safety', And(n >= 0, p.loc.idx >= 0, p.loc.idx + n <= vlen(v)), c.line)
        i = z3.Int('i!map')
        a = X.fresh('data', varr(v).sort())
        X.assume(z3.ForAll([i], Implies(And(0 <= i, i < n), select(a, i) == select(varr(v), p.loc.idx + i))))
        return vmk(s, n, a)
    raise Unsupported('mapped memory')


@fun(('MatrixBase', 'asDiagonal', 0))
def _diag(X, c):
    es = entries(matof(X, c.obj))
    return MatVal.make(len(es), len(es), lambda i, j: es[i] if i == j else z3.RealVal(0))


@fun(('MatrixBase', 'determinant', 0))
def _det(X, c):
    m = matof(X, c.obj)
    d = orth_det(X, m) if (m.r, m.c) == (3, 3) and orth(X) else None
    return det(m) if d is None else d


@fun(('MatrixBase', 'inverse', 0))
def _inv(X, c):
    m = matof(X, c.obj)
    d = det(m)
    return mapm(adjugate(m), lambda t: t / d)


@fun(('MatrixBase', 'computeInverseWithCheck', 3), ('MatrixBase', 'computeInverseWithCheck', 2))
def _invcheck(X, c):
    m = matof(X, c.obj)
    d = det(m)
    thr = c.val(2) if len(c.args) > 2 else z3.RealVal('1/1000000000000')
    ok = Or(d > thr, -d > thr)
    if X.decide(ok):
        X.write(c.args[0], mapm(adjugate(m), lambda t: t / d))
        X.write(c.args[1], z3.BoolVal(True))
    else:
        X.write(c.args[1], z3.BoolVal(False))
    return None


@fun(('MatrixBase', 'cross', 1))
def _cross(X, c):
    return cross(matof(X, c.obj), matof(X, c.val(0)))


@fun(('MatrixBase', 'dot', 1))
def _dot(X, c):
    return dot(matof(X, c.obj), matof(X, c.val(0)))


@fun(('MatrixBase', 'squaredNorm', 0))
def _sqn(X, c):
    v = matof(X, c.obj)
    return dot(v, v)


@fun(('MatrixBase', 'norm', 0))
def _norm(X, c):
    v = c.obj
    if not isinstance(v, MatVal):
        raise Unsupported('norm of a dynamic vector')
    return norm(X, v)


@fun(('MatrixBase', 'normalized', 0))
def _normd(X, c):
    return normalized(X, matof(X, c.obj))


def normalized(X, v):
    n2 = dot(v, v)
    if X.ghost:
        return mapm(v, lambda t: t / SQRT(canon(n2)))
    if unit_length(X, n2):
        X.assume(n2 == 1)
        return v
    from .. import algebra
    if algebra.contradictory(list(X.pc) + [n2 <= 0]):
        X.assume(n2 > 0)
    if X.decide(n2 > 0):
        n = sqrt(X, n2)
        if X.top is not None and X.top.opts.get('unit_vectors'):
            u = unit_atoms(v)
            X.assume(n * n == n2)
            X.assume(n > 0)
            X.assume(eqm(mapm(u, lambda t: n * t), v))
            X.assume(dot(u, u) == 1)
            return u
        return mapm(v, lambda t: t / n)
    return v


def unit_atoms(v):
    """components of the unit vector in the direction of v as functions of v"""
    es = [canon(t) for t in entries(v)]
    fs = [z3.Function('unit%d_%d' % (len(es), i), *([REAL] * (len(es) + 1))) for i in range(len(es))]
    it = iter(fs)
    return mapm(v, lambda t: next(it)(*es))


def unit_length(X, n2):
    """does the polynomial back end derive that the squared length is one? (only where the contract uses it)"""
    if X.top is None or not X.top.opts.get('unit_vectors'):
        return False
    from .. import algebra
    return algebra.check(list(X.pc), n2 == 1, 10.0)[0] == 'proved'


@fun(('MatrixBase', 'normalize', 0))
def _norml(X, c):
    c.set(normalized(X, matof(X, c.obj)))
    return None


@fun(('MatrixBase', 'ldlt', 0))
def _ldlt(X, c):
    return Ldlt(matof(X, c.obj))


@fun('solve')
def _solve(X, c):
    f = rd(X, c.o)
    if not isinstance(f, Ldlt):
        raise Unsupported('linear solve')
    b = matof(X, c.val(0))
    d = det(f.m)
    s = MatVal.make(b.r, b.c, lambda i, j: X.fresh('sol', REAL))
    p = mul(f.m, s)
    X.assume(Implies(d != 0, eqm(p, b)))
    return s


def svd_part(n):
    def f(X, c):
        s = rd(X, c.o)
        if not isinstance(s, Svd):
            raise Unsupported('singular value decomposition')
        return getattr(s, n)
    return f


FUN['matrixU'], FUN['matrixV'], FUN['singularValues'] = svd_part('u'), svd_part('v'), svd_part('s')


@fun(('MatrixBase', 'asDiagonal', 0))
def _asdiag(X, c):
    v = matof(X, c.obj)
    es = entries(v)
    return MatVal.make(len(es), len(es), lambda i, j: es[i] if i == j else z3.RealVal(0))


@fun(('NumTraits', 'dummy_precision', 0), ('NumTraits', 'epsilon', 0))
def _dummy(X, c):
    flt = 'float' in c.d['cls']
    if c.d['q'].endswith('epsilon'):
        return z3.RealVal(Fraction(1, 2 ** (23 if flt else 52)))
    return z3.RealVal('1/100000') if flt else z3.RealVal('1/1000000000000')


@fun('operator=')
def _assign(X, c):
    v = c.val(0)
    if isinstance(v, AngleAxisVal) and c.d['q'].startswith('Eigen::Quaternion'):
        v = v.quat(X)
    o = c.o
    if isinstance(o, MatBlockLoc):
        X.write(o, matof(X, v))
        return o
    if not isinstance(o, Loc):
        raise Unsupported('assignment to an expression')
    t = o.ty.elem if o.ty is not None and o.ty.is_ref() else o.ty
    if t is not None and is_dynvec(t):
        X.write(o, dynof(X, v, t))
    else:
        v = matof(X, v)
        if t is not None and dims(t) and dims(t) != (v.r, v.c):
            if c.d['q'].startswith('Eigen::Quaternion') and (v.r, v.c) == (3, 3):
                v = qfrom(X, v)
            else:
                raise Unsupported('matrix sizes')
        X.write(o, v)
    return o


# quaternions
@fun('coeffs')
def _coeffs(X, c):
    return c.o if isinstance(c.o, Loc) else c.obj


@fun(('QuaternionBase', 'inverse', 0))
def _qinv(X, c):
    q = matof(X, c.obj)
    n2 = qnorm2(q)
    if X.decide(n2 > 0):
        return mapm(qconj(q), lambda t: t / n2)
    return zeros(4, 1)


@fun(('QuaternionBase', 'conjugate', 0))
def _qconj(X, c):
    return qconj(matof(X, c.obj))


@fun(('QuaternionBase', 'operator*', 1))
def _qmul(X, c):
    b = matof(X, c.val(0))
    if (b.r, b.c) == (3, 1):
        return qrot(matof(X, c.obj), b)
    return qmul(matof(X, c.obj), b)


@fun(('RotationBase', 'operator*', 1))
def _rotmul(X, c):
    b = matof(X, c.val(0))
    q = matof(X, c.obj)
    if (b.r, b.c) == (3, 1):
        return qrot(q, b)
    return mul(qmat(q), b)


@fun(('QuaternionBase', 'toRotationMatrix', 0), ('RotationBase', 'toRotationMatrix', 0), ('RotationBase', 'matrix', 0))
def _qm(X, c):
    return qmat(matof(X, c.obj))


@fun(('QuaternionBase', 'norm', 0))
def _qn(X, c):
    return norm(X, matof(X, c.obj))


@fun(('QuaternionBase', 'squaredNorm', 0))
def _qn2(X, c):
    return qnorm2(matof(X, c.obj))


@fun(('QuaternionBase', 'normalized', 0))
def _qnd(X, c):
    return normalized(X, matof(X, c.obj))


@fun(('QuaternionBase', 'normalize', 0))
def _qnl(X, c):
    c.set(normalized(X, matof(X, c.obj)))
    return None


@fun(('QuaternionBase', 'vec', 0))
def _qvec(X, c):
    return MatVal(matof(X, c.obj).m[:3])


@fun(('QuaternionBase', 'angularDistance', 1))
def _qad(X, c):
    raise Unsupported('angularDistance')


@fun(('operator<<', 2))
def _out(X, c):
    return X.lib.stream_out(X, c) if hasattr(X.lib, 'stream_out') else c.args[0]


_core.PREFIX.append(('Eigen::', call))
