"""kwiver::vital::timestamp"""
from vcg.spec import *

S = Spec(['vital/types/timestamp.cxx'], props=['C09'])
T = 'kwiver::vital::timestamp'
FIELDS = ['m_valid_time', 'm_valid_frame', 'm_time', 'm_frame', 'm_time_domain_index']


def rel(op):
    def value(c):
        o = c.val(0) if not isinstance(c.arg(0), ObjLoc) else c.arg(0)
        a = {f: c.pre.f(c.this, f) for f in FIELDS}
        b = {f: c.pre.f(o, f) for f in FIELDS}
        return And(a['m_time_domain_index'] == b['m_time_domain_index'],
                   If(And(a['m_valid_time'], b['m_valid_time']), op(a['m_time'], b['m_time']),
                      And(a['m_valid_frame'], b['m_valid_frame'], op(a['m_frame'], b['m_frame']))))
    return value


OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b}
for n, f in OPS.items():
    S.fn(T + '::operator' + n, value=rel(f), match=lambda d: bool(d.get('cls')))


def setter(upd):
    def ens(c):
        u = upd(c)
        out = [('returns *this', c.result.ref == c.this.ref)]
        for f in FIELDS:
            want = u.get(f, None)
            out.append((f + (' set' if want is not None else ' kept'), c.post.f(c.this, f) == (want if want is not None else c.pre.f(c.this, f))))
        return out
    return dict(ensures=ens, modifies=lambda c: [c.pre.loc(c.this, f) for f in upd(c)],
                result_shape=lambda c: c.this)


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
S.fn(T + '::set_time_usec', **setter(lambda c: {'m_time': c.val(0), 'm_valid_time': TRUE}))
S.fn(T + '::set_frame', **setter(lambda c: {'m_frame': c.val(0), 'm_valid_frame': TRUE}))
S.fn(T + '::set_invalid', **setter(lambda c: {'m_valid_time': FALSE, 'm_valid_frame': FALSE}))
S.fn(T + '::set_time_domain_index', **setter(lambda c: {'m_time_domain_index': c.val(0)}))
S.fn(T + '::set_time_seconds', requires=lambda c: [('time representable in microseconds', And(c.val(0) * 1000000 > -(1 << 63), c.val(0) * 1000000 < (1 << 63)))],
     **setter(lambda c: {'m_time': trunc_real(c.val(0) * 1000000), 'm_valid_time': TRUE}))
S.fn(T + '::get_time_seconds', value=lambda c: z3.ToReal(c.pre.f(c.this, 'm_time')) * z3.RealVal('1/1000000'), name=T + '::get_time_seconds')


def ctor(vals):
    return dict(ensures=lambda c: [(f, c.post.f(c.this, f) == v) for f, v in zip(FIELDS, vals(c))])


S.fn(T + '::(ctor)', match=nparams(0), name=T + '::timestamp()', **ctor(lambda c: [False, False, 0, 0, 0]))
S.fn(T + '::(ctor)', match=params('long', 'long'), name=T + '::timestamp(t,f)', **ctor(lambda c: [True, True, c.val(0), c.val(1), 0]))
for n, f in [('is_valid', lambda g: And(g('m_valid_time'), g('m_valid_frame'))), ('has_valid_time', lambda g: g('m_valid_time')),
             ('has_valid_frame', lambda g: g('m_valid_frame')), ('get_time_usec', lambda g: g('m_time')), ('get_frame', lambda g: g('m_frame')),
             ('get_time_domain_index', lambda g: g('m_time_domain_index'))]:
    S.fn(T + '::' + n, value=lambda c, f=f: f(lambda x: c.pre.f(c.this, x)))


@S.lemma('comparisons of timestamps are consistent')
def laws(L):
    a, b, d = L.obj(T, 'a'), L.obj(T, 'b'), L.obj(T, 'd')
    lt = lambda x, y: L.call(T + '::operator<', x, y)
    gt = lambda x, y: L.call(T + '::operator>', x, y)
    eq = lambda x, y: L.call(T + '::operator==', x, y)
    ne = lambda x, y: L.call(T + '::operator!=', x, y)
    comparable = Or(eq(a, b), ne(a, b))
    yield 'a<b iff b>a', lt(a, b) == gt(b, a)
    yield 'a==b iff b==a', eq(a, b) == eq(b, a)
    yield 'never a<b and b<a', Not(And(lt(a, b), lt(b, a)))
    yield 'never a==b and a!=b', Not(And(eq(a, b), ne(a, b)))
    yield 'comparable timestamps satisfy exactly one of <, ==, >', Implies(comparable, z3.PbEq([(lt(a, b), 1), (eq(a, b), 1), (gt(a, b), 1)], 1))
    yield 'incomparable timestamps satisfy no relation', Implies(Not(comparable), Not(Or(lt(a, b), gt(a, b))))
    yield 'a!=b iff a<b or a>b', ne(a, b) == Or(lt(a, b), gt(a, b))
    vt = L.X.fpath
    allt = And([vt(x, ['m_valid_time']) for x in (a, b, d)])
    yield 'with times everywhere < is transitive', Implies(And(allt, lt(a, b), lt(b, d)), lt(a, d))
