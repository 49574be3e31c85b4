"""kwiver::vital::geo_lat_lon"""
from vcg.spec import *

S = Spec(['vital/types/geo_lat_lon.cxx'], props=['C20'])
T = 'kwiver::vital::geo_lat_lon'
LAT, LON = 'm_latitude', 'm_longitude'
EMPTY = z3.RealVal(444)


def ll(c, loc, post=False):
    v = c.post if post else c.pre
    return v.f(loc, LAT), v.f(loc, LON)


S.fn(T + '::(ctor)', match=nparams(0), name=T + '::geo_lat_lon()', modifies=lambda c: [c.pre.loc(c.this, LAT), c.pre.loc(c.this, LON)],
     ensures=lambda c: [('latitude empty', ll(c, c.this, 1)[0] == EMPTY), ('longitude empty', ll(c, c.this, 1)[1] == EMPTY)])
S.fn(T + '::(ctor)', match=nparams(2), name=T + '::geo_lat_lon(lat,lon)', modifies=lambda c: [c.pre.loc(c.this, LAT), c.pre.loc(c.this, LON)],
     ensures=lambda c: [('latitude stored', ll(c, c.this, 1)[0] == c.val(0)), ('longitude stored', ll(c, c.this, 1)[1] == c.val(1))])
for n, f, o in (('set_latitude', LAT, LON), ('set_longitude', LON, LAT)):
    S.fn(T + '::' + n, modifies=lambda c, f=f: [c.pre.loc(c.this, f)], result_shape=lambda c: c.this,
         ensures=lambda c, f=f, o=o: [('stored', c.post.f(c.this, f) == c.val(0)), ('the other number kept', c.post.f(c.this, o) == c.pre.f(c.this, o)), ('returns *this', c.result.ref == c.this.ref)])
S.fn(T + '::get_latitude', value=lambda c: ll(c, c.this)[0])
S.fn(T + '::get_longitude', value=lambda c: ll(c, c.this)[1])


def valid(lat, lon):
    return And(-90 <= lat, lat <= 90, -180 <= lon, lon <= 360)


S.fn(T + '::is_valid', value=lambda c: valid(*ll(c, c.this)))
S.fn(T + '::is_empty', value=lambda c: And(ll(c, c.this)[0] == EMPTY, ll(c, c.this)[1] == EMPTY))


def same(c):
    a, b = ll(c, c.this), ll(c, c.arg(0))
    return And(a[0] == b[0], a[1] == b[1])


S.fn(T + '::operator==', value=same)
S.fn(T + '::operator!=', value=lambda c: Not(same(c)))


@S.lemma('validity, emptiness and equality agree')
def laws(L):
    a, b, d = L.obj(T, 'a'), L.obj(T, 'b'), L.obj(T, 'd')
    v = lambda x: L.call(T + '::is_valid', x)
    e = lambda x: L.call(T + '::is_empty', x)
    eq = lambda x, y: L.call(T + '::operator==', x, y)
    yield 'an empty pair is not valid', Not(And(v(a), e(a)))
    yield 'reflexive', eq(a, a)
    yield 'symmetric', eq(a, b) == eq(b, a)
    yield 'transitive', Implies(And(eq(a, b), eq(b, d)), eq(a, d))
    yield 'equal pairs agree', Implies(eq(a, b), And(v(a) == v(b), e(a) == e(b)))
    yield '!= is the negation', L.call(T + '::operator!=', a, b) == Not(eq(a, b))
