"""features, landmarks, descriptors, colors and the simple sets: C26

Everything is stated about the values that the accessors return: what a
constructor or setter was given is what the accessors yield, in either
precision, a copy holds equal values in storage of its own.
"""
import os
from vcg.program import VERIF
from vcg.spec import *
from vcg.lib import core, cmem
from vcg.lib.eigen import vec, entries, eqm

S = Spec(['vital/types/feature.cxx', 'vital/types/landmark.cxx', os.path.join(VERIF, 'inst/values.cpp')], props=['C26'])
V = 'kwiver::vital::'
sel = z3.Select

# what the (const) accessors of the abstract interfaces return for an object
AC = {n: z3.Function('abstract ' + n, INT, REAL) for n in ('magnitude', 'scale', 'angle', 'lscale')}
LOC = [z3.Function('abstract loc %d' % i, INT, REAL) for i in range(3)]
NORM = [z3.Function('abstract normal %d' % i, INT, REAL) for i in range(3)]
COV = z3.Function('abstract covar', INT, INT, REAL)
COL = [z3.Function('abstract color ' + k, INT, INT) for k in 'rgb']
OBS = z3.Function('abstract observations', INT, INT)


def rgb(v, loc):
    return [v.f(loc, k) for k in 'rgb']


def same(a, b):
    return And([x == y for x, y in zip(a, b)])


def cov(v, loc, n):
    d = v.f(loc, 'data_')
    return [sel(d, i) for i in range(n)]


byte = lambda t: And(0 <= t, t < 256)
for cls, n in (('feature', 2), ('landmark', 3)):
    B = V + cls + '::'
    r = lambda c: c.this.ref
    S.fn(B + 'loc', trusted=True, value=lambda c, n=n: vec(*[LOC[i](c.this.ref) for i in range(n)]))
    S.fn(B + 'scale', trusted=True, value=lambda c: AC['scale'](c.this.ref))
    S.fn(B + 'covar', trusted=True, ensures=lambda c, n=n: [('covariance', same(cov(c.post, c.result, n * (n + 1) // 2), [COV(c.this.ref, i) for i in range(6)]))])
    S.fn(B + 'color', trusted=True, ensures=lambda c: [('color', And(same(rgb(c.post, c.result), [COL[i](c.this.ref) for i in range(3)]), *[byte(COL[i](c.this.ref)) for i in range(3)]))])
S.fn(V + 'feature::magnitude', trusted=True, value=lambda c: AC['magnitude'](c.this.ref))
S.fn(V + 'feature::angle', trusted=True, value=lambda c: AC['angle'](c.this.ref))
S.fn(V + 'landmark::normal', trusted=True, value=lambda c: vec(*[NORM[i](c.this.ref) for i in range(3)]))
S.fn(V + 'landmark::observations', trusted=True, value=lambda c: OBS(c.this.ref), ensures=lambda c: [('range', And(0 <= c.result, c.result < 2**32))])

# ---- colors
R = V + 'rgb_color::'
S.fn(R + '(ctor)', name='rgb_color()', match=nparams(0), modifies=lambda c: [c.this], ensures=lambda c: [('white', same(rgb(c.post, c.this), [255, 255, 255]))])
S.fn(R + '(ctor)', name='rgb_color(r, g, b)', match=nparams(3), modifies=lambda c: [c.this], ensures=lambda c: [('as given', same(rgb(c.post, c.this), [c.val(0), c.val(1), c.val(2)]))])
copyc = lambda d: d.get('cls') == V + 'rgb_color' and len(d['params']) == 1
isc = lambda d: 'rgb_color' in ''.join(d['params'])
S.fn(V + 'operator==', name='color ==', match=isc, value=lambda c: same(rgb(c.pre, c.arg(0)), rgb(c.pre, c.arg(1))))
S.fn(V + 'operator!=', name='color !=', match=isc, value=lambda c: Not(same(rgb(c.pre, c.arg(0)), rgb(c.pre, c.arg(1)))))

# ---- covariance copies: proved for C14 in specs/covariance.py, stated again here for the calls
for n in (2, 3):
    for T, O in (('double', 'float'), ('float', 'double')):
        C_, Oc = V + 'covariance_<%d, %s>' % (n, T), V + 'covariance_<%d, %s>' % (n, O)
        k = n * (n + 1) // 2
        eq = lambda c, k=k: [('every element', same(cov(c.post, c.this, k), cov(c.pre, c.arg(0), k)))]
        mod = lambda c: [c.pre.loc(c.this, 'data_')]
        for p in (C_, Oc):
            S.fn(V + 'covariance_::(ctor)', name='covariance_<%d, %s>(%s)' % (n, T, p), match=lambda d, C_=C_, p=p: d.get('cls') == C_ and d['params'] == ['const %s &' % p], optional=True, modifies=mod, ensures=eq)
        S.fn(V + 'covariance_::operator=', name='covariance_<%d, %s>::operator=' % (n, T), match=lambda d, C_=C_: d.get('cls') == C_ and d['params'] == ['const %s &' % C_], modifies=mod, ensures=eq)
        S.fn(V + 'covariance_::(ctor)', name='covariance_<%d, %s>()' % (n, T), match=lambda d, C_=C_: d.get('cls') == C_ and d['params'] == [], inline=True, verify=False)

# ---- features and landmarks
KINDS = {'feature_': dict(vec=['loc'], num=['magnitude', 'scale', 'angle'], n=2, int=[]),
         'landmark_': dict(vec=['loc', 'normal'], num=['scale'], n=3, int=['observations'])}
for K, k in KINDS.items():
    for T in ('double', 'float'):
        cls, n, nm = V + K + '<%s>' % T, k['n'], '%s<%s>' % (K, T)
        Q = V + K + '::'
        m = lambda cls=cls, np=None: (lambda d: d.get('cls') == cls and (np is None or len(d['params']) == np))
        nc = n * (n + 1) // 2
        f = lambda v, loc, a: v.f(loc, a + '_')
        vecs = lambda v, loc, k=k: sum([entries(f(v, loc, a)) for a in k['vec']], [])
        nums = lambda v, loc, k=k: [f(v, loc, a) for a in k['num'] + k['int']]
        col = lambda v, loc: [v.f(loc, 'color_', x) for x in 'rgb']
        cv = lambda v, loc, nc=nc: [sel(v.f(loc, 'covar_', 'data_'), i) for i in range(nc)]
        this = lambda c: [c.this]
        for a in k['vec']:
            S.fn(Q + 'get_' + a, name=nm + '::get_' + a, match=m(), inline=True, ensures=lambda c, a=a: [('the stored %s' % a, And(entries_eq(c.post.get(c.result), f(c.pre, c.this, a))))])
            S.fn(Q + a, name=nm + '::' + a, match=m(), value=lambda c, a=a: f(c.pre, c.this, a))
            S.fn(Q + 'set_' + a, name=nm + '::set_' + a, match=m(), modifies=lambda c, a=a: [c.pre.loc(c.this, a + '_')], ensures=lambda c, a=a: [('stored', And(entries_eq(f(c.post, c.this, a), c.val(0))))])
        for a in k['num'] + k['int']:
            if a in k['int']:
                S.fn(Q + 'get_' + a, name=nm + '::get_' + a, match=m(), inline=True, ensures=lambda c, a=a: [('the stored %s' % a, c.post.get(c.result) == f(c.pre, c.this, a))])
            else:
                S.fn(Q + 'get_' + a, name=nm + '::get_' + a, match=m(), value=lambda c, a=a: f(c.pre, c.this, a))
            S.fn(Q + a, name=nm + '::' + a, match=m(), value=lambda c, a=a: f(c.pre, c.this, a))
            S.fn(Q + 'set_' + a, name=nm + '::set_' + a, match=m(), modifies=lambda c, a=a: [c.pre.loc(c.this, a + '_')], ensures=lambda c, a=a: [('stored', f(c.post, c.this, a) == c.val(0))])
        S.fn(Q + 'get_covar', name=nm + '::get_covar', match=m(), inline=True, ensures=lambda c, nc=nc, cv=cv: [('the stored covariance', same(cov(c.post, c.result, nc), cv(c.pre, c.this)))])
        S.fn(Q + 'covar', name=nm + '::covar', match=m(), ensures=lambda c, nc=nc, cv=cv: [('the stored covariance', same(cov(c.post, c.result, nc), cv(c.pre, c.this)))])
        S.fn(Q + 'set_covar', name=nm + '::set_covar', match=m(), modifies=lambda c: [c.pre.loc(c.this, 'covar_')], ensures=lambda c, nc=nc, cv=cv: [('stored', same(cv(c.post, c.this), cov(c.pre, c.arg(0), nc)))])
        S.fn(Q + 'get_color', name=nm + '::get_color', match=m(), inline=True, ensures=lambda c: [('the stored color', same(rgb(c.post, c.result), col(c.pre, c.this)))])
        S.fn(Q + 'color', name=nm + '::color', match=m(), ensures=lambda c: [('the stored color', same(rgb(c.post, c.result), col(c.pre, c.this)))])
        S.fn(Q + 'set_color', name=nm + '::set_color', match=m(), modifies=lambda c: [c.pre.loc(c.this, 'color_')], ensures=lambda c: [('stored', same(col(c.post, c.this), rgb(c.pre, c.arg(0))))])
        abstract = lambda c, k=k, n=n: ([LOC[i](c.arg(0).ref) for i in range(n)] + ([NORM[i](c.arg(0).ref) for i in range(3)] if k['int'] else []),
                                        [AC[a](c.arg(0).ref) for a in k['num']] + ([OBS(c.arg(0).ref)] if k['int'] else []))
        S.fn(Q + '(ctor)', name=nm + '(base)', match=lambda d, cls=cls, K=K: d.get('cls') == cls and d['params'] == ['const %s%s &' % (V, K[:-1])], modifies=this,
             ensures=lambda c, abstract=abstract, vecs=vecs, nums=nums, cv=cv, nc=nc: [
                 ('positions', same(vecs(c.post, c.this), abstract(c)[0])), ('numbers', same(nums(c.post, c.this), abstract(c)[1])),
                 ('covariance', same(cv(c.post, c.this), [COV(c.arg(0).ref, i) for i in range(nc)])), ('color', same(col(c.post, c.this), [COL[i](c.arg(0).ref) for i in range(3)]))])
        S.fn(Q + '(ctor)', name=nm + '(copy)', match=lambda d, cls=cls: d.get('cls') == cls and d['params'] == ['const %s &' % cls], optional=True, modifies=this,
             ensures=lambda c, vecs=vecs, nums=nums, cv=cv: [
                 ('positions', same(vecs(c.post, c.this), vecs(c.pre, c.arg(0)))), ('numbers', same(nums(c.post, c.this), nums(c.pre, c.arg(0)))),
                 ('covariance', same(cv(c.post, c.this), cv(c.pre, c.arg(0)))), ('color', same(col(c.post, c.this), col(c.pre, c.arg(0))))])
        S.fn(Q + '(ctor)', name=nm + '()', match=m(np=0), modifies=this,
             ensures=lambda c, vecs=vecs, nums=nums, k=k: [('zero positions', same(vecs(c.post, c.this), [0] * 6)), ('numbers', same(nums(c.post, c.this), [0, 1, 0] if not k['int'] else [1, 0])), ('white', same(col(c.post, c.this), [255] * 3))])
        if K == 'feature_':
            S.fn(Q + '(ctor)', name=nm + '(values)', match=m(np=5), modifies=this, ensures=lambda c, vecs=vecs, nums=nums: [
                ('position', same(vecs(c.post, c.this), entries(c.val(0)))), ('numbers', same(nums(c.post, c.this), [c.val(1), c.val(2), c.val(3)])), ('color', same(col(c.post, c.this), rgb(c.pre, c.arg(4))))])
        else:
            S.fn(Q + '(ctor)', name=nm + '(values)', match=m(np=2), modifies=this, ensures=lambda c, vecs=vecs, nums=nums: [
                ('position and zero normal', same(vecs(c.post, c.this), entries(c.val(0)) + [0, 0, 0])), ('numbers', same(nums(c.post, c.this), [c.val(1), 0])), ('white', same(col(c.post, c.this), [255] * 3))])
            S.fn(Q + 'clone', name=nm + '::clone', match=m(), ensures=lambda c, cls=cls, vecs=vecs, nums=nums, cv=cv: clone(c, cls, vecs, nums, cv, col))


def entries_eq(a, b):
    return [x == y for x, y in zip(entries(a), entries(b))]


def clone(c, cls, vecs, nums, cv, col):
    o = c.X.obj(c.result, cls)
    return [('a landmark', c.result != 0), ('not the original', c.result != c.this.ref), ('positions', same(vecs(c.post, o), vecs(c.pre, c.this))), ('numbers', same(nums(c.post, o), nums(c.pre, c.this))),
            ('covariance', same(cv(c.post, o), cv(c.pre, c.this))), ('color', same(col(c.post, o), col(c.pre, c.this)))]


# ---- descriptors
for K, cls, n in (('fixed', 'double, 4', 4), ('fixed', 'float, 7', 7), ('fixed', 'unsigned char, 128', 128)):
    C_ = V + 'descriptor_fixed<%s>' % cls
    S.fn(V + 'descriptor_fixed::size', name='descriptor_fixed<%s>::size' % cls, match=lambda d, C_=C_: d.get('cls') == C_, value=lambda c, n=n: z3.IntVal(n))
    S.fn(V + 'descriptor_fixed::raw_data', name='descriptor_fixed<%s>::raw_data' % cls, match=lambda d, C_=C_: d.get('cls') == C_, inline=True,
         ensures=lambda c: [('the first element', And(c.result.loc.idx == 0, c.result.loc.base.name == 'data_'))])

RAW = z3.Function('abstract raw_data', INT, INT)
SIZE = z3.Function('abstract size', INT, INT)


def hm(c, key, post=False, sort=INT):
    with c.X.at(c._post if post else c._pre):
        return c.X.hmap(key, sort)


def live_block(c, p, n, post=False):
    """a block of n bytes at p that the object owns"""
    i = z3.Int('i!vb')
    v = hm(c, 'valid', post, BOOL)
    return And(p > 0, sel(hm(c, 'block', post), p) == n + 1, forall([i], Implies(And(p <= i, i < p + n), sel(v, i)), patterns=[sel(v, i)]))


TY = (('double', 8, 'mem:f64', REAL), ('float', 4, 'mem:f32', REAL), ('unsigned char', 1, 'mem:8', INT))
for T, z, key, srt in TY:
    m = lambda cls: (lambda d: d.get('cls') == cls)
    C_ = V + 'descriptor_array_of<%s>' % T
    D_ = V + 'descriptor_array_of::'
    nm = 'descriptor_array_of<%s>::' % T
    S.fn(V + 'descriptor::size', trusted=True, value=lambda c: SIZE(c.this.ref))
    S.fn(D_ + 'size', trusted=True, value=lambda c: SIZE(c.this.ref))
    S.fn(D_ + 'raw_data', trusted=True, match=lambda d, C_=C_: d.get('cls') == C_, name=nm + 'raw_data', value=lambda c: RAW(c.this.ref))
    bounded = lambda c, z=z: [('size in memory', And(0 <= SIZE(c.this.ref), SIZE(c.this.ref) * z < 2**63, RAW(c.this.ref) > 0))]
    readable = lambda c, z=z: [('the elements are readable', z3.ForAll([z3.Int('i!rd')], Implies(And(RAW(c.this.ref) <= z3.Int('i!rd'), z3.Int('i!rd') < RAW(c.this.ref) + z * SIZE(c.this.ref)), sel(hm(c, 'valid', sort=BOOL), z3.Int('i!rd'))), patterns=[sel(hm(c, 'valid', sort=BOOL), z3.Int('i!rd'))]))]
    S.fn(D_ + 'num_bytes', name=nm + 'num_bytes', match=m(C_), requires=bounded, value=lambda c, z=z: SIZE(c.this.ref) * z)
    S.fn(D_ + 'as_double', name=nm + 'as_double', match=m(C_), requires=lambda c, b=bounded, r=readable: b(c) + r(c), loops=lambda lc, z=z, key=key, srt=srt: dbl_loops(lc, z, key, srt),
         ensures=lambda c, z=z, key=key, srt=srt: [('one value per element', vlen(c.result) == SIZE(c.this.ref)),
                                           ('the elements in their order', forall_idx(SIZE(c.this.ref), lambda i: sel(varr(c.result), i) == num(sel(hm(c, key, sort=srt), RAW(c.this.ref) + i * z)), patterns=lambda i: [sel(varr(c.result), i)]))])
    rep = lambda c, i, key=key, srt=srt: (core.BYTE_OF(hm(c, key, sort=srt), i) if srt == REAL else sel(hm(c, key), i))
    S.fn(D_ + 'as_bytes', name=nm + 'as_bytes', match=m(C_), requires=lambda c, b=bounded, r=readable: b(c) + r(c),
         ensures=lambda c, z=z, rep=rep: [('all bytes', vlen(c.result) == SIZE(c.this.ref) * z),
                                          ('the bytes in memory order', forall_idx(SIZE(c.this.ref) * z, lambda i: sel(varr(c.result), i) == rep(c, RAW(c.this.ref) + i), patterns=lambda i: [sel(varr(c.result), i)]))])

    C_ = V + 'descriptor_dynamic<%s>' % T
    Q = V + 'descriptor_dynamic::'
    nm = 'descriptor_dynamic<%s>' % T
    dat = lambda v, loc: v.f(loc, 'data_')
    ln = lambda v, loc: v.f(loc, 'length_')
    small = lambda n, z=z: And(0 <= n, n * z < 2**62)
    inv = lambda c, o, z=z: And(live_block(c, dat(c.pre, o), ln(c.pre, o) * z), ln(c.pre, o) >= 0, ln(c.pre, o) * z < 2**62)
    heap = lambda c, key=key: ['block', 'valid', key, c.pre.loc(c.this, 'data_'), c.pre.loc(c.this, 'length_')]
    elems = lambda c, q, p, n, z=z, key=key, srt=srt: forall_idx(n * z, lambda i: sel(hm(c, key, True, srt), q + i) == sel(hm(c, key, sort=srt), p + i), patterns=lambda i: [sel(hm(c, key, True, srt), q + i)])
    others = lambda c, q, n, key=key, srt=srt: others_(c, q, n, key, srt)
    S.fn(Q + '(ctor)', name=nm + '(size)', match=lambda d, C_=C_: d.get('cls') == C_ and d['params'] == ['unsigned long'], requires=lambda c, small=small: [('representable size', small(c.val(0)))], modifies=heap, allocates=True,
         ensures=lambda c, z=z, others=others: [('length', ln(c.post, c.this) == c.val(0)), ('own memory', live_block(c, dat(c.post, c.this), c.val(0) * z, True)), ('memory of nobody else', sel(hm(c, 'block'), dat(c.post, c.this)) == 0)])
    S.fn(Q + '(ctor)', name=nm + '(copy)', match=lambda d, C_=C_: d.get('cls') == C_ and d['params'] == ['const %s &' % C_], requires=lambda c, inv=inv: [('a valid source', inv(c, c.arg(0)))], modifies=heap, allocates=True,
         ensures=lambda c, z=z, elems=elems, others=others: [
             ('length', ln(c.post, c.this) == ln(c.pre, c.arg(0))), ('own memory', live_block(c, dat(c.post, c.this), ln(c.pre, c.arg(0)) * z, True)), ('not the memory of the source', dat(c.post, c.this) != dat(c.pre, c.arg(0))),
             ('memory of nobody else', sel(hm(c, 'block'), dat(c.post, c.this)) == 0),
             ('equal elements', elems(c, dat(c.post, c.this), dat(c.pre, c.arg(0)), ln(c.pre, c.arg(0)))), ('live memory of others unchanged', others(c, dat(c.post, c.this), ln(c.pre, c.arg(0)) * z))])
    S.fn(Q + 'operator=', name=nm + '::operator=', match=lambda d, C_=C_: d.get('cls') == C_ and d['params'] == ['const %s &' % C_],
         requires=lambda c, inv=inv: [('valid', inv(c, c.this)), ('a valid source', inv(c, c.arg(0))), ('separate memory', Or(c.this.ref == c.arg(0).ref, dat(c.pre, c.this) + ln(c.pre, c.this) * 8 < dat(c.pre, c.arg(0)), dat(c.pre, c.arg(0)) + 8 * ln(c.pre, c.arg(0)) < dat(c.pre, c.this)))], modifies=heap, allocates=True,
         ensures=lambda c, z=z, elems=elems, others=others: [
             ('length', ln(c.post, c.this) == ln(c.pre, c.arg(0))), ('own memory', live_block(c, dat(c.post, c.this), ln(c.pre, c.arg(0)) * z, True)),
             ('not the memory of the source', Or(c.this.ref == c.arg(0).ref, dat(c.post, c.this) != dat(c.pre, c.arg(0)))),
             ('the old memory is released', Or(c.this.ref == c.arg(0).ref, sel(hm(c, 'block', True), dat(c.pre, c.this)) == 0)),
             ('source keeps its memory', Or(c.this.ref == c.arg(0).ref, live_block(c, dat(c.pre, c.arg(0)), ln(c.pre, c.arg(0)) * z, True))),
             ('equal elements', elems(c, dat(c.post, c.this), dat(c.pre, c.arg(0)), ln(c.pre, c.arg(0)))), ('live memory of others unchanged', others(c, dat(c.post, c.this), ln(c.pre, c.arg(0)) * z)),
             ('returns the object', c.result.ref == c.this.ref)])
    S.fn(Q + '(dtor)', name='~' + nm, match=m(C_), requires=lambda c, inv=inv: [('valid', inv(c, c.this))], modifies=lambda c: ['block', 'valid'], ensures=lambda c: [('memory released', sel(hm(c, 'block', True), dat(c.pre, c.this)) == 0)])
    S.fn(Q + 'size', name=nm + '::size', match=m(C_), value=lambda c: ln(c.pre, c.this))
    S.fn(Q + 'raw_data', name=nm + '::raw_data', match=m(C_), value=lambda c: dat(c.pre, c.this))


def others_(c, q, n, key, srt):
    i = z3.Int('i!ot')
    return forall([i], Implies(And(sel(hm(c, 'valid', sort=BOOL), i)), sel(hm(c, key, True, srt), i) == sel(hm(c, key, sort=srt), i)), patterns=[sel(hm(c, key, True, srt), i)])


def num(t):
    return z3.ToReal(t) if t.sort() == INT else t


def dbl_loops(lc, z, key, srt):
    c = lc.c
    this = c.this.ref
    X = lc.X
    rd = lambda v: X.read(v)
    for n, v in lc.changed(vec_sort(REAL)):
        yield 'length of ' + n, lambda v=v: vlen(rd(v)) == SIZE(this)
        for p, i in lc.positions():
            yield 'range of ' + p, lambda i=i: And(0 <= i(), i() <= SIZE(this))
            yield 'done so far (%s, %s)' % (n, p), lambda v=v, i=i: forall_idx(i(), lambda j: sel(varr(rd(v)), j) == num(sel(hm(c, key, sort=srt), RAW(this) + j * z)), patterns=lambda j: [sel(varr(rd(v)), j)])


def setup(X):
    cmem.enable_new(X)


S.setup = setup

# ---- sets
for K, acc in (('feature', 'features'), ('descriptor', 'descriptors'), ('landmark', 'landmarks')):
    nm = V + 'simple_%s_%s' % (K, 'map' if K == 'landmark' else 'set')
    S.fn(nm + '::' + acc, name=nm.split('::')[-1] + '::' + acc, inline=True, ensures=lambda c: [('the stored collection', c.result == c.pre.f(c.this, "data_"))])
    S.fn(nm + '::(ctor)', name=nm.split('::')[-1] + '(collection)', match=nparams(1), modifies=lambda c: [c.pre.loc(c.this, 'data_')], ensures=lambda c: [('the given collection', c.post.f(c.this, "data_") == c.val(0))])
    S.fn(nm + '::size', name=nm.split('::')[-1] + '::size', ensures=lambda c, K=K: [('number of entries', c.result == (vlen(c.pre.f(c.this, 'data_')) if K != 'landmark' else c.X.lib.size_of(c.X, c.pre.f(c.this, 'data_'))))])
