"""kwiver::vital::algo::filter_features: the descriptors of the kept features, in their order"""
from vcg.spec import *

S = Spec(['vital/algo/filter_features.cxx'], props=['C28'])
V = 'kwiver::vital::'
FF = V + 'algo::filter_features::filter'
VS = vec_sort(INT)
sel = z3.Select

# what a (const) virtual accessor returns on an object in this state
DESC = z3.Function('descriptors_of', INT, VS)
# what the implementation answers for a feature set: the reported indices and the new set
IDX = z3.Function('filter_indices', INT, INT, VS)
OUT = z3.Function('filter_result', INT, INT, INT)
S.fn(V + 'descriptor_set::descriptors', trusted=True, value=lambda c: DESC(c.this.ref))
S.fn(V + 'simple_descriptor_set::descriptors', verify=False, inline=True)
impl = lambda d: len(d['params']) == 2 and 'vector' in d['params'][1]
S.fn(FF, name='filter (implementation)', match=impl, trusted=True, modifies=lambda c: [c.arg(1)], ensures=lambda c: [('indices', c.post.get(c.arg(1)) == IDX(c.this.ref, c.val(0))), ('kept features', c.result == OUT(c.this.ref, c.val(0)))])
S.fn(FF, name='filter (features)', match=lambda d: len(d['params']) == 1, ensures=lambda c: [('what the implementation keeps', c.result == OUT(c.this.ref, c.val(0)))])


def res(c):
    idx, d = IDX(c.this.ref, c.val(0)), DESC(c.val(1))
    return idx, d


def req(c):
    idx, d = res(c)
    return [('descriptor set given', c.val(1) != 0), ('size of an index list', And(vlen(idx) >= 0, vlen(idx) < 2**32)),
            ('reported indices lie within the descriptors', forall_idx(vlen(idx), lambda i: And(0 <= sel(varr(idx), i), sel(varr(idx), i) < vlen(d)), patterns=lambda i: [sel(varr(idx), i)]))]


def kept(idx, d, v, upto):
    return forall_idx(upto, lambda i: sel(varr(v), i) == sel(varr(d), sel(varr(idx), i)), patterns=lambda i: [sel(varr(v), i)])




def post(c):
    idx, d = res(c)
    a, b = pair_of(c)
    data = c.post.f(c.X.obj(b, V + 'simple_descriptor_set'), 'data_')
    return [('kept features', a == OUT(c.this.ref, c.val(0))), ('a descriptor set', b != 0), ('one descriptor per kept feature', vlen(data) == vlen(idx)),
            ('in the order of the kept features', kept(idx, d, data, vlen(idx)))]


def pair_of(c):
    r = c.result
    if isinstance(r, Loc):
        with c.X.at(c._post):
            r = c.X.read(r)
    if isinstance(r, tuple):
        return r
    if hasattr(r, 'first'):
        return r.first, r.second
    return r.sort().accessor(0, 0)(r), r.sort().accessor(0, 1)(r)


def loops(lc):
    c, X = lc.c, lc.X
    idx, d = res(c)
    for n, v in lc.changed(VS):
        for m, i in lc.positions():
            yield 'kept(%s,%s)' % (n, m), lambda v=v, i=i: And(vlen(X.read(v)) == i(), 0 <= i(), i() <= vlen(idx), kept(idx, d, X.read(v), i()))
            yield 'keptd(%s,%s)' % (n, m), lambda v=v, i=i: And(vlen(X.read(v)) == vlen(idx), 0 <= i(), i() <= vlen(idx), kept(idx, d, X.read(v), i()))


S.fn(FF, name='filter (features and descriptors)', match=lambda d: len(d['params']) == 2 and 'descriptor_set' in d['params'][1], requires=req, ensures=post, loops=loops)
