"""kwiver::vital::image_memory: owned blocks of bytes, copied byte for byte"""
from vcg.spec import *
from vcg.lib import cmem
from specs.values import live_block, hm, others_

S = Spec(['vital/types/image.cxx'], props=['C11'])
M = 'kwiver::vital::image_memory'
sel = z3.Select


def setup(X):
    cmem.enable_new(X)
    X.lib.h['memcpy'] = X.lib.h['std::memcpy'] = cmem.memcpy


S.setup = setup
D = lambda v, o: v.f(o, 'data_')
N = lambda v, o: v.f(o, 'size_')
BYTES = 'mem:8'
inv = lambda c, o: And(N(c.pre, o) >= 0, N(c.pre, o) < 2**62, Or(And(D(c.pre, o) == 0, N(c.pre, o) == 0), live_block(c, D(c.pre, o), N(c.pre, o))))
good = lambda c, o: Or(And(D(c.post, o) == 0, N(c.post, o) == 0), live_block(c, D(c.post, o), N(c.post, o), True))
mod = lambda c: ['block', 'valid', BYTES, c.pre.loc(c.this, 'data_'), c.pre.loc(c.this, 'size_')]


def same_bytes(c, q, p, n):
    return forall_idx(n, lambda i: sel(hm(c, BYTES, True, INT), q + i) == sel(hm(c, BYTES, sort=INT), p + i), patterns=lambda i: [sel(hm(c, BYTES, True, INT), q + i)])


def rest(c, q, n):
    return others_(c, q, n, BYTES, INT)


same = lambda c: c.this.ref == c.arg(0).ref
S.fn(M + '::(ctor)', name=M + '()', match=lambda d: not d['params'], modifies=mod, ensures=lambda c: [('no memory', And(D(c.post, c.this) == 0, N(c.post, c.this) == 0))])
S.fn(M + '::(ctor)', name=M + '(n)', match=lambda d: d['params'] == ['unsigned long'], requires=lambda c: [('representable size', c.val(0) < 2**62)], modifies=mod, allocates=True,
     ensures=lambda c: [('size', N(c.post, c.this) == c.val(0)), ('own memory of that size', live_block(c, D(c.post, c.this), c.val(0), True)), ('memory of nobody else', sel(hm(c, 'block'), D(c.post, c.this)) == 0)])
S.fn(M + '::(ctor)', name=M + '(copy)', match=lambda d: bool(d['params']) and 'image_memory' in d['params'][0], requires=lambda c: [('a valid source', inv(c, c.arg(0)))], modifies=mod, allocates=True,
     ensures=lambda c: [('size', N(c.post, c.this) == N(c.pre, c.arg(0))), ('own memory of that size', live_block(c, D(c.post, c.this), N(c.pre, c.arg(0)), True)), ('memory of nobody else', sel(hm(c, 'block'), D(c.post, c.this)) == 0),
                        ('equal bytes', same_bytes(c, D(c.post, c.this), D(c.pre, c.arg(0)), N(c.pre, c.arg(0)))), ('live memory of others unchanged', rest(c, D(c.post, c.this), N(c.pre, c.arg(0))))])
S.fn(M + '::operator=', match=lambda d: 'const' in d['params'][0], modifies=mod, allocates=True,
     requires=lambda c: [('valid', inv(c, c.this)), ('a valid source', inv(c, c.arg(0))),
                         ('separate memory', Or(same(c), D(c.pre, c.this) + N(c.pre, c.this) < D(c.pre, c.arg(0)), D(c.pre, c.arg(0)) + N(c.pre, c.arg(0)) < D(c.pre, c.this), D(c.pre, c.this) == 0, D(c.pre, c.arg(0)) == 0))],
     ensures=lambda c: [('size', N(c.post, c.this) == N(c.pre, c.arg(0))), ('own memory of that size, or none for an empty source', good(c, c.this)),
                        ('not the memory of the source', Or(same(c), D(c.post, c.this) == 0, D(c.post, c.this) != D(c.pre, c.arg(0)))),
                        ('old memory of another size is released', Or(D(c.pre, c.this) == 0, N(c.pre, c.this) == N(c.pre, c.arg(0)), D(c.post, c.this) == D(c.pre, c.this), sel(hm(c, 'block', True), D(c.pre, c.this)) == 0)),
                        ('source keeps its memory', Or(D(c.pre, c.arg(0)) == 0, live_block(c, D(c.pre, c.arg(0)), N(c.pre, c.arg(0)), True))),
                        ('equal bytes', same_bytes(c, D(c.post, c.this), D(c.pre, c.arg(0)), N(c.pre, c.arg(0)))), ('returns the object', c.result.ref == c.this.ref)])
S.fn(M + '::(dtor)', requires=lambda c: [('valid', inv(c, c.this))], modifies=lambda c: ['block', 'valid'], ensures=lambda c: [('memory released', Or(D(c.pre, c.this) == 0, sel(hm(c, 'block', True), D(c.pre, c.this)) == 0))])
S.fn(M + '::data', value=lambda c: D(c.pre, c.this))
S.fn(M + '::size', optional=True, value=lambda c: N(c.pre, c.this))
