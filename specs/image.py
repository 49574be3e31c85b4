"""kwiver::vital::image: pixel addressing, resizing, copying, comparing, transforming"""
from vcg.spec import *

S = Spec(['vital/types/image.cxx'])
V = 'kwiver::vital::'
I = V + 'image'
M = V + 'image_memory'
BYTE = z3.ArraySort(INT, INT)
U32 = 1 << 32

# address of pixel (i,j,k): first pixel, steps, coordinates
PIX = z3.Function('pixel', INT, INT, INT, INT, INT, INT, INT, INT)
# elements of an image (by its first pixel, steps and size): any set with these members
ELEM = z3.Function('in_image', INT, INT, INT, INT, INT, INT, INT, INT, BOOL)


def pix_def():
    vs = z3.Ints('f!p a!p b!p c!p i!p j!p k!p')
    f, a, b, c, i, j, k = vs
    return forall(vs, PIX(*vs) == f + a * i + b * j + c * k, patterns=[PIX(*vs)])


class Im:
    def __init__(self, c, loc, post=False, cur=False):
        sv = (lambda n: c.X.fpath(loc, [n])) if cur else (lambda n: (c.post if post else c.pre).f(loc, n))
        self.c = c
        self.loc = loc
        self.w, self.h, self.d = sv('width_'), sv('height_'), sv('depth_')
        self.ws, self.hs, self.ds = sv('w_step_'), sv('h_step_'), sv('d_step_')
        self.fp, self.data = sv('first_pixel_'), sv('data_')

    def pix(self, i, j, k):
        return PIX(self.fp, self.ws, self.hs, self.ds, i, j, k)

    def inr(self, i, j, k):
        return And(0 <= i, i < self.w, 0 <= j, j < self.h, 0 <= k, k < self.d)

    def elem(self, a):
        return ELEM(self.fp, self.ws, self.hs, self.ds, self.w, self.h, self.d, a)

    def dims(self):
        return And(0 <= self.w, self.w < U32, 0 <= self.h, self.h < U32, 0 <= self.d, self.d < U32)

    def each(self, f, n='e'):
        """f(i,j,k) for every coordinate in range"""
        i, j, k = z3.Ints('i!%s j!%s k!%s' % (n, n, n))
        return forall([i, j, k], Implies(self.inr(i, j, k), f(i, j, k)), patterns=[self.pix(i, j, k)])

    def elems(self):
        return self.each(lambda i, j, k: self.elem(self.pix(i, j, k)), 'el')

    def inside(self, valid):
        """every pixel lies in live memory"""
        return self.each(lambda i, j, k: z3.Select(valid, self.pix(i, j, k)), 'in')

    def injective(self):
        i, j, k, l, m, n = z3.Ints('i!ij j!ij k!ij l!ij m!ij n!ij')
        return forall([i, j, k, l, m, n], Implies(And(self.inr(i, j, k), self.inr(l, m, n), self.pix(i, j, k) == self.pix(l, m, n)), And(i == l, j == m, k == n)),
                      patterns=[z3.MultiPattern(self.pix(i, j, k), self.pix(l, m, n))])

    def disjoint(self, o):
        i, j, k, l, m, n = z3.Ints('i!dj j!dj k!dj l!dj m!dj n!dj')
        return forall([i, j, k, l, m, n], Implies(And(self.inr(i, j, k), o.inr(l, m, n)), self.pix(i, j, k) != o.pix(l, m, n)),
                      patterns=[z3.MultiPattern(self.pix(i, j, k), o.pix(l, m, n))])


def mem(c, post=False, cur=False):
    st = c.X.st if cur else c._post if post else c._pre
    with c.X.at(st):
        return c.X.hmap('mem:8', INT)


def valid(c, post=False):
    with c.X.at(c._post if post else c._pre):
        return c.X.hmap('valid', BOOL)


def STD(c):
    """the definition of PIX; callers only need its values at the coordinates a loop moves through (see step_facts)"""
    return [pix_def()] if c.verifying else []


def step_facts(m, x):
    """instances of the definition: one step along a dimension adds that step, the origin is the first pixel"""
    x = [simp(v) for v in x]
    out = [m.pix(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)) == m.fp]
    for q, s in enumerate((m.ws, m.hs, m.ds)):
        y = list(x)
        y[q] = simp(x[q] - 1)
        out.append(m.pix(*x) == m.pix(*y) + s)
    return out


def here(n):
    """the definition, for the coordinates of the arguments"""
    def f(c):
        if not c.verifying:
            return []
        m, out = Im(c, c.this), []
        for k in [c.val(2)] if n == 3 else [z3.IntVal(0), z3.IntVal(1), z3.IntVal(2)]:
            out.append(m.pix(c.val(0), c.val(1), k) == m.fp + m.ws * c.val(0) + m.hs * c.val(1) + m.ds * k)
        return out
    return f


@S.lemma('steps of the pixel address', prop=['C10', 'C11'])
def step_lemma(L):
    f, a, b, c, i, j, k = z3.Ints('f a b c i j k')
    pix = lambda i, j, k: f + a * i + b * j + c * k
    yield 'origin', pix(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)) == f
    yield 'next column', pix(i, j, k) == pix(i - 1, j, k) + a
    yield 'next row', pix(i, j, k) == pix(i, j - 1, k) + b
    yield 'next plane', pix(i, j, k) == pix(i, j, k - 1) + c
OOR = 'std::out_of_range'

# ------------------------------------------------------------------ pixel access
P10 = ['C10']
for n in ('width', 'height', 'depth', 'w_step', 'h_step', 'd_step'):
    S.fn(I + '::' + n, prop=['C10', 'C11'], value=lambda c, n=n: c.pre.f(c.this, n + '_'))
S.fn(I + '::first_pixel', prop=['C10', 'C11'], value=lambda c: c.pre.f(c.this, 'first_pixel_'))
S.fn(I + '::memory', prop=P10, inline=True, verify=False)
S.fn(M + '::size', prop=P10, value=lambda c: c.pre.f(c.this, 'size_'))
S.fn(M + '::data', prop=P10, value=lambda c: c.pre.f(c.this, 'data_'))
S.fn(I + '::size', prop=P10, value=lambda c: If(c.pre.f(c.this, 'data_') == 0, 0, msize(c)))


def msize(c):
    return c.pre.f(ObjLoc(c.pre.f(c.this, 'data_'), c.X.prog.ty(M)), 'size_')


def acc_req(c):
    m = Im(c, c.this)
    return [('pixels in live memory', m.inside(valid(c))), ('sizes', m.dims())]


def addr(loc):
    return loc.addr


def pixel_post(n):
    def f(c):
        m = Im(c, c.this)
        k = c.val(2) if n == 3 else z3.IntVal(0)
        if c.verifying and not isinstance(c.result, MemLoc):
            raise Unsupported('pixel reference is not a memory element')
        return [('the element of the coordinates', c.result.addr == m.pix(c.val(0), c.val(1), k))]
    return f


def access_range(n):
    def f(c):
        m = Im(c, c.this)
        bad = Or(c.val(0) >= m.w, c.val(1) >= m.h)
        if n == 3:
            bad = Or(bad, c.val(2) >= m.d)
        return {OOR: bad}
    return f


for n in (2, 3):
    S.fn(I + '::operator()', name=I + '::operator()/%d' % n, prop=['C10', 'C11'], match=nparams(n), axioms=here(n), requires=lambda c, n=n: acc_req(c) + ([('at least one plane', Im(c, c.this).d >= 1)] if n == 2 else []),
         throws=access_range(n), ensures=pixel_post(n), result_shape=lambda c, n=n: MemLoc(Im(c, c.this).pix(c.val(0), c.val(1), c.val(2) if n == 3 else z3.IntVal(0)), c.X.prog.ty('unsigned char')))


def at_post(c):
    m, h = Im(c, c.this), mem(c)
    i, j = c.val(0), c.val(1)
    px = lambda k: z3.Select(h, m.pix(i, j, z3.IntVal(k)))
    f = lambda n: c.post.f(c.result, n)
    return [('red', f('r') == px(0)), ('green', f('g') == If(m.d < 3, px(0), px(1))), ('blue', f('b') == If(m.d < 3, px(0), px(2)))]


S.fn(I + '::at', prop=P10, axioms=here(2), requires=lambda c: acc_req(c) + [('at least one plane', Im(c, c.this).d >= 1)], throws=access_range(2), ensures=at_post)

# ------------------------------------------------------------------ construction
IF = ['data_', 'first_pixel_', 'width_', 'height_', 'depth_', 'w_step_', 'h_step_', 'd_step_']


def fields(c):
    return [c.pre.loc(c.this, n) for n in IF]


def owned(c, m, post=True):
    """the image covers memory of its own completely"""
    r = ObjLoc(m.data, c.X.prog.ty(M))
    sv = c.post
    n = m.w * m.h * m.d
    return [('size of the memory', sv.f(r, 'size_') == n), ('first pixel is the start of the memory', sv.f(r, 'data_') == m.fp)]


def packed(m, inter):
    return And(m.ws == If(inter, m.d, 1), m.hs == If(inter, m.d * m.w, m.w), m.ds == If(inter, 1, m.w * m.h))


def prod_ok(w, h, d):
    return And(0 <= w, w < U32, 0 <= h, h < U32, 0 <= d, d < U32, w * h * d < (1 << 63), w * h < (1 << 63), d * w < (1 << 63), w * h >= 0, w * d >= 0, w * h * d >= 0)


def alloc_post(c):
    m = Im(c, c.this, 1)
    inter = c.val(3)
    return [('dimensions', And(m.w == c.val(0), m.h == c.val(1), m.d == c.val(2))), ('steps of the layout', packed(m, inter))] + owned(c, m)


S.fn(M + '::(ctor)', name=M + '::image_memory(n)', prop=['C10', 'C11'], match=lambda d: d['params'] == ['unsigned long'], modifies=lambda c: [c.pre.loc(c.this, 'data_'), c.pre.loc(c.this, 'size_'), 'valid'],
     ensures=lambda c: [('size', c.post.f(c.this, 'size_') == c.val(0)), ('a block', c.post.f(c.this, 'data_') > 0)] + fresh_block(c, c.post.f(c.this, 'data_'), c.val(0)))


def fresh_block(c, a, n):
    i = z3.Int('i!fb')
    v0, v1 = valid(c), valid(c, 1)
    return [('new memory', forall([i], Implies(And(a <= i, i < a + n), And(Not(z3.Select(v0, i)), z3.Select(v1, i))), patterns=[z3.Select(v1, i)])),
            ('older memory stays', forall([i], Implies(z3.Select(v0, i), z3.Select(v1, i)), patterns=[z3.Select(v0, i), z3.Select(v1, i)]))]


S.fn(I + '::(ctor)', name=I + '::image(w,h,d,interleave)', prop=['C10', 'C11'], match=lambda d: len(d['params']) == 4, axioms=STD,
     requires=lambda c: [('the memory size fits', prod_ok(c.val(0), c.val(1), c.val(2)))], ensures=alloc_post, modifies=lambda c: fields(c) + ['valid'])
S.fn(I + '::(ctor)', name=I + '::image()', prop=['C10', 'C11'], match=nparams(0), modifies=fields,
     ensures=lambda c: [(n, c.post.f(c.this, n) == 0) for n in IF])
S.fn(I + '::(ctor)', name=I + '::image(view)', prop=['C10', 'C11'], match=nparams(7), modifies=fields,
     ensures=lambda c: [('no memory', c.post.f(c.this, 'data_') == 0)] + [(n, c.post.f(c.this, n) == c.val(i)) for i, n in enumerate(IF[1:])])
S.fn(I + '::(ctor)', name=I + '::image(memory view)', prop=['C10', 'C11'], match=nparams(8), modifies=fields,
     ensures=lambda c: [(n, c.post.f(c.this, n) == c.val(i)) for i, n in enumerate(IF)])
S.fn(I + '::(ctor)', name=I + '::image(image const&)', prop=['C11'], match=lambda d: bool(d.get('copy')), modifies=fields,
     ensures=lambda c: [(n + ' shared', c.post.f(c.this, n) == c.pre.f(c.arg(0), n)) for n in IF])
S.fn(I + '::operator=', name=I + '::operator=(image const&)', prop=['C11'], match=lambda d: 'const' in d['params'][0], modifies=fields,
     ensures=lambda c: [(n + ' shared', c.post.f(c.this, n) == c.pre.f(c.arg(0), n)) for n in IF])

# ------------------------------------------------------------------ resizing


def size_post(c):
    m, b = Im(c, c.this, 1), Im(c, c.this)
    same = And(b.w == c.val(0), b.h == c.val(1), b.d == c.val(2))
    keep = And([c.post.f(c.this, n) == c.pre.f(c.this, n) for n in IF])
    out = [('dimensions', And(m.w == c.val(0), m.h == c.val(1), m.d == c.val(2))), ('nothing happens without a change of size', Implies(same, keep)),
           ('packed planar or interleaved layout', Implies(Not(same), Or(packed(m, z3.BoolVal(False)), packed(m, z3.BoolVal(True)))))]
    out += [(n, Implies(Not(same), t)) for n, t in owned(c, m) + fresh_block(c, m.fp, m.w * m.h * m.d)[:1]]
    v0, v1, a = valid(c), valid(c, 1), z3.Int('a!fb')
    out.append(('older memory stays', forall([a], Implies(z3.Select(v0, a), z3.Select(v1, a)), patterns=[z3.Select(v0, a), z3.Select(v1, a)])))
    return out if c.verifying else []


S.fn(I + '::set_size', prop=['C10', 'C11'], requires=lambda c: [('the memory size fits', prod_ok(c.val(0), c.val(1), c.val(2)))],
     ensures=size_post, modifies=lambda c: fields(c) + ['valid'], allocates=True)



def digits(x, y, z, a, b, c):
    return And(0 <= x, x < a, 0 <= y, y < b, 0 <= z, z < c)


def unit(f, g):
    """a multiple of f below f is zero"""
    return Implies(And(f >= 1, -f < f * g, f * g < f), g == 0)


@S.lemma('packed layouts address every pixel once and inside the memory', prop=['C10', 'C11'])
def packed_lemma(L):
    # mixed radix numbers: digits x < a, y < b, z < c with value x + a*y + a*b*z
    x, y, z, u, v, t, a, b, c, q, s, s2, p = z3.Ints('x y z u v t a b c q s s2 p')
    yield 'a multiple below one unit is zero', unit(a, q)
    yield 'product is monotonic', Implies(And(a >= 0, y <= q), a * y <= a * q)
    num = x + a * y + a * b * z
    yield 'grouping digits', num == x + a * (y + b * z)
    two = And(0 <= x, x < a, 0 <= u, u < a, x + a * s == u + a * s2)
    yield 'difference of two digit numbers', Implies(two, And(a * (s - s2) == u - x, -a < a * (s - s2), a * (s - s2) < a))
    yield 'two digits are determined', Implies(And(two, a >= 1, s - s2 == 0), And(x == u, s == s2))
    ded = lambda x, s, u, s2, a: Implies(And(0 <= x, x < a, 0 <= u, u < a, x + a * s == u + a * s2), And(x == u, s == s2))
    yield 'three digits are determined', Implies(And(digits(x, y, z, a, b, c), digits(u, v, t, a, b, c), s == y + b * z, s2 == v + b * t, x + a * s == u + a * s2,
                                                      ded(x, s, u, s2, a), ded(y, z, v, t, b)), And(x == u, y == v, z == t))
    mono = lambda a, y, q: Implies(And(a >= 0, y <= q), a * y <= a * q)
    yield 'two digit bound', Implies(And(0 <= x, x < a, 0 <= s, s <= q - 1, mono(a, s, q - 1), mono(a, z3.IntVal(0), s)), And(0 <= x + a * s, x + a * s <= a * q - 1))
    bnd = lambda x, s, a, q: Implies(And(0 <= x, x < a, 0 <= s, s <= q - 1), And(0 <= x + a * s, x + a * s <= a * q - 1))
    yield 'three digit bound', Implies(And(digits(x, y, z, a, b, c), s == y + b * z, q == b * c, bnd(y, z, b, c), bnd(x, s, a, q)), And(0 <= x + a * s, x + a * s <= a * q - 1))


def layout_facts(c, m):
    """the lemma, for the layout of m: distinct coordinates, distinct elements, all within the memory"""
    n = m.w * m.h * m.d
    ok = And(packed_any(m), m.dims())
    return [Implies(ok, m.injective()), Implies(ok, m.each(lambda i, j, k: And(m.fp <= m.pix(i, j, k), m.pix(i, j, k) < m.fp + n), 'lf'))]


def packed_any(m):
    return Or(packed(m, z3.BoolVal(False)), packed(m, z3.BoolVal(True)))


@S.lemma('the layout facts are those of three digit numbers', prop=['C10', 'C11'])
def layout_lemma(L):
    # planar: x = i, y = j, z = k; interleaved: x = k, y = i, z = j
    f, w, h, d, i, j, k, l, m, n, ws, hs, ds = z3.Ints('f w h d i j k l m n ws hs ds')
    pl = And(ws == 1, hs == w, ds == w * h)
    il = And(ws == d, hs == d * w, ds == 1)
    pix = lambda i, j, k: f + ws * i + hs * j + ds * k
    yield 'planar', Implies(pl, pix(i, j, k) == f + (i + w * (j + h * k)))
    yield 'interleaved', Implies(il, pix(i, j, k) == f + (k + d * (i + w * j)))



@S.lemma('a packed image over new memory has distinct pixels, all of them in the new memory', prop=['C10', 'C11'])
def size_lemma(L):
    # what callers of set_size are told follows from what is proved about it
    a, fp, n = z3.Ints('a fp n')
    v0, v1 = z3.Array('v0', INT, BOOL), z3.Array('v1', INT, BOOL)
    i = z3.Int('i!fb')
    fresh = forall([i], Implies(And(fp <= i, i < fp + n), And(Not(z3.Select(v0, i)), z3.Select(v1, i))), patterns=[z3.Select(v1, i)])
    yield 'an element of a new block', Implies(And(fresh, fp <= a, a < fp + n), And(Not(z3.Select(v0, a)), z3.Select(v1, a)))


def size_facts(c):
    """the postcondition of set_size as the callers use it: set_size verified + the packed layout lemmas"""
    m, b = Im(c, c.this, 1), Im(c, c.this)
    same = And(b.w == c.val(0), b.h == c.val(1), b.d == c.val(2))
    keep = And([c.post.f(c.this, n) == c.pre.f(c.this, n) for n in IF])
    v0, v1 = valid(c), valid(c, 1)
    a = z3.Int('a!fb')
    return [And(m.w == c.val(0), m.h == c.val(1), m.d == c.val(2)), Implies(same, keep),
            Implies(Not(same), And(m.injective(), m.each(lambda i, j, k: And(Not(z3.Select(v0, m.pix(i, j, k))), z3.Select(v1, m.pix(i, j, k))), 'sf'))),
            forall([a], Implies(z3.Select(v0, a), z3.Select(v1, a)), patterns=[z3.Select(v0, a), z3.Select(v1, a)])]


for _c in S.contracts:
    if _c.q == I + '::set_size':
        _c.post_axioms = lambda c: [] if c.verifying else size_facts(c)

# ------------------------------------------------------------------ copying
INV = [z3.Function('pixel_%s_of' % n, INT, INT, INT, INT, INT, INT, INT, INT, INT) for n in 'ijk']


def elem_def(m):
    """ELEM is exactly the set of the addresses of the pixels"""
    a = z3.Int('a!ed')
    args = [m.fp, m.ws, m.hs, m.ds, m.w, m.h, m.d]
    i, j, k = [f(*(args + [a])) for f in INV]
    return [m.elems(), forall([a], Implies(m.elem(a), And(m.inr(i, j, k), m.pix(i, j, k) == a)), patterns=[m.elem(a)])]


def copied(m, h1, o, h0, done=None):
    i, j, k = z3.Ints('i!cp j!cp k!cp')
    g = m.inr(i, j, k)
    if done is not None:
        g = And(g, done(i, j, k))
    return forall([i, j, k], Implies(g, z3.Select(h1, m.pix(i, j, k)) == z3.Select(h0, o.pix(i, j, k))), patterns=[m.pix(i, j, k), o.pix(i, j, k)])


def others_kept(m, h1, h0):
    a = z3.Int('a!ok')
    return forall([a], Implies(Not(m.elem(a)), z3.Select(h1, a) == z3.Select(h0, a)), patterns=[z3.Select(h1, a)])


def counters(lc, m):
    """[(coordinate, counter, own)]: the counters of this loop and of those around it, with the image side that limits them"""
    X = lc.X
    memo = lc.__dict__.setdefault('memo', {})
    mk = (m.w.get_id(), m.h.get_id(), m.d.get_id())
    if mk in memo:
        return memo[mk]
    mod = {n for n, _ in lc.vars}
    out = []
    for cid, lim in X.limits.items():
        own = cid in mod
        sides = list(enumerate((m.w, m.h, m.d)))
        q = [q for q, side in sides if lim.eq(side)] or [q for q, side in sides if X.known(lim == side)]
        if q:
            out.append((q[0], VarLoc(cid, None), own))
    memo[mk] = out
    lc.keep = [m] + getattr(lc, 'keep', [])
    return out


def visited(lc, m):
    """(done, coords): predicate of the coordinates visited before this point of a loop nest, and the current coordinates with zero for inner loops"""
    X = lc.X
    cs = counters(lc, m)
    outer = [(q, l) for q, l, own in cs if not own]
    own = [(q, l) for q, l, own in cs if own][:1]
    if not own:
        return None
    seq = outer + own       # X.limits keeps the order in which the loops were entered
    if len({q for q, _ in seq}) != len(seq):
        return None

    def done(i, j, k):
        x = (i, j, k)
        q, l = seq[-1]
        r = x[q] < X.st.cells[l.cid]
        for q, l in reversed(seq[:-1]):
            r = Or(x[q] < X.st.cells[l.cid], And(x[q] == X.st.cells[l.cid], r))
        return r

    def coords():
        v = {q: X.st.cells[l.cid] for q, l in seq}
        return [v.get(q, z3.IntVal(0)) for q in range(3)]
    return done, coords


def ptr_loops(lc, imgs):
    """pointers that run through the image point at the element of the current coordinates"""
    X = lc.X
    for n, l in lc.vars:
        if isinstance(l, VarLoc) and l.ty.is_ptr():
            for tag, m in imgs:
                v = visited(lc, m())
                if v:
                    def f(l=l, m=m, v=v):
                        for t in step_facts(m(), v[1]()):
                            X.assume(t)
                        return X.read(l) == m().pix(*[simp(x) for x in v[1]()])
                    yield 'ptr(%s,%s)' % (n, tag), f


def cp_loops(lc):
    c = lc.c
    m = lambda: Im(c, c.this, cur=True)
    o = lambda: Im(c, c.arg(0))
    for x in ptr_loops(lc, [('to', m), ('from', o)]):
        yield x
    def others():
        for t in elem_def(m()):
            lc.X.assume(t)
        return others_kept(m(), mem(c, cur=True), mem(c))
    yield 'others', others
    v = visited(lc, m())
    if v:
        yield 'copied', lambda: copied(m(), mem(c, cur=True), o(), mem(c), v[0])


def same_size(a, b):
    return And(a.w == b.w, a.h == b.h, a.d == b.d)


def cp_req(c):
    m, o = Im(c, c.this), Im(c, c.arg(0))
    s = same_size(m, o)
    return [('the memory size fits', prod_ok(o.w, o.h, o.d)), ('source pixels in live memory', o.inside(valid(c))),
            ('own pixels in live memory', Implies(s, m.inside(valid(c)))), ('own pixels distinct', Implies(s, m.injective())), ('source memory is other memory', Implies(s, m.disjoint(o))),
            ('different images', c.this.ref != c.arg(0).ref)]


def cp_post(c):
    m, o, b = Im(c, c.this, 1), Im(c, c.arg(0)), Im(c, c.this)
    return [('same size', same_size(m, o)), ('every pixel is that of the source', copied(m, mem(c, 1), o, mem(c))), ('no other memory is written', others_kept(m, mem(c, 1), mem(c))),
            ('an image of the same size keeps its memory', Implies(same_size(b, o), And([c.post.f(c.this, n) == c.pre.f(c.this, n) for n in IF]))),
            ('another size means memory of its own', Implies(Not(same_size(b, o)), m.each(lambda i, j, k: Not(z3.Select(valid(c), m.pix(i, j, k))), 'nw')))]


S.fn(I + '::copy_from', prop=['C11'], axioms=lambda c: elem_def(Im(c, c.this)), requires=cp_req, ensures=cp_post, loops=cp_loops, post_axioms=lambda c: elem_def(Im(c, c.this, 1)),
     modifies=lambda c: fields(c) + ['valid', 'mem:8'], allocates=True)

# ------------------------------------------------------------------ comparing
def live(c, *ms):
    return [('pixels in live memory (%d)' % i, m.inside(valid(c))) for i, m in enumerate(ms)] + [('sizes (%d)' % i, m.dims()) for i, m in enumerate(ms)]


def eq_loops(lc):
    c = lc.c
    m, o = Im(c, c.arg(0)), Im(c, c.arg(1))
    v = visited(lc, m)
    if v:
        def f():
            i, j, k = z3.Ints('i!qe j!qe k!qe')
            h = mem(c)
            return forall([i, j, k], Implies(And(m.inr(i, j, k), v[0](i, j, k)), z3.Select(h, m.pix(i, j, k)) == z3.Select(h, o.pix(i, j, k))), patterns=[m.pix(i, j, k), o.pix(i, j, k)])
        yield 'equal so far', f


def eq_post(c):
    m, o, h = Im(c, c.arg(0)), Im(c, c.arg(1)), mem(c)
    i, j, k = z3.Ints('i!eq j!eq k!eq')
    return [('equal content means the same size', Implies(c.result, same_size(m, o))),
            ('equal content means the same pixels', Implies(c.result, copied(m, h, o, h))),
            ('images of the same size with the same pixels have equal content', Implies(And(same_size(m, o), copied(m, h, o, h)), c.result))]


S.fn(V + 'equal_content', prop=['C11'], requires=lambda c: live(c, Im(c, c.arg(0)), Im(c, c.arg(1))), ensures=eq_post, loops=eq_loops)

# ------------------------------------------------------------------ transforming
OP = z3.Function('pixel_function', INT, INT)


def op_call(X, f, vals, e):
    r = OP(vals[0])
    X.assume(And(0 <= r, r <= 255))
    return r


def tr_req(c):
    m = Im(c, c.arg(0))
    return live(c, m) + [('pixels distinct', m.injective())]


def tr_cases(c):
    m = Im(c, c.arg(0))
    return [m.ws < m.hs, m.ds < m.hs, m.ds < m.ws]


def tr_loops(lc):
    c = lc.c
    m = Im(c, c.arg(0))
    for x in ptr_loops(lc, [('img', lambda: m)]):
        yield x
    h0 = mem(c)

    def others():
        for t in elem_def(m):
            lc.X.assume(t)
        return others_kept(m, mem(c, cur=True), h0)
    yield 'others', others
    v = visited(lc, m)
    if v:
        i, j, k = z3.Ints('i!tr j!tr k!tr')

        def done(pos):
            def f():
                h1 = mem(c, cur=True)
                p = m.pix(i, j, k)
                if pos:
                    return forall([i, j, k], Implies(And(m.inr(i, j, k), v[0](i, j, k)), z3.Select(h1, p) == OP(z3.Select(h0, p))), patterns=[p])
                return forall([i, j, k], Implies(And(m.inr(i, j, k), Not(v[0](i, j, k))), z3.Select(h1, p) == z3.Select(h0, p)), patterns=[p])
            return f
        yield 'transformed', done(True)
        yield 'pending', done(False)


def tr_post(c):
    m, h0, h1 = Im(c, c.arg(0)), mem(c), mem(c, 1)
    return [('every pixel is transformed once', m.each(lambda i, j, k: z3.Select(h1, m.pix(i, j, k)) == OP(z3.Select(h0, m.pix(i, j, k))), 'tp')), ('no other memory is written', others_kept(m, h1, h0))]


S.fn(V + 'transform_image', prop=['C11'], requires=tr_req, ensures=tr_post, loops=tr_loops, cases=tr_cases, calls=op_call, axioms=lambda c: elem_def(Im(c, c.arg(0))), modifies=lambda c: ['mem:8'])
