"""C interface: strings, string lists and error handles live in memory of sufficient size"""
from vcg.spec import *
from vcg.lib import cmem
from vcg.lib.core import CHAR

R = '/repo/vital/bindings/c/'
S = Spec([R + 'common.cxx', R + 'error_handle.cxx', R + 'helpers/c_utils.cxx'], props=['C23'])
S.setup = cmem.enable
VS, EH = 'vital_string_t', 'vital_error_handle_s'


def hm(c, key, post=False, cur=False, sort=INT):
    with c.X.at(c.X.st if cur else c._post if post else c._pre):
        return c.X.hmap(key, sort)


mem = lambda c, **k: hm(c, 'mem:8', **k)
ptrs = lambda c, **k: hm(c, 'mem:64', **k)
block = lambda c, **k: hm(c, 'block', **k)
valid = lambda c, **k: hm(c, 'valid', sort=BOOL, **k)
fld = lambda c, cls, f, r, **k: z3.Select(hm(c, cls + '::' + f, **k), r)
sel = z3.Select
BM = ['valid', 'block']


def bytes_of(c, p, n, **k):
    """block of exactly n bytes at p"""
    i = z3.Int('i!by')
    return And(p > 0, sel(block(c, **k), p) == n + 1, forall([i], Implies(And(p <= i, i < p + n), sel(valid(c, **k), i)), patterns=[sel(valid(c, **k), i)]))


def fresh_bytes(c, p, n):
    i = z3.Int('i!fb')
    return And(sel(block(c), p) == 0, forall([i], Implies(And(p <= i, i < p + n), Not(sel(valid(c), i))), patterns=[sel(valid(c), i)]))


def kept(c, cur=False):
    """memory that was live before keeps its content and stays live"""
    k = dict(cur=True) if cur else dict(post=True)
    i = z3.Int('i!kp')
    v = sel(valid(c), i)
    return [('live bytes keep their content', forall([i], Implies(v, sel(mem(c, **k), i) == sel(mem(c), i)), patterns=[sel(mem(c, **k), i)])),
            ('live pointers keep their content', forall([i], Implies(v, sel(ptrs(c, **k), i) == sel(ptrs(c), i)), patterns=[sel(ptrs(c, **k), i)])),
            ('live memory stays live', forall([i], Implies(v, sel(valid(c, **k), i)), patterns=[sel(valid(c, **k), i)])),
            ('live blocks stay', forall([i], Implies(sel(block(c), i) > 0, sel(block(c, **k), i) == sel(block(c), i)), patterns=[sel(block(c, **k), i)]))]


# ------------------------------------------------------------------ vital_string_t
def new_req(c):
    s, n = c.val(1), c.val(0)
    i = z3.Int('i!ns')
    L = cmem.clen(c.X, mem(c), s)
    return [('length representable', n < 2**63), ('the characters are readable', Implies(s != 0, forall([i], Implies(And(s <= i, i <= s + L), sel(valid(c), i)), patterns=[sel(valid(c), i)])))]


def new_post(c):
    n, s, r = c.val(0), c.val(1), c.result
    p = fld(c, VS, 'str', r, post=True)
    L = cmem.CLEN(mem(c), s)
    i = z3.Int('i!np')
    return [('length field', fld(c, VS, 'length', r, post=True) == n), ('structure in a new block', And(bytes_of(c, r, 16, post=True), sel(block(c), r) == 0)),
            ('room for the characters and the terminator', bytes_of(c, p, n + 1, post=True)), ('characters in new memory', fresh_bytes(c, p, n + 1)), ('blocks differ', p != r),
            ('terminated', sel(mem(c, post=True), p + n) == 0),
            ('characters copied', Implies(s != 0, forall([i], Implies(And(p <= i, i < p + n, i - p < L), sel(mem(c, post=True), i) == sel(mem(c), s + i - p)), patterns=[sel(mem(c, post=True), i)])))] + kept(c)[:1] + kept(c)[2:]


S.fn('vital_string_new', requires=new_req, ensures=new_post, modifies=lambda c: BM + ['mem:8', VS + '::str', VS + '::length'])


def gone(c, *ps):
    """exactly the given blocks are gone"""
    i = z3.Int('i!gn')
    b0, b1 = block(c), block(c, post=True)
    return forall([i], sel(b1, i) == If(Or([i == p for p in ps]), 0, sel(b0, i)), patterns=[sel(b1, i)])


S.fn('vital_string_free', requires=lambda c: [('a live string structure', sel(block(c), c.val(0)) == 17), ('with live characters', sel(block(c), fld(c, VS, 'str', c.val(0))) > 0), ('in a block of their own', fld(c, VS, 'str', c.val(0)) != c.val(0)),
                                              ('not null', And(c.val(0) != 0, fld(c, VS, 'str', c.val(0)) != 0))],
     ensures=lambda c: [('structure and characters are freed, nothing else', gone(c, c.val(0), fld(c, VS, 'str', c.val(0))))], modifies=lambda c: BM)

# ------------------------------------------------------------------ error handles
S.fn('vital_eh_new', ensures=lambda c: [('no error', fld(c, EH, 'error_code', c.result, post=True) == 0), ('no message', fld(c, EH, 'message', c.result, post=True) == 0),
                                        ('new block of the size of the structure', And(bytes_of(c, c.result, 16, post=True), sel(block(c), c.result) == 0))] + kept(c)[2:],
     modifies=lambda c: BM + [EH + '::error_code', EH + '::message'])
S.fn('vital_eh_destroy', requires=lambda c: [('null or a live handle', Or(c.val(0) == 0, sel(block(c), c.val(0)) > 0)), ('message null or a live block of its own', Implies(c.val(0) != 0, (lambda m: Or(m == 0, And(sel(block(c), m) > 0, m != c.val(0))))(fld(c, EH, 'message', c.val(0)))))],
     ensures=lambda c: [('handle and message are freed, nothing else', (lambda m: And(Implies(c.val(0) == 0, block(c, post=True) == block(c)),
                        Implies(And(c.val(0) != 0, m != 0), gone(c, c.val(0), m)), Implies(And(c.val(0) != 0, m == 0), gone(c, c.val(0)))))(fld(c, EH, 'message', c.val(0))))],
     modifies=lambda c: BM)


# ------------------------------------------------------------------ pointer lists
def lists_req(c, null_ok):
    n, t = c.val(0), c.val(1)
    i, j = z3.Ints('i!lr j!lr')
    e = lambda i: sel(ptrs(c), t + 8 * i)
    b = block(c)
    inr = lambda i: And(0 <= i, i < n)
    return [('list length', n < 2**32), ('list block', And(sel(b, t) > 0, sel(b, t) >= 8 * n + 1, t > 0)),
            ('list memory is live', forall([i], Implies(And(t <= i, i < t + 8 * n), sel(valid(c), i)), patterns=[sel(valid(c), i)])),
            ('entries are null or live blocks' , forall([i], Implies(inr(i), Or(e(i) == 0, And(sel(b, e(i)) > 0, e(i) != t))), patterns=[e(i)])),
            ('entries do not lie in the list', forall([i, j], Implies(And(inr(i), e(i) != 0, t <= j, j < t + 8 * n), Or(j < e(i), j >= e(i) + sel(b, e(i)) - 1)), patterns=[z3.MultiPattern(e(i), sel(valid(c), j))])),
            ('entries are different', forall([i, j], Implies(And(inr(i), inr(j), i != j, e(i) != 0), e(i) != e(j)), patterns=[z3.MultiPattern(e(i), e(j))]))]


def freed_all(c):
    n, t = c.val(0), c.val(1)
    i = z3.Int('i!fa')
    e = lambda i: sel(ptrs(c), t + 8 * i)
    return [('every entry is freed', forall([i], Implies(And(0 <= i, i < n), sel(block(c, post=True), e(i)) == If(e(i) == 0, sel(block(c), 0), 0)), patterns=[e(i)])), ('the list is freed', sel(block(c, post=True), t) == 0)]


def free_loops(lc):
    c = lc.c
    n, t = c.val(0), c.val(1)
    e = lambda i: sel(ptrs(c), t + 8 * i)
    for nm, l in locals_of(lc, INT):
        if l.ty.is_ptr():
            continue
        i, j = z3.Ints('i!fl j!fl')
        k = lambda l=l: lc.X.read(l)
        yield 'freed(%s)' % nm, lambda k=k: forall([i], Implies(And(0 <= i, i < k()), sel(block(c, cur=True), e(i)) == If(e(i) == 0, sel(block(c), 0), 0)), patterns=[e(i)])
        yield 'pending(%s)' % nm, lambda k=k: forall([i], Implies(And(k() <= i, i < n), sel(block(c, cur=True), e(i)) == sel(block(c), e(i))), patterns=[e(i)])
    yield 'list block', lambda: sel(block(c, cur=True), t) == sel(block(c), t)
    yield 'list live', lambda: forall([i], Implies(And(t <= i, i < t + 8 * n), And(sel(valid(c), i), sel(valid(c, cur=True), i))), patterns=[sel(valid(c, cur=True), i)])


S.fn('vital_common_free_string_list', requires=lambda c: lists_req(c, True), ensures=freed_all, loops=free_loops, modifies=lambda c: BM)
S.fn('vital_free_pointer', requires=lambda c: [('null or a live block', Or(c.val(0) == 0, sel(block(c), c.val(0)) > 0))],
     ensures=lambda c: [('the block is freed, nothing else', If(c.val(0) == 0, block(c, post=True) == block(c), gone(c, c.val(0))))], modifies=lambda c: BM)
S.fn('vital_free_double_pointer', requires=lambda c: [(n, Implies(c.val(1) != 0, f)) for n, f in lists_req(c, True)], loops=free_loops,
     ensures=lambda c: [(n, Implies(c.val(1) != 0, f)) for n, f in freed_all(c)], modifies=lambda c: BM)


# ------------------------------------------------------------------ string lists
def entry_ok(c, l, t, i, **k):
    s = sel(varr(l), i)
    p = sel(ptrs(c, **k), t + 8 * i)
    q = z3.Int('q!eo')
    return [('size', And(p > 0, sel(block(c, **k), p) == z3.Length(s) + 2)),
            ('live', forall([q], Implies(And(p <= q, q <= p + z3.Length(s)), sel(valid(c, **k), q)), patterns=[sel(valid(c, **k), q)])),
            ('characters', forall([q], Implies(And(0 <= q, q < z3.Length(s)), And(sel(valid(c, **k), p + q), sel(mem(c, **k), p + q) == CHAR(s, q))), patterns=[CHAR(s, q)])),
            ('terminator', And(sel(valid(c, **k), p + z3.Length(s)), sel(mem(c, **k), p + z3.Length(s)) == 0))]


def msl_post(c):
    l, n, t = c.val(0), c.post.get(c.arg(1)), c.post.get(c.arg(2))
    i = z3.Int('i!ml')
    e = lambda i: sel(ptrs(c, post=True), t + 8 * i)
    out = [('length', n == vlen(l)), ('list in a block of its own', And(bytes_of(c, t, 8 * n, post=True), sel(block(c), t) == 0))]
    for k in range(4):
        nm = entry_ok(c, l, t, i, post=True)[k][0]
        out.append(('every entry: ' + nm, forall([i], Implies(And(0 <= i, i < n), entry_ok(c, l, t, i, post=True)[k][1]), patterns=[e(i)])))
    return out + kept(c)


def msl_loops(lc):
    c = lc.c
    l = c.val(0)
    t = lambda: lc.X.read(c.arg(2))
    i = z3.Int('i!mv')
    for nm, loc in locals_of(lc, INT):
        k = lambda loc=loc: lc.X.read(loc)
        for q in range(4):
            yield 'done(%s,%d)' % (nm, q), lambda k=k, q=q: forall([i], Implies(And(0 <= i, i < k()), entry_ok(c, l, t(), i, cur=True)[q][1]), patterns=[sel(ptrs(c, cur=True), t() + 8 * i)])
        yield 'above list(%s)' % nm, lambda k=k: forall([i], Implies(And(0 <= i, i < k()), sel(ptrs(c, cur=True), t() + 8 * i) != t()), patterns=[sel(ptrs(c, cur=True), t() + 8 * i)])
    yield 'list', lambda: And(bytes_of(c, t(), 8 * vlen(l), cur=True), sel(block(c), t()) == 0)
    yield 'list fresh', lambda: forall([i], Implies(And(t() <= i, i < t() + 8 * vlen(l)), Not(sel(valid(c), i))), patterns=[sel(valid(c), i)])
    for q in range(4):
        yield 'kept %d' % q, lambda q=q: kept(c, cur=True)[q][1]


S.fn('kwiver::vital_c::make_string_list', requires=lambda c: [('list length representable', vlen(c.val(0)) < 2**32)], ensures=msl_post, loops=msl_loops,
     modifies=lambda c: BM + ['mem:8', 'mem:64', c.arg(1), c.arg(2)])
