"""C memory: malloc, free, strcpy, strncpy over byte addresses.

Ghost heap map 'block': start address of a live block -> its size + 1, 0 for every other address. malloc never fails (assumption), memory it returns was in no
live block before. Strings of std::string::c_str() have no embedded NUL (assumption). A block is accessed at one element size only (assumption)."""
from .core import *

CLEN = z3.Function('cstring_length', z3.ArraySort(INT, INT), INT, INT)


def blocks(X):
    return X.hmap('block', INT)


def mem8(X):
    return X.hmap('mem:8', INT)


def clen(X, m, p):
    """length of the C string at p: index of the first NUL"""
    n = CLEN(m, p)
    i = z3.Int('i!cl')
    X.assume(And(n >= 0, z3.Select(m, p + n) == 0))
    X.assume(forall_([i], Implies(And(p <= i, i < p + n), z3.Select(m, i) != 0), [z3.Select(m, i)]))
    return n


def forall_(vs, b, pats):
    return z3.ForAll(vs, b, patterns=pats)


def set_heap(X, key, m):
    X.st.heap[key] = m
    for L in X.loopstack:
        if ('hall', key) not in L['info'].mods:
            L['info'].mods[('hall', key)] = (key, z3.IntVal(0))
            X.dirty = True


def malloc(X, c):
    n = simp(c.val(0))
    X.oblige('size given to malloc', 'safety', n >= 0, c.line)
    b = blocks(X)
    a = X.alloc_bytes(n, {'l': c.line})
    X.assume(And(z3.Select(b, a) == 0, a % 16 == 0))
    set_heap(X, 'block', z3.Store(b, a, n + 1))
    return a


def free(X, c):
    p = c.val(0)
    b = blocks(X)
    X.oblige('only pointers to live blocks are freed', 'memory', Or(p == 0, z3.Select(b, p) > 0), c.line)
    if X.decide(p == 0):
        return None
    n = z3.Select(b, p) - 1
    v = X.hmap('valid', BOOL)
    nv = X.fresh('valid', v.sort())
    i = z3.Int('i!fr')
    X.assume(forall_([i], z3.Select(nv, i) == And(z3.Select(v, i), Not(And(p <= i, i < p + n))), [z3.Select(nv, i)]))
    set_heap(X, 'block', z3.Store(b, p, z3.IntVal(0)))
    set_heap(X, 'valid', nv)
    return None


def in_mem(X, p, n, line, what):
    """obligation: n bytes at p are live"""
    v = X.hmap('valid', BOOL)
    i = z3.Int('i!im')
    X.oblige(what + ' stays inside live memory', 'memory', forall_([i], Implies(And(p <= i, i < p + n), z3.Select(v, i)), [z3.Select(v, i)]), line)


def source(X, v, line, upto=None):
    """(length, character function) of a C string argument"""
    if isinstance(v, z3.ExprRef) and v.sort() == INT:
        m = mem8(X)
        n = clen(X, m, v)
        k = n + 1 if upto is None else If(n + 1 < upto, n + 1, upto)
        in_mem(X, v, k, line, 'string read')
        return n, (lambda i: z3.Select(m, v + i))
    s = X.lib.as_string(X, v)
    X.assume(z3.Length(s) < 2**62)
    return z3.Length(s), (lambda i: CHAR(s, i))


def strlen(X, c):
    return source(X, c.val(0), c.line)[0]


def copy(X, c, p, total, n, ch):
    """total bytes are written at p: the n characters and zeros after them"""
    in_mem(X, p, total, c.line, 'string copy')
    m = mem8(X)
    nm = X.fresh('mem', m.sort())
    i = z3.Int('i!cp')
    X.assume(forall_([i], z3.Select(nm, i) == If(And(p <= i, i < p + total), If(i - p < n, ch(i - p), z3.IntVal(0)), z3.Select(m, i)), [z3.Select(nm, i)]))
    set_heap(X, 'mem:8', nm)
    return p


def strcpy(X, c):
    p = c.val(0)
    n, ch = source(X, c.val(1), c.line)
    return copy(X, c, p, n + 1, n, ch)


def strncpy(X, c):
    p, k = c.val(0), c.val(2)
    n, ch = source(X, c.val(1), c.line, k)
    return copy(X, c, p, k, n, ch)


def memcpy(X, c):
    p, k = c.val(0), c.val(2)
    v = c.val(1)
    if isinstance(v, z3.ExprRef) and v.sort() == INT:
        m = mem8(X)
        in_mem(X, v, k, c.line, 'memory read')
        return copy(X, c, p, k, k, lambda i: z3.Select(m, v + i))
    s = X.lib.as_string(X, v)
    X.oblige('memory read stays inside the string', 'memory', k <= z3.Length(s) + 1, c.line)
    return copy(X, c, p, k, z3.Length(s), lambda i: CHAR(s, i))


def memset(X, c):
    p, v, k = c.val(0), c.val(1), c.val(2)
    return copy(X, c, p, k, k, lambda i: v)


def calloc(X, c):
    class A:
        line = c.line
        def val(self, i):
            return c.val(0) * c.val(1)
    p = malloc(X, A())
    return copy(X, c, p, simp(c.val(0) * c.val(1)), z3.IntVal(0), lambda i: z3.IntVal(0))


MODELS = dict(malloc=malloc, free=free, strcpy=strcpy, strncpy=strncpy, strlen=strlen, memcpy=memcpy, memset=memset, calloc=calloc)


def enable(X):
    for k, f in MODELS.items():
        X.lib.h[k] = f
        X.lib.h['std::' + k] = f
    old = X.e_Cast

    def cast(e):
        v = old(e)
        if e['ck'] == 'BitCast' and isinstance(v, z3.ExprRef) and v.sort() == INT:
            t, s = X.prog.ty(e['t']), X.prog.ty(e['e']['t'])
            if t.is_ptr() and t.elem.k == 'rec' and s.is_ptr() and s.elem.is_void():
                size = X.prog.records.get(t.elem.id, {}).get('size')
                b = z3.Select(blocks(X), v)
                if size:
                    X.oblige('the block is large enough for %s' % t.elem.id, 'memory', Or(v == 0, b > size), e.get('l', 0))
        return v
    X.e_Cast = cast


def enable_new(X):
    """new T[n] and delete [] register and end live blocks; a byte view of floating point memory is its object representation"""
    alloc = X.alloc_array

    def alloc_array(ty, n, e):
        a = alloc(ty, n, e)
        b = blocks(X)
        X.assume(z3.Select(b, a) == 0)
        set_heap(X, 'block', z3.Store(b, a, n * ty.size() + 1))
        return a

    def delete(X, v, e):
        class C:
            line = e.get('l', 0)
            def val(self, i):
                return v
        free(X, C())
    X.alloc_array = alloc_array
    X.lib.delete = delete
    X.viewed_as = {}
    old = X.e_Cast

    def cast(e):
        v = old(e)
        t, s = X.prog.ty(e['t']), X.prog.ty(e['e']['t'])
        if e['ck'] == 'BitCast' and isinstance(v, z3.ExprRef) and v.sort() == INT and t.is_ptr() and s.is_ptr() and s.elem.is_float():
            X.viewed_as[v.get_id()] = X.mem_key(s.elem)
        return v
    X.e_Cast = cast
