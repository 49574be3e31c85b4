"""write_config: one line "key = value" per entry, everything else it writes is blank or a comment"""
from vcg.spec import *
from vcg.lib import cmem
from vcg.lib import core

S = Spec(['vital/config/config_block_io.cxx'], props=['C07'])
V = 'kwiver::vital::'
CB = V + 'config_block'
AN = V + '(anonymous)::'
sel, Z = z3.Select, z3.IntVal(0)
LIST = vec_sort(STR)
EMPTY, HASH, EQ = z3.StringVal(''), z3.StringVal('#'), z3.StringVal(' = ')

# a text without line break
OL = z3.Function('is_one_line', STR, BOOL)
# ghost state of the output: the line that is being written, and the finished lines that are neither blank nor comments
GH = dict(cur=STR, data=LIST)


def g(c, n, post=False):
    with c.X.at(c._post if post else c._pre):
        return sel(c.X.hmap('ghost:' + n, GH[n]), Z)


def touch(c):
    for n in GH:
        c.X.hmap('ghost:' + n, GH[n])
    return [vlen(g(c, 'data')) >= 0]


mods = lambda c: ['ghost:' + n for n in GH]
SORTED = z3.Function('sorted_keys', LIST, LIST)
FROM, TO = z3.Function('sorted_from', LIST, INT, INT), z3.Function('sorted_to', LIST, INT, INT)


def sorted_facts(v):
    s, n = SORTED(v), vlen(v)
    i = z3.Int('i!so')
    return [vlen(s) == n, forall([i], Implies(And(0 <= i, i < n), And(sel(varr(s), i) == sel(varr(v), FROM(v, i)), 0 <= FROM(v, i), FROM(v, i) < n, TO(v, FROM(v, i)) == i)), patterns=[sel(varr(s), i)]),
            forall([i], Implies(And(0 <= i, i < n), And(FROM(v, TO(v, i)) == i, 0 <= TO(v, i), TO(v, i) < n)), patterns=[TO(v, i)])]


def setup(X):
    def put(n, v):
        cmem.set_heap(X, 'ghost:' + n, z3.Store(X.hmap('ghost:' + n, GH[n]), Z, v))

    def get(n):
        return sel(X.hmap('ghost:' + n, GH[n]), Z)

    def end_line():
        l, d = get('cur'), get('data')
        put('data', If(Or(l == EMPTY, z3.PrefixOf(HASH, l)), d, vmk(LIST, vlen(d) + 1, z3.Store(varr(d), vlen(d), l))))
        put('cur', EMPTY)

    def emit(txt, line):
        txt = simp(txt)
        if z3.is_string_value(txt):
            parts = txt.as_string().replace('\\u{a}', '\n').split('\n')
            for p in parts[:-1]:
                put('cur', simp(z3.Concat(get('cur'), z3.StringVal(p))))
                end_line()
            if parts[-1]:
                put('cur', simp(z3.Concat(get('cur'), z3.StringVal(parts[-1]))))
            return
        X.oblige('written text is one line', 'requires', OL(txt), line)
        put('cur', simp(z3.Concat(get('cur'), txt)))

    def out_free(X, c):
        t = X.prog.ty(c.d['params'][1]).unref()
        if not (X.lib.is_string(t) or t.is_ptr() or t.is_char()):
            raise Unsupported('stream output of ' + t.id)
        emit(X.lib.char_str(c.val(1)) if t.is_char() else X.lib.as_string(X, c.val(1)), c.line)
        return c.args[0]

    def out_member(X, c):
        t = X.prog.ty(c.d['params'][0]).unref()
        if not t.is_int():
            raise Unsupported('stream output of ' + t.id)
        c.val(0)
        r = X.fresh('number', STR)
        X.assume(OL(r))
        emit(r, c.line)
        return c.o

    def glue(h):
        def f(X, c):
            r = h(X, c)
            t = X.read(r) if isinstance(r, Loc) else r
            parts = [x for x in flat(t)]
            for p in parts:
                if z3.is_string_value(p):
                    X.assume(OL(p) if '\n' not in p.as_string().replace('\\u{a}', '\n') else Not(OL(p)))
            X.assume(OL(t) == And([OL(p) for p in parts]))
            return r
        return f

    def flat(t):
        if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
            for k in t.children():
                for x in flat(k):
                    yield x
        else:
            yield t

    def text(X, c):
        args = [X.ev(n) for n in c.nodes]
        r = X.lib.construct_std(X, 'std::basic_string', c.ty if hasattr(c, 'ty') else X.prog.ty(c.e['t']), c.d, args, c.e)
        ps = [X.prog.ty(p).unref() for p in c.d['params']]
        if len(ps) >= 2 and ps[0].is_int() and ps[1].is_char():
            ch = simp(X.read(args[1]) if isinstance(args[1], Loc) else args[1])
            X.assume(OL(r) == (ch != 10))
        elif isinstance(r, z3.ExprRef) and z3.is_string_value(simp(r)):
            X.assume(OL(r) if '\n' not in simp(r).as_string().replace('\\u{a}', '\n') else Not(OL(r)))
        return r

    def sort(X, c):
        a, b = c.val(0), c.val(1)
        if not (isinstance(a, Iter) and isinstance(b, Iter) and z3.is_int_value(simp(a.idx)) and simp(a.idx).as_long() == 0 and getattr(b, 'isend', False)) or len(c.d['params']) != 2:
            raise Unsupported('sort of a part')
        v = X.read(a.cont)
        for f in sorted_facts(v):
            X.assume(f)
        X.write(a.cont, SORTED(v))
        return None
    h = X.lib.h
    h['std::operator<<'] = out_free
    h['std::basic_ostream::operator<<'] = out_member
    h['std::basic_string::operator+='] = glue(core.HANDLERS['std::basic_string::operator+='])
    h['std::basic_string::append'] = glue(core.HANDLERS['std::basic_string::append'])
    h['std::operator+'] = glue(core.HANDLERS['std::operator+'])
    h['std::basic_string::(ctor)'] = text
    h['std::sort'] = sort


S.setup = setup


# ------------------------------------------------------------------ comments
def all_one_line(v):
    return forall_idx(vlen(v), lambda i: OL(sel(varr(v), i)), patterns=lambda i: [sel(varr(v), i)])


def pieces(c):
    v0, v = c.pre.get(c.arg(1)), c.post.get(c.arg(1))
    yield 'pieces are parts of the text between delimiters', Implies(And(vlen(v0) == 0, Or(OL(c.val(0)), c.val(2) == z3.StringVal('\n'))), all_one_line(v))
    yield '', vlen(v) >= vlen(v0)


S.fn(V + 'tokenize', trusted=True, modifies=lambda c: [c.arg(1)], ensures=lambda c: list(pieces(c)))
fresh_line = lambda c: [('the output is at the start of a line', g(c, 'cur') == EMPTY)]
quiet = lambda c: [('the line is finished', g(c, 'cur', True) == EMPTY), ('nothing but blank lines and comments is written', g(c, 'data', True) == g(c, 'data'))]


def comment_loops(lc):
    X, c = lc.X, lc.c
    now = lambda n: sel(X.hmap('ghost:' + n, GH[n]), Z)
    yield 'line', lambda: now('cur') == EMPTY
    yield 'data', lambda: now('data') == g(c, 'data')
    for n, loc in lc.vars:
        s = X.sort(loc.ty) if not loc.ty.is_ref() else None
        if s == STR:
            yield 'one line(%s)' % n, lambda loc=loc: OL(X.read(loc))
            yield 'comment(%s)' % n, lambda loc=loc: z3.PrefixOf(HASH, X.read(loc))
            yield 'token(%s)' % n, lambda loc=loc: X.read(loc) == HASH
        elif s == LIST:
            yield 'pieces(%s)' % n, lambda loc=loc: all_one_line(X.read(loc))
            yield 'size(%s)' % n, lambda loc=loc: vlen(X.read(loc)) >= 0


S.fn(AN + 'write_cb_comment', axioms=touch, requires=fresh_line, modifies=mods, ensures=quiet, loops=comment_loops)

# ------------------------------------------------------------------ entries
KEYS = z3.Function('keys_of', INT, LIST)
VALUE = z3.Function('value_of', INT, STR, STR)
DESCR = z3.Function('description_of', INT, STR, STR)
WHERE = z3.Function('location_file', INT, STR, STR)
NOTWRITTEN = V + 'config_file_write_exception'
S.fn(CB + '::available_values', trusted=True, value=lambda c: KEYS(c.this.ref), axioms=lambda c: [vlen(KEYS(c.this.ref)) >= 0])
S.fn(CB + '::get_description', trusted=True, value=lambda c: DESCR(c.this.ref, c.val(0)))
S.fn(CB + '::get_value', trusted=True, match=nparams(1), value=lambda c: VALUE(c.this.ref, c.val(0)))
S.fn(CB + '::get_location', trusted=True, modifies=lambda c: [c.arg(1), c.arg(2)], ensures=lambda c: [('file names are one line', OL(c.post.get(c.arg(1))))])


def orders(c):
    """orders in which the entries may come"""
    return [SORTED(KEYS(c.val(0))), KEYS(c.val(0))]


def entries(c, s, upto=None, state=None):
    b = c.val(0)
    d0, d = g(c, 'data'), state if state is not None else g(c, 'data', True)
    n = vlen(s) if upto is None else upto
    ln = lambda i: z3.Concat(sel(varr(s), i), EQ, VALUE(b, sel(varr(s), i)))
    yield 'number of lines that are neither blank nor comments', vlen(d) == vlen(d0) + n
    yield 'one line "key = value" per entry', forall_idx(n, lambda i: sel(varr(d), vlen(d0) + i) == ln(i), patterns=lambda i: [sel(varr(s), i)])
    yield 'earlier lines stay', forall_idx(vlen(d0), lambda i: sel(varr(d), i) == sel(varr(d0), i), patterns=lambda i: [sel(varr(d), i)])


def usable(c):
    """keys that can be written; a key does not begin like a comment"""
    b = c.val(0)
    k = KEYS(b)
    key = lambda i: sel(varr(k), i)
    yield 'a block', b != 0
    yield 'keys and values are texts of one line', forall_idx(vlen(k), lambda i: And(OL(key(i)), OL(VALUE(b, key(i))), z3.Length(key(i)) > 0, Not(z3.PrefixOf(HASH, key(i)))), patterns=lambda i: [key(i)])


def entry_loops(lc):
    X, c = lc.X, lc.c
    now = lambda n: sel(X.hmap('ghost:' + n, GH[n]), Z)
    yield 'line', lambda: now('cur') == EMPTY
    for pn, pos in lc.positions():
        for k, s in enumerate(orders(c)):
            for q in range(3):
                yield 'entries%d%d(%s)' % (k, q, pn), lambda pos=pos, q=q, s=s: list(entries(c, s, upto=pos(), state=now('data')))[q][1]


S.fn(V + 'write_config', axioms=touch, requires=lambda c: fresh_line(c) + list(usable(c)), modifies=mods, loops=entry_loops, throws=lambda c: {NOTWRITTEN: vlen(KEYS(c.val(0))) == 0},
     exc_ensures=lambda c: [('a refused block leaves no output', And(g(c, 'cur', True) == g(c, 'cur'), g(c, 'data', True) == g(c, 'data')))],
     ensures=lambda c: [('the line is finished', g(c, 'cur', True) == EMPTY), ('there are entries', vlen(KEYS(c.val(0))) > 0)] 
     + [('number of lines that are neither blank nor comments', list(entries(c, KEYS(c.val(0))))[0][1]), ('earlier lines stay', list(entries(c, KEYS(c.val(0))))[2][1]),
        ('one line "key = value" per entry', Or([list(entries(c, s))[1][1] for s in orders(c)]))])
