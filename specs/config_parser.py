"""kwiver::vital::config_parser: lines and tokens of a configuration file"""
from vcg.spec import *
from vcg.lib import regex, cmem
from vcg.lib.core import CHAR, NEXT_OF, next_facts
from specs.config_block import TRIM, trim, ltrim, rtrim, edge_facts

S = Spec(['vital/config/config_parser.cxx'], props=['C06'])
V = 'kwiver::vital::'
P = V + 'config_parser::priv::'
AN = V + '(anonymous namespace)::'
sel = z3.Select
N = z3.Length
EMPTY, HASH, ASSIGN = z3.StringVal(''), z3.StringVal('#'), z3.StringVal('=')

# the lines of the input, read in order: text of a line and their number
LINE = z3.Function('input_line', INT, STR)
LINES = z3.Int('number_of_input_lines')
CONTENT = z3.Function('line_content', STR, STR)


def content_def(s):
    """what is left of a line without surrounding white space and comment"""
    t = TRIM(s)
    i = NEXT_OF(t, HASH, z3.IntVal(0))
    return [CONTENT(s) == If(i < N(t), TRIM(z3.SubString(t, 0, i)), t), z3.IndexOf(t, HASH, 0) == If(i < N(t), i, -1)] + next_facts(t, HASH, z3.IntVal(0)) + [N(s) < (1 << 62), N(t) < (1 << 62)]


def ghost(c, post=False):
    with c.X.at(c._post if post else c._pre):
        return sel(c.X.hmap('ghost:line', INT), z3.IntVal(0))


def setup(X):
    regex.enable(X)
    Z = z3.IntVal(0)

    def getline(X, c):
        m = X.hmap('ghost:line', INT)
        k = sel(m, Z)
        bad = X.hmap('ghost:failed', BOOL)
        more = k < LINES
        if X.decide(more):
            X.write(c.args[1], LINE(k))
            cmem.set_heap(X, 'ghost:line', z3.Store(m, Z, k + 1))
            cmem.set_heap(X, 'ghost:failed', z3.Store(bad, Z, z3.BoolVal(False)))
        else:
            X.write(c.args[1], EMPTY)
            cmem.set_heap(X, 'ghost:failed', z3.Store(bad, Z, z3.BoolVal(True)))
        return c.args[0]

    def failed(X, c):
        return sel(X.hmap('ghost:failed', BOOL), Z)
    X.lib.h['std::getline'] = getline
    X.lib.h['std::basic_ios::operator!'] = failed
    X.lib.h['std::basic_ios::fail'] = failed
    X.lib.h['std::basic_ios::operator bool'] = lambda X, c: Not(failed(X, c))


S.setup = setup
f = lambda c, n, post=False: (c.post if post else c.pre).f(c.this, n)
S.fn(P + 'flush_line', modifies=lambda c: [c.pre.loc(c.this, 'm_token_line')], ensures=lambda c: [('the rest of the line is dropped', f(c, 'm_token_line', True) == EMPTY)])
S.fn(P + 'current_file', prop=['C06'], value=lambda c: f(c, 'm_current_file'))


def trim_contract(q, f, more=lambda s: []):
    S.fn(q, ensures=lambda c: [('result', c.post.get(c.arg(0)) == f(c.val(0))), ('returns its argument', z3.BoolVal(c.result is c.arg(0)))],
         modifies=lambda c: [c.arg(0)], result_shape=lambda c: c.arg(0), axioms=lambda c: edge_facts(c.val(0)) + more(c.val(0)))


AN = V + '(anonymous)::'
trim_contract(AN + 'ltrim', ltrim)
trim_contract(AN + 'rtrim', rtrim)
trim_contract(AN + 'trim', TRIM, lambda s: edge_facts(rtrim(s)) + [TRIM(s) == trim(s)])


# ------------------------------------------------------------------ lines
def blank(a, b):
    j = z3.Int('j!bl')
    return forall([j], Implies(And(a <= j, j < b), CONTENT(LINE(j)) == EMPTY), patterns=[LINE(j)])


def numbers(c):
    return [('line numbers fit', And(f(c, 'm_line_number') >= 0, f(c, 'm_line_number') + LINES < (1 << 31) - 1)), ('position in the input', And(0 <= ghost(c), ghost(c) <= LINES))]


def advanced(c, line, more):
    """the input was read up to the next line with content, or to its end"""
    k0, k1 = ghost(c), ghost(c, True)
    return [('position', And(k0 <= k1, k1 <= LINES)), ('line number', f(c, 'm_line_number', True) == f(c, 'm_line_number') + (k1 - k0)),
            ('a line with content', Implies(more, And(k0 < k1, line == CONTENT(LINE(k1 - 1)), line != EMPTY))), ('lines without content are skipped', blank(k0, If(more, k1 - 1, k1))),
            ('nothing left at the end', Implies(Not(more), k1 == LINES)), ('last line kept for messages', Implies(more, f(c, 'm_last_line', True) == LINE(k1 - 1)))]


def line_loops(lc):
    c, X = lc.c, lc.X
    k0 = ghost(c)
    pos = lambda: sel(X.hmap('ghost:line', INT), z3.IntVal(0))
    num = lambda: X.read(c.pre.loc(c.this, 'm_line_number'))

    def at():
        for x in content_def(LINE(pos())):
            X.assume(x)
        return And(k0 <= pos(), pos() <= LINES)
    yield 'position', at
    yield 'blank', lambda: blank(k0, pos())
    yield 'number', lambda: num() == f(c, 'm_line_number') + (pos() - k0)


GHOST = ['ghost:line', 'ghost:failed']


def touch(c):
    c.X.hmap('ghost:line', INT)
    c.X.hmap('ghost:failed', BOOL)
    return [LINES >= 0]


LINE_STATE = lambda c: [c.pre.loc(c.this, 'm_line_number'), c.pre.loc(c.this, 'm_last_line')] + GHOST
S.fn(P + 'get_line', axioms=touch, requires=numbers, modifies=lambda c: [c.arg(1)] + LINE_STATE(c), ensures=lambda c: advanced(c, c.post.get(c.arg(1)), c.result), loops=line_loops,
     result_shape=None)


# ------------------------------------------------------------------ tokens
WORD_PAT = regex.Pat('^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?')
FLAG_PAT = regex.Pat(r'^\[[a-zA-Z,]+\]')
TK_WORD, TK_FLAG, TK_ASSIGN, TK_LOCAL, TK_ERROR, TK_EOF = range(101, 107)


def token(c):
    t = c.arg(1)
    return c.post.f(t, 'type'), c.post.f(t, 'value')


def tokens(c):
    ty, val = token(c)
    old, rest = f(c, 'm_token_line'), f(c, 'm_token_line', True)
    fresh = old == EMPTY
    k1 = ghost(c, True)
    more = ty != TK_EOF
    line = If(fresh, CONTENT(LINE(k1 - 1)), old)
    err0, err1 = f(c, 'm_parse_error'), f(c, 'm_parse_error', True)
    out = [(n, Implies(fresh, x)) for n, x in advanced(c, CONTENT(LINE(k1 - 1)), more)]
    out += [('the rest of the line comes first', Implies(Not(fresh), And(more, k1 == ghost(c), f(c, 'm_line_number', True) == f(c, 'm_line_number'))))]
    tail = lambda s, n: z3.SubString(s, n, N(s) - n)
    local = z3.SubString(line, 0, 2) == z3.StringVal(':=')
    assign = And(Not(local), CHAR(line, 0) == 61)
    flag = And(Not(local), Not(assign), FLAG_PAT.found(line))
    word = And(Not(local), Not(assign), Not(flag), WORD_PAT.found(line))
    other = And(Not(local), Not(assign), Not(flag), Not(word))
    for n, g, k, v, r in (('local definition', local, TK_LOCAL, TRIM(tail(line, 2)), EMPTY), ('assignment', assign, TK_ASSIGN, TRIM(tail(line, 1)), EMPTY),
                          ('attribute', flag, TK_FLAG, FLAG_PAT.match(line, 0), TRIM(tail(line, FLAG_PAT.end(line, 0)))), ('word', word, TK_WORD, WORD_PAT.match(line, 0), TRIM(tail(line, WORD_PAT.end(line, 0)))),
                          ('anything else is an error', other, TK_ERROR, line, EMPTY)):
        out.append((n, Implies(And(more, g), And(ty == k, val == v, rest == r))))
    return out + [('end of the input', Implies(Not(more), And(val == EMPTY, ty == TK_EOF))), ('errors stay recorded', err1 == Or(err0, And(more, other)))]


S.fn(P + 'get_token', axioms=touch, requires=numbers, modifies=lambda c: [c.pre.loc(c.this, 'm_token_line'), c.pre.loc(c.this, 'm_parse_error'), c.pre.loc(c.arg(1), 'type'), c.pre.loc(c.arg(1), 'value')] + LINE_STATE(c),
     ensures=tokens)


# ------------------------------------------------------------------ search path and result of the parser object
CP = V + 'config_parser'


def impl(c):
    return c.pre.f(c.this, 'm_priv')


def priv_of(c):
    return c.X.obj(impl(c), V + 'config_parser::priv')


HAS = lambda c: [('implementation present', impl(c) != 0)]
PATHS = lambda c, post=False: (c.post if post else c.pre).f(priv_of(c), 'm_search_path')


def appended_paths(c):
    old, new = PATHS(c), PATHS(c, True)
    a = c.val(0)
    yield 'the search path so far stays in front', forall_idx(vlen(old), lambda i: sel(varr(new), i) == sel(varr(old), i), patterns=lambda i: [sel(varr(new), i)])
    if a.sort() == STR:
        yield 'the directory is searched last', And(vlen(new) == vlen(old) + 1, sel(varr(new), vlen(old)) == a)
    else:
        yield 'the directories are searched last, in order', vlen(new) == vlen(old) + vlen(a)
        yield 'each directory', forall_idx(vlen(a), lambda i: sel(varr(new), vlen(old) + i) == sel(varr(a), i), patterns=lambda i: [sel(varr(a), i)])


S.fn(CP + '::add_search_path', requires=HAS, modifies=lambda c: [c.pre.loc(priv_of(c), 'm_search_path')], ensures=lambda c: list(appended_paths(c)))
S.fn(CP + '::get_search_path', requires=HAS, ensures=lambda c: [('the search path', c.post.get(c.result) == PATHS(c))])
S.fn(CP + '::get_config', requires=HAS, ensures=lambda c: [('the configuration that was read', c.result == c.pre.f(priv_of(c), 'm_config_block'))])
