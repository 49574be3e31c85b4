"""kwiversys::SystemTools: path and string functions"""
from vcg.spec import *
from vcg.lib.core import CHAR, LAST_OF, NEXT_OF, CStr, in_set, next_facts

FLAGS = ('-DKWSYS_NAMESPACE=kwiversys', '-Dkwiversys_EXPORTS', '-DKWSYS_CXX_HAS_SETENV=1', '-DKWSYS_CXX_HAS_UNSETENV=1', '-DKWSYS_CXX_HAS_UTIMENSAT=1', '-DKWSYS_CXX_HAS_UTIMES=1',
         '-DKWSYS_CXX_STAT_HAS_ST_MTIM=1')
S = Spec([('vital/kwiversys/SystemTools.cxx', FLAGS)], props=['C29'])
ST = 'kwiversys::SystemTools::'
SLASH, DOT = z3.StringVal('/'), z3.StringVal('.')
EMPTY = z3.StringVal('')
N = z3.Length


def last(s, ch):
    """index of the last character ch of s, -1 when there is none"""
    return LAST_OF(s, ch, simp(N(s) - 1))


def name_of(s):
    i = last(s, SLASH)
    return If(i < 0, s, z3.SubString(s, i + 1, N(s) - i - 1))


NAME = z3.Function('filename_name', STR, STR)


def named(c):
    return [NAME(c.val(0)) == name_of(c.val(0))]


def from_(s, i):
    return If(i < 0, EMPTY, z3.SubString(s, i, N(s) - i))


def upto(s, i):
    return If(i < 0, s, z3.SubString(s, 0, i))


S.fn(ST + 'GetFilenameName', axioms=named, value=lambda c: NAME(c.val(0)))
first_dot = lambda c: z3.IndexOf(NAME(c.val(0)), DOT, 0)
last_dot = lambda c: last(NAME(c.val(0)), DOT)
S.fn(ST + 'GetFilenameExtension', value=lambda c: from_(NAME(c.val(0)), first_dot(c)))
S.fn(ST + 'GetFilenameWithoutExtension', value=lambda c: upto(NAME(c.val(0)), first_dot(c)))
S.fn(ST + 'GetFilenameLastExtension', value=lambda c: from_(NAME(c.val(0)), last_dot(c)))
S.fn(ST + 'GetFilenameWithoutLastExtension', value=lambda c: upto(NAME(c.val(0)), last_dot(c)))
S.fn(ST + 'ComparePath', value=lambda c: c.val(0) == c.val(1))


# ------------------------------------------------------------------ letter case
TOLOWER, TOUPPER = z3.Function('tolower', INT, INT), z3.Function('toupper', INT, INT)
ISALPHA, ISSPACE, ISUPPER = (z3.Function(n, INT, INT) for n in ('isalpha', 'isspace', 'isupper'))


def char_range(c):
    """the case functions map characters to characters"""
    x = z3.Int('x!ch')
    return [forall([x], Implies(And(x >= -128, x <= 127), And(f(x) >= -128, f(x) <= 127)), patterns=[f(x)]) for f in (TOLOWER, TOUPPER)]


def mapped(s, n, f, upto=None):
    i = z3.Int('i!mp')
    return forall([i], Implies(And(0 <= i, i < (N(s) if upto is None else upto)), CHAR(n, i) == f(s, i)), patterns=[CHAR(n, i)])


def case_fn(name, f):
    def loops(lc):
        X = lc.X
        s = lc.c.val(0)
        for tag, loc in locals_of(lc, STR):
            v = lambda loc=loc: X.read(loc)
            yield 'size(%s)' % tag, lambda v=v: N(v()) == N(s)
            for t, pos in lc.positions():
                yield 'done(%s,%s)' % (tag, t), lambda v=v, pos=pos: mapped(s, v(), f, pos())
                i = z3.Int('i!rest')
                yield 'rest(%s,%s)' % (tag, t), lambda v=v, pos=pos: forall([i], Implies(And(pos() <= i, i < N(s)), CHAR(v(), i) == CHAR(s, i)), patterns=[CHAR(v(), i)])
    S.fn(ST + name, axioms=char_range, ensures=lambda c: [('length', N(c.post.get(c.result) if isinstance(c.result, Loc) else c.result) == N(c.val(0))),
                                       ('every character', mapped(c.val(0), c.post.get(c.result) if isinstance(c.result, Loc) else c.result, f))], loops=loops)


word = lambda s, i: And(ISALPHA(CHAR(s, i)) != 0, Or(i == 0, ISSPACE(CHAR(s, i - 1)) != 0))
case_fn('LowerCase', lambda s, i: TOLOWER(CHAR(s, i)))
case_fn('UpperCase', lambda s, i: TOUPPER(CHAR(s, i)))
case_fn('Capitalized', lambda s, i: If(i == 0, TOUPPER(CHAR(s, i)), TOLOWER(CHAR(s, i))))
case_fn('CapitalizedWords', lambda s, i: If(word(s, i), TOUPPER(CHAR(s, i)), CHAR(s, i)))
case_fn('UnCapitalizedWords', lambda s, i: If(word(s, i), TOLOWER(CHAR(s, i)), CHAR(s, i)))


# ------------------------------------------------------------------ splitting a path: root, then the pieces between separators
def ch(s, i):
    """character of the C string at an index, 0 from its end on"""
    return If(And(0 <= i, i < N(s)), CHAR(s, i), z3.IntVal(0))


def is_sep(x):
    return Or(x == 47, x == 92)


HOME_END = z3.Function('home_end', STR, INT)         # end of the name of a home directory root
CUT = z3.Function('next_separator', STR, INT, INT)   # first separator from a position on, the length when there is none
PSTART = z3.Function('path_piece_start', STR, INT, BOOL)
PIDX = z3.Function('path_piece_index', STR, INT, INT)


class Path:
    def __init__(self, s):
        self.s = s
        self.n = N(s)
        a, b, d = ch(s, 0), ch(s, 1), ch(s, 2)
        h = HOME_END(s)
        drive = And(a != 0, b == 58)
        self.two = Or(And(a == 47, b == 47), And(a == 92, b == 92))
        self.drive = And(Not(self.two), Not(is_sep(a)), drive)
        off = [(self.two, z3.IntVal(2)), (is_sep(a), z3.IntVal(1)), (And(drive, is_sep(d)), z3.IntVal(3)), (drive, z3.IntVal(2)), (a == 126, If(h < self.n, h + 1, h))]
        self.off = z3.IntVal(0)
        for g, o in reversed(off):
            self.off = If(g, o, self.off)
        self.home = And(Not(self.two), Not(is_sep(a)), Not(drive), a == 126)

        self.a, self.d = a, d

    def root_is(self, r):
        s, a = self.s, self.a
        dr = And(N(r) == If(is_sep(self.d), 3, 2), CHAR(r, 0) == a, CHAR(r, 1) == 58, Implies(is_sep(self.d), CHAR(r, 2) == 47))
        return If(self.two, r == z3.StringVal('//'), If(is_sep(a), r == SLASH, If(self.drive, dr, If(self.home, r == z3.Concat(z3.SubString(s, 0, HOME_END(s)), SLASH), r == EMPTY))))

    def root_char(self, r):
        return Implies(Or(self.two, is_sep(self.a)), CHAR(r, 0) == 47)

    def home_facts(self):
        i = z3.Int('i!hm')
        h = HOME_END(self.s)
        return [Implies(self.home, And(1 <= h, h <= self.n, Or(h == self.n, CHAR(self.s, h) == 47))),
                Implies(self.home, forall([i], Implies(And(1 <= i, i < h), CHAR(self.s, i) != 47), patterns=[CHAR(self.s, i)]))]

    def cut(self, p):
        return CUT(self.s, p)

    def cut_facts(self, p):
        i = z3.Int('i!ct')
        e = self.cut(p)
        return [Implies(And(0 <= p, p <= self.n), And(p <= e, e <= self.n)), Implies(And(0 <= p, e < self.n), is_sep(CHAR(self.s, e))),
                forall([i], Implies(And(p <= i, i < e), Not(is_sep(CHAR(self.s, i)))), patterns=[CHAR(self.s, i)])]

    def starts(self, p):
        return PSTART(self.s, p)

    def idx(self, p):
        return PIDX(self.s, p)

    def step(self, p):
        q = simp(self.cut(p) + 1)
        i = z3.Int('i!st')
        ok = And(0 <= p, p <= self.n, self.starts(p))
        return self.cut_facts(p) + [Implies(ok, And(self.starts(q), self.idx(q) == self.idx(p) + 1)),
                                    Implies(ok, forall([i], Implies(And(p < i, i < q), Not(self.starts(i))), patterns=[self.starts(i)]))]

    def base(self):
        i = z3.Int('i!bs')
        return [self.idx(self.off) == 0, self.starts(self.off), forall([i], Implies(self.starts(i), And(self.off <= i, i <= self.n + 1)), patterns=[self.starts(i)])] + self.home_facts()

    def piece(self, p):
        return z3.SubString(self.s, p, self.cut(p) - p)

    def sound(self, v, upto):
        """the vector holds every piece that starts before a position at its index, behind the root"""
        p = z3.Int('p!pc')
        return forall([p], Implies(And(0 <= p, p < upto, self.starts(p)), And(self.idx(p) >= 0, self.idx(p) < self.idx(upto), z3.Select(varr(v), 1 + self.idx(p)) == self.piece(p))),
                      patterns=[self.starts(p)])


def split_post(c):
    P = Path(c.val(0))
    v = c.post.get(c.arg(1))
    full = P.off < P.n
    return [('root first', P.root_is(z3.Select(varr(v), 0))),
            ('number of pieces', vlen(v) == If(full, 1 + P.idx(P.n + 1), 1)),
            ('every piece at its place', Implies(full, P.sound(v, P.n + 1)))]


def split_loops(lc):
    X = lc.X
    P = Path(lc.c.val(0))
    cs = []
    root_only = len(lc.c.args) < 3
    v = lambda: X.read(lc.c.arg(1))
    for n, loc in lc.vars:
        with X.at(lc.entry):
            v0 = X.read(loc)
        if hasattr(v0, 'cur_ok') or (isinstance(v0, z3.ExprRef) and v0.sort() == INT):
            cs.append((n, lambda loc=loc: X.read(loc).idx if hasattr(X.read(loc), 'idx') else X.read(loc)))
    i = z3.Int('i!ns')
    if not root_only:
        yield 'root', lambda: P.root_is(z3.Select(varr(v()), 0))
    for n, p in cs:
        def start(p=p):
            for f in P.step(p()):
                X.assume(f)
            return P.starts(p())
        if root_only:
            yield 'home(%s)' % n, lambda p=p: And(1 <= p(), p() <= HOME_END(P.s))
            continue
        yield 'starts(%s)' % n, start
        yield 'range(%s)' % n, lambda p=p: And(P.off <= p(), p() <= P.n)
        yield 'count(%s)' % n, lambda p=p: And(vlen(v()) == 1 + P.idx(p()), P.idx(p()) >= 0)
        yield 'pieces(%s)' % n, lambda p=p: P.sound(v(), p())
        for m, r in cs:
            if m != n:
                yield 'order(%s,%s)' % (n, m), lambda p=p, r=r: p() <= r()
                yield 'between(%s,%s)' % (n, m), lambda p=p, r=r: forall([i], Implies(And(p() <= i, i < r()), Not(is_sep(CHAR(P.s, i)))), patterns=[CHAR(P.s, i)])


def out_string(c, i):
    """the string a pointer argument points to"""
    a = c.arg(i)
    v = c.pre.get(a) if isinstance(a, Loc) else a
    return v.loc if isinstance(v, PtrTo) else BoxLoc(v, STRING_T(c), 'box<%s>' % STRING_T(c).id)


def STRING_T(c):
    t = c.arg(0).ty
    return t.unref() if t.is_ref() else t


def root_post(c):
    P = Path(c.val(0))
    yield 'rest of the same text', z3.BoolVal(isinstance(c.result, CStr) and c.result.s.eq(c.val(0)))
    yield 'rest', c.result.idx == P.off
    a = c.arg(1)
    v = c.pre.get(a) if isinstance(a, Loc) else a
    r = c.post.get(out_string(c, 1))
    yield 'first character of the root', Implies(v != 0, P.root_char(r)) if isinstance(v, z3.ExprRef) else P.root_char(r)
    if isinstance(v, z3.ExprRef):
        yield 'root', Implies(v != 0, P.root_is(c.post.get(out_string(c, 1))))
    else:
        yield 'root', P.root_is(c.post.get(out_string(c, 1)))


def short(c):
    return [CHAR(SLASH, 0) == 47, CHAR(z3.StringVal('//'), 0) == 47, N(c.val(0)) < (1 << 62)]


S.fn(ST + 'SplitPathRootComponent', axioms=lambda c: Path(c.val(0)).home_facts() + short(c), ensures=lambda c: list(root_post(c)), modifies=lambda c: [out_string(c, 1)], result_shape=lambda c: CStr(c.val(0), c.X.fresh('rest', INT)),
     loops=split_loops)
S.fn(ST + 'SplitPath', axioms=lambda c: Path(c.val(0)).base() + short(c), requires=lambda c: [('no home directory to expand', Not(And(c.val(2), ch(c.val(0), 0) == 126)))],
     ensures=split_post, modifies=lambda c: [c.arg(1)], loops=split_loops, post_axioms=lambda c: [c.post.get(c.arg(1)) == components(c, c.val(0))])


# ------------------------------------------------------------------ joining components
SARR = z3.ArraySort(INT, STR)
JOIN = z3.Function('joined', SARR, INT, INT, STR)      # components [a, b): nothing between the first two, a slash before every further one


def join_step(x, a, k):
    e = z3.Select(x, k)
    return JOIN(x, a, k + 1) == If(k < a + 2, z3.Concat(JOIN(x, a, k), e), z3.Concat(JOIN(x, a, k), SLASH, e))


def join_base(x, a):
    return [JOIN(x, a, a) == EMPTY, join_step(x, a, a), join_step(x, a, a + 1), Implies(True, JOIN(x, a, a + 1) == z3.Select(x, a))]


def it(c, i):
    v = c.pre.get(c.arg(i)) if isinstance(c.arg(i), Loc) else c.arg(i)
    return v


def comps(c, v):
    with c.X.at(c.pre.state()):
        return c.X.read_raw(v.cont)


def same_vector(c):
    a, b = it(c, 0), it(c, 1)
    va, vb = comps(c, a), comps(c, b)
    return va, a.idx, b.idx


RANGE = lambda d: len(d['params']) == 2
WHOLE = lambda d: len(d['params']) == 1


def join_loops(lc):
    X = lc.X
    v, a, b = same_vector(lc.c)
    x = varr(v)
    for n, pos in lc.positions():
        yield 'range(%s)' % n, lambda pos=pos: And(a <= pos(), pos() <= b)
    for tag, loc in locals_of(lc, STR):
        for n, pos in lc.positions():
            def inv(loc=loc, pos=pos):
                X.assume(join_step(x, a, pos()))
                return X.read(loc) == JOIN(x, a, pos())
            yield 'joined(%s,%s)' % (tag, n), inv


def strings_type(prog):
    for k in prog.find(ST + 'JoinPath'):
        d = prog.decls[k]
        if len(d['params']) == 1:
            return prog.ty(d['params'][0]).unref()


S.fn(ST + 'JoinPath', match=RANGE, iter_over=lambda prog: {0: ('r', strings_type(prog)), 1: ('r', strings_type(prog))}, name='JoinPath(first, last)', requires=lambda c: [('range', And(0 <= it(c, 0).idx, it(c, 0).idx <= it(c, 1).idx, it(c, 1).idx <= vlen(comps(c, it(c, 0)))))],
     axioms=lambda c: join_base(varr(same_vector(c)[0]), same_vector(c)[1]), value=lambda c: JOIN(varr(same_vector(c)[0]), same_vector(c)[1], same_vector(c)[2]), loops=join_loops, absstr=True)
S.fn(ST + 'JoinPath', match=WHOLE, name='JoinPath(components)', value=lambda c: JOIN(varr(c.val(0)), z3.IntVal(0), vlen(c.val(0))))


# ------------------------------------------------------------------ appending components: a stack whose first entry stays
KLEN = z3.Function('stack_size', INT, SARR, SARR, INT, INT, INT)           # (initial size, initial entries, components, from, to)
KENT = z3.Function('stack_entry', INT, SARR, SARR, INT, INT, INT, STR)     # the entry at an index
UP, CUR = z3.StringVal('..'), z3.StringVal('.')


class Stack:
    def __init__(self, n0, e0, x, a):
        self.n0, self.e0, self.x, self.a = n0, e0, x, a

    def size(self, k):
        return KLEN(self.n0, self.e0, self.x, self.a, k)

    def entry(self, k, j):
        return KENT(self.n0, self.e0, self.x, self.a, k, j)

    def base(self):
        j = z3.Int('j!sb')
        e = self.entry(self.a, j)
        return [self.size(self.a) == self.n0, forall([j], Implies(And(0 <= j, j < self.n0), e == z3.Select(self.e0, j)), patterns=[e])]

    def step(self, k):
        j = z3.Int('j!ss')
        w = z3.Select(self.x, k)
        n, m = self.size(k), self.size(simp(k + 1))
        push = And(w != UP, w != EMPTY, w != CUR)
        e1, e0 = self.entry(simp(k + 1), j), self.entry(k, j)
        return [m == If(w == UP, If(n > 1, n - 1, n), If(push, n + 1, n)),
                forall([j], Implies(And(0 <= j, j < m), e1 == If(And(push, j == n), w, e0)), patterns=[e1])]

    def matches(self, v, k):
        j = z3.Int('j!sm')
        return And(vlen(v) == self.size(k), forall([j], Implies(And(0 <= j, j < vlen(v)), z3.Select(varr(v), j) == self.entry(k, j)), patterns=[z3.Select(varr(v), j)]))


def stack_of(c):
    a, b = it(c, 1), it(c, 2)
    v = c.val(0)
    return Stack(vlen(v), varr(v), varr(comps(c, a)), a.idx), a.idx, b.idx


def append_loops(lc):
    X = lc.X
    K, a, b = stack_of(lc.c)
    for n, pos in lc.positions():
        yield 'range(%s)' % n, lambda pos=pos: And(a <= pos(), pos() <= b)

        def size(pos=pos):
            for f in K.step(pos()):
                X.assume(f)
            return vlen(X.read(lc.c.arg(0))) == K.size(pos())
        yield 'size(%s)' % n, size
        yield 'entries(%s)' % n, lambda pos=pos: K.matches(X.read(lc.c.arg(0)), pos())


def appended(c, v, x, a, b):
    """name of the vector after the call: it depends on its arguments alone"""
    vs = v.sort()
    few = z3.Function('appended_to_one', INT, STR, SARR, INT, INT, vs)(vlen(v), If(vlen(v) == 0, EMPTY, z3.Select(varr(v), 0)), x, a, b)
    return If(vlen(v) <= 1, few, z3.Function('appended', vs, SARR, INT, INT, vs)(v, x, a, b))


S.fn('kwiversys::SystemToolsAppendComponents', iter_over=lambda prog: {1: ('r', strings_type(prog)), 2: ('r', strings_type(prog))}, modifies=lambda c: [c.arg(0)],
     axioms=lambda c: stack_of(c)[0].base(), requires=lambda c: [('range', And(0 <= it(c, 1).idx, it(c, 1).idx <= it(c, 2).idx, it(c, 2).idx <= vlen(comps(c, it(c, 1)))))],
     ensures=lambda c: [('stack', stack_of(c)[0].matches(c.post.get(c.arg(0)), stack_of(c)[2]))], loops=append_loops,
     post_axioms=lambda c: [c.post.get(c.arg(0)) == appended(c, c.val(0), stack_of(c)[0].x, stack_of(c)[1], stack_of(c)[2])])

S.fn(ST + 'CheckTranslationPath', trusted=True, note='no translation of directory names is registered for the path')


def components(c, s):
    """name of the result of SplitPath: it depends on the path alone"""
    vs = c.X.sort(strings_type(c.X.prog))
    return z3.Function('components', STR, vs)(s)


def collapsed(c):
    p, b = components(c, c.val(0)), components(c, c.val(1))
    vs = p.sort()
    rel = N(z3.Select(varr(p), 0)) == 0
    none = c.X.to_term(c.X.lib.default(c.X, strings_type(c.X.prog)), strings_type(c.X.prog))
    one = vmk(vs, vlen(none) + 1, z3.Store(varr(none), vlen(none), z3.Select(varr(b), 0)))
    start = If(rel, appended(c, one, varr(b), z3.IntVal(1), vlen(b)), none)
    out = appended(c, start, varr(p), z3.IntVal(0), vlen(p))
    return JOIN(varr(out), z3.IntVal(0), vlen(out))


TWO_STRINGS = lambda d: len(d['params']) == 2 and 'basic_string' in d['params'][1]
nohome = lambda c: [('no home directory to expand', And(ch(c.val(0), 0) != 126, ch(c.val(1), 0) != 126))]
S.fn(ST + 'CollapseFullPath', match=TWO_STRINGS, name='CollapseFullPath(path, base)', requires=nohome, value=collapsed)



# ------------------------------------------------------------------ small predicates
UNIX = z3.Function('unix_slashes', STR, STR)
S.fn(ST + 'ConvertToUnixSlashes', trusted=True, note='the result depends on the path alone (checked by the bounded oracle only)', modifies=lambda c: [c.arg(0)], ensures=lambda c: [('named', c.post.get(c.arg(0)) == UNIX(c.val(0)))])


def dir_of(s):
    u = UNIX(s)
    i = last(u, SLASH)
    d = z3.SubString(u, 0, i)
    return If(i < 0, EMPTY, If(And(N(d) == 2, CHAR(d, 1) == 58), z3.Concat(d, SLASH), If(d == EMPTY, SLASH, d)))


S.fn(ST + 'GetFilenamePath', value=lambda c: dir_of(c.val(0)))
S.fn(ST + 'GetParentDirectory', value=lambda c: dir_of(c.val(0)))
S.fn(ST + 'IsSubDirectory', value=lambda c: And(c.val(1) != EMPTY, N(UNIX(c.val(0))) > N(UNIX(c.val(1))), CHAR(UNIX(c.val(0)), N(UNIX(c.val(1)))) == 47,
                                                z3.SubString(UNIX(c.val(0)), 0, N(UNIX(c.val(1)))) == UNIX(c.val(1))))
S.fn(ST + 'FileIsFullPath', match=lambda d: 'basic_string' in d['params'][0], name='FileIsFullPath(std::string)', axioms=short, value=lambda c: Or(ch(c.val(0), 0) == 126, ch(c.val(0), 0) == 47))


# ------------------------------------------------------------------ lines and pieces of a text
LSTART = z3.Function('line_start', STR, INT, INT, BOOL)
LIDX = z3.Function('line_index', STR, INT, INT, INT)
LEND = z3.Function('line_end', STR, INT, INT, INT)


class Lines:
    """pieces of a text behind each of which stands a separator character; a last piece without one when the text does not end with it"""
    def __init__(self, c, sep, cr=False):
        self.c, self.s, self.sep, self.cr = c, c.val(0), sep, cr
        self.n = N(self.s)

    def end(self, p):
        return NEXT_OF(self.s, self.sepstr(), p)

    def sepstr(self):
        return self.sep if self.sep.sort() == STR else self.c.X.lib.char_str(self.sep)

    def key(self):
        return z3.IntVal(ord(self.sep.as_string()[0]) if self.sep.as_string()[:1] != '\\' else 10) if self.sep.sort() == STR else self.sep

    def starts(self, p):
        return LSTART(self.s, self.key(), p)

    def idx(self, p):
        return LIDX(self.s, self.key(), p)

    def piece(self, p):
        e = self.end(p)
        if self.cr:
            e = If(And(e < self.n, e > p, CHAR(self.s, e - 1) == 13), e - 1, e)
        return z3.SubString(self.s, p, e - p)

    def base(self):
        i = z3.Int('i!lb')
        return [self.starts(z3.IntVal(0)), self.idx(z3.IntVal(0)) == 0, self.n < (1 << 62), forall([i], Implies(self.starts(i), And(0 <= i, i <= self.n + 1)), patterns=[self.starts(i)])]

    def step(self, p):
        q = simp(self.end(p) + 1)
        i = z3.Int('i!ls')
        ok = And(0 <= p, p < self.n, self.starts(p))
        return next_facts(self.s, self.sepstr(), p) + [Implies(ok, And(self.starts(q), self.idx(q) == self.idx(p) + 1)),
            Implies(ok, forall([i], Implies(And(p < i, i < q), Not(self.starts(i))), patterns=[self.starts(i)]))]

    def sound(self, v, v0, upto):
        p = z3.Int('p!ln')
        return forall([p], Implies(And(0 <= p, p < upto, p < self.n, self.starts(p)),
                                   And(self.idx(p) >= 0, self.idx(p) < self.idx(upto), z3.Select(varr(v), vlen(v0) + self.idx(p)) == self.piece(p))), patterns=[self.starts(p)])


def prior(v, v0):
    return forall_idx(vlen(v0), lambda i: z3.Select(varr(v), i) == z3.Select(varr(v0), i), patterns=lambda i: [z3.Select(varr(v), i)])


def lines_post(L):
    def f(c):
        l = L(c)
        v0, v1 = c.pre.get(c.arg(1)), c.post.get(c.arg(1))
        ends = Or(l.n == 0, in_set(l.s, l.sepstr(), l.n - 1))
        e = If(c.result, l.n, l.n + 1)
        return [('prior content kept', prior(v1, v0)), ('returns whether the text ends with the separator', c.result == ends),
                ('number of pieces', vlen(v1) == vlen(v0) + l.idx(e)), ('every piece at its place', l.sound(v1, v0, e))]
    return f


def lines_loops(L):
    def g(lc):
        X = lc.X
        l = L(lc.c)
        v0 = lc.c.pre.get(lc.c.arg(1))
        v = lambda: X.read(lc.c.arg(1))
        for n, p in lc.positions():
            def start(p=p):
                for f in l.step(p()):
                    X.assume(f)
                return l.starts(p())
            yield 'starts(%s)' % n, start
            yield 'range(%s)' % n, lambda p=p: And(0 <= p(), p() <= l.n)
            yield 'behind(%s)' % n, lambda p=p: Or(p() == 0, in_set(l.s, l.sepstr(), p() - 1))
            yield 'count(%s)' % n, lambda p=p: And(vlen(v()) == vlen(v0) + l.idx(p()), l.idx(p()) >= 0)
            yield 'pieces(%s)' % n, lambda p=p: l.sound(v(), v0, p())
        yield 'prior', lambda: prior(v(), v0)
    return g


for name, L, nparam in (('Split(text, lines, separator)', lambda c: Lines(c, c.val(2)), 3), ('Split(text, lines)', lambda c: Lines(c, z3.StringVal('\n'), True), 2)):
    S.fn(ST + 'Split', match=nparams(nparam), name=name, axioms=lambda c, L=L: L(c).base(), ensures=lines_post(L), loops=lines_loops(L), modifies=lambda c: [c.arg(1)])


def setup(X):
    X.lib.char_writes = True


S.setup = setup


# ------------------------------------------------------------------ collapsing: the root stays, redundant components go, a second time changes nothing
@S.lemma('collapsing keeps the root and leaves no redundant component; collapsing again changes nothing')
def collapse_lemma(L):
    n0, a, k, j = z3.Ints('n0 a k j')
    e0, x = z3.Const('e0', SARR), z3.Const('x', SARR)
    r = z3.String('root')
    K = Stack(n0, e0, x, a)
    step = And(K.step(k))
    base = And(K.base())
    n, m = K.size(k), K.size(simp(k + 1))
    plain = lambda w: And(w != UP, w != EMPTY, w != CUR)
    first = lambda t: And(K.size(t) >= 1, K.entry(t, 0) == r)
    yield 'the root stays: start', Implies(And(base, n0 >= 1, z3.Select(e0, 0) == r), first(a))
    yield 'the root stays: step', Implies(And(step, first(k)), first(simp(k + 1)))
    # with an empty stack the first plain component, a root, becomes the first entry
    yield 'an absolute path starts with its root', Implies(And(step, base, k == a, n0 == 0, plain(z3.Select(x, a)), z3.Select(x, a) == r), And(K.size(a + 1) == 1, K.entry(a + 1, 0) == r))
    ent = lambda t: forall([j], Implies(And(1 <= j, j < K.size(t)), plain(K.entry(t, j))), patterns=[K.entry(t, j)])
    yield 'no redundant component: start', Implies(And(base, n0 <= 1, n0 >= 0), ent(a))
    yield 'no redundant component: step', Implies(And(step, n >= 0, ent(k)), ent(simp(k + 1)))
    allplain = forall([j], Implies(j > a, plain(z3.Select(x, j))), patterns=[z3.Select(x, j)])
    keep = lambda t: And(K.size(t) == n0 + t - a, forall([j], Implies(And(n0 <= j, j < n0 + t - a), K.entry(t, j) == z3.Select(x, a + j - n0)), patterns=[K.entry(t, j)]))
    yield 'nothing to remove: start', Implies(base, keep(a))
    yield 'nothing to remove: step', Implies(And(step, k >= a, n0 >= 0, plain(z3.Select(x, k)), keep(k)), keep(simp(k + 1)))
