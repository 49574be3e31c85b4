"""kwiver::vital::tokenize: maximal pieces between delimiters"""
from vcg.spec import *
from vcg.lib.core import NEXT_OF, next_facts, in_set

S = Spec(['/verif/inst/tokenize.cpp'], props=['C19'])

# A piece starts at 0 and after every delimiter (of START); IDX is the number of kept pieces that start before a position.
IDX = z3.Function('piece_index', STR, STR, BOOL, INT, INT)
STARTS = z3.Function('piece_start', STR, STR, INT, BOOL)


class T:
    def __init__(self, c):
        self.c = c
        self.s, self.d, self.trim = c.val(0), c.val(2), c.val(3)
        self.n = z3.Length(self.s)

    def end(self, p):
        return NEXT_OF(self.s, self.d, p)

    def kept(self, p):
        return Or(Not(self.trim), self.end(p) != p)

    def piece(self, p):
        return z3.SubString(self.s, p, self.end(p) - p)

    def idx(self, p):
        return IDX(self.s, self.d, self.trim, p)

    def starts(self, p):
        return STARTS(self.s, self.d, p)

    def step(self, p):
        """definitions of the pieces and their numbers, for the piece that starts at p"""
        q = simp(self.end(p) + 1)
        i = z3.Int('i!st')
        ok = And(0 <= p, p <= self.n, self.starts(p))
        return next_facts(self.s, self.d, p) + [
            Implies(ok, And(self.starts(q), self.idx(q) == self.idx(p) + If(self.kept(p), 1, 0))),
            Implies(ok, forall([i], Implies(And(p < i, i < q), Not(self.starts(i))), patterns=[self.starts(i)]))]

    def base(self):
        i = z3.Int('i!bs')
        return [self.idx(z3.IntVal(0)) == 0, self.starts(z3.IntVal(0)), forall([i], Implies(self.starts(i), And(0 <= i, i <= self.n + 1)), patterns=[self.starts(i)])]

    def sound(self, v, v0, upto):
        p = z3.Int('p!tk')
        return forall([p], Implies(And(0 <= p, p < upto, self.starts(p), self.kept(p)),
                                   And(self.idx(p) >= 0, self.idx(p) < self.idx(upto), z3.Select(varr(v), vlen(v0) + self.idx(p)) == self.piece(p))), patterns=[self.starts(p)])


def axioms(c):
    return T(c).base()


def prior(v, v0):
    return forall_idx(vlen(v0), lambda i: z3.Select(varr(v), i) == z3.Select(varr(v0), i), patterns=lambda i: [z3.Select(varr(v), i)])


def post(c):
    t = T(c)
    v0, v1 = c.pre.get(c.arg(1)), c.post.get(c.arg(1))
    return [('prior content kept', prior(v1, v0)), ('number of pieces', vlen(v1) == vlen(v0) + t.idx(t.n + 1)), ('every kept piece at its place', t.sound(v1, v0, t.n + 1))]


def loops(lc):
    t = T(lc.c)
    X = lc.X
    v0 = lc.c.pre.get(lc.c.arg(1))
    v = lambda: X.read(lc.c.arg(1))
    for n, loc in lc.vars:
        if isinstance(loc, VarLoc) and X.sort(loc.ty) == INT:
            p = lambda loc=loc: X.read(loc)

            def start(p=p):
                for f in t.step(p()):
                    X.assume(f)
                return t.starts(p())
            yield 'starts(%s)' % n, start
            yield 'range(%s)' % n, lambda p=p: And(0 <= p(), p() <= t.n)
            yield 'count(%s)' % n, lambda p=p: And(vlen(v()) == vlen(v0) + t.idx(p()), t.idx(p()) >= 0)
            yield 'pieces(%s)' % n, lambda p=p: t.sound(v(), v0, p())
    yield 'prior', lambda: prior(v(), v0)


S.fn('kwiver::vital::tokenize', axioms=axioms, ensures=post, loops=loops, modifies=lambda c: [c.arg(1)])


@S.lemma('pieces and delimiters give the text back')
def joined(L):
    s, d = z3.String('s'), z3.String('d')
    p = z3.Int('p')
    n = z3.Length(s)
    e = NEXT_OF(s, d, p)
    defs = And([f for f in next_facts(s, d, p)])
    piece = z3.SubString(s, p, e - p)
    rest = z3.SubString(s, p, n - p)
    yield 'a piece followed by its delimiter and the rest is the text from its start on', Implies(And(defs, 0 <= p, p <= n, e < n),
        rest == z3.Concat(piece, z3.SubString(s, e, 1), z3.SubString(s, e + 1, n - e - 1)))
    yield 'the last piece is the text from its start on', Implies(And(defs, 0 <= p, p <= n, e == n), rest == piece)
    i = z3.Int('i')
    yield 'no piece contains a delimiter', Implies(And(defs, 0 <= p, p <= i, i < e, e <= n), Not(in_set(s, d, i)))
    yield 'the character between two pieces is a delimiter', Implies(And(defs, 0 <= p, p <= n, e < n), in_set(s, d, e))
