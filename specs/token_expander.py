"""macro expansion: kwiver::vital::token_expander and its providers"""
from vcg.spec import *
from vcg.lib import regex
from vcg.lib.core import CStr

R = 'vital/config/'
S = Spec([R + f for f in ('token_expander.cxx', 'token_type.cxx', 'token_type_symtab.cxx', 'token_type_env.cxx', 'token_type_config.cxx')], props=['C08'])
V = 'kwiver::vital::'
TE, TT = V + 'token_expander', V + 'token_type'
sel = z3.Select
E0 = z3.StringVal('')
# the syntax of a macro: $TYPE{name}, the name is optional
TOKEN = regex.Pat(r'\$([a-zA-Z][a-zA-Z0-9_]*)\{([a-zA-Z0-9._:]+)?\}')
# what a provider answers
KNOWS = z3.Function('provider_knows', INT, STR, BOOL)
VALUE = z3.Function('provider_value', INT, STR, STR)
HASENV = z3.Function('environment_has', STR, BOOL)
ENV = z3.Function('environment_value', STR, STR)
HASCFG = z3.Function('config_has', INT, STR, BOOL)
CFG = z3.Function('config_value', INT, STR, STR)
EXP = z3.Function('expanded', STR, STR)


def setup(X):
    regex.enable(X)

    def getenv(X, c):
        n = X.lib.as_string(X, c.val(0))
        if len(c.args) > 1:
            raise Unsupported('GetEnv')
        return CStr(ENV(n)) if X.decide(HASENV(n)) else z3.IntVal(0)
    X.lib.h['kwiversys::SystemTools::GetEnv'] = X.lib.h['getenv'] = X.lib.h['std::getenv'] = getenv


S.setup = setup


def types(c, post=False):
    return (c.post if post else c.pre).f(c.this, 'm_typeList')


def tail(s, p):
    return z3.SubString(s, p, z3.Length(s) - p)


def step(m, t):
    """definition of the expanded text: the first macro is replaced, the text before it kept, the text after it expanded"""
    s0, e0 = TOKEN.start(t, 0), TOKEN.end(t, 0)
    ty, name = TOKEN.match(t, 1), TOKEN.match(t, 2)
    prov = sel(mval(m), ty)
    repl = If(sel(mdom(m), ty), If(KNOWS(prov, name), VALUE(prov, name), E0), TOKEN.match(t, 0))
    return TOKEN.facts(t) + [EXP(t) == If(TOKEN.found(t), z3.Concat(z3.SubString(t, 0, s0), repl, EXP(tail(t, e0))), t), Implies(And(TOKEN.found(t), Not(sel(mdom(m), ty))), kept(t))]


def kept(t):
    """consequence (proved as a lemma): a macro of an unknown type stays"""
    return EXP(t) == z3.Concat(z3.SubString(t, 0, TOKEN.end(t, 0)), EXP(tail(t, TOKEN.end(t, 0))))


def wf(c):
    k = z3.String('k!wf')
    m = types(c)
    return [('a logger', c.pre.f(c.this, 'm_logger') != 0), ('providers are objects', forall([k], Implies(sel(mdom(m), k), sel(mval(m), k) != 0), patterns=[sel(mdom(m), k)]))]


def loops(lc):
    c, X = lc.c, lc.X
    s, m = c.val(0), types(c)
    n = z3.Length(s)
    for a, v in locals_of(lc, STR):
        for b, p in lc.positions():
            def inv(v=v, p=p):
                q = p()
                t = tail(s, q)
                for f in step(m, t) + suffix_facts(s, q, TOKEN.end(t, 0)):
                    X.assume(f)
                return And(0 <= q, q <= n, z3.Concat(X.read(v), EXP(t)) == EXP(s))
            yield 'expanded(%s,%s)' % (a, b), inv


def suffix_facts(s, q, e):
    """parts of the text from position q on are parts of the text (proved as a lemma)"""
    n, t = z3.Length(s), tail(s, q)
    ok = And(0 <= q, q <= n)
    return [Implies(ok, z3.Length(t) == n - q), Implies(q == 0, t == s), Implies(And(ok, 0 <= e, e <= n - q), And(tail(t, e) == tail(s, q + e), z3.SubString(t, 0, e) == z3.SubString(s, q, e)))]


@S.lemma('parts of a suffix are parts of the text')
def suffix(L):
    s, q, e, a = z3.String('s'), z3.Int('q'), z3.Int('e'), z3.Int('a')
    for i, f in enumerate(suffix_facts(s, q, e)):
        yield 'part %d' % i, f


@S.lemma('text before a macro and the macro are the text up to its end')
def joined(L):
    t, a, b, r = z3.String('t'), z3.Int('a'), z3.Int('b'), z3.String('r')
    yield 'joined', Implies(And(0 <= a, a <= b, b <= z3.Length(t)), z3.Concat(z3.SubString(t, 0, a), z3.SubString(t, a, b - a), r) == z3.Concat(z3.SubString(t, 0, b), r))


S.fn(TE + '::expand_token', requires=wf, axioms=lambda c: step(types(c), c.val(0)), value=lambda c: EXP(c.val(0)), loops=loops, absstr=True)
S.fn(TT + '::lookup_entry', trusted=True, modifies=lambda c: [c.arg(1)],
     ensures=lambda c: [('tells whether it knows the name', c.result == KNOWS(c.this.ref, c.val(0))), ('its value', c.post.get(c.arg(1)) == If(KNOWS(c.this.ref, c.val(0)), VALUE(c.this.ref, c.val(0)), c.val(1)))])
NAME = lambda c, r: c.pre.f(c.X.obj(r, TT), 'm_typeName')
S.fn(TT + '::token_type_name', requires=lambda c: [], ensures=lambda c: [('the name', c.post.get(c.result) == c.pre.f(c.this, 'm_typeName'))])
S.fn(TE + '::add_token_type', requires=lambda c: [('provider given', c.val(0) != 0)], modifies=lambda c: [c.pre.loc(c.this, 'm_typeList')],
     ensures=lambda c: [('the provider answers to its name', And(sel(mdom(types(c, True)), NAME(c, c.val(0))), sel(mval(types(c, True)), NAME(c, c.val(0))) == c.val(0))),
                        ('other providers unchanged', other_keys(types(c), types(c, True), NAME(c, c.val(0)))), ('reports success', c.result)])


def other_keys(m, m1, n):
    k = z3.String('k!ok')
    return forall([k], Implies(k != n, And(sel(mdom(m1), k) == sel(mdom(m), k), Implies(sel(mdom(m), k), sel(mval(m1), k) == sel(mval(m), k)))), patterns=[sel(mdom(m1), k)])


# ---- providers
def answers(known, value, miss=lambda c: E0):
    return lambda c: [('tells whether it knows the name', c.result == known(c)), ('its current value', Implies(known(c), c.post.get(c.arg(1)) == value(c)))] + \
        ([('nothing for an unknown name', Implies(Not(known(c)), c.post.get(c.arg(1)) == miss(c)))] if miss else [])


SY = V + 'token_type_symtab'
tab = lambda c, post=False: (c.post if post else c.pre).f(c.this, 'm_table')
S.fn(SY + '::lookup_entry', modifies=lambda c: [c.arg(1)], ensures=answers(lambda c: sel(mdom(tab(c)), c.val(0)), lambda c: sel(mval(tab(c)), c.val(0))))
S.fn(SY + '::add_entry', modifies=lambda c: [c.pre.loc(c.this, 'm_table')],
     ensures=lambda c: [('the name has the value', And(sel(mdom(tab(c, True)), c.val(0)), sel(mval(tab(c, True)), c.val(0)) == c.val(1))), ('other names unchanged', other_keys(tab(c), tab(c, True), c.val(0)))])
S.fn(SY + '::remove_entry', modifies=lambda c: [c.pre.loc(c.this, 'm_table')],
     ensures=lambda c: [('the name is gone', Not(sel(mdom(tab(c, True)), c.val(0)))), ('other names unchanged', other_keys(tab(c), tab(c, True), c.val(0)))])
S.fn(V + 'token_type_env::lookup_entry', modifies=lambda c: [c.arg(1)], ensures=answers(lambda c: HASENV(c.val(0)), lambda c: ENV(c.val(0))))
cfg = lambda c: c.pre.f(c.this, 'm_config')
S.fn(V + 'token_type_config::lookup_entry', requires=lambda c: [('configuration given', cfg(c) != 0)], modifies=lambda c: [c.arg(1)],
     ensures=answers(lambda c: HASCFG(cfg(c), c.val(0)), lambda c: CFG(cfg(c), c.val(0)), miss=None))
S.fn(V + 'config_block::get_value', trusted=True, match=nparams(1), throws=lambda c: {V + 'no_such_configuration_value_exception': Not(HASCFG(c.this.ref, c.val(0)))}, ensures=lambda c: [('value', c.result == CFG(c.this.ref, c.val(0)))])
