"""kwiver::vital::registrar, algorithm, algorithm_def: registration, creation by name, nested algorithms in configurations"""
from vcg.spec import *
from vcg.engine import FieldLoc, set_key, set_card, set_axioms, set_pos, select
from specs import config_block as CBS
from specs.config_block import Blk, FULL, ROOT, TRIM, unfold, inv, noglob, CB
from specs.track_set import counter

S = Spec(['vital/algo/algorithm.cxx', 'vital/registrar.cxx', '/verif/inst/algorithm.cpp', 'vital/config/config_block.cxx'], props=['C24'])
S.setup = CBS.S.setup
V = 'kwiver::vital::'
REG, ALG, DEF = V + 'registrar', V + 'algorithm', V + 'algorithm_def'
sel = z3.Select
WANT = ('::i_set_value', 'has_value', 'subblock_view', 'merge_config', 'empty_config', 'set_value<string>(key, value, description)', 'get_value<string>(key)')
for _c in CBS.S.contracts:
    if any(_c.name.endswith(w) for w in WANT):
        _c.opts['optional'] = True
        S.contracts.append(_c)

# ---- the registered items of one type: the map that get_item_map<T>() returns
SV = vec_sort(STR)


def item_loc(c, T):
    prog = c.X.prog
    t = prog.ty(prog.decls['%s::get_item_map<%s>()' % (REG, T)]['ret'])
    return FieldLoc(ObjLoc(z3.IntVal(1), prog.ty(REG)), 'registered', 'items<%s>' % T, t.elem)


def items(c, T=ALG, post=False):
    with c.X.at(c.post.state() if post else c.pre.state()):
        return c.X.read(item_loc(c, T))


def targ(c):
    return c.decl['targs'][0]['t']


S.fn(REG + '::get_item_map', trusted=True, result_shape=lambda c: item_loc(c, targ(c)), note='a function-local static map: one object per item type')
S.fn(REG + '::instance', trusted=True, result_shape=lambda c: ObjLoc(z3.IntVal(1), c.X.prog.ty(REG)), note='a function-local static object')
S.fn(REG + '::debug_msg', requires=lambda c: [('logger', c.pre.f(c.this, 'm_logger') != 0)])


def wf(m):
    """no null pointers are registered"""
    k = z3.String('k!wf')
    return forall([k], Implies(sel(mdom(m), k), sel(mval(m), k) >= 1), patterns=[sel(mval(m), k)])


def has(m, k):
    return sel(mdom(m), k)


def put(m, k, v):
    return m.sort().constructor(0)(z3.Store(mdom(m), k, z3.BoolVal(True)), z3.Store(mval(m), k, v))


WF = lambda T=None: (lambda c: [('registered items are not null', wf(items(c, T or targ(c))))])
S.fn(REG + '::register_item', requires=lambda c: WF()(c) + [('logger', c.pre.f(c.this, 'm_logger') != 0)], modifies=lambda c: [item_loc(c, targ(c))],
     ensures=lambda c: [('refused exactly for a null pointer', c.result == (c.val(1) != 0)),
                        ('the name stands for the item, every other name for what it stood for', items(c, targ(c), True) == If(c.val(1) != 0, put(items(c, targ(c)), c.val(0), c.val(1)), items(c, targ(c)))),
                        ('registered items are not null', wf(items(c, targ(c), True)))])
S.fn(REG + '::is_registered', value=lambda c: has(items(c, targ(c)), c.val(0)))
S.fn(REG + '::find', value=lambda c: If(has(items(c, targ(c)), c.val(0)), sel(mval(items(c, targ(c))), c.val(0)), 0))


def names_ens(c, T):
    d = mdom(items(c, T))
    return [('as many as registered', vlen(c.result) == set_card(d)), ('the names in their order', forall_idx(vlen(c.result), lambda i: sel(varr(c.result), i) == set_key(d, i), patterns=lambda i: [sel(varr(c.result), i), set_key(d, i)]))]


def names_loops(T):
    def f(lc):
        X, c = lc.X, lc.c
        d = mdom(items(c, T or targ(c)))
        for n, loc in lc.changed(sort=SV):
            for pn, pos in lc.positions():
                i = z3.Int('i!nl')
                yield 'as many (%s,%s)' % (n, pn), lambda loc=loc, pos=pos: vlen(X.read(loc)) == pos()
                yield 'names (%s,%s)' % (n, pn), lambda loc=loc, pos=pos: forall([i], Implies(And(0 <= i, i < vlen(X.read(loc))), sel(varr(X.read(loc)), i) == set_key(d, i)), patterns=[sel(varr(X.read(loc)), i)])
    return f


S.fn(REG + '::registered_names', ensures=lambda c: names_ens(c, targ(c)), loops=names_loops(None), post_axioms=lambda c: set_axioms(mdom(items(c, targ(c))), False))

# ---- what the virtual functions of an implementation are: names of the object, parameters as an abstract value
SELF = 'verif_algo'
TYPEN, IMPLN, DESCR = [z3.Function(n, INT, STR) for n in ('type name of', 'implementation name of', 'description of')]
KIND = z3.Function('implementation of', INT, INT)
STYPE = z3.String('static_type_name')
PAR = 'ghost:parameters'


def params(c, r, post=False):
    with c.X.at(c._post if post else c._pre):
        return sel(c.X.hmap(PAR, INT), r)


def same_kind(c, a, b, post=True):
    """a is a copy of b"""
    return And(KIND(a) == KIND(b), TYPEN(a) == TYPEN(b), IMPLN(a) == IMPLN(b), params(c, a, post) == params(c, b))


touch = lambda c: [c.X.hmap(PAR, INT) == c.X.hmap(PAR, INT)]
S.fn('verif_algo::static_type_name', trusted=True, value=lambda c: STYPE, note='the type name of an algorithm type is any fixed text')
for _k in (ALG, DEF):
    S.fn(_k + '::type_name', trusted=_k == ALG, value=lambda c: TYPEN(c.this.ref) if c.decl['cls'] == ALG else STYPE)
S.fn(ALG + '::impl_name', trusted=True, value=lambda c: IMPLN(c.this.ref))
S.fn(ALG + '::description', trusted=True, value=lambda c: DESCR(c.this.ref))
CLONE = dict(trusted=True, fresh_result=True, axioms=touch, allocates=True, ensures=lambda c: [('a copy', same_kind(c, c.result, c.this.ref))], note='implementations clone themselves')
S.fn(ALG + '::base_clone', **CLONE)
S.fn(DEF + '::clone', **CLONE)

ITEM = lambda c, k, T=ALG: If(has(items(c, T), k), sel(mval(items(c, T)), k), 0)
COLON = z3.StringVal(':')
qual = lambda t, n: z3.Concat(t, COLON, n)


def created(c, k, T=ALG):
    return [('nothing exactly for a name that is not registered', (c.result == 0) == Not(has(items(c, T), k))), ('a new copy of the registered implementation', Implies(has(items(c, T), k), And(c.result < 0, same_kind(c, c.result, ITEM(c, k, T)))))]


S.fn(ALG + '::create', requires=WF(ALG), axioms=touch, allocates=True, ensures=lambda c: created(c, qual(c.val(0), c.val(1))))
S.fn(DEF + '::create', requires=WF(SELF), axioms=touch, allocates=True, ensures=lambda c: created(c, c.val(0), SELF))
S.fn(DEF + '::registered_names', ensures=lambda c: names_ens(c, SELF), post_axioms=lambda c: set_axioms(mdom(items(c, SELF)), False))
S.fn(DEF + '::has_impl_name', value=lambda c: has(items(c, SELF), c.val(0)))

# ---- the names registered below one type
PICK = z3.Function('position of the name', z3.ArraySort(STR, BOOL), STR, INT, INT)     # inverse of counting


def selection(c, t):
    d = mdom(items(c))
    pre = z3.Concat(t, COLON)
    key = lambda j: set_key(d, j)
    P = lambda j: z3.PrefixOf(pre, key(j))
    cnt_, facts = counter('named', lambda j: z3.PrefixOf(pre, key(j)), (d, t))
    j = z3.Int('j!pk')
    facts = facts + [forall([j], Implies(And(j >= 0, P(j)), PICK(d, t, cnt_(j)) == j), patterns=[P(j)])]
    rest = lambda j: z3.SubString(key(j), z3.Length(pre), z3.Length(key(j)) - z3.Length(pre))
    return d, pre, P, cnt_, rest, facts


def sel_ens(c, v, n, t):
    d, pre, P, cnt_, rest, facts = selection(c, t)
    pk = lambda i: PICK(d, t, i)
    key = lambda j: set_key(d, j)
    return [('as many as there are names of the type', vlen(v) == cnt_(n)),
            ('each is the name of a registered item of the type', forall_idx(vlen(v), lambda i: And(0 <= pk(i), pk(i) < n, P(pk(i)), sel(varr(v), i) == rest(pk(i)), z3.Concat(pre, sel(varr(v), i)) == key(pk(i))), patterns=lambda i: [sel(varr(v), i)])),
            ('each registered item of the type is named', forall_idx(n, lambda j: Implies(P(j), And(cnt_(j) < vlen(v), sel(varr(v), cnt_(j)) == rest(j))), patterns=lambda j: [P(j)] if c.verifying and c.decl["n"] == "registered_names" else [key(j)]))]


def sel_loops(lc):
    X, c = lc.X, lc.c
    for n, loc in lc.changed(sort=SV):
        for pn, pos in lc.positions():
            for q in range(3):
                yield 'selected%d(%s,%s)' % (q, n, pn), lambda loc=loc, pos=pos, q=q: sel_ens(c, X.read(loc), pos(), c.val(0))[q][1]


def listed(c):
    d = mdom(items(c))
    t = c.val(0)
    anyt = z3.Length(t) == 0
    full = lambda x: If(anyt, x, qual(t, x))
    x = z3.String('x!li')
    out = [(n, Implies(anyt, f)) for n, f in names_ens(c, ALG)] + [(n, Implies(Not(anyt), f)) for n, f in sel_ens(c, c.result, set_card(d), t)]
    return out


S.fn(ALG + '::registered_names', requires=WF(ALG), axioms=lambda c: selection(c, c.val(0))[5], post_axioms=lambda c: set_axioms(mdom(items(c)), False), ensures=listed, loops=sel_loops)


def registered(c, t, n):
    return has(items(c), If(z3.Length(t) == 0, n, qual(t, n)))


def type_ens(c):
    n = z3.String('n!ht')
    t = c.val(0)
    i = z3.Int('i!ht')
    d = mdom(items(c))
    named = lambda k: Or(z3.Length(t) == 0, z3.PrefixOf(z3.Concat(t, COLON), k))
    return [('exactly for a type with registered items', c.result == z3.Exists([n], And(has(items(c), n), named(n))))]


def impl_facts(c):
    """where the qualified name stands in the enumeration of the registered names"""
    t, n = c.val(0), c.val(1)
    d, pre, P, cnt_, rest, facts = selection(c, t)
    j = set_pos(d, qual(t, n))
    k = z3.Concat(pre, n)
    i = set_pos(d, n)
    return facts + [k == qual(t, n), Implies(has(items(c), n), And(0 <= i, i < set_card(d), set_key(d, i) == n)), Implies(has(items(c), k), And(0 <= j, j < set_card(d), set_key(d, j) == k, P(j), rest(j) == n))]


def impl_ens(c):
    t, n = c.val(0), c.val(1)
    e = z3.Length(t) == 0
    r = has(items(c), n), has(items(c), qual(t, n))
    return [('known without type', Implies(And(e, c.result), r[0])), ('known with type', Implies(And(Not(e), c.result), r[1])),
            ('all known without type', Implies(And(e, r[0]), c.result)), ('all known with type', Implies(And(Not(e), r[1]), c.result)), ('exactly for a registered item', c.result == If(e, r[0], r[1]))]


S.fn(ALG + '::has_type_name', requires=WF(ALG), axioms=lambda c: selection(c, c.val(0))[5], ensures=type_ens)
S.fn(ALG + '::has_impl_name', requires=WF(ALG), axioms=impl_facts, ensures=impl_ens)

# ---- registration of an instance
S.fn(DEF + '::register_instance', requires=lambda c: WF(ALG)(c) + WF(SELF)(c) + [('logger', c.pre.f(c.arg(0), 'm_logger') != 0), ('the registrar', c.arg(0).ref == 1)], modifies=lambda c: [item_loc(c, ALG), item_loc(c, SELF)],
     ensures=lambda c: [('refused exactly for a null pointer', c.result == (c.val(1) != 0)),
                        ('registered under its qualified name', items(c, ALG, True) == If(c.val(1) != 0, put(items(c, ALG), qual(STYPE, IMPLN(c.val(1))), c.val(1)), items(c, ALG))),
                        ('registered under its name', items(c, SELF, True) == If(c.val(1) != 0, put(items(c, SELF), IMPLN(c.val(1)), c.val(1)), items(c, SELF)))])

# ---- nested algorithms in configurations
STORE = lambda c, post=False: Blk(c, post, cfg(c)).store
cfg = lambda c: c.X.obj(c.val(2 if c.decl['cls'] == ALG else 1), CB)
OBJ = lambda c, r: c.X.obj(r, CB)
PREFIX = lambda r: FULL(r, z3.StringVal(''))                 # a view is its root and its prefix
_probe = {}


def acc(st):
    return z3.Function('accepts', INT, st.sort(), STR, BOOL)


def built_f(st):
    return z3.Function('parameters from', INT, st, STR, INT)


def built(st):
    return z3.Function('parameters from', INT, st.sort(), STR, INT)


def view_args(c, i=0):
    r = c.val(i)
    b = Blk(c, 0, OBJ(c, r))
    return b.store, PREFIX(r)


S.fn(ALG + '::check_configuration', trusted=True, value=lambda c: acc(view_args(c)[0])(KIND(c.this.ref), *view_args(c)), note='depends on the entries seen through the given block only')
S.fn(ALG + '::set_configuration', trusted=True, axioms=touch, modifies=lambda c: [PAR],
     ensures=lambda c: [('parameters from the given entries', params(c, c.this.ref, True) == built(view_args(c)[0])(KIND(c.this.ref), *view_args(c)))])
TYPE = z3.StringVal('type')


def names(c):
    tn, n = (c.val(0), c.val(1)) if c.decl['cls'] == ALG else (STYPE, c.val(0))
    return tn, n, z3.Concat(n, COLON, TYPE)


def sub_prefix(c, n, impl):
    return FULL(cfg(c).ref, z3.Concat(n, COLON, impl, COLON))


def nested_req(c):
    tn, n, tk = names(c)
    return WF(ALG)(c) + [('a type name', z3.Length(tn) > 0), ('a block', cfg(c).ref >= 1)]


def cfg_axioms(c):
    return touch(c) + unfold(c, cfg(c))


def chk_ens(c):
    tn, n, tk = names(c)
    b = Blk(c, 0, cfg(c))
    impl = b.get(tk)
    it = ITEM(c, qual(tn, impl))
    return [('accepts exactly a named, registered implementation that accepts its own part', c.result == And(b.has(tk), has(items(c), qual(tn, impl)), acc(b.store)(KIND(it), b.store, sub_prefix(c, n, impl))))]


S.fn(ALG + '::check_nested_algo_configuration', requires=nested_req, axioms=cfg_axioms, ensures=chk_ens)
S.fn(DEF + '::check_nested_algo_configuration', requires=nested_req, axioms=cfg_axioms, ensures=chk_ens)


def algo_out(c, post=True):
    a = c.arg(3 if c.decl['cls'] == ALG else 2)
    return c.post.get(a) if post else c.pre.get(a)


def set_ens(c):
    tn, n, tk = names(c)
    b = Blk(c, 0, cfg(c))
    impl = b.get(tk)
    k = qual(tn, impl)
    it = ITEM(c, k)
    ok = And(b.has(tk), has(items(c), k))
    r = algo_out(c)
    out = [('kept when no registered implementation is named', Implies(Not(ok), r == algo_out(c, False)) if c.decl['cls'] == ALG else Implies(Not(ok), Or(r == algo_out(c, False), r == 0)))]
    if c.decl['cls'] == ALG:
        out += [('a new object of the named implementation', Implies(ok, And(r < 0, KIND(r) == KIND(it), TYPEN(r) == TYPEN(it), IMPLN(r) == IMPLN(it)))),
                ('with the parameters of its own part of the configuration', Implies(ok, params(c, r, True) == built(b.store)(KIND(it), b.store, sub_prefix(c, n, impl))))]
    else:
        out += [('a new object of the named implementation with those parameters', Implies(And(ok, r != 0), And(r < 0, KIND(r) == KIND(it), params(c, r, True) == built(b.store)(KIND(it), b.store, sub_prefix(c, n, impl)))))]
    return out


S.fn(ALG + '::set_nested_algo_configuration', requires=nested_req, axioms=cfg_axioms, allocates=True, modifies=lambda c: [c.arg(3), PAR], ensures=set_ens)
S.fn(DEF + '::set_nested_algo_configuration', requires=nested_req, axioms=cfg_axioms, allocates=True, modifies=lambda c: [c.arg(2), PAR], ensures=set_ens)

# ---- writing a nested algorithm into a configuration
DEFD = z3.Function('entry is set by', INT, INT, STR, BOOL)       # implementation, parameters, key
TEXT = z3.Function('entry text of', INT, INT, STR, STR)


def own_conf(c, kind, par, b):
    """block b holds exactly the entries that describe the parameters"""
    k = z3.String('k!oc')
    return And(forall([k], And(sel(mdom(b.store), k) == DEFD(kind, par, k), FULL(b.ref, k) == k), patterns=[sel(mdom(b.store), k), DEFD(kind, par, k)]), forall([k], Implies(sel(mdom(b.store), k), sel(mval(b.store), k) == TEXT(kind, par, k)), patterns=[sel(mval(b.store), k)]))


def conf_ens(c):
    r = OBJ(c, c.result)
    b = Blk(c, 1, r)
    k = z3.String('k!cf')
    return [('its own block', And(c.post.f(r, 'm_parent') == 0, ROOT(c.result) == c.result)), ('well formed', inv(b)), ('no global keys', noglob(b)),
            ('the entries of the parameters', own_conf(c, KIND(c.this.ref), params(c, c.this.ref), b))]


S.fn(ALG + '::get_configuration', trusted=True, fresh_result=True, allocates=True, axioms=touch, post_axioms=lambda c: unfold(c, OBJ(c, c.result), c.post.state()), ensures=conf_ens,
     note='implementations describe their parameters in a block of their own, without reserved keys')


def get_ens(c):
    tn, n, tk = names(c)
    a, b = Blk(c, 1, cfg(c)), Blk(c, 0, cfg(c))
    alg = c.val(3 if c.decl['cls'] == ALG else 2)
    kd, par = KIND(alg), params(c, alg)
    impl = IMPLN(alg)
    k, q = z3.Strings('k!ge q!ge')
    sub = lambda x: FULL(cfg(c).ref, z3.Concat(n, COLON, impl, COLON, x))
    isub = lambda q: z3.Exists([k], And(DEFD(kd, par, k), q == sub(k)))
    none, some = alg == 0, alg != 0
    A, B = (lambda x: sel(mdom(a.store), x)), (lambda x: sel(mdom(b.store), x))
    AV, BV = (lambda x: sel(mval(a.store), x)), (lambda x: sel(mval(b.store), x))
    ft = b.full(tk)
    return [('the implementation is named', Implies(some, And(A(ft), AV(ft) == TRIM(impl)))),
            ('its entries are written', forall([k], Implies(And(some, DEFD(kd, par, k)), A(sub(k))), patterns=[DEFD(kd, par, k)])),
            ('their values are written', forall([k], Implies(And(some, DEFD(kd, par, k)), AV(sub(k)) == TEXT(kd, par, k)), patterns=[DEFD(kd, par, k)])),
            ('an entry without name for no algorithm', Implies(none, And(A(ft), AV(ft) == If(B(ft), BV(ft), z3.StringVal(''))))),
            ('every other entry is kept', forall([q], Implies(And(q != ft, Or(none, Not(isub(q)))), And(A(q) == B(q), Implies(B(q), AV(q) == BV(q)))), patterns=[A(q)])),
            ('well formed', inv(a))]


def get_throws(c):
    tn, n, tk = names(c)
    alg = c.val(3 if c.decl['cls'] == ALG else 2)
    b = Blk(c, 0, cfg(c))
    k = z3.String('k!gt')
    ro = lambda x: b.readonly(x)
    return {V + 'set_on_read_only_value_exception': If(alg == 0, And(Not(b.has(tk)), ro(tk)),
            Or(ro(tk), z3.Exists([k], And(DEFD(KIND(alg), params(c, alg), k), ro(z3.Concat(n, COLON, IMPLN(alg), COLON, k))))))}


def type_key_apart(n, impl, x):
    return z3.Concat(n, COLON, TYPE) != z3.Concat(n, COLON, impl, COLON, x)


@S.lemma('the key that names the implementation is none of the keys of the implementation')
def type_key(L):
    n, impl, x = z3.Strings('n impl x')
    yield 'no separator in the last part', Implies(TYPE == z3.Concat(impl, COLON, x), z3.Contains(TYPE, COLON))
    yield 'the last part has none', Not(z3.Contains(TYPE, COLON))
    e = z3.StringVal('')
    yield 'trimming nothing', Implies(And(CBS.edge_facts(e) + CBS.edge_facts(CBS.rtrim(e))), CBS.trim(e) == e)
    yield 'apart', Implies(z3.Concat(n, COLON, TYPE) == z3.Concat(n, COLON, impl, COLON, x), TYPE == z3.Concat(impl, COLON, x))


def get_axioms(c):
    tn, n, tk = names(c)
    impl = IMPLN(c.val(3 if c.decl['cls'] == ALG else 2))
    x = z3.String('x!ga')
    sub = lambda x: z3.Concat(n, COLON, impl, COLON, x)
    return cfg_axioms(c) + [TRIM(z3.StringVal('')) == z3.StringVal('')] + [forall([x], z3.Concat(n, COLON, TYPE) != sub(x), patterns=[FULL(cfg(c).ref, sub(x))])]


GM = lambda c: [c.pre.loc(OBJ(c, ROOT(cfg(c).ref)), x) for x in ('m_store', 'm_descr_store')]
get_req = lambda c: nested_req(c) + [('an existing algorithm', c.val(3 if c.decl['cls'] == ALG else 2) >= 0), ('entries and descriptions match', inv(Blk(c, 0, cfg(c))))]
S.fn(ALG + '::get_nested_algo_configuration', requires=get_req, axioms=get_axioms, allocates=True, modifies=GM, ensures=get_ens, throws=get_throws)
S.fn(DEF + '::get_nested_algo_configuration', requires=get_req, axioms=cfg_axioms, allocates=True, modifies=GM, ensures=get_ens, throws=get_throws)


@S.lemma('a nested algorithm written into a configuration is built from it again')
def round_trip(L):
    st = map_sort(STR, STR)
    s = z3.Const('store', st)
    kd, par, r, kr, pr, item = z3.Ints('kind parameters result kind_of_result parameters_of_result kind_of_item')
    n, impl, tn, k = z3.Strings('name impl type k')
    cfgf = z3.Function('full key', STR, STR)
    p = cfgf(z3.Concat(n, COLON, impl, COLON))
    written = [has(s, cfgf(z3.Concat(n, COLON, TYPE))), sel(mval(s), cfgf(z3.Concat(n, COLON, TYPE))) == impl,
               z3.ForAll([k], Implies(DEFD(kd, par, k), And(has(s, z3.Concat(p, k)), sel(mval(s), z3.Concat(p, k)) == TEXT(kd, par, k))))]
    # what an implementation owes: from a block with the entries of its parameters it takes these parameters
    law = Implies(z3.ForAll([k], Implies(DEFD(kd, par, k), And(has(s, z3.Concat(p, k)), sel(mval(s), z3.Concat(p, k)) == TEXT(kd, par, k)))), built_f(st)(kd, s, p) == par)
    build = [kr == item, pr == built_f(st)(item, s, p), item == kd]
    yield 'same implementation, same parameters', Implies(And(written + [law] + build), And(kr == kd, pr == par))

