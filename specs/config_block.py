"""kwiver::vital::config_block: store, read-only marks, views, merge, typed access"""
from vcg.spec import *
from vcg.lib.core import CHAR

S = Spec(['vital/config/config_block.cxx', 'vital/config/config_block_exception.cxx', '/verif/inst/config_block.cpp'])
V = 'kwiver::vital::'
CB = V + 'config_block'
ISSP = z3.Function('isspace', INT, INT)
SEP = z3.StringVal(':')
GLOB = z3.StringVal('_global:')

ROOT = z3.Function('cb_root', INT, INT)          # the block a view finally refers to
FULL = z3.Function('cb_full_key', INT, STR, STR)  # the key of that block a key of the view stands for
UNFULL = z3.Function('cb_view_key', INT, STR, STR)   # its inverse
STRIP = z3.Function('strip_block', STR, STR, STR)


def ws(s, i):
    return ISSP(CHAR(s, i)) != 0


LEAD = z3.Function('first_nonspace', STR, INT)
TRAIL = z3.Function('end_nonspace', STR, INT)


def edge_facts(s):
    k = z3.Int('k!ef')
    n = z3.Length(s)
    return [And(0 <= LEAD(s), LEAD(s) <= n, Implies(LEAD(s) < n, Not(ws(s, LEAD(s))))),
            forall([k], Implies(And(0 <= k, k < LEAD(s)), ws(s, k)), patterns=[CHAR(s, k)]),
            And(0 <= TRAIL(s), TRAIL(s) <= n, Implies(TRAIL(s) > 0, Not(ws(s, TRAIL(s) - 1)))),
            forall([k], Implies(And(TRAIL(s) <= k, k < n), ws(s, k)), patterns=[CHAR(s, k)])]


def ltrim(s):
    return z3.SubString(s, LEAD(s), z3.Length(s) - LEAD(s))


def rtrim(s):
    return z3.SubString(s, 0, TRAIL(s))


def trim(s):
    return ltrim(rtrim(s))


TRIM = z3.Function('trimmed', STR, STR)           # abbreviation of trim()


def unfold(c, this, st=None):
    """definition of root and full key for one block: a block without parent is its own root, a view prepends its name and the separator"""
    k, k2 = z3.Strings('k!uf k2!uf')
    with c.X.at(st or c.pre.state()):
        p = c.X.fpath(this, ['m_parent'])
        n = c.X.fpath(this, ['m_name'])
        r = this.ref
        root = ROOT(r)
        ro = ObjLoc(root, this.ty)
        out = [root == If(p == 0, r, ROOT(p)), forall([k], FULL(r, k) == If(p == 0, k, FULL(p, z3.Concat(n, SEP, k))), patterns=[FULL(r, k)]),
               c.X.fpath(ro, ['m_parent']) == 0, ROOT(root) == root, forall([k], FULL(root, k) == k, patterns=[FULL(root, k)]),
               Implies(r >= 1, root >= 1), Implies(And(p != 0, r >= 1), p >= 1)]
        for x in (r, p):      # FULL(x, k) = prefix(x) + k, hence injective and ending in k
            out.append(forall([k], UNFULL(x, FULL(x, k)) == k, patterns=[FULL(x, k)]))
            out.append(forall([k], Implies(z3.PrefixOf(GLOB, k), z3.Contains(FULL(x, k), GLOB)), patterns=[FULL(x, k)]))
        return out


def root(c, this=None):
    this = this or c.this
    return ObjLoc(ROOT(this.ref), this.ty)


class Blk:
    """the entries of the block a handle refers to, in one state"""
    def __init__(self, c, post=False, this=None):
        sv = c.post if post else c.pre
        r = root(c, this)
        self.c = c
        self.ref = (this or c.this).ref
        self.store, self.descr, self.ro = sv.f(r, 'm_store'), sv.f(r, 'm_descr_store'), sv.f(r, 'm_ro_list')
        self.defs = sv.f(r, 'm_def_store')

    def full(self, k):
        return FULL(self.ref, k)

    def has(self, k):
        return z3.Select(mdom(self.store), self.full(k))

    def get(self, k):
        return z3.Select(mval(self.store), self.full(k))

    def hasd(self, k):
        return z3.Select(mdom(self.descr), self.full(k))

    def getd(self, k):
        return z3.Select(mval(self.descr), self.full(k))

    def readonly(self, k):
        return z3.Select(self.ro, self.full(k))


def inv(b):
    """every entry has a description and the other way round; stored values are trimmed"""
    k = z3.String('k!inv')
    v = z3.Select(mval(b.store), k)
    return And(forall([k], z3.Select(mdom(b.store), k) == z3.Select(mdom(b.descr), k), patterns=[z3.Select(mdom(b.store), k), z3.Select(mdom(b.descr), k)]),
               forall([k], Implies(z3.Select(mdom(b.store), k), TRIM(v) == v), patterns=[v]))


AX = lambda c: unfold(c, c.this)
INV = lambda c: [('entries and descriptions match', inv(Blk(c)))]


def put(m, k, v):
    return m.sort().constructor(0)(z3.Store(mdom(m), k, z3.BoolVal(True)), z3.Store(mval(m), k, v))


# ------------------------------------------------------------------ string helpers

AN = V + '(anonymous)::'


def trim_contract(q, f, more=lambda s: []):
    S.fn(q, prop='C01', ensures=lambda c: [('result', c.post.get(c.arg(0)) == f(c.val(0))), ('returns its argument', z3.BoolVal(c.result is c.arg(0)))],
         modifies=lambda c: [c.arg(0)], result_shape=lambda c: c.arg(0),
         axioms=lambda c: edge_facts(c.val(0)) + more(c.val(0)))


trim_contract(AN + 'ltrim', ltrim)
trim_contract(AN + 'rtrim', rtrim)
trim_contract(AN + 'trim', TRIM, lambda s: edge_facts(rtrim(s)) + [TRIM(s) == trim(s)])
S.fn(AN + 'starts_with', prop=['C01', 'C03'], value=lambda c: z3.PrefixOf(c.val(1), c.val(0)))


def begins(key, name):
    return Or(z3.PrefixOf(z3.Concat(name, SEP), key), z3.PrefixOf(GLOB, key))


S.fn(V + 'does_not_begin_with', prop='C03', value=lambda c: Not(begins(c.val(0), c.val(1))))


def strip_def(n, k):
    p = z3.Concat(n, SEP)
    return And(Implies(z3.PrefixOf(p, k), k == z3.Concat(n, SEP, STRIP(n, k))), Implies(Not(z3.PrefixOf(p, k)), STRIP(n, k) == k))


def strip_facts(c):
    n, k = z3.Strings('n!st k!st')
    return [forall([n, k], strip_def(n, k), patterns=[STRIP(n, k)])]


S.fn(V + 'strip_block_name', prop='C03', axioms=lambda c: [strip_def(c.val(0), c.val(1))], value=lambda c: STRIP(c.val(0), c.val(1)))

# ------------------------------------------------------------------ the store
PROPS = ['C01', 'C03']
S.fn(CB + '::has_value', prop=PROPS, axioms=AX, value=lambda c: Blk(c).has(c.val(0)))
S.fn(CB + '::i_get_value', prop=PROPS, axioms=AX, value=lambda c: If(Blk(c).has(c.val(0)), Blk(c).get(c.val(0)), z3.StringVal('')))
S.fn(CB + '::get_description', prop=PROPS, axioms=AX, throws=lambda c: {V + 'no_such_configuration_value_exception': Not(Blk(c).hasd(c.val(0)))},
     value=lambda c: Blk(c).getd(c.val(0)))
S.fn(CB + '::is_read_only', prop=['C02', 'C03'], axioms=AX, value=lambda c: Blk(c).readonly(c.val(0)))
S.fn(CB + '::mark_read_only', prop=['C02', 'C03'], axioms=AX, modifies=lambda c: [c.pre.loc(root(c), 'm_ro_list')],
     ensures=lambda c: [('exactly this key is added to the read-only keys', Blk(c, 1).ro == z3.Store(Blk(c).ro, Blk(c).full(c.val(0)), z3.BoolVal(True)))])


def found(c):
    b = Blk(c)
    return [('returns whether the key exists', c.result == b.has(c.val(0))),
            ('value of the key', Implies(c.result, c.post.get(c.arg(1)) == b.get(c.val(0)))),
            ('untouched otherwise', Implies(Not(c.result), c.post.get(c.arg(1)) == c.val(1)))]


S.fn(CB + '::find_value', prop=PROPS, axioms=AX, ensures=found, modifies=lambda c: [c.arg(1)])


def set_post(c):
    b, a = Blk(c), Blk(c, 1)
    k, v, d = b.full(c.val(0)), c.val(1), c.val(2)
    keep = And(b.hasd(c.val(0)), z3.Length(d) == 0)
    return [('the key holds the trimmed value, all other keys their old one', a.store == put(b.store, k, TRIM(v))),
            ('description replaced when given or new, kept otherwise', a.descr == If(keep, b.descr, put(b.descr, k, d))),
            ('every entry has a description', inv(a))]


RO = lambda name: (lambda c: {V + name: Blk(c).readonly(c.val(0))})
STORES = lambda c: [c.pre.loc(root(c), 'm_store'), c.pre.loc(root(c), 'm_descr_store')]


def unchanged(c):
    b, a = Blk(c), Blk(c, 1)
    return [('nothing changes when it fails', And(a.store == b.store, a.descr == b.descr, a.ro == b.ro))]


SETK = dict(prop=['C01', 'C02', 'C03'], axioms=AX, requires=INV, modifies=STORES, exc_ensures=unchanged)
S.fn(CB + '::i_set_value', ensures=set_post, throws=RO('set_on_read_only_value_exception'), **SETK)
isstr = lambda i: (lambda d: 'basic_string' in d['params'][i])
S.fn(CB + '::set_value', name='set_value<string>(key, value, description)', match=lambda d: len(d['params']) == 3 and isstr(1)(d), ensures=set_post,
     throws=RO('set_on_read_only_value_exception'), **SETK)


def unset_post(c):
    b, a = Blk(c), Blk(c, 1)
    k = b.full(c.val(0))
    drop = lambda m: m.sort().constructor(0)(z3.Store(mdom(m), k, z3.BoolVal(False)), mval(m))
    q = z3.String('q!up')
    return [('the key is gone', Not(z3.Select(mdom(a.store), k))), ('its description is gone', Not(z3.Select(mdom(a.descr), k))),
            ('all other keys keep value and description',
             z3.ForAll([q], Implies(q != k, And(z3.Select(mdom(a.store), q) == z3.Select(mdom(b.store), q), z3.Select(mval(a.store), q) == z3.Select(mval(b.store), q),
                                                z3.Select(mdom(a.descr), q) == z3.Select(mdom(b.descr), q), z3.Select(mval(a.descr), q) == z3.Select(mval(b.descr), q))))),
            ('every entry has a description', inv(a))]


S.fn(CB + '::unset_value', prop=['C01', 'C02', 'C03'], axioms=AX, requires=INV, exc_ensures=unchanged, ensures=unset_post,
     modifies=lambda c: STORES(c) + [c.pre.loc(root(c), 'm_def_store')],
     throws=lambda c: {V + 'unset_on_read_only_value_exception': Blk(c).readonly(c.val(0)),
                       V + 'no_such_configuration_value_exception': And(Not(Blk(c).readonly(c.val(0))), Not(Blk(c).has(c.val(0))))})
S.fn(CB + '::get_name', prop='C03', value=lambda c: c.pre.f(c.this, 'm_name'))

SETK['axioms'] = lambda c: unfold(c, c.this) + [TRIM(TRIM(c.val(1))) == TRIM(c.val(1))]     # lemma: trimming twice
for _c in S.contracts:
    if _c.q in (CB + '::i_set_value', CB + '::set_value'):
        _c.axioms = SETK['axioms']


@S.lemma('trimming twice is trimming once', prop='C01')
def trim_idem(L):
    s = z3.String('s')
    i = z3.Int('i')
    r = rtrim(s)
    t = z3.String('t')

    def sub(whole, part, off):
        return z3.ForAll([i], Implies(And(0 <= i, i < z3.Length(part)), CHAR(part, i) == CHAR(whole, off + i)), patterns=[CHAR(part, i)])
    rt = z3.String('rt')
    facts = edge_facts(s) + edge_facts(r) + [t == ltrim(r)] + edge_facts(t) + [rt == rtrim(t)] + edge_facts(rt) + [sub(s, r, z3.IntVal(0)), sub(r, t, LEAD(r)), sub(t, rt, z3.IntVal(0))]
    inside = LEAD(r) < z3.Length(r)
    yield 'only white space', Implies(And(facts + [Not(inside)]), z3.Length(t) == 0)
    yield 'last character stays', Implies(And(facts + [inside, CHAR(t, z3.Length(t) - 1) == CHAR(r, z3.Length(r) - 1), CHAR(r, z3.Length(r) - 1) == CHAR(s, TRAIL(s) - 1)]), TRAIL(t) == z3.Length(t))
    yield 'first character stays', Implies(And(facts + [inside, CHAR(t, 0) == CHAR(r, LEAD(r)), TRAIL(t) == z3.Length(t), rt == t]), LEAD(rt) == 0)
    yield 'identity on trimmed text', Implies(And(facts + [TRAIL(t) == z3.Length(t), rt == t, LEAD(rt) == 0]), ltrim(rt) == t)


# ------------------------------------------------------------------ key listing, sub-blocks, merging
AT = z3.Function('index_of_key', vec_sort(STR), STR, INT)


def noglob(b):
    """no key mentions the reserved block "_global" (views list such keys of the whole block; see known-findings)"""
    k = z3.String('k!ng')
    return forall([k], Implies(z3.Select(mdom(b.store), k), Not(z3.Contains(k, GLOB))), patterns=[z3.Select(mdom(b.store), k)])


def listing(c, b, v):
    """v lists exactly the keys of b, each once"""
    i, j, k = z3.Ints('i!ls j!ls')[0], z3.Ints('i!ls j!ls')[1], z3.String('k!ls')
    n = vlen(v)
    at = lambda x: z3.Select(varr(v), x)
    out = [('every listed key exists', And(n >= 0, forall([i], Implies(And(0 <= i, i < n), b.has(at(i))), patterns=[at(i)]))),
           ('no key is listed twice', forall([i, j], Implies(And(0 <= i, i < j, j < n), at(i) != at(j)), patterns=[z3.MultiPattern(at(i), at(j))]))]
    if c.verifying:
        out.append(('every key is listed', forall([k], Implies(b.has(k), exists_idx(n, lambda x: at(x) == k)))))
    else:
        hk = z3.Select(mdom(b.store), k)
        out.append(('every key is listed', forall([k], Implies(b.has(k), And(0 <= AT(v, k), AT(v, k) < n, at(AT(v, k)) == k)), patterns=[AT(v, k), b.has(k)])))
        out.append(('', forall([i], Implies(And(0 <= i, i < n), AT(v, at(i)) == i), patterns=[at(i)])))
    return out


S.fn(CB + '::available_values', prop=['C01', 'C03'], axioms=lambda c: AX(c) + strip_facts(c), requires=lambda c: [('no global keys', noglob(Blk(c)))],
     ensures=lambda c: listing(c, Blk(c), c.result),
     loops=lambda lc: av_loops(lc))


def av_loops(lc):
    X = lc.X
    store = Blk(lc.c).store
    for n, loc in lc.changed(sort=vec_sort(STR)):
        for pn, pos in lc.positions():
            i = z3.Int('i!av')

            def f(loc=loc, pos=pos):
                v = X.read(loc)
                return And(vlen(v) == pos(), forall([i], Implies(And(0 <= i, i < vlen(v)), z3.Select(varr(v), i) == set_key(mdom(store), i)), patterns=[z3.Select(varr(v), i)]))
            yield 'keys(%s,%s)' % (n, pn), f


OBJ = lambda c, r: ObjLoc(r, c.X.prog.ty(CB))
FRESHBLK = lambda c: [('has its own storage', And(c.post.f(OBJ(c, c.result), 'm_parent') == 0, ROOT(c.result) == c.result)),
                      ('carries the name', c.post.f(OBJ(c, c.result), 'm_name') == c.val(0))]


def emptied(c, r):
    b = Blk(c, 1, OBJ(c, r))
    k = z3.String('k!em')
    return [('no entries', z3.ForAll([k], And(Not(z3.Select(mdom(b.store), k)), Not(z3.Select(mdom(b.descr), k)), Not(z3.Select(b.ro, k)))))]


K0 = z3.String('k!vw')
PAX = lambda c: unfold(c, OBJ(c, c.result), c.post.state())
FIELDS = ['m_parent', 'm_name', 'm_store', 'm_descr_store', 'm_ro_list', 'm_def_store']


def ctor_post(c):
    k = z3.String('k!ct')
    b = c.post
    f = lambda n: b.f(c.this, n)
    return [('parent', f('m_parent') == c.val(1)), ('name', f('m_name') == c.val(0)),
            ('no entries', z3.ForAll([k], And(Not(z3.Select(mdom(f('m_store')), k)), Not(z3.Select(mdom(f('m_descr_store')), k)), Not(z3.Select(f('m_ro_list'), k)))))]


S.fn(CB + '::(ctor)', prop=['C01', 'C03'], match=nparams(2), modifies=lambda c: [c.pre.loc(c.this, n) for n in FIELDS], ensures=ctor_post,
     post_axioms=lambda c: unfold(c, c.this, c.post.state()))
S.fn(CB + '::empty_config', prop='C01', fresh_result=True, post_axioms=PAX, ensures=lambda c: FRESHBLK(c) + emptied(c, c.result))
S.fn(CB + '::subblock_view', prop='C03', axioms=AX, fresh_result=True, post_axioms=PAX,
     ensures=lambda c: [('refers to the same block', ROOT(c.result) == ROOT(c.this.ref)), ('prepends the prefix and the separator', z3.ForAll([K0], FULL(c.result, K0) == FULL(c.this.ref, z3.Concat(c.val(0), SEP, K0)), patterns=[FULL(c.result, K0)])),
                        ('carries the name', c.post.f(OBJ(c, c.result), 'm_name') == c.val(0))])


def sub_entries(c, a, b, pre, upto=None, v=None):
    """a holds exactly the entries of b below the prefix (those among the first `upto` listed keys of v)"""
    k = z3.String('k!sb')
    f = z3.Concat(pre, SEP, k)      # the key in this block
    inn = b.has(f) if upto is None else And(b.has(f), AT(v, f) < upto)
    has = z3.Select(mdom(a.store), k)
    return [('nothing else', forall([k], Implies(has, inn), patterns=[has])),
            ('every such entry', forall([k], Implies(inn, has), patterns=[has, FULL(b.ref, f)])),
            ('values', forall([k], Implies(inn, z3.Select(mval(a.store), k) == b.get(f)), patterns=[has, FULL(b.ref, f)])),
            ('descriptions', forall([k], Implies(inn, z3.Select(mval(a.descr), k) == b.getd(f)), patterns=[has, FULL(b.ref, f)])),
            ('nothing is read-only', forall([k], Not(z3.Select(a.ro, k)), patterns=[z3.Select(a.ro, k)])), ('well formed', inv(a))]


def sb_loops(lc):
    X, c = lc.X, lc.c
    for cn, cl in locals_of(lc, INT):
        for vn, vl in locals_of(lc, vec_sort(STR)):
            for pn, pos in lc.positions():
                for q in range(6):
                    def f(cl=cl, vl=vl, pos=pos, q=q):
                        a = Blk.__new__(Blk)
                        a.ref = X.read(cl)
                        o = OBJ(c, X.read(cl))
                        a.store, a.descr, a.ro = X.fpath(o, ['m_store']), X.fpath(o, ['m_descr_store']), X.fpath(o, ['m_ro_list'])
                        return sub_entries(c, a, Blk(c), c.val(0), pos(), X.read(vl))[q][1]
                    yield 'copied%d(%s,%s,%s)' % (q, cn, vn, pn), f


S.fn(CB + '::subblock', prop='C03', axioms=lambda c: AX(c) + strip_facts(c), requires=lambda c: [('no global keys', noglob(Blk(c)))] + INV(c), fresh_result=True, post_axioms=PAX,
     ensures=lambda c: FRESHBLK(c) + sub_entries(c, Blk(c, 1, OBJ(c, c.result)), Blk(c), c.val(0)),
     loops=sb_loops)

# ------------------------------------------------------------------ typed access
from vcg.lib import stream as ST
S.setup = ST.enable
LOWER = z3.Function('map<tolower>', STR, STR)
B_TRUE, B_FALSE = ('true', 'yes', '1'), ('false', 'no', '0')
TYPES = {'int': INT, 'double': REAL, 'bool': BOOL, 'std::basic_string<char>': STR}


def conv_ok(t, s):
    if TYPES[t] == BOOL:
        return Or([LOWER(s) == z3.StringVal(w) for w in B_TRUE + B_FALSE])
    return z3.BoolVal(True) if TYPES[t] == STR else ST.PARSES(t)(s)


def conv(t, s):
    if TYPES[t] == BOOL:
        return Or([LOWER(s) == z3.StringVal(w) for w in B_TRUE])
    return s if TYPES[t] == STR else ST.PARSED(t, TYPES[t])(s)


def rett(d):
    r = d['ret']
    return 'std::basic_string<char>' if 'basic_string' in r else r


for _t in TYPES:
    is_t = lambda d, t=_t: rett(d) == t
    short = 'string' if 'string' in _t else _t
    bad = V + 'bad_config_block_cast'
    if _t in ('bool', 'std::basic_string<char>'):
        S.fn(V + 'config_block_get_value_cast', name='config_block_get_value_cast<%s>' % short, prop='C05', match=is_t,
             throws=(lambda c, t=_t: {bad: Not(conv_ok(t, c.val(0)))}), value=lambda c, t=_t: conv(t, c.val(0)))
    else:
        S.fn(V + 'config_block_get_value_cast_default', name='config_block_get_value_cast_default<%s>' % short, prop='C05', match=is_t,
             throws=(lambda c, t=_t: {bad: Not(conv_ok(t, c.val(0)))}), value=lambda c, t=_t: conv(t, c.val(0)))
    S.fn(CB + '::get_value', name='get_value<%s>(key)' % short, prop=['C05', 'C01'] if short == 'string' else 'C05', axioms=AX, match=lambda d, m=is_t: len(d['params']) == 1 and m(d),
         throws=lambda c, t=_t: {V + 'no_such_configuration_value_exception': Not(Blk(c).has(c.val(0))),
                                 V + 'bad_config_block_cast_exception': And(Blk(c).has(c.val(0)), Not(conv_ok(t, Blk(c).get(c.val(0)))))},
         value=lambda c, t=_t: conv(t, Blk(c).get(c.val(0))))
    S.fn(CB + '::get_value', name='get_value<%s>(key, default)' % short, prop='C05', axioms=AX, match=lambda d, m=is_t: len(d['params']) == 2 and m(d),
         value=lambda c, t=_t: If(And(Blk(c).has(c.val(0)), conv_ok(t, Blk(c).get(c.val(0)))), conv(t, Blk(c).get(c.val(0))), c.val(1)))


def text_of(t, v):
    return If(v, z3.StringVal('true'), z3.StringVal('false')) if t == 'bool3' else v if TYPES.get(t) == STR else ST.FORMAT(t, TYPES[t])(v)


def set_post_t(t):
    def f(c):
        b, a = Blk(c), Blk(c, 1)
        k, v = b.full(c.val(0)), text_of(t, c.val(1))
        d = c.val(2) if len(c.args) > 2 else z3.StringVal('')
        keep = And(b.hasd(c.val(0)), z3.Length(d) == 0)
        return [('the key holds the text of the value, all other keys their old value', a.store == put(b.store, k, TRIM(v))),
                ('description replaced when given or new, kept otherwise', a.descr == If(keep, b.descr, put(b.descr, k, d))), ('well formed', inv(a))]
    return f


for _t, _n in (('int', 3), ('double', 3), ('int', 2), ('bool', 2), ('bool3', 3), ('std::basic_string<char>', 2)):
    base = _t.replace('3', '')

    def mt(d, t=base, n=_n):
        p = d['params']
        return len(p) == n and ('basic_string' in p[1] if TYPES[t] == STR else p[1].startswith('const %s &' % t) or p[1] == 'const %s&' % t)
    S.fn(CB + '::set_value', name='set_value<%s>(key, value%s)' % ('string' if 'string' in base else base, ', description' if _n == 3 else ''), prop=['C05', 'C02'], match=mt,
         axioms=lambda c, t=_t: unfold(c, c.this) + [TRIM(TRIM(text_of(t, c.val(1)))) == TRIM(text_of(t, c.val(1)))],
         requires=INV, modifies=STORES, exc_ensures=unchanged, ensures=set_post_t(_t), throws=RO('set_on_read_only_value_exception'))


@S.lemma('a written value is read back equal', prop='C05')
def round_trip(L):
    i = z3.Int('v')
    s = TRIM(ST.FORMAT('int', INT)(i))
    trusted = [ST.round_trip('int', INT, i), TRIM(ST.FORMAT('int', INT)(i)) == ST.FORMAT('int', INT)(i)]
    yield 'int', Implies(And(trusted), And(conv_ok('int', s), conv('int', s) == i))
    b = z3.Bool('b')
    one, zero = z3.StringVal('1'), z3.StringVal('0')
    lit = [TRIM(z3.StringVal(w)) == z3.StringVal(w) for w in B_TRUE + B_FALSE] + [LOWER(z3.StringVal(w)) == z3.StringVal(w) for w in B_TRUE + B_FALSE]
    s = TRIM(If(b, z3.StringVal('true'), z3.StringVal('false')))
    yield 'bool with description', Implies(And(lit), And(conv_ok('bool', s), conv('bool', s) == b))
    s = TRIM(ST.FORMAT('bool', BOOL)(b))
    yield 'bool', Implies(And(lit + [ST.FORMAT('bool', BOOL)(b) == If(b, one, zero)]), And(conv_ok('bool', s), conv('bool', s) == b))


# ------------------------------------------------------------------ merging
sel_ = z3.Select


def other(c):
    return ObjLoc(c.val(0), c.X.prog.ty(CB))


def merged(c, a, b, o, upto=None, v=None):
    """a = b overridden by the entries of o (by those among the first `upto` listed keys)"""
    k = z3.String('k!mg')
    inn = o.has(k) if upto is None else And(o.has(k), AT(v, k) < upto)
    f = FULL(b.ref, k)
    has, hasb = z3.Select(mdom(a.store), f), z3.Select(mdom(b.store), f)
    q = z3.String('q!mg')
    by = [] if c.verifying else [o.has(k)]
    return [('keys', forall([k], has == Or(hasb, inn), patterns=[has, FULL(b.ref, k)] + by)),
            ('values of the merged block', forall([k], Implies(inn, z3.Select(mval(a.store), f) == o.get(k)), patterns=[z3.Select(mval(a.store), f)] + by)),
            ('other values kept', forall([k], Implies(Not(inn), z3.Select(mval(a.store), f) == z3.Select(mval(b.store), f)), patterns=[z3.Select(mval(a.store), f)])),
            ('other descriptions kept', forall([k], Implies(Not(inn), z3.Select(mval(a.descr), f) == z3.Select(mval(b.descr), f)), patterns=[z3.Select(mval(a.descr), f)])),
            ('read-only keys keep value and description', forall([q], Implies(z3.Select(b.ro, q), And(z3.Select(mdom(a.store), q) == z3.Select(mdom(b.store), q), z3.Select(mval(a.store), q) == z3.Select(mval(b.store), q),
                                                                                                      z3.Select(mval(a.descr), q) == z3.Select(mval(b.descr), q))), patterns=[z3.Select(b.ro, q), z3.Select(mval(a.store), q)])),
            ('keys outside of the view keep value and description', forall([q], Or(q == FULL(b.ref, UNFULL(b.ref, q)), And(sel_(mdom(a.store), q) == sel_(mdom(b.store), q), sel_(mval(a.store), q) == sel_(mval(b.store), q), sel_(mval(a.descr), q) == sel_(mval(b.descr), q))),
                                                                          patterns=[sel_(mval(a.store), q), sel_(mdom(a.store), q)])),
            ('well formed', inv(a)), ('no read-only key was overridden', forall([k], Implies(inn, Not(z3.Select(b.ro, f))), patterns=[z3.Select(b.ro, f), FULL(b.ref, k)] + by))]


def mg_loops(lc):
    X, c = lc.X, lc.c
    for vn, vl in locals_of(lc, vec_sort(STR)):
        for pn, pos in lc.positions():
            for q in range(8):
                def f(vl=vl, pos=pos, q=q):
                    a, b = Blk(c), Blk(c)
                    r = root(c)
                    a.store, a.descr, a.ro = X.fpath(r, ['m_store']), X.fpath(r, ['m_descr_store']), X.fpath(r, ['m_ro_list'])
                    return merged(c, a, b, Blk(c, this=other(c)), pos(), X.read(vl))[q][1]
                yield 'merged%d(%s,%s)' % (q, vn, pn), f


def mg_throws(c):
    k = z3.String('k!mt')
    return {V + 'set_on_read_only_value_exception': z3.Exists([k], And(Blk(c, this=other(c)).has(k), Blk(c).readonly(k)))}


S.fn(CB + '::merge_config', prop=['C04', 'C02'], axioms=lambda c: unfold(c, c.this) + unfold(c, other(c)), modifies=STORES,
     requires=lambda c: [('the argument is a block', c.val(0) >= 1 if c.verifying else c.val(0) != 0), ('different blocks', ROOT(c.val(0)) != ROOT(c.this.ref)), ('no global keys', noglob(Blk(c, this=other(c))))] + INV(c) + [('argument well formed', inv(Blk(c, this=other(c))))],
     ensures=lambda c: merged(c, Blk(c, 1), Blk(c), Blk(c, this=other(c))),
     exc_ensures=lambda c: [merged(c, Blk(c, 1), Blk(c), Blk(c, this=other(c)))[4], ('the read-only marks stay', Blk(c, 1).ro == Blk(c).ro)],
     throws=mg_throws, loops=mg_loops)
