"""kwiver::vital::track_set: queries over a set of tracks"""
from vcg.spec import *
from . import track as T_

S = Spec(['vital/types/track_set.cxx', 'vital/types/track.cxx'], props=['C13'])
V = 'kwiver::vital::'
TS = V + 'track_set'
TRK = V + 'track'
VS = vec_sort(INT)                       # vector of pointers

# ---- the contracts of track used here (verified in specs/track.py, re-verified with this unit)
for c in T_.S.contracts:
    S.contracts.append(c)


def trk(c_or_X, this):
    """the tracks of the set: what its pure virtual tracks() returns"""
    f = z3.Function('tracks_of', INT, VS)
    return f(this.ref)


def wf_tracks(c, v):
    """no null pointers, histories ordered, frame numbers not negative"""
    i, j = z3.Ints('i!wt j!wt')
    h = hist(c.X, c.pre.state(), z3.Select(varr(v), i))
    return And(vlen(v) >= 0, vlen(v) < (1 << 32),
               z3.ForAll([i], Implies(And(0 <= i, i < vlen(v)), And(z3.Select(varr(v), i) >= 1, T_.inv(h))), patterns=[z3.Select(varr(v), i)]),
               z3.ForAll([i, j], Implies(And(0 <= i, i < vlen(v), 0 <= j, j < vlen(h)), And(T_.fid(h, j) >= 0, T_.fid(h, j) < (1 << 62))), patterns=[z3.Select(varr(h), j)]))


def hist(X, st, ref):
    with X.at(st):
        return X.fpath(X.obj(ref, TRK), ['history_'])


def tid(X, st, ref):
    with X.at(st):
        return X.fpath(X.obj(ref, TRK), ['id_'])


class Env:
    def __init__(self, c, st=None):
        self.c, self.X = c, c.X
        self.st = st or c.pre.state()
        self.v = trk(c, c.this)
        self.n = vlen(self.v)

    def t(self, i):
        return z3.Select(varr(self.v), i)

    def h(self, i):
        return hist(self.X, self.st, self.t(i))

    def id(self, i):
        return tid(self.X, self.st, self.t(i))


HS = None


def has(h, f):
    """history h has a state with frame number f"""
    fn = z3.Function('has_frame', h.sort(), INT, BOOL)
    return fn(h, f)


def state_at(h, f):
    """the index of that state"""
    fn = z3.Function('state_at', h.sort(), INT, INT)
    return fn(h, f)


def has_def(c):
    """definition of has / state_at"""
    with c.X.at(c.pre.state()):
        hs = c.X.sort(c.X.prog.ty(c.X.prog.field_type(TRK, 'history_')))
    h, f, j = z3.Const('h!hd', hs), z3.Int('f!hd'), z3.Int('j!hd')
    s = state_at(h, f)
    return [z3.ForAll([h, f], Implies(has(h, f), And(0 <= s, s < vlen(h), T_.fid(h, s) == f)), patterns=[has(h, f)]),
            z3.ForAll([h, f, j], Implies(And(0 <= j, j < vlen(h), T_.fid(h, j) == f), has(h, f)), patterns=[z3.MultiPattern(has(h, f), z3.Select(varr(h), j))])]


# ---- counting: cnt(i) = number of tracks below i that satisfy P; defined by recursion
def counter(name, P, extra=()):
    """facts defining a counting function over 0..n, and its monotonicity (a lemma, proved once below)"""
    f = z3.Function('cnt_' + name, *[x.sort() for x in extra], INT, INT)
    g = lambda i: f(*extra, i)
    i, j = z3.Ints('i!ct j!ct')
    facts = [g(z3.IntVal(0)) == 0,
             z3.ForAll([i], Implies(i >= 0, g(i + 1) == g(i) + If(P(i), 1, 0)), patterns=[g(i + 1)]),
             z3.ForAll([i], Implies(i >= 0, And(g(i) >= 0, g(i) <= i)), patterns=[g(i)]),
             z3.ForAll([i, j], Implies(And(0 <= i, i < j, P(i)), g(i) < g(j)), patterns=[z3.MultiPattern(g(i), g(j))])]
    return g, facts


@S.lemma('counting is monotone (induction)')
def count_mono(L):
    P = z3.Function('P', INT, BOOL)
    g, facts = counter('lemma', lambda i: P(i))
    i, j = z3.Ints('i j')
    base = facts[:2]
    yield 'base: 0 <= cnt(0) <= 0', Implies(And(base), And(g(z3.IntVal(0)) >= 0, g(z3.IntVal(0)) <= 0))
    yield 'step: bounds', Implies(And(base + [i >= 0, g(i) >= 0, g(i) <= i, g(i + 1) == g(i) + If(P(i), 1, 0)]), And(g(i + 1) >= 0, g(i + 1) <= i + 1))
    yield 'base: cnt(i) < cnt(i+1) when P(i)', Implies(And(base + [i >= 0, P(i), g(i + 1) == g(i) + If(P(i), 1, 0)]), g(i) < g(i + 1))
    yield 'step: cnt(i) < cnt(j) implies cnt(i) < cnt(j+1)', Implies(And(base + [0 <= i, i < j, P(i), g(i) < g(j), g(j + 1) == g(j) + If(P(j), 1, 0)]), g(i) < g(j + 1))


# ---- sources of the set
S.fn(TS + '::tracks', trusted=True, value=lambda c: trk(c, c.this), axioms=lambda c: [vlen(trk(c, c.this)) >= 0],
     note='pure virtual; tracks() of one set returns the same vector of non-null pointers whenever it is called')
S.fn(V + 'simple_track_set::tracks', ensures=lambda c: [('the stored tracks', c.X.eqv(c.result, c.pre.f(c.this, 'data_'), c.X.prog.ty(c.decl['ret'])))])
S.fn(V + 'simple_track_set::size', value=lambda c: vlen(c.pre.f(c.this, 'data_')))
S.fn(V + 'simple_track_set::(ctor)', match=lambda d: len(d['params']) == 1 and not d.get('copy') and not d.get('move'), name=V + 'simple_track_set(tracks)',
     ensures=lambda c: [('tracks stored', c.X.eqv(c.post.f(c.this, 'data_'), c.val(0), c.this.ty))], inline=True)

REQ = lambda c: [('tracks well formed', wf_tracks(c, trk(c, c.this)))]
AX = lambda c: has_def(c)
S.fn(TS + '::size', value=lambda c: vlen(trk(c, c.this)))
S.fn(TS + '::empty', value=lambda c: vlen(trk(c, c.this)) == 0)


def union_inv(c, s, n, has_k):
    """s = { k | exists i<n: has_k(i, k) }"""
    i, k = z3.Ints('i!un k!un')
    E = Env(c)
    return And(z3.ForAll([i, k], Implies(And(0 <= i, i < n, has_k(i, k)), z3.Select(s, k)), patterns=[has_k(i, k)] if z3.is_app(has_k(i, k)) else None),
               z3.ForAll([k], Implies(z3.Select(s, k), exists_idx(n, lambda i: has_k(i, k))), patterns=[z3.Select(s, k)]))


def set_of_frames(c, s, n):
    E = Env(c)
    return union_inv(c, s, n, lambda i, k: has(E.h(i), k))


def set_of_ids(c, s, n):
    E = Env(c)
    k = z3.Int('k!si')
    return And(forall_idx(n, lambda i: z3.Select(s, E.id(i)), patterns=lambda i: [E.t(i)]),
               z3.ForAll([k], Implies(z3.Select(s, k), exists_idx(n, lambda i: E.id(i) == k)), patterns=[z3.Select(s, k)]))


def set_inv(f):
    def loops(lc):
        for n, loc in lc.changed(sort=z3.ArraySort(INT, BOOL)):
            for pn, pos in lc.positions():
                yield 'set(%s,%s)' % (n, pn), lambda loc=loc, pos=pos: f(lc.c, lc.X.read(loc), pos())
    return loops


S.fn(TS + '::all_frame_ids', requires=REQ, axioms=AX, loops=set_inv(set_of_frames),
     ensures=lambda c: [('exactly the frames of the tracks', set_of_frames(c, c.result, Env(c).n))])
S.fn(TS + '::all_track_ids', requires=REQ, axioms=AX, loops=set_inv(set_of_ids),
     ensures=lambda c: [('exactly the ids of the tracks', set_of_ids(c, c.result, Env(c).n))])


# ---- first / last frame
def max_inv(c, v, n):
    E = Env(c)
    return And(v >= 0, v < (1 << 62), forall_idx(n, lambda i: T_.last(E.h(i)) <= v, patterns=lambda i: [E.t(i)]),
               Or(v == 0, exists_idx(n, lambda i: And(vlen(E.h(i)) > 0, T_.last(E.h(i)) == v))))


def last_loops(lc):
    for n, loc in lc.changed(sort=INT):
        for pn, pos in lc.positions():
            if pn != n:
                yield 'max(%s,%s)' % (n, pn), lambda loc=loc, pos=pos: max_inv(lc.c, lc.X.read(loc), pos())


def lastf(c):
    f = z3.Function('last_frame_of', INT, INT)
    return f(c.this.ref)


def lastf_def(c):
    """lastf is the largest frame number of the (finitely many) states, 0 if there are none"""
    return [max_inv(c, lastf(c), Env(c).n)] + has_def(c)


S.fn(TS + '::last_frame', requires=REQ, axioms=lastf_def, loops=last_loops,
     ensures=lambda c: [('largest frame number, 0 for a set without states', max_inv(c, c.result, Env(c).n)), ('a function of the set', c.result == lastf(c))])


def min_inv(c, v, found, n):
    E = Env(c)
    return And(v >= 0, forall_idx(n, lambda i: Implies(vlen(E.h(i)) > 0, And(found, v <= T_.first(E.h(i)))), patterns=lambda i: [E.t(i)]),
               If(found, exists_idx(n, lambda i: And(vlen(E.h(i)) > 0, T_.first(E.h(i)) == v)), v == 0))


def first_loops(lc):
    for n, loc in lc.changed(sort=INT):
        for pn, pos in lc.positions():
            if pn != n:
                for bn, b in lc.changed(sort=BOOL):
                    yield 'min(%s,%s,%s)' % (n, bn, pn), lambda loc=loc, pos=pos, b=b: min_inv(lc.c, lc.X.read(loc), lc.X.read(b), pos())


S.fn(TS + '::first_frame', requires=REQ, axioms=AX, loops=first_loops,
     ensures=lambda c: [('smallest frame number, 0 for a set without states',
                         min_inv(c, c.result, exists_idx(Env(c).n, lambda i: vlen(Env(c).h(i)) > 0), Env(c).n))])


# ---- get_track
def get_loops(lc):
    E = Env(lc.c)
    for pn, pos in lc.positions():
        yield 'no match before %s' % pn, lambda pos=pos: forall_idx(pos(), lambda i: E.id(i) != lc.c.val(0), patterns=lambda i: [E.t(i)])


def get_post(c):
    E = Env(c)
    return [('the first track with that id', Implies(c.result != 0, exists_idx(E.n, lambda i: And(E.t(i) == c.result, E.id(i) == c.val(0),
                                                     forall_idx(i, lambda j: E.id(j) != c.val(0), name='j!g'))))),
            ('null only when no track has the id', Implies(c.result == 0, forall_idx(E.n, lambda i: E.id(i) != c.val(0), patterns=lambda i: [E.t(i)])))]


S.fn(TS + '::get_track', requires=REQ, axioms=AX, loops=get_loops, ensures=get_post)


# ---- offsets
def off(c, o):
    """the frame an offset stands for: absolute, or counted back from one past the last frame"""
    f = z3.Function('offset_frame', INT, INT, INT)
    return f(c.this.ref, o)


def off_def(c, *os):
    lf = lastf(c)
    return lastf_def(c) + [off(c, o) == If(o >= 0, o, If(-o <= lf + 1, lf + 1 + o, lf + 1)) for o in os]


S.fn(TS + '::offset_to_frame', requires=lambda c: REQ(c) + [('offset is not the most negative integer', c.val(0) > -(1 << 63))],
     axioms=lambda c: off_def(c, c.val(0)), ensures=lambda c: [('absolute frame, or counted back from one past the last frame', c.result == off(c, c.val(0)))])


# ---- selections: the result is the ordered subsequence of the tracks that satisfy P
def selection(c, r, n, g, P, elem):
    E = Env(c)
    return And(vlen(r) == g(n), forall_idx(n, lambda i: Implies(P(i), z3.Select(varr(r), g(i)) == elem(i)), patterns=lambda i: [E.t(i)]))


def select_contract(q, prop, P, result_data, elem=None, name='sel', target=None):
    """P(E, i, frame); result_data(c) -> vector of the result object"""
    def parts(c):
        E = Env(c)
        f = target(c) if target else off(c, c.val(0))
        PP = lambda i: P(E, i, f)
        g, facts = counter(name, PP, (c.this.ref, f))
        el = (lambda i: elem(E, i, f)) if elem else E.t
        return E, f, PP, g, facts, el

    def ax(c):
        E, f, PP, g, facts, el = parts(c)
        return (lastf_def(c) if target else off_def(c, c.val(0))) + facts

    def loops(lc):
        E, f, PP, g, facts, el = parts(lc.c)
        for n, loc in lc.changed():
            try:
                v = lc.X.read_raw(loc)
            except Unsupported:
                continue
            if not (isinstance(v, z3.ExprRef) and v.sort() == VS):
                continue
            for pn, pos in lc.positions():
                yield 'selection(%s,%s)' % (n, pn), lambda loc=loc, pos=pos: selection(lc.c, lc.X.read(loc), pos(), g, PP, el)

    def ens(c):
        E, f, PP, g, facts, el = parts(c)
        r = result_data(c)
        return [('result is not null', c.result != 0),
                ('exactly the selected tracks, in order', selection(c, r, E.n, g, PP, el))]
    req = REQ
    if not target:
        req = lambda c: REQ(c) + [('offset is not the most negative integer', c.val(0) > -(1 << 63))]
    S.fn(TS + '::' + q, requires=req, axioms=ax, loops=loops, ensures=ens, allocates=True)


TRACKS = lambda c: c.post.f(c.X.obj(c.result, V + 'simple_track_set'), 'data_')
FEATS = lambda c: c.post.f(c.X.obj(c.result, V + 'simple_feature_set'), 'data_')
DESCS = lambda c: c.post.f(c.X.obj(c.result, V + 'simple_descriptor_set'), 'data_')

select_contract('active_tracks', None, lambda E, i, f: has(E.h(i), f), TRACKS, name='active')
select_contract('inactive_tracks', None, lambda E, i, f: Not(has(E.h(i), f)), TRACKS, name='inactive')
select_contract('new_tracks', None, lambda E, i, f: And(vlen(E.h(i)) > 0, T_.first(E.h(i)) == f), TRACKS, name='new')
select_contract('terminated_tracks', None, lambda E, i, f: And(vlen(E.h(i)) > 0, T_.last(E.h(i)) == f), TRACKS, name='term')
st_f = lambda E, i, f: acc(E.h(i).sort().accessor(0, 1).range().range(), 1, z3.Select(varr(E.h(i)), state_at(E.h(i), f)))
st_d = lambda E, i, f: acc(E.h(i).sort().accessor(0, 1).range().range(), 2, z3.Select(varr(E.h(i)), state_at(E.h(i), f)))
select_contract('frame_features', None, lambda E, i, f: has(E.h(i), f), FEATS, elem=st_f, name='active')
select_contract('frame_descriptors', None, lambda E, i, f: has(E.h(i), f), DESCS, elem=st_d, name='active')


le_f = lambda E, i, f: acc(E.h(i).sort().accessor(0, 1).range().range(), 1, z3.Select(varr(E.h(i)), vlen(E.h(i)) - 1))
le_d = lambda E, i, f: acc(E.h(i).sort().accessor(0, 1).range().range(), 2, z3.Select(varr(E.h(i)), vlen(E.h(i)) - 1))
select_contract('last_frame_features', None, lambda E, i, f: And(vlen(E.h(i)) > 0, T_.last(E.h(i)) == f), FEATS, elem=le_f, name='term', target=lastf)
select_contract('last_frame_descriptors', None, lambda E, i, f: And(vlen(E.h(i)) > 0, T_.last(E.h(i)) == f), DESCS, elem=le_d, name='term', target=lastf)


# ---- percentage tracked
def pct(c):
    E = Env(c)
    f1, f2 = off(c, c.val(0)), off(c, c.val(1))
    any_, fa = counter('any', lambda i: Or(has(E.h(i), f1), has(E.h(i), f2)), (c.this.ref, f1, f2))
    both, fb = counter('both', lambda i: And(has(E.h(i), f1), has(E.h(i), f2)), (c.this.ref, f1, f2))
    return E, any_, both, fa + fb


def pct_loops(lc):
    E, any_, both, _ = pct(lc.c)
    for n, loc in lc.changed(sort=INT):
        for pn, pos in lc.positions():
            if pn != n:
                yield 'any(%s,%s)' % (n, pn), lambda loc=loc, pos=pos: lc.X.read(loc) == any_(pos())
                yield 'both(%s,%s)' % (n, pn), lambda loc=loc, pos=pos: lc.X.read(loc) == both(pos())
                yield 'both<=any(%s)' % pn, lambda loc=loc, pos=pos: both(pos()) <= any_(pos())


def pct_post(c):
    E, any_, both, _ = pct(c)
    a, b = any_(E.n), both(E.n)
    return [('tracks on both frames over tracks on either frame, 0 when there are none', If(a == 0, c.result == 0, c.result * z3.ToReal(a) == z3.ToReal(b))),
            ('between 0 and 1', And(c.result >= 0, c.result <= 1))]


S.fn(TS + '::percentage_tracked', requires=lambda c: REQ(c) + [('offsets are not the most negative integer', And(c.val(0) > -(1 << 63), c.val(1) > -(1 << 63)))],
     axioms=lambda c: off_def(c, c.val(0), c.val(1)) + pct(c)[3], loops=pct_loops, ensures=pct_post)
