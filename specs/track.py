"""kwiver::vital::track: a frame ordered history"""
from vcg.spec import *

S = Spec(['vital/types/track.cxx'], props=['C12'])
T = 'kwiver::vital::track'
TS = T + '::track_state'


def hist(c, loc, post=False):
    return (c.post if post else c.pre).f(loc, 'history_')


def rec(v, i):
    """frame_id of a track_state value"""
    return acc(v.sort(), 0, v)


def fid(h, i):
    return rec(z3.Select(varr(h), i), 0)


def ordered(h):
    i, j = z3.Ints('i!or j!or')
    return z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < vlen(h)), fid(h, i) < fid(h, j)),
                     patterns=[z3.MultiPattern(z3.Select(varr(h), i), z3.Select(varr(h), j))])


def inv(h):
    return And(vlen(h) >= 0, ordered(h))


def first(h):
    return If(vlen(h) == 0, 0, fid(h, 0))


def last(h):
    return If(vlen(h) == 0, 0, fid(h, vlen(h) - 1))


def same_prefix(h, h0, n):
    return forall_idx(n, lambda i: z3.Select(varr(h), i) == z3.Select(varr(h0), i), patterns=lambda i: [z3.Select(varr(h), i)])


S.fn(T + '::first_frame', value=lambda c: first(hist(c, c.this)))
S.fn(T + '::last_frame', value=lambda c: last(hist(c, c.this)))
S.fn(T + '::size', value=lambda c: vlen(hist(c, c.this)))
S.fn(T + '::empty', value=lambda c: vlen(hist(c, c.this)) == 0)
S.fn(T + '::id', value=lambda c: c.pre.f(c.this, 'id_'))
S.fn(T + '::set_id', ensures=lambda c: [('id stored', c.post.f(c.this, 'id_') == c.val(0))], modifies=lambda c: [c.pre.loc(c.this, 'id_')])
S.fn(T + '::(ctor)', match=nparams(0), name=T + '::track()',
     ensures=lambda c: [('no states', vlen(hist(c, c.this, 1)) == 0), ('id 0', c.post.f(c.this, 'id_') == 0), ('ordered', inv(hist(c, c.this, 1)))])
S.fn(T + '::(ctor)', match=lambda d: len(d['params']) == 1 and 'track_state' in d['params'][0], name=T + '::track(state)',
     ensures=lambda c: [('one state', And(vlen(hist(c, c.this, 1)) == 1, z3.Select(varr(hist(c, c.this, 1)), 0) == c.val(0))),
                        ('id 0', c.post.f(c.this, 'id_') == 0), ('ordered', inv(hist(c, c.this, 1)))])
S.fn(T + '::(ctor)', match=lambda d: bool(d.get('copy')), name=T + '::track(track const&)',
     requires=lambda c: [('source ordered', inv(hist(c, c.arg(0))))],
     ensures=lambda c: [('history copied', And(vlen(hist(c, c.this, 1)) == vlen(hist(c, c.arg(0))), same_prefix(hist(c, c.this, 1), hist(c, c.arg(0)), vlen(hist(c, c.arg(0)))))),
                        ('id copied', c.post.f(c.this, 'id_') == c.pre.f(c.arg(0), 'id_')), ('ordered', inv(hist(c, c.this, 1)))])


def app_state(c):
    h0, h1 = hist(c, c.this), hist(c, c.this, True)
    s = c.val(0)
    ok = Or(vlen(h0) == 0, last(h0) < rec(s, 0))
    return [('accepted exactly when the frame is later than the last one', c.result == ok),
            ('accepted: one state more', Implies(ok, vlen(h1) == vlen(h0) + 1)),
            ('accepted: the new last state is the argument', Implies(ok, z3.Select(varr(h1), vlen(h0)) == s)),
            ('rejected: length kept', Implies(Not(ok), vlen(h1) == vlen(h0))),
            ('earlier states kept', same_prefix(h1, h0, vlen(h0))),
            ('history stays ordered', inv(h1))]


S.fn(T + '::append', match=lambda d: 'track_state' in d['params'][0], name=T + '::append(state)',
     requires=lambda c: [('history ordered', inv(hist(c, c.this)))], ensures=app_state, modifies=lambda c: [c.pre.loc(c.this, 'history_')])


def app_track(c):
    h0, h1, o = hist(c, c.this), hist(c, c.this, True), hist(c, c.arg(0))
    ok = Or(vlen(h0) == 0, vlen(o) == 0, last(h0) < fid(o, 0))
    return [('accepted exactly when the other track starts after the last frame', c.result == ok),
            ('accepted: lengths add up', Implies(ok, vlen(h1) == vlen(h0) + vlen(o))),
            ('accepted: the other history follows', Implies(ok, forall_idx(vlen(o), lambda i: z3.Select(varr(h1), vlen(h0) + i) == z3.Select(varr(o), i)))),
            ('rejected: length kept', Implies(Not(ok), vlen(h1) == vlen(h0))),
            ('earlier states kept', same_prefix(h1, h0, vlen(h0))),
            ('history stays ordered', inv(h1))]


S.fn(T + '::append', match=lambda d: 'track_state' not in d['params'][0], name=T + '::append(track)',
     requires=lambda c: [('history ordered', inv(hist(c, c.this))), ('other history ordered', inv(hist(c, c.arg(0))))],
     ensures=app_track, modifies=lambda c: [c.pre.loc(c.this, 'history_')])


def find_post(c):
    h = hist(c, c.this)
    i = c.result.idx
    f = c.val(0)
    return [('iterator within the history', And(0 <= i, i <= vlen(h))),
            ('points at the requested frame', Implies(i < vlen(h), fid(h, i) == f)),
            ('end only when no state has that frame', Implies(i == vlen(h), forall_idx(vlen(h), lambda j: fid(h, j) != f, patterns=lambda j: [z3.Select(varr(h), j)])))]


S.fn(T + '::find', requires=lambda c: [('history ordered', inv(hist(c, c.this)))], ensures=find_post,
     result_shape=lambda c: Iter(c.pre.loc(c.this, 'history_'), c.fresh('found', INT), 'vec'))


def frames_of(s, h, n):
    """s is the set of the frame numbers of the first n states of h"""
    k = z3.Int('k!fr')
    return And(forall_idx(n, lambda i: z3.Select(s, fid(h, i)), patterns=lambda i: [z3.Select(varr(h), i)]),
               z3.ForAll([k], Implies(z3.Select(s, k), exists_idx(n, lambda i: fid(h, i) == k)), patterns=[z3.Select(s, k)]))


def set_loops(lc):
    h = lambda: lc.X.fpath(lc.c.this, ['history_'])
    for n, loc in lc.changed(sort=z3.ArraySort(INT, BOOL)):
        for pn, pos in lc.positions():
            yield 'frames(%s,%s)' % (n, pn), lambda loc=loc, pos=pos: frames_of(lc.X.read(loc), h(), pos())


S.fn(T + '::all_frame_ids', ensures=lambda c: [('exactly the frames of the history', frames_of(c.result, hist(c, c.this), vlen(hist(c, c.this))))], loops=set_loops)
