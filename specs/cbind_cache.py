"""SharedPointerCache: C handles resolve to the object they were made for"""
from vcg.spec import *

S = Spec(['/verif/inst/cbind.cpp'], props=['C22'])
EX = 'kwiver::vital_c::SharedPointerCache<verif_thing, verif_handle>::'
C = 'kwiver::vital_c::SharedPointerCache'


def cache(c, post=False):
    return (c.post if post else c.pre).f(c.this, 'cache_')


def refs(c, post=False):
    return (c.post if post else c.pre).f(c.this, 'ref_count_cache_')


def inv(m, r):
    """an entry maps a pointer to a holder of that pointer and has a positive count; there are no counts without entry"""
    k = z3.Int('k!inv')
    return forall([k], And(z3.Select(mdom(m), k) == z3.Select(mdom(r), k), Implies(z3.Select(mdom(m), k), And(z3.Select(mval(m), k) == k, z3.Select(mval(r), k) >= 1, k != 0))),
                  patterns=[z3.Select(mdom(m), k)], )


def ok(c, post=False):
    return inv(cache(c, post), refs(c, post))


def live(m, k):
    return z3.Select(mdom(m), k)


def count(c, k, post=False):
    """number of times the handle was given out and not yet destroyed"""
    return If(live(cache(c, post), k), z3.Select(mval(refs(c, post)), k), 0)


def others(c, p):
    k = z3.Int('k!oth')
    return forall([k], Implies(k != p, And(count(c, k, True) == count(c, k), live(cache(c, True), k) == live(cache(c), k),
                                           Implies(live(cache(c), k), z3.Select(mval(cache(c, True)), k) == z3.Select(mval(cache(c)), k)))), patterns=[live(cache(c, True), k)])


NUL = lambda c: c.val(0) == 0
mod = lambda c: [c.pre.loc(c.this, 'cache_'), c.pre.loc(c.this, 'ref_count_cache_')]
req = lambda c: [('cache consistent', ok(c))]

S.fn(C + '::store', requires=lambda c: req(c) + [('fewer than 2^64 - 1 references to one object', count(c, c.val(0)) < 2**64 - 1)], throws=lambda c: {EX + 'NullPointerException': NUL(c)}, modifies=mod,
     ensures=lambda c: [('one reference more', count(c, c.val(0), True) == count(c, c.val(0)) + 1), ('the handle resolves to the object', z3.Select(mval(cache(c, True)), c.val(0)) == c.val(0)),
                        ('other handles untouched', others(c, c.val(0))), ('cache consistent', ok(c, True))],
     exc_ensures=lambda c: [('nothing changed', And(cache(c, True) == cache(c), refs(c, True) == refs(c)))])
S.fn(C + '::get', requires=req, throws=lambda c: {EX + 'NullPointerException': NUL(c), EX + 'NoEntryException': And(Not(NUL(c)), Not(live(cache(c), c.val(0))))},
     ensures=lambda c: [('the object of the handle', c.result == c.val(0))])
S.fn(C + '::erase', requires=req, throws=lambda c: {EX + 'NullPointerException': NUL(c)}, modifies=mod,
     ensures=lambda c: [('one reference less', count(c, c.val(0), True) == If(count(c, c.val(0)) > 0, count(c, c.val(0)) - 1, 0)),
                        ('the entry goes with the last reference', live(cache(c, True), c.val(0)) == (count(c, c.val(0)) > 1)),
                        ('other handles untouched', others(c, c.val(0))), ('cache consistent', ok(c, True))],
     exc_ensures=lambda c: [('nothing changed', And(cache(c, True) == cache(c), refs(c, True) == refs(c)))])
