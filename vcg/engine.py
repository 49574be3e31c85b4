"""Verification-condition generation by forward symbolic execution.

One function at a time is executed symbolically from an arbitrary state that
satisfies its precondition.  Calls to functions under contract are replaced by
the contract; calls to repository functions without a contract are inlined
(their extracted bodies are executed); calls to library functions go to the
trusted models in vcg/lib.  Loops are cut at their head with invariants found
by Houdini filtering of candidate templates.  Paths are enumerated by replaying
decision scripts, so the evaluator itself is written in direct style.
"""
import os, sys, time, itertools
import traceback
import z3
from . import cpu
from fractions import Fraction

sys.setrecursionlimit(20000)

INT, BOOL, REAL, STR = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()


class Unsupported(Exception):
    """construct, type or library function outside the verifier's reach"""


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, ty, loc=None):
        self.ty = ty
        self.loc = loc


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, val):
        self.val = val


# --------------------------------------------------------------------------- locations
class Loc:
    ty = None


class VarLoc(Loc):
    def __init__(self, cid, ty):
        self.cid, self.ty = cid, ty

    def __repr__(self):
        return 'Var(%s)' % self.cid


class ObjLoc(Loc):
    """object of record type living in the heap (identity = ref)"""
    def __init__(self, ref, ty):
        self.ref, self.ty = ref, ty

    def __repr__(self):
        return 'Obj(%s:%s)' % (self.ref, self.ty.id if self.ty else '?')


class FieldLoc(Loc):
    def __init__(self, base, cls, name, ty):
        self.base, self.cls, self.name, self.ty = base, cls, name, ty

    def __repr__(self):
        return '%r.%s' % (self.base, self.name)


class ElemLoc(Loc):
    """element of a vector / C array / string stored at `base`"""
    def __init__(self, base, idx, ty, kind):
        self.base, self.idx, self.ty, self.kind = base, idx, ty, kind

    def __repr__(self):
        return '%r[%s]' % (self.base, self.idx)


class MapValLoc(Loc):
    def __init__(self, base, key, ty):
        self.base, self.key, self.ty = base, key, ty


class PairLoc(Loc):
    """pseudo location of a map entry: .first is a value, .second a location"""
    def __init__(self, first, second, ty):
        self.first, self.second, self.ty = first, second, ty


class MatElemLoc(Loc):
    def __init__(self, base, i, j, ty):
        self.base, self.i, self.j, self.ty = base, i, j, ty


class MatBlockLoc(Loc):
    def __init__(self, base, i, j, r, c, ty=None):
        self.base, self.i, self.j, self.r, self.c, self.ty = base, i, j, r, c, ty


class MemLoc(Loc):
    """scalar at a flat address"""
    def __init__(self, addr, ty):
        self.addr, self.ty = addr, ty


# --------------------------------------------------------------------------- python level values
class PtrTo:
    """pointer to a location that is not a heap object"""
    def __init__(self, loc):
        self.loc = loc


class Iter:
    def __init__(self, cont, idx, kind, key=None, rev=False, found=None):
        self.cont, self.idx, self.kind, self.key, self.rev, self.found = cont, idx, kind, key, rev, found

    def with_idx(self, idx):
        return Iter(self.cont, idx, self.kind, None, self.rev)


class Lambda:
    def __init__(self, fn, env, this):
        self.fn, self.env, self.this = fn, env, this


class FnRef:
    def __init__(self, key):
        self.key = key


class StrLit:
    def __init__(self, data):
        self.data = bytes(data)


class Opaque:
    """value of a type that carries no information for us (streams, loggers...)"""
    def __init__(self, what=''):
        self.what = what


class InitListVal:
    def __init__(self, items):
        self.items = items


class MatVal:
    """Eigen matrix value of static size, entries are Real/Int terms"""
    def __init__(self, rows):
        self.m = [list(r) for r in rows]
        self.r = len(self.m)
        self.c = len(self.m[0]) if self.m else 0

    @staticmethod
    def make(r, c, f):
        return MatVal([[f(i, j) for j in range(c)] for i in range(r)])


# --------------------------------------------------------------------------- helpers
def is_lit(t):
    return z3.is_true(t) or z3.is_false(t) or z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_string_value(t) or z3.is_bv_value(t)


_simp_cache = {}


def simp(t):
    return z3.simplify(t)


def And(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    return z3.And(*a) if len(a) != 1 else a[0]


def Or(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
    return z3.Or(*a) if len(a) != 1 else a[0]


Not, Implies, If = z3.Not, z3.Implies, z3.If

_dt_cache = {}


def datatype(name, fields):
    """single-constructor datatype; fields: [(name, sort)]"""
    if name in _dt_cache:
        return _dt_cache[name]
    d = z3.Datatype(name)
    d.declare('mk', *fields)
    s = d.create()
    _dt_cache[name] = s
    return s


def vec_sort(es):
    return datatype('Vec<%s>' % es.sexpr(), [('len', INT), ('arr', z3.ArraySort(INT, es))])


def map_sort(ks, vs):
    return datatype('Map<%s,%s>' % (ks.sexpr(), vs.sexpr()), [('dom', z3.ArraySort(ks, BOOL)), ('val', z3.ArraySort(ks, vs))])


def pair_sort(a, b):
    return datatype('Pair<%s,%s>' % (a.sexpr(), b.sexpr()), [('first', a), ('second', b)])


def mat_sort(r, c, es):
    return datatype('Mat<%s,%d,%d>' % (es.sexpr(), r, c), [('m_%d_%d' % (i, j), es) for i in range(r) for j in range(c)])


def acc(sort, i, t):
    """i-th accessor of the only constructor, applied with simplification"""
    if z3.is_app(t) and t.decl().eq(sort.constructor(0)):
        return t.arg(i)
    return sort.accessor(0, i)(t)


def acc_by_name(sort, name, t):
    for i in range(sort.constructor(0).arity()):
        if sort.accessor(0, i).name() == name:
            return acc(sort, i, t)
    raise Unsupported('no accessor ' + name)


def upd(sort, i, t, v):
    n = sort.constructor(0).arity()
    return sort.constructor(0)(*[v if k == i else acc(sort, k, t) for k in range(n)])


def vlen(v):
    return acc(v.sort(), 0, v)


def varr(v):
    return acc(v.sort(), 1, v)


def vmk(sort, n, a):
    return sort.constructor(0)(n, a)


def mdom(m):
    return acc(m.sort(), 0, m)


def mval(m):
    return acc(m.sort(), 1, m)


POS = {}          # references of parameters: at least 1 (term id -> term); objects made later have negative ones


def select(a, i):
    """select with syntactic store resolution on literal / identical indices"""
    i_lit = is_lit(i)
    pos = i.get_id() in POS
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        k = a.arg(1)
        if k.eq(i):
            return a.arg(2)
        if i_lit and is_lit(k) or pos and z3.is_int_value(k) and k.as_long() < 0 or i_lit and z3.is_int_value(i) and i.as_long() < 0 and k.get_id() in POS:
            a = a.arg(0)
            continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return z3.Select(a, i)


def set_pos(s, k):
    """position of k in the ordered enumeration of set s, and its inverse"""
    ks = s.sort().domain()
    f = z3.Function('pos<%s>' % ks.sexpr(), s.sort(), ks, INT)
    return f(s, k)


def set_key(s, i):
    ks = s.sort().domain()
    f = z3.Function('key<%s>' % ks.sexpr(), s.sort(), INT, ks)
    return f(s, i)


def set_card(s):
    f = z3.Function('card<%s>' % s.sort().domain().sexpr(), s.sort(), INT)
    return f(s)


def key_lt(a, b):
    if a.sort() == STR:
        return a < b
    if a.sort().kind() == z3.Z3_DATATYPE_SORT:
        f = z3.Function('lt<%s>' % a.sort().sexpr(), a.sort(), a.sort(), BOOL)
        return f(a, b)
    return a < b


def set_axioms(s, ordered=True):
    """enumeration axioms for one concrete set term"""
    ks = s.sort().domain()
    k = z3.Const('k!ax', ks)
    i, j = z3.Ints('i!ax j!ax')
    n = set_card(s)
    out = [n >= 0,
           z3.ForAll([k], Implies(z3.Select(s, k), And(0 <= set_pos(s, k), set_pos(s, k) < n, set_key(s, set_pos(s, k)) == k)),
                     patterns=[set_pos(s, k)] if not z3.is_app_of(s, z3.Z3_OP_STORE) else [set_pos(s, k)]),
           z3.ForAll([k], Implies(z3.Select(s, k), And(0 <= set_pos(s, k), set_pos(s, k) < n, set_key(s, set_pos(s, k)) == k)),
                     patterns=[z3.Select(s, k)]) if s.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.BoolVal(True),
           z3.ForAll([i], Implies(And(0 <= i, i < n), And(z3.Select(s, set_key(s, i)), set_pos(s, set_key(s, i)) == i)), patterns=[set_key(s, i)])]
    if ordered:
        out.append(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < n), key_lt(set_key(s, i), set_key(s, j))),
                             patterns=[z3.MultiPattern(set_key(s, i), set_key(s, j))]))
    return [x for x in out if not z3.is_true(x)]


def consts_of(t, cache={}):
    """uninterpreted constants occurring in t"""
    tid = t.get_id()
    r = cache.get(tid)
    if r is not None and r[0].eq(t):
        return r[1]
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                stack.extend(x.children())
    out = frozenset(out)
    cache[tid] = (t, out)
    return out


def has_quant(t, cache={}):
    tid = t.get_id()
    r = cache.get(tid)
    if r is not None and r[0].eq(t):
        return r[1]
    res = False
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        stack.extend(x.children())
    cache[tid] = (t, res)
    return res


_ARITH = {}
_ARITH_OPS = {z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES,
              z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ANUM}


def is_arith(t):
    """a small formula of linear integer arithmetic over opaque integer terms"""
    i = t.get_id()
    r = _ARITH.get(i)
    if r is None:
        r = (t, _is_arith(t, 0))
        _ARITH[i] = r
    return r[1]


def _is_arith(t, depth):
    if depth > 12 or not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
        return all(_is_arith(c, depth + 1) for c in t.children()) and sum(not z3.is_int_value(c) for c in t.children()) <= 1
    if k in _ARITH_OPS:
        return all(c.sort() in (INT, BOOL) and _is_arith(c, depth + 1) for c in t.children())
    if t.sort() == INT or t.sort() == BOOL:
        return not any(c.sort() == STR for c in t.children()) or k == z3.Z3_OP_SEQ_LENGTH
    return False


class State:
    __slots__ = ('cells', 'heap', 'next')

    def __init__(self):
        self.cells = {}
        self.heap = {}
        self.next = z3.IntVal(-1)

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.heap = dict(self.heap)
        s.next = self.next
        return s


class Frame:
    def __init__(self, fn, decl, this=None):
        self.fn, self.decl, self.this = fn, decl, this
        self.env = {}


class Obligation:
    __slots__ = ('name', 'kind', 'facts', 'goal', 'line', 'soft', 'fn', 'path', 'status', 'detail', 'time', 'backend', 'hints')

    def __init__(self, name, kind, facts, goal, line, fn, soft=None, path=''):
        self.name, self.kind, self.facts, self.goal, self.line, self.fn, self.soft, self.path = name, kind, facts, goal, line, fn, soft, path
        self.status, self.detail, self.time, self.backend = None, '', 0.0, ''
        self.hints = None


class LoopInfo:
    def __init__(self, key):
        self.key = key
        self.mods = {}       # descriptor -> data
        self.dead = {}       # dead candidate names -> reason
        self.seen = set()
        self.cut = False


class LoopCtx:
    """what an invariant template may talk about"""
    def __init__(self, X, info, entry, c):
        self.X, self.info, self.entry, self.c = X, info, entry, c
        self.vars = []       # (name, VarLoc) modified locals

    def at_entry(self, loc):
        with self.X.at(self.entry):
            return self.X.read(loc)

    def changed(self, sort=None, pred=None):
        """[(tag, loc)] of locations modified by the loop; optionally by sort"""
        out = []
        for name, loc in self.vars:
            try:
                v = self.X.read(loc)
            except Unsupported:
                continue
            if sort is not None:
                if not (isinstance(v, z3.ExprRef) and v.sort() == sort):
                    continue
            if pred is not None and not pred(v):
                continue
            out.append((name, loc))
        return out

    def positions(self):
        """[(tag, fn()->index term)] for every modified integer / iterator variable"""
        out = []
        for name, loc in self.vars:
            with self.X.at(self.entry):
                v = self.X.read(loc)
            if isinstance(v, Iter):
                if v.rev:
                    out.append((name, lambda loc=loc: self.X.cont_size(self.X.read(loc)) - self.X.read(loc).idx))
                else:
                    out.append((name, lambda loc=loc: self.X.read(loc).idx))
            elif hasattr(v, 'cur_ok'):
                out.append((name, lambda loc=loc: self.X.read(loc).idx))
            elif isinstance(v, z3.ExprRef) and v.sort() == INT:
                out.append((name, lambda loc=loc: self.X.read(loc)))
        return out


class Ctx:
    """what a contract may talk about"""
    def __init__(self, X, contract, decl, this, args, pre):
        self.X, self.contract, self.decl, self.this, self.args, self._pre = X, contract, decl, this, args, pre
        self.result = None
        self.exc = None
        self._post = None
        self.pre = StateView(X, lambda: self._pre)
        self.post = StateView(X, lambda: self._post)

    def arg(self, i):
        a = self.args[i]
        return a

    def val(self, i):
        """value of argument i in the pre-state"""
        a = self.args[i]
        if isinstance(a, Loc):
            return self.pre.get(a)
        return a

    def fresh(self, name, sort):
        return self.X.fresh(name, sort)


class StateView:
    def __init__(self, X, get):
        self.X, self._get = X, get

    def get(self, loc):
        with self.X.at(self._get()):
            return self.X.read(loc)

    def f(self, loc, *path):
        """read the field path (names) below a record location / sptr value"""
        X = self.X
        with X.at(self._get()):
            return X.fpath(loc, path)

    def loc(self, loc, *path):
        X = self.X
        with X.at(self._get()):
            return X.floc(loc, path)

    def state(self):
        return self._get()


class _At:
    def __init__(self, X, st):
        self.X, self.st = X, st

    def __enter__(self):
        self.save = (self.X.st, self.X.ghost)
        self.X.st = self.st
        self.X.ghost = True

    def __exit__(self, *a):
        self.X.st, self.X.ghost = self.save


class Contract:
    """kw: requires, ensures, modifies, throws, value, loops, pure, match, cls, ..."""
    def __init__(self, q, **kw):
        self.q = q
        self.name = kw.pop('name', q)
        self.match = kw.pop('match', None)
        self.requires = kw.pop('requires', None)
        self.ensures = kw.pop('ensures', None)
        self.modifies = kw.pop('modifies', None)
        self.throws = kw.pop('throws', None)       # c -> {exc class id: condition}  (throws iff)
        self.exc_ensures = kw.pop('exc_ensures', None)
        self.value = kw.pop('value', None)         # c -> term (pure function)
        self.loops = kw.pop('loops', None)         # LoopCtx -> [(name, fn()->Bool)]
        self.result_shape = kw.pop('result_shape', None)
        self.fresh_result = kw.pop('fresh_result', False)
        self.allocates = kw.pop('allocates', self.fresh_result)
        self.trusted = kw.pop('trusted', False)    # assumed, body not checked (abstract or external)
        self.verify = kw.pop('verify', not self.trusted)
        self.inline = kw.pop('inline', False)      # use body at call sites
        self.timeout = kw.pop('timeout', None)
        self.axioms = kw.pop('axioms', None)       # c -> [facts]
        self.post_axioms = kw.pop('post_axioms', None)
        self.setup = kw.pop('setup', None)
        self.cases = kw.pop('cases', None)         # c -> [conditions]: case distinction at the start
        self.props = kw.pop('props', None)
        self.sets = kw.pop('sets', None)           # c -> [(name, location, value)]: values of locations afterwards, as definitions
        self.hide = kw.pop('hide', ())             # names of postconditions that callers do not get
        self.frame = kw.pop('frame', True)
        self.note = kw.pop('note', '')
        self.bv = kw.pop('bv', False)
        self.unroll = kw.pop('unroll', 70)
        self.opts = kw
        self.opaque = kw.get('opaque')             # fn key, decl -> bool: the call may do anything (see opaque_effect)


class Executor:
    def __init__(self, prog, contracts, lib, opts=None):
        self.prog = prog
        self.contracts = {}
        for c in contracts:
            self.contracts.setdefault(c.q, []).append(c)
        self.lib = lib
        self.opts = opts or {}
        self.ghost = False
        self.loopinfo = {}
        self.assumed = set()       # trusted things used
        self.inlined = set()
        self.used_contracts = set()
        self._cmpfeas = {}
        self.sorts = {}
        self.feas_ms = self.opts.get('feas_ms', 300)
        self.max_paths = self.opts.get('max_paths', 2000)

    # ------------------------------------------------------------------ sorts
    def sort(self, ty):
        s = self.sorts.get(ty.id)
        if s is None:
            s = self.sorts[ty.id] = self._sort(ty)
        return s

    def _sort(self, ty):
        if ty.is_bool():
            return BOOL
        if ty.is_int():
            return INT
        if ty.is_float():
            return REAL
        if ty.k in ('ptr', 'ref') or (ty.k == 'builtin' and ty.d['b'] == 'nullptr'):
            return INT
        if ty.k == 'arr':
            return z3.ArraySort(INT, self.sort(ty.elem))
        if ty.k == 'rec':
            s = self.lib.sort(self, ty)
            if s is not None:
                return s
            if ty.root():
                fs = []
                for i, (cls, n, t) in enumerate(self.prog.all_fields(ty.id)):
                    fs.append(('%s.%s' % (n, i), self.sort(self.prog.ty(t))))
                if not fs:
                    fs = [('empty', BOOL)]
                return datatype('Rec<%s>' % ty.id, fs)
            return z3.DeclareSort('Opaque<%s>' % ty.id)
        return z3.DeclareSort('Opaque<%s>' % ty.id)

    def is_record(self, ty):
        return ty.k == 'rec' and (ty.root() or ty.q in self.lib.ref_types) and not self.lib.is_value(ty)

    # ------------------------------------------------------------------ symbols, facts
    def fresh(self, name, sort):
        self.symcount += 1
        return z3.Const('%s!%d' % (name, self.symcount), sort)

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for x in f.children():
                self.assume(x)
            return
        h = f.get_id()
        if h in self.pcset:
            return
        self.pcset[h] = f
        self.pc.append(f)

    def is_initial(self, t):
        return all(c in self.initial or c.startswith('H0') for c in consts_of(t)) and not self._neg(t)

    def _neg(self, t):
        stack = [t]
        seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_int_value(x):
                if x.as_long() < 0:
                    return True
            elif z3.is_app(x):
                stack.extend(x.children())
            elif z3.is_quantifier(x):
                return True
        return False

    def ref_fact(self, t, ty):
        """well-formedness of a reference / integer read from memory"""
        if self.ghost or not isinstance(t, z3.ExprRef) or is_lit(t):
            return t
        if t.get_id() in self.wf:
            return t
        self.wf[t.get_id()] = t
        if ty.is_ptr() or self.lib.is_sptr(ty):
            if self.is_initial(t):
                self.assume(t >= 0)
            else:
                self.assume(t > self.st.next)
        elif ty.is_int() and t.sort() == INT:
            lo, hi = ty.range()
            self.assume(And(t >= lo, t <= hi))
        elif ty.k == 'rec' and self.lib.sort(self, ty) is not None:
            for f in self.lib.wf_facts(self, ty, t):
                self.assume(f)
        return t

    def feasible(self, cond):
        s = z3.Solver()
        for f in self.pc:
            if not has_quant(f):
                s.add(f)
        s.add(cond)
        return cpu.check(s, self.feas_ms) != z3.unsat

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.ghost:
            raise Unsupported('decision in ghost evaluation')
        if c.get_id() in self.pcset or cond.get_id() in self.pcset:
            return True
        i = self.dpos
        self.dpos += 1
        if i < len(self.script):
            d = self.script[i]
        else:
            t = self.feasible(cond)
            f = self.feasible(Not(cond)) if t else True
            if t and f:
                d = True
                self.work.append(self.script[:i] + [False])
                if len(self.work) + self.npaths > self.max_paths:
                    raise Unsupported('more than %d paths' % self.max_paths)
            else:
                d = t
            self.script.append(d)
        self.assume(cond if d else Not(cond))
        return d

    def choose(self, name):
        """nondeterministic choice"""
        return self.decide(self.fresh(name, BOOL))

    def oblige(self, name, kind, goal, line=0, soft=None):
        if self.ghost:
            return
        if self.top is not None and kind in (self.top.opts.get('skip_kinds') or ()):
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.dpos >= self.newfrom:
            g = simp(goal)
            o = Obligation(name, kind, list(self.pc), goal, line, self.top.name, soft, ''.join('T' if x else 'F' for x in self.script[:self.dpos]))
            if z3.is_true(g):
                o.status, o.backend = 'proved', 'simplifier'
                o.facts = []
            self.obls.append(o)
        if soft is None:
            self.assume(goal)

    # ------------------------------------------------------------------ memory
    def at(self, st):
        return _At(self, st)

    def new_cell(self, ty, val=None, name='v'):
        self.cellcount += 1
        cid = '%s#%d' % (name, self.cellcount)
        self.st.cells[cid] = val
        return VarLoc(cid, ty)

    def new_ref(self):
        r = simp(self.st.next)
        self.st.next = simp(self.st.next - 1)
        self.fresh_refs[r.get_id()] = r
        return r

    def new_obj(self, ty):
        r = self.new_ref()
        self.dyn[r.get_id()] = (r, ty)
        return ObjLoc(r, ty)

    def hmap(self, key, vsort):
        h = self.st.heap.get(key)
        if h is None:
            h = self.h0.get(key)
            if h is None:
                h = z3.Const('H0[%s]' % key, z3.ArraySort(INT, vsort))
                self.h0[key] = h
            self.st.heap[key] = h
        return h

    def declaring(self, cls, name):
        r = self.prog.records.get(cls)
        if r:
            for f in r.get('fields', []):
                if f['n'] == name:
                    return cls
        for b in self.prog.bases(cls):
            d = self.declaring(b, name)
            if d:
                return d
        return None

    def fld(self, base, name, cls=None):
        cls = cls or base.ty.id
        d = self.declaring(cls, name)
        if d is None:
            raise Unsupported('no field %s in %s' % (name, cls))
        return FieldLoc(base, d, name, self.prog.ty(self.prog.field_type(d, name)))

    def floc(self, x, path):
        """location of a field path; x is a Loc of record type or a pointer Loc"""
        cur = x
        for n in path:
            if n == '*':
                t = cur.ty
                v = self.read(cur)
                cur = self.deref(v, self.pointee(t))
                continue
            ty = cur.ty
            if ty.is_ref():
                ty = ty.elem
            if ty.is_ptr() or self.lib.is_sptr(ty):
                cur = self.deref(self.read(cur), self.pointee(ty))
            cur = self.fld(cur, n)
        return cur

    def fpath(self, x, path):
        return self.read(self.floc(x, path))

    def pointee(self, ty):
        if ty.is_ptr() or ty.is_ref():
            return ty.elem
        if self.lib.is_sptr(ty):
            return ty.arg(0)
        raise Unsupported('pointee of ' + ty.id)

    def obj(self, ref, clsid):
        return ObjLoc(ref, self.prog.ty(clsid))

    def field_index(self, clsid, decl, name):
        for i, (c, n, t) in enumerate(self.prog.all_fields(clsid)):
            if n == name and c == decl:
                return i
        raise Unsupported('field %s not in %s' % (name, clsid))

    def read(self, loc):
        if not isinstance(loc, Loc):
            return loc
        if isinstance(loc, VarLoc):
            if loc.cid not in self.st.cells:
                raise Unsupported('variable not in state: %s' % loc.cid)
            v = self.st.cells[loc.cid]
            if v is None:
                v = self.havoc_value(loc.ty, 'uninit')
                self.st.cells[loc.cid] = v
            return v
        if isinstance(loc, ObjLoc):
            return self.pack(loc)
        if isinstance(loc, FieldLoc):
            t = self.read_field(loc)
            self.ref_fact(t, loc.ty)
            return self.lib.from_term(self, loc.ty, t)
        if isinstance(loc, ElemLoc):
            b = self.read_raw(loc.base)
            if loc.kind == 'str':
                return self.lib.str_char(self, b, loc.idx)
            if loc.kind == 'vec':
                t = select(varr(b), loc.idx)
            elif isinstance(b, list):
                raise Unsupported('array list')
            else:
                t = select(b, loc.idx)
            self.ref_fact(t, loc.ty)
            return self.lib.from_term(self, loc.ty, t)
        if isinstance(loc, MapValLoc):
            b = self.read_raw(loc.base)
            t = select(mval(b), loc.key)
            self.ref_fact(t, loc.ty)
            return self.lib.from_term(self, loc.ty, t)
        if isinstance(loc, MatElemLoc):
            m = self.read(loc.base)
            return self.lib.mat_get(self, m, loc.i, loc.j)
        if isinstance(loc, MatBlockLoc):
            m = self.read(loc.base)
            return MatVal.make(loc.r, loc.c, lambda i, j: m.m[loc.i + i][loc.j + j])
        if isinstance(loc, MemLoc):
            return self.read_mem(loc)
        if isinstance(loc, PairLoc):
            return self.lib.make_pair(self, loc.ty, self.read(loc.first), self.read(loc.second))
        raise Unsupported('read of %r' % loc)

    def read_raw(self, loc):
        """term stored at a location (no python-level wrapping)"""
        v = self.read(loc)
        return self.to_term(v, loc.ty)

    def to_term(self, v, ty):
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Loc):
            return self.to_term(self.read(v), ty)
        return self.lib.to_term(self, ty, v)

    def mem_key(self, ty):
        if ty.is_float():
            return 'mem:f%d' % ty.bits()
        return 'mem:%d' % (8 * ty.size())

    def read_mem(self, loc):
        h = self.hmap(self.mem_key(loc.ty), self.sort(loc.ty))
        t = select(h, loc.addr)
        self.ref_fact(t, loc.ty)
        return t

    def read_field(self, loc):
        base = loc.base
        if isinstance(base, ObjLoc):
            h = self.hmap(loc.cls + '::' + loc.name, self.sort(loc.ty))
            return select(h, base.ref)
        if isinstance(base, PairLoc):
            raise Unsupported('pair field')
        # embedded record value
        t = self.read_raw(base)
        s = t.sort()
        bt = base.ty.elem if base.ty.is_ref() else base.ty
        i = self.field_index(bt.id, loc.cls, loc.name)
        return acc(s, i, t)

    def note_write(self, d, data):
        for L in self.loopstack:
            if d in L['fresh']:
                continue
            if d[0] == 'cell':
                if d[1] not in L['entry'].cells:
                    continue
                if d not in L['info'].mods:
                    L['info'].mods[d] = data
                    self.dirty = True
            else:
                key, ref = data
                if self.born_in(ref, L):
                    dd = ('hfresh', key)
                elif all(self.sym_index(c) <= L['sym0'] for c in consts_of(ref)):
                    dd = ('heap', key, ref.get_id())
                else:
                    dd = ('hall', key)
                if ('hall', key) in L['info'].mods:
                    continue
                if dd not in L['info'].mods:
                    L['info'].mods[dd] = (key, ref)
                    self.dirty = True

    def sym_index(self, name):
        if '!' in name:
            try:
                return int(name.rsplit('!', 1)[1])
            except ValueError:
                return 0
        return 0

    def born_in(self, ref, L):
        r = simp(ref)
        return r.get_id() in self.fresh_refs and r.get_id() not in L['fresh_at_entry']

    def write(self, loc, v):
        if self.ghost:
            raise Unsupported('write in ghost evaluation')
        if isinstance(loc, VarLoc):
            self.note_write(('cell', loc.cid), loc)
            if isinstance(v, Loc) and not self.is_ref_cell(loc):
                v = self.read(v)
            self.st.cells[loc.cid] = v
            return
        if isinstance(loc, ObjLoc):
            self.unpack(loc, v)
            return
        if isinstance(loc, FieldLoc):
            base = loc.base
            t = self.to_term(v, loc.ty)
            if isinstance(base, ObjLoc):
                self.write_heap(loc.cls + '::' + loc.name, base.ref, t, self.sort(loc.ty))
                return
            b = self.read_raw(base)
            bt = base.ty.elem if base.ty.is_ref() else base.ty
            i = self.field_index(bt.id, loc.cls, loc.name)
            self.write(base, upd(b.sort(), i, b, t))
            return
        if isinstance(loc, ElemLoc):
            b = self.read_raw(loc.base)
            if loc.kind == 'str':
                self.write(loc.base, self.lib.str_set(self, b, loc.idx, v))
                return
            t = self.to_term(v, loc.ty)
            if loc.kind == 'vec':
                self.write(loc.base, vmk(b.sort(), vlen(b), z3.Store(varr(b), loc.idx, t)))
            else:
                self.write(loc.base, z3.Store(b, loc.idx, t))
            return
        if isinstance(loc, MapValLoc):
            b = self.read_raw(loc.base)
            t = self.to_term(v, loc.ty)
            self.write(loc.base, b.sort().constructor(0)(mdom(b), z3.Store(mval(b), loc.key, t)))
            return
        if isinstance(loc, MatElemLoc):
            m = self.read(loc.base)
            self.write(loc.base, self.lib.mat_set(self, m, loc.i, loc.j, v))
            return
        if isinstance(loc, MatBlockLoc):
            m = self.read(loc.base)
            n = MatVal(m.m)
            v = self.read(v)
            for i in range(loc.r):
                for j in range(loc.c):
                    n.m[loc.i + i][loc.j + j] = v.m[i][j]
            self.write(loc.base, n)
            return
        if isinstance(loc, MemLoc):
            self.write_heap(self.mem_key(loc.ty), loc.addr, self.to_term(v, loc.ty), self.sort(loc.ty))
            return
        raise Unsupported('write to %r' % loc)

    def is_ref_cell(self, loc):
        return loc.ty is not None and (loc.ty.is_ref())

    def write_heap(self, key, ref, t, vsort):
        h = self.hmap(key, vsort)
        self.note_write(('heap', key, ref.get_id()), (key, ref))
        if z3.is_app_of(h, z3.Z3_OP_STORE) and h.arg(1).eq(ref):
            h = h.arg(0)
        self.st.heap[key] = z3.Store(h, ref, t)

    def pack(self, loc):
        """record object -> datatype value"""
        s = self.sort(loc.ty)
        fs = self.prog.all_fields(loc.ty.id)
        if not fs:
            return s.constructor(0)(z3.BoolVal(True))
        vals = []
        for cls, n, t in fs:
            fl = FieldLoc(loc, cls, n, self.prog.ty(t))
            vals.append(self.read_field(fl))
        return s.constructor(0)(*vals)

    def unpack(self, loc, v):
        if isinstance(v, ObjLoc):
            if v.ref.eq(loc.ref):
                return
            for cls, n, t in self.prog.all_fields(loc.ty.id):
                ft = self.prog.ty(t)
                self.write_heap(cls + '::' + n, loc.ref, self.read_field(FieldLoc(v, cls, n, ft)), self.sort(ft))
            return
        if isinstance(v, Loc):
            v = self.read_raw(v)
        fs = self.prog.all_fields(loc.ty.id)
        for i, (cls, n, t) in enumerate(fs):
            ft = self.prog.ty(t)
            self.write_heap(cls + '::' + n, loc.ref, acc(v.sort(), i, v), self.sort(ft))

    def havoc_value(self, ty, name='h', like=None):
        if isinstance(like, Iter):
            n = self.fresh(name, INT)
            return Iter(like.cont, n, like.kind, None, like.rev)
        if isinstance(like, PtrTo):
            if isinstance(like.loc, ElemLoc):
                n = self.fresh(name, INT)
                return PtrTo(ElemLoc(like.loc.base, n, like.loc.ty, like.loc.kind))
            raise Unsupported('havoc of a pointer to local')
        if isinstance(like, (Opaque, Lambda, FnRef)):
            return like
        if hasattr(like, 'havoc'):
            return like.havoc(self)
        t = ty.elem if ty.is_ref() else ty
        if not isinstance(like, z3.ExprRef):
            o = self.lib.havoc(self, t, name)
            if o is not None:
                return o
        v = self.fresh(name, self.sort(t))
        self.ref_fact(v, t)
        return self.lib.from_term(self, t, v)

    def havoc(self, loc, name='h'):
        if isinstance(loc, VarLoc):
            old = self.st.cells.get(loc.cid)
            self.write(loc, self.havoc_value(loc.ty, name, old))
        elif isinstance(loc, ObjLoc):
            for cls, n, t in self.prog.all_fields(loc.ty.id):
                ft = self.prog.ty(t)
                v = self.fresh(name, self.sort(ft))
                self.write_heap(cls + '::' + n, loc.ref, v, self.sort(ft))
        else:
            v = self.fresh(name, self.sort(loc.ty))
            self.ref_fact(v, loc.ty)
            self.write(loc, self.lib.from_term(self, loc.ty, v))

    def deref(self, p, ty, line=0, what='pointer'):
        """location a pointer value points to"""
        if isinstance(p, PtrTo):
            l = p.loc
            if isinstance(l, ElemLoc) and l.kind == 'arr' and isinstance(l.base, FieldLoc) and l.base.ty is not None and l.base.ty.k == 'arr' and l.base.ty.d['n'] > 0:
                self.oblige('pointer outside the array', 'safety', And(l.idx >= 0, l.idx < l.base.ty.d['n']), line)
            return l
        if isinstance(p, Iter):
            return self.lib.iter_deref(self, p, line)
        if isinstance(p, Loc):
            return p
        if isinstance(p, (StrLit,)):
            raise Unsupported('deref of string literal')
        if isinstance(p, Opaque):
            return self.new_cell(ty, Opaque(p.what))
        if self.is_record(ty):
            if not self.ghost:
                self.oblige('dereference of a null %s' % what, 'safety', p != 0, line)
            return ObjLoc(p, ty)
        if ty.k == 'rec':
            # pointer to library value object (e.g. shared_ptr<std::string>)
            cls = 'box<%s>' % ty.id
            return BoxLoc(p, ty, cls)
        if not self.ghost:
            self.oblige_valid(p, ty, line)
        return MemLoc(p, ty)

    def oblige_valid(self, addr, ty, line):
        n = ty.size()
        v = self.hmap('valid', BOOL)
        if self.opts.get('memsafe', True):
            g = z3.Select(v, addr) if n == 1 else And(z3.Select(v, addr), z3.Select(v, addr + n - 1))
            self.oblige('access to memory outside every live block', 'safety', g, line)

    # ------------------------------------------------------------------ function verification
    def contract_for(self, key):
        d = self.prog.decls.get(key)
        if d is None:
            return None
        for c in self.contracts.get(d['q'], []):
            if c.match is None or c.match(d):
                return c
        for o in d.get('overrides', []):
            pass
        return None

    def verify_function(self, key, contract):
        """returns list of obligations (unsolved); may raise Unsupported"""
        self.top = contract
        self.topkey = key
        fn = self.prog.functions[key]
        decl = self.prog.decls[key]
        while True:
            self.obls = []
            self.work = [[]]
            self.npaths = 0
            self.normal_paths = []
            self.exc_paths = []
            self.dirty = False
            self.reach = []
            restart = False
            while self.work:
                pre = self.work.pop()
                self.npaths += 1
                self.script = list(pre)
                self.newfrom = len(pre)
                try:
                    self.run_path(fn, decl, contract)
                except PathEnd:
                    pass
                except Restart:
                    restart = True
                    break
                if self.dirty:
                    restart = True
                    break
            if not restart:
                return self.obls

    def init_path(self):
        self.st = State()
        self.pc = []
        self.pcset = {}
        self.wf = {}
        self.h0 = {}
        self.initial = set()
        self.dpos = 0
        self.symcount = 0
        self.cellcount = 0
        self.fresh_refs = {}
        self.dyn = {}
        self.loopstack = []
        self.statics = {}
        self.depth = 0
        self.cstack = []
        self.ghost = False
        self.logs = []
        self.limits = {}         # loop counter -> limit of its loop (term at loop entry)

    def param_init(self, ty, name):
        """symbolic actual for a parameter"""
        t = ty.elem if ty.is_ref() else ty
        if self.is_record(t):
            if ty.is_ref():
                r = z3.Const('p_%s' % name, INT)
                self.initial.add('p_%s' % name)
                self.assume(r >= 1)
                POS[r.get_id()] = r
                return ObjLoc(r, t)
            return self.new_obj(t)
        if ty.is_ptr():
            r = z3.Const('p_%s' % name, INT)
            self.initial.add('p_%s' % name)
            self.assume(r >= 0)
            return r
        nm = 'p_%s' % name
        v = self.lib.havoc(self, t, nm)
        if v is None:
            v = z3.Const(nm, self.sort(t))
            self.initial.add(nm)
            self.ref_fact(v, t)
            v = self.lib.from_term(self, t, v)
        return v

    def run_path(self, fn, decl, contract):
        self.init_path()
        fr = Frame(fn, decl)
        args = []
        if decl.get('cls') and not decl.get('static'):
            cty = self.prog.ty(decl['cls'])
            if decl.get('ctor'):
                fr.this = self.new_obj(cty)
            else:
                r = z3.Const('this', INT)
                self.initial.add('this')
                self.assume(r >= 1)
                POS[r.get_id()] = r
                fr.this = ObjLoc(r, cty)
        over = contract.opts['iter_over'](self.prog) if contract.opts.get('iter_over') else {}
        shared = {}
        for i, p in enumerate(fn['params']):
            ty = self.prog.ty(p['t'])
            if i in over:
                # iterator into some container that exists outside (the same one for all parameters of a group)
                g, cty = over[i]
                if g not in shared:
                    shared[g] = self.new_cell(cty, self.param_init(cty, 'range%s' % g), 'range')
                loc = self.new_cell(ty, Iter(shared[g], self.fresh('pos%d' % i, INT), 'it'), p['n'])
                fr.env[(fn['tu'], p['id'])] = loc
                args.append(loc)
                continue
            v = self.param_init(ty, '%d_%s' % (i, p['n']))
            if isinstance(v, ObjLoc):
                loc = v
            else:
                loc = self.new_cell(ty.elem if ty.is_ref() else ty, v, p['n'])
            fr.env[(fn['tu'], p['id'])] = loc
            args.append(loc)
        if contract.opts.get('wlog'):
            # names a parameter by a fresh value shifted by another input: covers every value of the parameter
            for loc, v in contract.opts['wlog'](Ctx(self, contract, decl, fr.this, args, self.st)):
                self.write(loc, v)
        pre = self.st.copy()
        self.pre_state = pre
        c = Ctx(self, contract, decl, fr.this, args, pre)
        c.verifying = True
        self.topctx = c
        if contract.setup:
            contract.setup(c)
        if contract.axioms:
            for a in contract.axioms(c):
                self.assume(a)
        if contract.requires:
            for n, t in self.items(contract.requires(c)):
                self.assume(t)
        for t in (contract.cases(c) if contract.cases else []):
            self.decide(t)
        for k, h in self.st.heap.items():
            pre.heap.setdefault(k, h)
        self.c_frame = fr
        npc = len(self.pc)
        outcome, val = 'normal', None
        try:
            if decl.get('ctor'):
                self.exec_ctor_body(fr, fn, decl)
            else:
                self.exec_body(fr, fn)
        except ReturnEx as r:
            val = r.val
        except CppThrow as t:
            outcome, val = 'throw', t
        # ---- the function ended: check the postconditions
        for k in self.st.heap:
            if k not in pre.heap:
                pre.heap[k] = self.h0[k]
        post = self.st.copy()
        c._post = post
        line = fn['eline']
        throws = contract.throws(c) if contract.throws else {}
        if outcome == 'throw':
            c.exc = val
            ok = z3.BoolVal(False)
            for cls, cond in throws.items():
                if cls == '*' or self.exc_matches(val.ty, cls):
                    cond = cond[1] if isinstance(cond, tuple) else cond
                    ok = Or(ok, cond)
            self.oblige('exception %s escapes' % self.short(val.ty), 'ensures', ok, line)
            self.exc_paths.append((list(self.pc), val.ty))
            if contract.exc_ensures:
                for n, t in self.items(contract.exc_ensures(c)):
                    self.oblige(n, 'ensures', t, line)
        else:
            for cls, cond in throws.items():
                if isinstance(cond, tuple):     # ('may', cond): may throw
                    continue
                self.oblige('must throw %s' % self.short(cls), 'ensures', Not(cond), line)
            c.result = val
            if val is not None and not isinstance(val, Loc):
                pass
            elif isinstance(val, Loc) and not self.prog.ty(decl['ret']).is_ref() and not isinstance(val, ObjLoc):
                c.result = self.read(val)
            if contract.post_axioms:
                for a in contract.post_axioms(c):
                    self.assume(a)
            self.normal_paths.append(list(self.pc))
            if contract.fresh_result:
                self.oblige('result is a new object', 'ensures', And(c.result < 0), line)
            if contract.value:
                t = contract.value(c)
                self.oblige('result equals its specification', 'ensures', self.eqv(c.result, t, self.prog.ty(decl['ret'])), line)
            if contract.sets:
                for n, loc, t in contract.sets(c):
                    self.oblige(n, 'ensures', self.eqv(c.post.get(loc), t, loc.ty), line)
            if contract.ensures:
                for n, t in self.items(contract.ensures(c)):
                    self.oblige(n, 'ensures', t, line)
        if contract.frame:
            self.check_frame(c, contract, pre, post, line, args)

    def eqv(self, a, b, ty):
        if isinstance(a, Loc):
            a = self.read(a)
        if isinstance(b, Loc):
            b = self.read(b)
        if isinstance(a, MatVal):
            return And([a.m[i][j] == b.m[i][j] for i in range(a.r) for j in range(a.c)])
        if isinstance(a, Iter):
            return a.idx == (b.idx if isinstance(b, Iter) else b)
        t = ty.elem if ty.is_ref() else ty
        if isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
            b = self.to_term(b, t)
        if isinstance(b, z3.ExprRef) and not isinstance(a, z3.ExprRef):
            a = self.to_term(a, t)
        if a.sort() == REAL and b.sort() == INT:
            b = z3.ToReal(b)
        if a.sort().kind() == z3.Z3_DATATYPE_SORT and a.sort().name().startswith('Vec<'):
            i = z3.Int('i!eq')
            return And(vlen(a) == vlen(b), z3.ForAll([i], Implies(And(0 <= i, i < vlen(a)), z3.Select(varr(a), i) == z3.Select(varr(b), i))))
        return a == b

    def items(self, d):
        if d is None:
            return []
        if isinstance(d, dict):
            return list(d.items())
        if isinstance(d, (list, tuple)):
            out = []
            for i, x in enumerate(d):
                out.append(x if isinstance(x, tuple) else ('clause %d' % i, x))
            return out
        return [('clause', d)]

    def short(self, t):
        return t.split('::')[-1]

    def exc_matches(self, ty, cls):
        if ty == cls or ty.split('::')[-1] == cls:
            return True
        return any(self.exc_matches(b, cls) for b in self.prog.bases(ty))

    def check_frame(self, c, contract, pre, post, line, args):
        mods = contract.modifies(c) if contract.modifies else []
        allowed = {}
        allcells = set()
        allkeys = set()
        for m in mods:
            if isinstance(m, str):
                allkeys.add(m)
                continue
            for k in self.loc_keys(m):
                if k[0] == 'cell':
                    allcells.add(k[1])
                else:
                    allowed.setdefault(k[0], []).append(k[1])
        for key, h in post.heap.items():
            h0 = pre.heap.get(key, self.h0.get(key))
            if h0 is None or h.eq(h0) or key in allkeys or key == 'valid':
                continue
            if any(key.startswith(p[:-1]) for p in allkeys if p.endswith('*')):
                continue
            # collect syntactic stores down to h0
            x = h
            refs = []
            while z3.is_app_of(x, z3.Z3_OP_STORE):
                refs.append((x.arg(1), x.arg(2)))
                x = x.arg(0)
            if x.eq(h0):
                for r, v in refs:
                    if simp(r).get_id() in self.fresh_refs:
                        continue
                    ok = [r == a for a in allowed.get(key, [])]
                    if any(r.eq(a) for a in allowed.get(key, [])):
                        continue
                    self.oblige('%s of an object outside the frame is changed' % key.split('::')[-1], 'frame',
                                Or(ok + [z3.Select(h, r) == z3.Select(h0, r), r < 0]), line)
            else:
                r = z3.Int('r!frame')
                self.oblige('%s of an object outside the frame is changed' % key.split('::')[-1], 'frame',
                            z3.ForAll([r], Implies(And([r >= 0] + [r != a for a in allowed.get(key, [])]),
                                                   z3.Select(h, r) == z3.Select(h0, r))), line)
        for i, a in enumerate(args):
            if isinstance(a, VarLoc) and a.cid not in allcells and self.prog.ty(self.prog.decls[self.topkey]['params'][i]).is_ref():
                v0, v1 = pre.cells[a.cid], post.cells[a.cid]
                if v0 is v1 or (isinstance(v0, z3.ExprRef) and isinstance(v1, z3.ExprRef) and v0.eq(v1)):
                    continue
                if isinstance(v0, (Opaque, Iter)):
                    continue
                self.oblige('argument %d is changed' % i, 'frame', self.eqv(v0, v1, a.ty), line)

    def loc_keys(self, m):
        if isinstance(m, VarLoc):
            return [('cell', m.cid)]
        if isinstance(m, ObjLoc):
            return [(cls + '::' + n, m.ref) for cls, n, t in self.prog.all_fields(m.ty.id)]
        if isinstance(m, FieldLoc):
            if isinstance(m.base, ObjLoc):
                return [(m.cls + '::' + m.name, m.base.ref)]
            return self.loc_keys(m.base)
        if isinstance(m, (ElemLoc, MapValLoc, MatElemLoc)):
            return self.loc_keys(m.base)
        if isinstance(m, BoxLoc):
            return [(m.key, m.ref)]
        if isinstance(m, MemLoc):
            return [(self.mem_key(m.ty), m.addr)]
        raise Unsupported('frame location %r' % m)

    # ------------------------------------------------------------------ bodies
    def exec_body(self, fr, fn):
        save = getattr(self, 'frame', None)
        self.frame = fr
        try:
            self.stmt(fn['body'])
        finally:
            self.frame = save

    def exec_ctor_body(self, fr, fn, decl):
        save = getattr(self, 'frame', None)
        self.frame = fr
        try:
            inited = set()
            for i in fn.get('inits', []):
                if i.get('d'):
                    self.construct_into(i['e'], fr.this)
                elif 'b' in i:
                    bt = self.prog.ty(i['b'])
                    if self.is_record(bt):
                        self.construct_into(i['e'], ObjLoc(fr.this.ref, bt) if isinstance(fr.this, ObjLoc) else self.unsup('base of embedded'))
                elif 'f' in i:
                    loc = self.fld(fr.this, i['f'])
                    inited.add(i['f'])
                    self.init_loc(loc, i['e'])
            self.stmt(fn['body'])
        finally:
            self.frame = save

    def unsup(self, m):
        raise Unsupported(m)

    def init_loc(self, loc, e):
        """initialise a field / element location from an initialiser expression"""
        ty = loc.ty
        if ty.is_ref():
            raise Unsupported('reference member')
        if self.is_record(ty):
            tmp = self.new_obj(ty)
            self.construct_into(e, tmp)
            self.write(loc, self.pack(tmp))
            return
        if ty.k == 'arr':
            self.write(loc, self.array_init(e, ty))
            return
        v = self.rv(e)
        self.write(loc, v)

    def array_init(self, e, ty):
        if e.get('k') == 'InitList':
            es = self.sort(ty.elem)
            if ty.elem.k == 'arr' or self.is_record(ty.elem):
                raise Unsupported('nested array init')
            a = self.lib.zero_array(self, ty.elem)
            for i, x in enumerate(e['a']):
                a = z3.Store(a, z3.IntVal(i), self.to_term(self.rv(x), ty.elem))
            return a
        if e.get('k') in ('ZeroInit',):
            return self.lib.zero_array(self, ty.elem)
        if e.get('k') == 'Str':
            a = z3.K(INT, z3.IntVal(0))
            for i, x in enumerate(e['v']):
                a = z3.Store(a, z3.IntVal(i), z3.IntVal(x if x < 128 else x - 256))
            return a
        if e.get('k') == 'Construct' and not e['a']:
            return self.fresh('arr', self.sort(ty))
        raise Unsupported('array initialiser ' + e.get('k', '?'))

    def construct_into(self, e, loc):
        """evaluate a prvalue of record type directly into loc (ObjLoc)"""
        while e['k'] in ('Cast',) and e['ck'] in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
            e = e['e']
        if e['k'] == 'Construct':
            self.do_construct(e, loc)
            return
        v = self.ev(e)
        self.unpack(loc, v)

    def do_construct(self, e, loc):
        key = e['fn']
        d = self.prog.decls[key]
        cls = d['cls']
        if d.get('defaulted') or d.get('implicit'):
            if d.get('copy') or d.get('move'):
                src = self.ev(e['a'][0])
                if isinstance(src, ObjLoc):
                    # copy the subobject of type cls
                    for c2, n, t in self.prog.all_fields(cls):
                        ft = self.prog.ty(t)
                        self.write_heap(c2 + '::' + n, loc.ref, self.read_field(FieldLoc(src, c2, n, ft)), self.sort(ft))
                else:
                    self.unpack(ObjLoc(loc.ref, self.prog.ty(cls)), src)
                return
            if not e['a']:
                self.default_init(loc, cls, e.get('zi'))
                return
            raise Unsupported('defaulted constructor ' + key)
        args = self.eval_args(d, e['a'])
        self.invoke(key, loc, args, e, ctor=True)

    def default_init(self, loc, cls, zero=False):
        for b in self.prog.bases(cls):
            bt = self.prog.ty(b)
            if self.is_record(bt):
                k = self.default_ctor(b)
                if k and k in self.prog.functions:
                    self.invoke(k, ObjLoc(loc.ref, bt), [], {'l': 0}, ctor=True)
                else:
                    self.default_init(ObjLoc(loc.ref, bt), b, zero)
        for f in self.prog.records[cls].get('fields', []):
            fl = self.fld(loc, f['n'], cls)
            ft = fl.ty
            if f.get('init'):
                self.init_loc(fl, f['init'])
            elif self.is_record(ft):
                k = self.default_ctor(ft.id)
                tmp = self.new_obj(ft)
                if k and k in self.prog.functions:
                    self.invoke(k, tmp, [], {'l': 0}, ctor=True)
                else:
                    self.default_init(tmp, ft.id, zero)
                self.write(fl, self.pack(tmp))
            else:
                v = self.lib.default(self, ft)
                if v is not None:
                    self.write(fl, v)
                elif zero:
                    self.write(fl, self.zero(ft))

    def default_ctor(self, cls):
        k = cls + '::(ctor)()'
        return k if k in self.prog.decls else None

    def zero(self, ty):
        if ty.is_bool():
            return z3.BoolVal(False)
        if ty.is_int() or ty.is_ptr():
            return z3.IntVal(0)
        if ty.is_float():
            return z3.RealVal(0)
        if ty.k == 'arr':
            return self.lib.zero_array(self, ty.elem)
        v = self.lib.default(self, ty)
        if v is not None:
            return v
        raise Unsupported('zero of ' + ty.id)

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s (line %s)' % (s.get('w', k), s.get('l')))
        self.line = s.get('l', 0)
        m(s)

    def s_Compound(self, s):
        for x in s['c']:
            self.stmt(x)

    def s_Null(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s['e'])

    def s_Decl(self, s):
        for v in s['v']:
            self.declare(v)

    def vkey(self, vid):
        return (self.frame.fn['tu'], vid)

    def declare(self, v):
        ty = self.prog.ty(v['t'])
        key = self.vkey(v['id'])
        if v.get('static'):
            g = '%d:static#%d' % (self.frame.fn['tu'], v['id'])
            self.frame.env[key] = self.static_loc(g, ty, v)
            return
        e = v.get('i')
        if ty.is_ref():
            x = self.ev(e)
            if not isinstance(x, Loc):
                x = self.new_cell(ty.elem, x, v['n'])
            self.frame.env[key] = x
            return
        if self.is_record(ty):
            loc = self.new_obj(ty)
            self.frame.env[key] = loc
            if e is not None:
                self.construct_into(e, loc)
            return
        if ty.k == 'arr':
            val = self.array_init(e, ty) if e is not None else None
            if val is None:
                val = self.lib.array_default(self, ty)
            self.frame.env[key] = self.new_cell(ty, val, v['n'])
            return
        val = None
        if e is not None:
            val = self.rv(e)
        else:
            val = self.lib.default(self, ty)
        if val is None:
            val = self.havoc_value(ty, 'uninit_' + v['n'])
        self.frame.env[key] = self.new_cell(ty, val, v['n'])

    def static_loc(self, name, ty, v):
        loc = self.statics.get(name)
        if loc is None:
            val = None
            t = ty.elem if ty.is_ref() else ty
            if ty.const or self.lib.is_const_static(t):
                if v.get('i') is not None:
                    val = self.rv(v['i'])
            if val is None:
                if self.lib.is_opaque(t):
                    val = Opaque(t.id)
                elif self.is_record(t):
                    loc = self.new_obj(t)
                    self.statics[name] = loc
                    return loc
                else:
                    val = self.havoc_value(ty, 'static')
                    if 'kwiver_logger' in t.id and isinstance(val, z3.ExprRef) and v.get('i') is not None:
                        self.assume(val != 0)       # a logger obtained once from get_logger, which never returns null (trusted), and never assigned again
            if isinstance(val, ObjLoc):
                loc = val
            else:
                loc = self.new_cell(t, val, 'static')
            self.statics[name] = loc
        if isinstance(loc, VarLoc) and loc.cid not in self.st.cells:
            pass
        return loc

    def truth(self, v):
        if isinstance(v, Loc):
            v = self.read(v)
        if isinstance(v, z3.ExprRef):
            if v.sort() == BOOL:
                return v
            if v.sort() in (INT, REAL):
                return v != 0
            if z3.is_bv(v):
                return v != 0
        if isinstance(v, (PtrTo, StrLit, FnRef, Lambda)):
            return z3.BoolVal(True)
        if isinstance(v, Opaque):
            return self.fresh('opaque', BOOL)
        raise Unsupported('truth of %r' % (v,))

    def cond(self, e):
        """decide a branch condition, short-circuiting at the top"""
        if e['k'] == 'Binary' and e['op'] == '&&':
            return self.cond(e['a']) and self.cond(e['b'])
        if e['k'] == 'Binary' and e['op'] == '||':
            return self.cond(e['a']) or self.cond(e['b'])
        if e['k'] == 'Unary' and e['op'] == '!':
            return not self.cond(e['e'])
        return self.decide(self.truth(self.rv(e)))

    def s_If(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        if self.cond(s['cond']):
            self.stmt(s['then'])
        elif s.get('else'):
            self.stmt(s['else'])

    def s_Return(self, s):
        if 'e' not in s:
            raise ReturnEx(None)
        rty = self.prog.ty(self.frame.decl['ret'])
        v = self.ev(s['e'])
        if not rty.is_ref() and isinstance(v, Loc) and not self.is_record(rty):
            v = self.read(v)
        raise ReturnEx(v)

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContinueEx()

    def s_Label(self, s):
        self.stmt(s['s'])

    def s_Case(self, s):
        self.stmt(s['s'])

    def s_Default(self, s):
        self.stmt(s['s'])

    def s_Switch(self, s):
        if s.get('cv'):
            self.declare(s['cv'])
        v = self.rv(s['cond'])
        body = s['body']['c'] if s['body']['k'] == 'Compound' else [s['body']]
        # flatten labels: list of (labels, stmt)
        flat = []
        for x in body:
            labels = []
            while x and x['k'] in ('Case', 'Default'):
                labels.append(int(x['v']) if x['k'] == 'Case' else 'default')
                x = x['s']
            flat.append((labels, x))
        target = None
        dflt = None
        for i, (labels, x) in enumerate(flat):
            for l in labels:
                if l == 'default':
                    dflt = i
                elif target is None and self.decide(v == l):
                    target = i
        if target is None:
            target = dflt
        if target is None:
            return
        try:
            for labels, x in flat[target:]:
                self.stmt(x)
        except BreakEx:
            pass

    def s_Try(self, s):
        try:
            self.stmt(s['body'])
        except CppThrow as t:
            for h in s['h']:
                if 't' not in h:
                    self.handle(h, t, None)
                    return
                ht = self.prog.ty(h['t'])
                hcls = (ht.elem if ht.is_ref() else ht).id
                if self.exc_matches(t.ty, hcls) or self.prog.is_base_of(hcls, t.ty):
                    self.handle(h, t, ht)
                    return
                # an exception of an unknown / more general static type may match
                if self.prog.is_base_of(t.ty, hcls):
                    if self.choose('catch'):
                        self.handle(h, t, ht)
                        return
            raise

    def handle(self, h, t, ht):
        if h.get('id') is not None and h.get('n', '') != '':
            ty = ht.elem if ht.is_ref() else ht
            if t.loc is not None:
                loc = t.loc
            elif self.is_record(ty):
                loc = self.new_obj(ty)
            else:
                loc = self.new_cell(ty, Opaque(ty.id))
            if isinstance(loc, ObjLoc) and self.is_record(ty):
                loc = ObjLoc(loc.ref, ty)
            self.frame.env[self.vkey(h['id'])] = loc
        self.cur_exc = t
        try:
            self.stmt(h['body'])
        finally:
            self.cur_exc = None

    # ------------------------------------------------------------------ loops
    def s_While(self, s):
        self.loop(s, lambda: self.loop_cond(s), s['body'], None)

    def loop_cond(self, s):
        if s.get('cv'):
            self.declare(s['cv'])
        if s.get('cond') is None:
            return True
        return self.cond(s['cond'])

    def s_For(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        self.loop(s, lambda: self.loop_cond(s), s['body'], s.get('inc'))

    def s_Do(self, s):
        c = s['cond']
        if c['k'] == 'Bool' and not c['v'] or c.get('cv') == '0' or (c['k'] == 'Cast' and c['e'].get('v') in ('0', False)):
            try:
                self.stmt(s['body'])
            except (BreakEx, ContinueEx):
                pass
            return
        # first iteration, then an ordinary loop
        try:
            self.stmt(s['body'])
        except ContinueEx:
            pass
        except BreakEx:
            return
        self.loop(s, lambda: self.loop_cond(s), s['body'], None)

    def s_ForRange(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        self.stmt(s['range'])
        self.stmt(s['begin'])
        self.stmt(s['end'])
        body = {'k': 'Compound', 'l': s['l'], 'c': [s['var'], s['body']]}
        self.loop(s, lambda: self.loop_cond(s), body, s['inc'])

    def guard_literal(self, s):
        """value of the guard if it is literally true/false now (no side effects), else None"""
        e = s.get('cond')
        if e is None:
            return None
        if e['k'] == 'Bool' or (e['k'] == 'Cast' and 'cv' in e) or e['k'] == 'Int':
            return None
        snap = self.st.copy()
        mark = len(self.obls)
        dpos, nscript = self.dpos, len(self.script)
        lastw = dict(pc=list(self.pc), pcset=dict(self.pcset), wf=dict(self.wf), sc=self.symcount, cc=self.cellcount)
        class Probe(Exception):
            pass
        old = self.decide

        def probe(cond):
            if isinstance(cond, bool):
                return cond
            c = simp(cond)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            raise Probe()
        self.decide = probe
        try:
            r = self.loop_cond(s)
        except Probe:
            r = None
        finally:
            del self.decide
        self.st = snap
        del self.obls[mark:]
        self.pc, self.pcset, self.wf = lastw['pc'], lastw['pcset'], lastw['wf']
        self.symcount, self.cellcount = lastw['sc'], lastw['cc']
        return r

    def loop(self, s, guard, body, inc):
        key = (tuple(self.cstack), self.frame.fn['key'], s['l'], id(s))
        info = self.loopinfo.setdefault((self.topkey, key), LoopInfo(key))
        if not info.cut:
            n = 0
            while True:
                g = self.guard_literal(s)
                if g is None:
                    info.cut = True
                    if n > 0:
                        raise Restart()
                    break
                if n >= self.top.unroll:
                    info.cut = True
                    raise Restart()
                n += 1
                if not guard():
                    return
                try:
                    self.stmt(body)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
                if inc:
                    self.ev(inc)
        # --- cut loop
        entry = self.st.copy()
        fresh_at_entry = dict(self.fresh_refs)
        lc = LoopCtx(self, info, entry, self.topctx)
        lc.node = s
        lc.fn = self.frame.fn['key']
        for d, data in sorted(info.mods.items(), key=lambda kv: str(kv[0])):
            if d[0] == 'cell':
                if data.cid in entry.cells:
                    lc.vars.append((data.cid, data))
            else:
                fl = self.mod_loc(d, data)
                if fl is not None:
                    lc.vars.append(('%s@%s' % (d[1], data[1]), fl))
        lc.heapmods = [d[1] for d in info.mods if d[0] != 'cell']
        self.note_limit(s.get('cond'))
        cands = [(n, f) for n, f in self.candidates(lc) if n not in info.dead]
        names = set()
        for n, f in cands:
            if n in names:
                continue
            names.add(n)
            t = self.cand(f)
            if t is None:
                info.dead[n] = 'not expressible'
                self.dirty = True
                continue
            self.oblige('loop invariant "%s" holds on entry' % n, 'inv-entry', t, s['l'], soft=(info, n))
        # havoc
        sym0 = self.symcount
        for d, data in info.mods.items():
            if d[0] == 'cell':
                if data.cid in self.st.cells:
                    self.st.cells[data.cid] = self.havoc_value(data.ty, 'L' + data.cid.split('#')[0], entry.cells[data.cid])
        next_entry = self.st.next
        if any(d[0] == 'hfresh' for d in info.mods) or info.mods:
            nx = self.fresh('next', INT)
            self.assume(nx <= next_entry)
            self.st.next = nx
        keys = {}
        for d, data in info.mods.items():
            if d[0] != 'cell':
                keys.setdefault(d[1], []).append((d, data))
        for k, ds in keys.items():
            h = self.hmap(k, None) if k in self.st.heap or k in self.h0 else None
            if h is None:
                continue
            vs = h.sort().range()
            if all(d[0] == 'heap' for d, _ in ds):
                nh = h
                for d, (kk, ref) in ds:
                    v = self.fresh('Lh', vs)
                    nh = z3.Store(nh, ref, v)
                self.st.heap[k] = nh
            else:
                nh = self.fresh('LH[%s]' % k, h.sort())
                if not any(d[0] == 'hall' for d, _ in ds):
                    r = z3.Int('r!lh')
                    ex = [r != ref for d, (kk, ref) in ds if d[0] == 'heap']
                    self.assume(z3.ForAll([r], Implies(And([r > next_entry] + ex), z3.Select(nh, r) == z3.Select(h, r)), patterns=[z3.Select(nh, r)]))
                self.st.heap[k] = nh
        heap0 = dict(self.st.heap)
        alive = []
        for n, f in cands:
            if n in info.dead:
                continue
            t = self.cand(f)
            if t is not None:
                self.assume(t)
                alive.append((n, f))
        L = {'info': info, 'entry': entry, 'fresh': set(), 'sym0': sym0, 'fresh_at_entry': fresh_at_entry}
        self.loopstack.append(L)
        if not guard():
            self.loopstack.pop()
            return
        try:
            try:
                self.stmt(body)
            except ContinueEx:
                pass
            if inc:
                self.ev(inc)
        except BreakEx:
            self.loopstack.remove(L)
            return
        except (ReturnEx, CppThrow):
            self.loopstack.remove(L)
            raise
        # whatever changed counts as changed, also when a library model wrote it without saying so
        for k, h in self.st.heap.items():
            b = heap0.get(k, self.h0.get(k))
            if b is not None and not b.eq(h) and not any(d[0] != 'cell' and d[1] == k for d in info.mods):
                info.mods[('hall', k)] = (k, z3.IntVal(0))
                self.dirty = True
        for n, f in alive:
            t = self.cand(f)
            if t is None:
                info.dead[n] = 'not expressible'
                self.dirty = True
                continue
            self.oblige('loop invariant "%s" is preserved' % n, 'inv-pres', t, s['l'], soft=(info, n))
        self.reach.append(list(self.pc))
        raise PathEnd()

    def mod_loc(self, d, data):
        key, ref = data
        if d[0] != 'heap' or '::' not in key:
            return None
        cls, f = key.rsplit('::', 1)
        if cls not in self.prog.records:
            return None
        t = self.prog.field_type(cls, f)
        if t is None:
            return None
        return FieldLoc(ObjLoc(ref, self.prog.ty(cls)), cls, f, self.prog.ty(t))

    def cand(self, f):
        sv = self.ghost
        self.ghost = True
        try:
            t = f()
            if isinstance(t, bool):
                t = z3.BoolVal(t)
            return t
        except (Unsupported, z3.Z3Exception, AttributeError, TypeError):
            if self.opts.get('trace'):
                traceback.print_exc()
            return None
        finally:
            self.ghost = sv

    def candidates(self, lc):
        out = []
        X = self
        # iterators stay within their container, integers between entry value and guard bound
        for name, loc in lc.vars:
            v0 = lc.at_entry(loc)
            if isinstance(v0, Iter):
                out.append(('bounds(%s)' % name, lambda loc=loc: X.iter_bounds(X.read(loc))))
                out.append(('entry<=%s' % name, lambda loc=loc, v0=v0: X.read(loc).idx >= v0.idx))
            elif hasattr(v0, 'cur_ok'):
                out.append(('bounds(%s)' % name, lambda loc=loc: X.read(loc).cur_ok()))
                out.append(('entry<=%s' % name, lambda loc=loc, v0=v0: X.read(loc).idx >= v0.idx))
            elif isinstance(v0, PtrTo) and isinstance(v0.loc, ElemLoc):
                out.append(('entry<=*%s' % name, lambda loc=loc, v0=v0: X.read(loc).loc.idx >= v0.loc.idx))
            elif isinstance(v0, z3.ExprRef) and v0.sort() == INT and not loc.ty.is_ptr() and not X.lib.is_sptr(loc.ty):
                out.append(('entry<=%s' % name, lambda loc=loc, v0=v0: X.read(loc) >= v0))
                out.append(('entry>=%s' % name, lambda loc=loc, v0=v0: X.read(loc) <= v0))
                if loc.ty.is_int():
                    lo, hi = loc.ty.range()
        g = lc.node.get('cond')
        for i, (n, f) in enumerate(self.guard_bounds(g)):
            out.append(('guard%d:%s' % (i, n), f))
        if self.top.loops:
            for n, f in self.top.loops(lc):
                out.append((n, f))
        return out

    def guard_bounds(self, g):
        out = []
        if not g:
            return out
        if g['k'] == 'Binary' and g['op'] in ('&&',):
            return self.guard_bounds(g['a']) + self.guard_bounds(g['b'])
        if g['k'] == 'Binary' and g['op'] in ('<', '!=', '>', '<=', '>='):
            fr = self.frame

            def mk(op):
                def f():
                    sv = self.frame
                    self.frame = fr
                    try:
                        a, b = self.rv(g['a']), self.rv(g['b'])
                    finally:
                        self.frame = sv
                    if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef) or a.sort() not in (INT,):
                        raise Unsupported('guard')
                    return a <= b if op == '<=' else a >= b
                return f
            if g['op'] in ('<', '!='):
                out.append(('<=', mk('<=')))
            if g['op'] in ('>', '!='):
                out.append(('>=', mk('>=')))
            if g['op'] == '<=':
                def f():
                    sv = self.frame
                    self.frame = fr
                    try:
                        a, b = self.rv(g['a']), self.rv(g['b'])
                    finally:
                        self.frame = sv
                    return a <= b + 1
                out.append(('<=+1', f))
            if g['op'] == '>=':
                def f():
                    sv = self.frame
                    self.frame = fr
                    try:
                        a, b = self.rv(g['a']), self.rv(g['b'])
                    finally:
                        self.frame = sv
                    return a >= b - 1
                out.append(('>=-1', f))
        return out

    def note_limit(self, g):
        """remember which value bounds the counter of a loop of the form counter < limit"""
        if not g or g['k'] != 'Binary':
            return
        if g['op'] == '&&':
            self.note_limit(g['a'])
            self.note_limit(g['b'])
            return
        if g['op'] not in ('<', '!=', '>'):
            return
        a, b = (g['b'], g['a']) if g['op'] == '>' else (g['a'], g['b'])
        while a['k'] == 'Cast' and isinstance(a.get('e'), dict):
            a = a['e']
        if a['k'] != 'Ref':
            return
        sv = self.ghost
        self.ghost = True
        try:
            l, v = self.ev(a), self.rv(b)
            if isinstance(l, VarLoc) and isinstance(v, z3.ExprRef):
                self.limits[l.cid] = simp(v)
        except (Unsupported, z3.Z3Exception, AttributeError, TypeError, KeyError):
            pass
        finally:
            self.ghost = sv

    def cont_size(self, it):
        return self.lib.cont_size(self, it)

    def iter_bounds(self, it):
        return And(0 <= it.idx, it.idx <= self.lib.cont_size(self, it))

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        """value of a prvalue, Loc of a glvalue (record prvalues are temp ObjLocs)"""
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s (line %s)' % (e.get('w', k), e.get('l')))
        if 'cv' in e and k not in ('Int', 'Call'):
            ty = self.prog.ty(e['t'])
            if ty.is_int():
                return self.intval(int(e['cv']), ty)
            if ty.is_bool():
                return z3.BoolVal(e['cv'] not in ('0', 'false'))
        return m(e)

    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, ObjLoc):
            return v
        if isinstance(v, Loc):
            return self.read(v)
        return v

    def intval(self, n, ty):
        lo, hi = ty.range()
        if n > hi:
            n -= 1 << ty.bits()
        if n < lo:
            n += 1 << ty.bits()
        return z3.IntVal(n)

    def e_Int(self, e):
        ty = self.prog.ty(e['t'])
        if ty.is_bool():
            return z3.BoolVal(e['v'] != '0')
        return self.intval(int(e.get('cv', e['v'])), ty)

    def e_Bool(self, e):
        return z3.BoolVal(e['v'])

    def e_Float(self, e):
        return z3.RealVal(Fraction(repr(float.fromhex(e['hex']))))

    def e_Str(self, e):
        return StrLit(e['v'])

    def e_Null(self, e):
        return z3.IntVal(0)

    def e_ZeroInit(self, e):
        ty = self.prog.ty(e['t'])
        if self.is_record(ty):
            o = self.new_obj(ty)
            self.default_init(o, ty.id, True)
            return o
        return self.zero(ty)

    def e_SizeOf(self, e):
        raise Unsupported('sizeof')

    def e_Trait(self, e):
        raise Unsupported('type trait')

    def e_This(self, e):
        t = self.frame.this
        return t.ref if isinstance(t, ObjLoc) else PtrTo(t)

    def e_Ref(self, e):
        if 'fn' in e:
            return FnRef(e['fn'])
        key = self.vkey(e['id'])
        if key in self.frame.env:
            return self.frame.env[key]
        if e.get('sl'):
            return self.static_loc('%d:static#%d' % (self.frame.fn['tu'], e['id']), self.prog.ty(e['t']),
                                   self.prog.globals['%d:static#%d' % (self.frame.fn['tu'], e['id'])])
        if 'g' in e:
            return self.global_loc(e['g'], e)
        raise Unsupported('unbound variable ' + e['n'])

    def global_loc(self, name, e):
        loc = self.statics.get(name)
        if loc is None:
            g = self.prog.globals.get(name, {})
            t = self.prog.ty(g.get('t', e['t']))
            val = self.lib.global_value(self, name, t)
            if val is None and t.const or t.k == 'ref':
                if g.get('i') is not None:
                    fr = Frame({'tu': g['tu'], 'key': 'global ' + name}, {'ret': 'void'})
                    sv = getattr(self, 'frame', None)
                    self.frame = fr
                    try:
                        if t.k == 'arr':
                            val = self.array_init(g['i'], t)
                        else:
                            val = self.ev(g['i'])
                    finally:
                        self.frame = sv
            if isinstance(val, Loc):
                loc = val
            else:
                if val is None:
                    if self.is_record(t):
                        loc = self.new_obj(t)
                        self.statics[name] = loc
                        return loc
                    if self.lib.is_opaque(t):
                        val = Opaque(t.id)
                    else:
                        val = self.havoc_value(t, 'global')
                loc = self.new_cell(t, val, 'global')
            self.statics[name] = loc
        return loc

    def e_Temp(self, e):
        v = self.ev(e['e'])
        if isinstance(v, Loc):
            return v
        return self.new_cell(self.prog.ty(e['t']), v, 'tmp')

    def e_Member(self, e):
        if 'fn' in e:
            raise Unsupported('member function reference')
        b = self.ev(e['base'])
        if e['arrow']:
            pt = self.prog.ty(e['base']['t'])
            b = self.deref(self.read(b) if isinstance(b, Loc) and not isinstance(b, ObjLoc) else b, pt.elem, e['l'])
        if isinstance(b, PairLoc):
            return b.first if e['n'] == 'first' else b.second
        lt = self.prog.ty(e['cls'])
        if not self.is_record(lt):
            return self.lib.member(self, b, lt, e['n'], e)
        if not isinstance(b, Loc):
            b = self.new_cell(lt, b, 'tmp')
        if isinstance(b, ObjLoc):
            return FieldLoc(b, e['cls'], e['n'], self.prog.ty(self.prog.field_type(e['cls'], e['n'])))
        return FieldLoc(b, e['cls'], e['n'], self.prog.ty(self.prog.field_type(e['cls'], e['n'])))

    def e_Index(self, e):
        b = self.ev(e['b'])
        i = self.rv(e['i'])
        bt = self.prog.ty(e['b']['t'])
        if bt.k == 'arr':
            return self.arr_elem(b, i, bt, e['l'])
        if isinstance(b, Loc):
            b = self.read(b)
        if isinstance(b, (PtrTo, z3.ExprRef, StrLit)) or hasattr(b, 'advance'):
            p = self.ptr_add(b, i, bt.elem)
            return self.deref(p, bt.elem, e['l'])
        raise Unsupported('index')

    def arr_elem(self, b, i, bt, line):
        if 0 < bt.d['n'] <= 8 and isinstance(i, z3.ExprRef):
            i = simp(i)
            if not is_lit(i):
                for k in range(bt.d['n']):
                    if self.known(i == k):
                        i = z3.IntVal(k)
                        break
        if bt.d['n'] >= 0:
            self.oblige('array index out of bounds', 'safety', And(i >= 0, i < bt.d['n']), line)
        return ElemLoc(b, i, bt.elem, 'arr')

    def ptr_add(self, p, i, ety):
        if isinstance(p, PtrTo):
            l = p.loc
            if isinstance(l, ElemLoc):
                return PtrTo(ElemLoc(l.base, simp(l.idx + i), l.ty, l.kind))
            if is_lit(i) and i.as_long() == 0:
                return p
            raise Unsupported('pointer arithmetic on a scalar')
        if isinstance(p, StrLit):
            return PtrTo(ElemLoc(self.lit_cell(p), i, ety, 'arr'))
        if isinstance(p, Iter):
            return p.with_idx(simp(p.idx + i))
        if hasattr(p, 'advance'):
            return p.advance(i)
        if self.is_record(ety):
            raise Unsupported('pointer arithmetic on records')
        n = ety.size() if not ety.is_void() else 1
        return p + i * n

    def lit_cell(self, s):
        a = z3.K(INT, z3.IntVal(0))
        for i, x in enumerate(s.data):
            a = z3.Store(a, z3.IntVal(i), z3.IntVal(x if x < 128 else x - 256))
        return self.new_cell(self.prog.ty('char [lit]'), a, 'lit')

    # ---- casts
    def e_Cast(self, e):
        ck = e['ck']
        ty = self.prog.ty(e['t'])
        if ck == 'LValueToRValue':
            v = self.ev(e['e'])
            if isinstance(v, ObjLoc):
                return v
            return self.read(v)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'LValueBitCast', 'Dependent'):
            v = self.ev(e['e'])
            if ck == 'ArrayToPointerDecay':
                if isinstance(v, StrLit):
                    return v
                at = self.prog.ty(e['e']['t'])
                if isinstance(v, Loc):
                    return PtrTo(ElemLoc(v, z3.IntVal(0), at.elem, 'arr'))
            return v
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            v = self.ev(e['e'])
            t = ty.elem if ty.is_ptr() or ty.is_ref() else ty
            if isinstance(v, ObjLoc):
                return ObjLoc(v.ref, t)
            if isinstance(v, FieldLoc) or isinstance(v, ElemLoc):
                if t.is_rec() and not t.root() or self.lib.is_sptr(t):
                    return v
                return self.cast_embedded(v, t)
            return v
        if ck == 'IntegralCast':
            v = self.rv(e['e'])
            return self.int_cast(v, self.prog.ty(e['e']['t']), ty)
        if ck == 'IntegralToBoolean' or ck == 'PointerToBoolean' or ck == 'FloatingToBoolean':
            return self.truth(self.rv(e['e']))
        if ck == 'IntegralToFloating':
            v = self.rv(e['e'])
            if v.sort() == BOOL:
                return If(v, z3.RealVal(1), z3.RealVal(0))
            return z3.ToReal(v) if not is_lit(v) else z3.RealVal(v.as_long())
        if ck == 'FloatingToIntegral':
            v = self.rv(e['e'])
            r = If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            lo, hi = ty.range()
            self.oblige('floating point value outside the integer range', 'overflow', And(r >= lo, r <= hi), e['l'])
            return r
        if ck == 'FloatingCast':
            return self.rv(e['e'])
        if ck == 'BooleanToSignedIntegral':
            v = self.rv(e['e'])
            return If(v, z3.IntVal(-1), z3.IntVal(0))
        if ck == 'NullToPointer':
            return z3.IntVal(0)
        if ck == 'BitCast':
            return self.rv(e['e'])
        if ck == 'ToVoid':
            self.ev(e['e'])
            return None
        if ck == 'Dynamic':
            return self.dyn_cast(self.rv(e['e']), e, ty)
        if ck == 'PointerToIntegral' or ck == 'IntegralToPointer':
            return self.rv(e['e'])
        raise Unsupported('cast ' + ck)

    def cast_embedded(self, v, t):
        raise Unsupported('base of embedded record')

    def dyn_cast(self, v, e, ty):
        if not isinstance(v, z3.ExprRef):
            raise Unsupported('dynamic_cast')
        f = z3.Function('is<%s>' % ty.elem.id, INT, BOOL)
        ok = f(v)
        d = self.dyn.get(simp(v).get_id())
        if d is not None:
            ok = z3.BoolVal(self.prog.is_base_of(ty.elem.id, d[1].id))
        if ty.is_ref():
            raise Unsupported('dynamic_cast to reference')
        return If(And(v != 0, ok), v, z3.IntVal(0))

    def int_cast(self, v, f, t):
        if isinstance(v, z3.ExprRef) and v.sort() == BOOL:
            return If(v, z3.IntVal(1), z3.IntVal(0))
        if t.is_bool():
            return self.truth(v)
        if not isinstance(v, z3.ExprRef):
            return v
        lo, hi = t.range()
        if f.is_int():
            flo, fhi = f.range()
            if flo >= lo and fhi <= hi:
                return v
        return self.wrap(v, t)

    def wrap(self, v, t):
        """value of v converted to integer type t (modulo 2^n)"""
        lo, hi = t.range()
        s = simp(v)
        if z3.is_int_value(s):
            return self.intval(s.as_long() % (1 << t.bits()), t)
        m = 1 << t.bits()
        if self.known(And(v >= lo, v <= hi)):
            return s
        if t.signed():
            return If(And(v >= lo, v <= hi), v, (v - lo) % m + lo)
        return If(And(v >= 0, v <= hi), v, v % m)

    def known(self, cond):
        """cheap linear arithmetic check whether cond follows from the simple facts of the path"""
        try:
            cs = consts_of(cond)
        except Exception:
            return False
        rel = [f for f in self.pc[-400:] if is_arith(f) and (consts_of(f) & cs)]
        more = set(cs)
        for f in rel:
            more |= consts_of(f)
        if len(rel) < 60:
            have = {f.get_id() for f in rel}
            rel += [f for f in self.pc[-400:] if f.get_id() not in have and is_arith(f) and (consts_of(f) & more)][:200]
        s = z3.Solver()
        s.set('rlimit', 300000)
        for f in rel:
            s.add(f)
        s.add(Not(cond))
        return s.check() == z3.unsat

    # ---- operators
    def arith(self, op, a, b, ty, line):
        if isinstance(a, z3.ExprRef) and a.sort() == BOOL and ty.is_int():
            a = If(a, z3.IntVal(1), z3.IntVal(0))
        if isinstance(b, z3.ExprRef) and b.sort() == BOOL and ty.is_int():
            b = If(b, z3.IntVal(1), z3.IntVal(0))
        if ty.is_float():
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                return self.lib.real_div(self, a, b, line)
            raise Unsupported('float op ' + op)
        if op in ('+', '-', '*'):
            r = a + b if op == '+' else a - b if op == '-' else a * b
            return self.norm(r, ty, line)
        if op in ('/', '%'):
            self.oblige('division by zero', 'safety', b != 0, line)
            q = If(a >= 0, If(b > 0, a / b, -(a / -b)), If(b > 0, -(-a / b), (-a) / (-b))) if ty.signed() else a / b
            if op == '/':
                return q
            return a - b * q if ty.signed() else a % b
        if op in ('<<', '>>', '&', '|', '^'):
            return self.bitop(op, a, b, ty, line)
        raise Unsupported('operator ' + op)

    def bitop(self, op, a, b, ty, line):
        a_, b_ = simp(a), simp(b)
        if z3.is_int_value(a_) and z3.is_int_value(b_):
            x, y = a_.as_long(), b_.as_long()
            r = x << y if op == '<<' else x >> y if op == '>>' else x & y if op == '&' else x | y if op == '|' else x ^ y
            return self.wrap(z3.IntVal(r), ty)
        if op == '<<' and z3.is_int_value(b_):
            return self.norm(a * (1 << b_.as_long()), ty, line)
        if op == '>>' and z3.is_int_value(b_):
            return a / (1 << b_.as_long())
        if op == '&' and z3.is_int_value(b_) and ((b_.as_long() + 1) & b_.as_long()) == 0:
            return a % (b_.as_long() + 1)
        n = ty.bits()
        if op in ('&', '|', '^'):
            x, y = z3.Int2BV(a, n), z3.Int2BV(b, n)
            r = x & y if op == '&' else x | y if op == '|' else x ^ y
            return z3.BV2Int(r, ty.signed())
        raise Unsupported('bit operator ' + op)

    def norm(self, r, ty, line):
        if ty.signed():
            lo, hi = ty.range()
            if self.top.opts.get('overflow'):
                self.oblige('signed integer overflow', 'overflow', And(r >= lo, r <= hi), line)
            return simp(r)
        return self.wrap(r, ty)

    def cmp(self, op, a, b):
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if op == '<':
            return a < b
        if op == '>':
            return a > b
        if op == '<=':
            return a <= b
        return a >= b

    def e_Unary(self, e):
        op = e['op']
        ty = self.prog.ty(e['t'])
        if op == '!':
            return Not(self.truth(self.rv(e['e'])))
        if op == '*':
            v = self.rv(e['e'])
            if isinstance(v, (FnRef, Lambda)):
                return v
            return self.deref(v, ty, e['l'])
        if op == '&':
            v = self.ev(e['e'])
            if isinstance(v, FnRef):
                return v
            if isinstance(v, ObjLoc):
                return v.ref
            if isinstance(v, MemLoc):
                return v.addr
            if isinstance(v, BoxLoc):
                return v.ref
            return PtrTo(v)
        if op == '-':
            v = self.rv(e['e'])
            if ty.is_float():
                return -v
            return self.norm(-v, ty, e['l'])
        if op == '+':
            return self.rv(e['e'])
        if op == '~':
            v = self.rv(e['e'])
            return self.wrap(-v - 1, ty)
        if op in ('++', '--'):
            loc = self.ev(e['e'])
            old = self.read(loc)
            lt = self.prog.ty(e['e']['t'])
            d = 1 if op == '++' else -1
            if lt.is_ptr():
                new = self.ptr_add(old, z3.IntVal(d), lt.elem)
            elif lt.is_float():
                new = old + d
            else:
                new = self.norm(old + d, lt, e['l'])
            self.write(loc, new)
            return old if e['post'] else loc
        if op == '__extension__':
            return self.ev(e['e'])
        raise Unsupported('unary ' + op)

    def e_Binary(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op == '=':
            v = self.rv(e['b'])
            loc = self.ev(e['a'])
            self.write(loc, v)
            return loc
        if op in ('&&', '||'):
            a = self.truth(self.rv(e['a']))
            if self.pure(e['b']):
                b = self.eval_under(a if op == '&&' else Not(a), lambda: self.truth(self.rv(e['b'])))
                return And(a, b) if op == '&&' else Or(a, b)
            if op == '&&':
                if not self.decide(a):
                    return z3.BoolVal(False)
                return self.truth(self.rv(e['b']))
            if self.decide(a):
                return z3.BoolVal(True)
            return self.truth(self.rv(e['b']))
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        at, bt = self.prog.ty(e['a']['t']), self.prog.ty(e['b']['t'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if at.is_ptr() or bt.is_ptr():
                return self.ptr_cmp(op, a, b)
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                if a.sort() == BOOL and b.sort() != BOOL:
                    a = If(a, z3.IntVal(1), z3.IntVal(0))
                if b.sort() == BOOL and a.sort() != BOOL:
                    b = If(b, z3.IntVal(1), z3.IntVal(0))
                if a.sort() == BOOL and op not in ('==', '!='):
                    a = If(a, z3.IntVal(1), z3.IntVal(0))
                    b = If(b, z3.IntVal(1), z3.IntVal(0))
                return self.cmp(op, a, b)
            raise Unsupported('comparison')
        ty = self.prog.ty(e['t'])
        if at.is_ptr() and op in ('+', '-') and not bt.is_ptr():
            return self.ptr_add(a, b if op == '+' else -b, at.elem)
        if bt.is_ptr() and op == '+':
            return self.ptr_add(b, a, bt.elem)
        if at.is_ptr() and bt.is_ptr() and op == '-':
            return self.ptr_diff(a, b, at.elem)
        return self.arith(op, a, b, ty, e['l'])

    def ptr_diff(self, a, b, ety):
        if isinstance(a, PtrTo) and isinstance(b, PtrTo) and isinstance(a.loc, ElemLoc) and isinstance(b.loc, ElemLoc):
            return simp(a.loc.idx - b.loc.idx)
        if isinstance(a, Iter) and isinstance(b, Iter):
            return simp(a.idx - b.idx)
        n = ety.size()
        return a - b if n == 1 else (a - b) / n

    def ptr_cmp(self, op, a, b):
        if isinstance(a, PtrTo) and isinstance(b, PtrTo):
            if isinstance(a.loc, ElemLoc) and isinstance(b.loc, ElemLoc):
                return self.cmp(op, a.loc.idx, b.loc.idx)
            if op in ('==', '!='):
                same = a.loc is b.loc or (isinstance(a.loc, VarLoc) and isinstance(b.loc, VarLoc) and a.loc.cid == b.loc.cid)
                return z3.BoolVal(same == (op == '=='))
        if isinstance(a, Iter) and isinstance(b, Iter):
            return self.cmp(op, a.idx, b.idx)
        if (isinstance(a, (PtrTo, StrLit, Iter)) or hasattr(a, 'nonnull')) and isinstance(b, z3.ExprRef):
            return z3.BoolVal(op == '!=')
        if (isinstance(b, (PtrTo, StrLit, Iter)) or hasattr(b, 'nonnull')) and isinstance(a, z3.ExprRef):
            return z3.BoolVal(op == '!=')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.fresh('opaque', BOOL)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return self.cmp(op, a, b)
        raise Unsupported('pointer comparison')

    PURE = {'Ref', 'Int', 'Bool', 'Float', 'Null', 'This', 'Str', 'ZeroInit'}

    def pure(self, e):
        """syntactically free of side effects and of exceptions"""
        k = e['k']
        if k in self.PURE:
            return True
        if k in ('Cast', 'Temp'):
            return self.pure(e['e'])
        if k == 'Member':
            return 'base' in e and self.pure(e['base'])
        if k == 'Unary':
            return e['op'] in ('!', '-', '+', '~', '*', '&') and self.pure(e['e'])
        if k == 'Binary':
            return e['op'] not in ('=', ',') and self.pure(e['a']) and self.pure(e['b'])
        if k == 'Cond':
            return self.pure(e['c']) and self.pure(e['a']) and self.pure(e['b'])
        if k == 'Index':
            return self.pure(e['b']) and self.pure(e['i'])
        if k == 'Call' and 'fn' in e:
            if not all(self.pure(a) for a in e['a']):
                return False
            if 'obj' in e and not self.pure(e['obj']):
                return False
            d = self.prog.decls[e['fn']]
            c = self.contract_for(e['fn'])
            if c is not None and not c.inline:
                return c.value is not None and not c.throws and not c.modifies
            if self.lib.is_pure(d):
                return True
            f = self.prog.functions.get(e['fn'])
            if f and not d.get('virtual'):
                b = f['body']
                if b and b['k'] == 'Compound' and len(b['c']) == 1 and b['c'][0]['k'] == 'Return' and 'e' in b['c'][0]:
                    return self.pure(b['c'][0]['e'])
        if k == 'Construct' and len(e['a']) == 1 and self.lib.is_value(self.prog.ty(e['t'])):
            return self.pure(e['a'][0])
        return False

    def eval_under(self, cond, f):
        """evaluate a pure expression with cond assumed for its side obligations"""
        c = simp(cond)
        if z3.is_true(c):
            return f()
        pc, pcset, wf = list(self.pc), dict(self.pcset), dict(self.wf)
        self.assume(cond)
        try:
            r = f()
        finally:
            # facts learnt under cond are kept as implications
            extra = [x for x in self.pc[len(pc):] if not x.eq(cond)]
            self.pc, self.pcset, self.wf = pc, pcset, wf
        for x in extra:
            if not has_quant(x):
                self.assume(Implies(cond, x))
        return r

    def e_CompoundAssign(self, e):
        op = e['op'][:-1]
        b = self.rv(e['b'])
        loc = self.ev(e['a'])
        a = self.read(loc)
        lt = self.prog.ty(e['a']['t'])
        if lt.is_ptr():
            self.write(loc, self.ptr_add(a, b if op == '+' else -b, lt.elem))
            return loc
        ct = self.prog.ty(e['ct'])
        bt = self.prog.ty(e['b']['t'])
        a2 = self.convert(a, lt, ct)
        if op in ('<<', '>>'):
            r = self.arith(op, a2, b, ct, e['l'])
        else:
            r = self.arith(op, a2, self.convert(b, bt, ct), ct, e['l'])
        self.write(loc, self.convert(r, self.prog.ty(e['crt']), lt))
        return loc

    def convert(self, v, f, t):
        if f.id == t.id:
            return v
        if t.is_float() and (f.is_int() or f.is_bool()):
            if v.sort() == BOOL:
                return If(v, z3.RealVal(1), z3.RealVal(0))
            return z3.ToReal(v)
        if t.is_int() and f.is_float():
            return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if t.is_int():
            return self.int_cast(v, f, t)
        if t.is_bool():
            return self.truth(v)
        return v

    def e_Cond(self, e):
        c = self.truth(self.rv(e['c']))
        ty = self.prog.ty(e['t'])
        cs = simp(c)
        if not z3.is_true(cs) and not z3.is_false(cs) and self.pure(e['a']) and self.pure(e['b']) and not e['lv'] \
                and (ty.is_int() or ty.is_bool() or ty.is_float()):
            a = self.eval_under(c, lambda: self.rv(e['a']))
            b = self.eval_under(Not(c), lambda: self.rv(e['b']))
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
                return If(c, a, b)
        if self.decide(c):
            return self.ev(e['a'])
        return self.ev(e['b'])

    def e_StdInitList(self, e):
        return self.ev(e['e'])

    def e_InitList(self, e):
        ty = self.prog.ty(e['t'])
        if self.is_record(ty):
            o = self.new_obj(ty)
            fs = self.prog.records[ty.id]['fields']
            for f, x in zip(fs, e['a']):
                self.init_loc(self.fld(o, f['n']), x)
            return o
        if ty.k == 'arr':
            return InitListVal([self.rv(x) for x in e['a']])
        if len(e['a']) == 1:
            return self.ev(e['a'][0])
        if not e['a']:
            return self.zero(ty)
        raise Unsupported('initialiser list of ' + ty.id)

    def e_Lambda(self, e):
        env = {}
        this = None
        for c in e['cap']:
            if c.get('this'):
                this = self.frame.this
            elif 'id' in c:
                loc = self.frame.env.get(self.vkey(c['id']))
                if loc is None:
                    raise Unsupported('lambda capture')
                if not c['ref']:
                    v = self.read(loc)
                    if isinstance(loc, ObjLoc):
                        n = self.new_obj(loc.ty)
                        self.unpack(n, loc)
                        loc = n
                    else:
                        loc = self.new_cell(loc.ty, v, c['n'])
                env[self.vkey(c['id'])] = loc
        return Lambda(e['fn'], env, this)

    def e_Typeid(self, e):
        return Opaque('typeid')

    def e_Throw(self, e):
        if self.top is not None and getattr(self.top, 'opaque', None):
            self.st.heap['ghost:raised'] = z3.Store(self.hmap('ghost:raised', BOOL), z3.IntVal(0), z3.BoolVal(True))
        if 'e' not in e:
            t = getattr(self, 'cur_exc', None)
            if t is None:
                raise Unsupported('rethrow outside handler')
            raise t
        ty = self.prog.ty(e['et'])
        loc = None
        x = e['e']
        # constructor arguments are evaluated, the exception's constructor itself is not
        # executed when it lives outside the repository's contracts (it only formats text)
        try:
            cc = x
            while cc['k'] in ('Cast', 'Temp') or (cc['k'] == 'Construct' and cc.get('elid') and len(cc['a']) == 1):
                cc = cc['e'] if 'e' in cc else cc['a'][0]
            if cc['k'] == 'Construct':
                d = self.prog.decls[cc['fn']]
                self.eval_args(d, cc['a'])
            elif cc['k'] not in ('Ref',):
                self.ev(cc)
        except CppThrow:
            raise
        if self.is_record(ty):
            loc = self.new_obj(ty)
        self.assumed.add('exception constructor of %s does not throw' % ty.id.split('::')[-1])
        raise CppThrow(ty.id, loc)

    def e_New(self, e):
        ty = self.prog.ty(e['at'])
        if e.get('pl'):
            raise Unsupported('placement new')
        if e['arr']:
            n = self.rv(e['n'])
            return self.alloc_array(ty, n, e)
        if self.is_record(ty):
            o = self.new_obj(ty)
            if e.get('i'):
                self.construct_into(e['i'], o)
            return o.ref
        if ty.k == 'rec':
            r = self.new_ref()
            b = BoxLoc(r, ty, 'box<%s>' % ty.id)
            v = self.rv(e['i']) if e.get('i') else self.lib.default(self, ty)
            if v is not None:
                self.write(b, v)
            return r
        a = self.alloc_bytes(z3.IntVal(ty.size()), e)
        if e.get('i'):
            self.write(MemLoc(a, ty), self.rv(e['i']))
        return a

    def alloc_array(self, ty, n, e):
        if self.is_record(ty) or ty.k == 'rec':
            raise Unsupported('new of record array')
        self.oblige('negative array size', 'safety', n >= 0, e['l'])
        return self.alloc_bytes(n * ty.size(), e)

    def alloc_bytes(self, n, e):
        """fresh block of n bytes: an address range disjoint from every valid byte"""
        a = self.fresh('blk', INT)
        self.assume(a > 0)
        v = self.hmap('valid', BOOL)
        i = z3.Int('i!al')
        self.assume(z3.ForAll([i], Implies(And(a <= i, i < a + n), Not(z3.Select(v, i))), patterns=[z3.Select(v, i)]))
        nv = self.fresh('valid', v.sort())
        self.assume(z3.ForAll([i], z3.Select(nv, i) == Or(z3.Select(v, i), And(a <= i, i < a + n)), patterns=[z3.Select(nv, i)]))
        self.note_write(('heap', 'valid', a.get_id()), ('valid', a))
        self.st.heap['valid'] = nv
        self.blocks = getattr(self, 'blocks', [])
        return a

    def e_Delete(self, e):
        v = self.rv(e['e'])
        self.lib.delete(self, v, e)
        return None

    # ---- calls
    def eval_args(self, d, nodes):
        out = []
        ps = d['params']
        for i, a in enumerate(nodes):
            pt = self.prog.ty(ps[i]) if i < len(ps) else None
            v = self.ev(a)
            if pt is not None and pt.is_ref():
                if not isinstance(v, Loc):
                    v = self.new_cell(pt.elem, v, 'arg')
            elif isinstance(v, Loc) and not isinstance(v, ObjLoc):
                v = self.read(v)
            out.append(v)
        return out

    def e_Construct(self, e):
        ty = self.prog.ty(e['t'])
        if ty.k == 'arr':
            raise Unsupported('array construct')
        if self.is_record(ty):
            d = self.prog.decls[e['fn']]
            if e.get('elid') and len(e['a']) == 1 and (d.get('copy') or d.get('move')):
                v = self.ev(e['a'][0])
                if isinstance(v, ObjLoc) and v.ty.id == ty.id:
                    return v
                if isinstance(v, z3.ExprRef):
                    o = self.new_obj(ty)
                    self.unpack(o, v)
                    return o
                o = self.new_obj(ty)
                self.unpack(o, v)
                return o
            o = self.new_obj(ty)
            self.do_construct(e, o)
            return o
        r = self.records_lambda(ty)
        if r:
            return self.rv(e['a'][0])
        return self.lib.construct(self, e, ty)

    def records_lambda(self, ty):
        r = self.prog.records.get(ty.id)
        return bool(r and r.get('lambda'))

    def e_Call(self, e):
        if 'fn' not in e:
            f = self.rv(e['callee'])
            return self.call_value(f, e['a'], e)
        key = e['fn']
        d = self.prog.decls[key]
        if d.get('conv') and 'obj' in e:
            pass
        if 'obj' in e:
            o = self.ev(e['obj'])
            if e['arrow']:
                pt = self.prog.ty(e['obj']['t'])
                o = self.read(o) if isinstance(o, Loc) and not isinstance(o, ObjLoc) else o
                o = self.deref_obj(o, pt.elem, e['l'])
            nodes = e['a']
        elif e.get('opm'):
            o = self.ev(e['a'][0])
            nodes = e['a'][1:]
        else:
            o = None
            nodes = e['a']
        if o is not None and isinstance(o, Lambda):
            return self.call_value(o, nodes, e)
        if o is not None and d.get('cls') and self.records_lambda(self.prog.ty(d['cls'])):
            return self.call_value(self.read(o), nodes, e)
        h = self.lib.handler(d)
        if h is not None and self.contract_for(key) is None:
            return h(self, LibCall(self, e, d, o, nodes))
        if o is not None and not isinstance(o, Loc):
            o = self.new_cell(self.prog.ty(d['cls']), o, 'tmp')
        args = self.eval_args(d, nodes)
        return self.invoke(key, o, args, e)

    def deref_obj(self, p, ty, line):
        return self.deref(p, ty, line)

    def call_value(self, f, nodes, e):
        if isinstance(f, Lambda):
            d = self.prog.decls[f.fn]
            args = self.eval_args(d, nodes)
            return self.call_lambda(f, args, e)
        if isinstance(f, FnRef):
            d = self.prog.decls[f.key]
            h = self.lib.handler(d)
            if h is not None:
                return h(self, LibCall(self, e, d, None, nodes))
            return self.invoke(f.key, None, self.eval_args(d, nodes), e)
        cb = self.top.opts.get('calls')
        if cb is not None and isinstance(f, z3.ExprRef):
            # callback: an arbitrary function, described by the contract under verification
            vals = []
            for n in nodes:
                v = self.ev(n)
                vals.append(self.read(v) if isinstance(v, Loc) else v)
            return cb(self, f, vals, e)
        raise Unsupported('call through a value')

    def call_lambda(self, f, args, e):
        fn = self.prog.functions.get(f.fn)
        if fn is None:
            raise Unsupported('lambda body')
        return self.inline(f.fn, fn, f.this, args, e, env=f.env)

    def call_pred(self, f, args, e):
        """call a callable value (lambda, function, functor object) with evaluated args"""
        if isinstance(f, Lambda):
            return self.call_lambda(f, args, e)
        if isinstance(f, FnRef):
            d = self.prog.decls[f.key]
            h = self.lib.handler_vals(d)
            if h is not None:
                return h(self, args)
            return self.invoke(f.key, None, args, e)
        if callable(f):
            return f(*args)
        if isinstance(f, ObjLoc):
            for k in self.prog.find(f.ty.q + '::operator()'):
                if self.prog.decls[k]['cls'] == f.ty.id:
                    return self.invoke(k, f, args, e)
        raise Unsupported('callable')

    def invoke(self, key, this, args, e, ctor=False):
        """call with evaluated arguments"""
        d = self.prog.decls[key]
        line = e.get('l', 0)
        if d.get('virtual') and (e.get('vcall', False)) and isinstance(this, ObjLoc):
            key2 = self.devirt(key, d, this)
            if key2 is not None:
                key, d = key2, self.prog.decls[key2]
        elif d.get('virtual') and d.get('dtor'):
            return None
        if d.get('dtor'):
            return None
        if self.top is not None and getattr(self.top, 'opaque', None):
            how = self.top.opaque(self, key, d)
            if how:
                return self.opaque_effect(d, this, args, ctor, how == 'nothrow')
        c = self.contract_for(key)
        if c is not None and not c.inline and not (self.topkey == key and self.depth == 0 and False):
            return self.apply_contract(c, key, d, this, args, e, ctor)
        h = self.lib.handler_vals(d)
        if h is not None:
            return h(self, ([this] if this is not None else []) + args)
        if (d.get('copyasg') or d.get('moveasg')) and (d.get('defaulted') or d.get('implicit')):
            self.write(this, args[0])
            return this
        if d.get('virtual') and e.get('vcall') and not self.final_ok(d, this):
            raise Unsupported('virtual call to %s without a contract' % d['q'])
        fn = self.prog.functions.get(key)
        if fn is None:
            raise Unsupported('no contract, model or body for %s' % key)
        self.inlined.add(key)
        return self.inline(key, fn, this, args, e, ctor=ctor)

    def final_ok(self, d, this):
        if isinstance(this, ObjLoc):
            if simp(this.ref).get_id() in self.dyn:
                return True
            # `this` of the function under verification: only if nothing overrides the function
        if not isinstance(this, ObjLoc):
            return True
        # no override of it in the loaded program (closed world over the loaded units)
        key = None
        for k, x in self.prog.decls.items():
            if x is d:
                key = k
        for k, x in self.prog.decls.items():
            if key in x.get('overrides', []):
                return False
        self.assumed.add('%s is not overridden outside the repository' % d['q'])
        return not d.get('pure')

    def devirt(self, key, d, this):
        dy = self.dyn.get(simp(this.ref).get_id())
        if dy is None:
            return None
        cls = dy[1].id
        return self.find_override(key, cls)

    def find_override(self, key, cls):
        if self.prog.decls[key].get('cls') == cls:
            return key
        for k, x in self.prog.decls.items():
            if x.get('cls') == cls and key in self.all_overrides(k):
                return k
        for b in self.prog.bases(cls):
            r = self.find_override(key, b)
            if r:
                return r
        return None

    def all_overrides(self, k):
        out = set()
        for o in self.prog.decls[k].get('overrides', []):
            out.add(o)
            out |= self.all_overrides(o)
        return out

    def inline(self, key, fn, this, args, e, ctor=False, env=None):
        if self.depth > 25:
            raise Unsupported('inlining too deep (recursion?): ' + key)
        d = self.prog.decls[key]
        fr = Frame(fn, d, this)
        if env:
            fr.env.update(env)
        for p, a in zip(fn['params'], args):
            ty = self.prog.ty(p['t'])
            if ty.is_ref():
                if not isinstance(a, Loc):
                    a = self.new_cell(ty.elem, a, p['n'])
                loc = a
            elif self.is_record(ty):
                if isinstance(a, ObjLoc):
                    # by-value record: callers pass a fresh temporary; copy to be safe
                    if simp(a.ref).get_id() in self.fresh_refs:
                        loc = a
                    else:
                        loc = self.new_obj(ty)
                        self.unpack(loc, a)
                else:
                    loc = self.new_obj(ty)
                    self.unpack(loc, a)
            else:
                loc = self.new_cell(ty, self.read(a) if isinstance(a, Loc) else a, p['n'])
            fr.env[(fn['tu'], p['id'])] = loc
        self.depth += 1
        self.cstack.append(key + '@%s' % e.get('l'))
        save = self.frame
        try:
            if ctor:
                self.exec_ctor_body(fr, fn, d)
            else:
                self.exec_body(fr, fn)
            return None
        except ReturnEx as r:
            v = r.val
            rty = self.prog.ty(d['ret'])
            return v
        finally:
            self.frame = save
            self.depth -= 1
            self.cstack.pop()

    def apply_contract(self, c, key, d, this, args, e, ctor):
        line = e.get('l', 0)
        self.used_contracts.add((c.name, c.trusted))
        if self.ghost and not c.value:
            raise Unsupported('contract call in ghost evaluation')
        pre = self.st.copy()
        # reference arguments must be locations
        cx = Ctx(self, c, d, this, args, pre)
        cx.verifying = False
        cx.line = line
        if c.axioms:
            for a in c.axioms(cx):
                self.assume(a)
        if c.requires and not self.ghost:
            for n, t in self.items(c.requires(cx)):
                self.oblige('precondition "%s" of %s' % (n, c.name.split('::')[-1]), 'requires', t, line)
        throws = c.throws(cx) if c.throws else {}
        for cls, cond in throws.items():
            if isinstance(cond, tuple):
                t = And(cond[1], self.fresh('throws', BOOL))
            else:
                t = cond
            if self.decide(t):
                self.havoc_mods(c, cx)
                cx._post = self.st.copy()
                if c.exc_ensures:
                    cx.exc = CppThrow(cls)
                    for n, f in self.items(c.exc_ensures(cx)):
                        self.assume(f)
                ex = self.resolve_exc(cls)
                raise CppThrow(ex, None)
        for k, h in self.st.heap.items():
            pre.heap.setdefault(k, h)
        rty = self.prog.ty(d['ret'])
        if c.allocates:
            old = self.st.next
            nx = self.fresh('next', INT)
            self.assume(nx < old)
            self.st.next = nx
        self.havoc_mods(c, cx)
        res = None
        if c.value:
            res = c.value(cx)
        elif c.result_shape:
            res = c.result_shape(cx)
        elif ctor:
            res = None
        elif not rty.is_void():
            if c.fresh_result:
                res = self.fresh('new', INT)
                self.assume(And(res <= old, res > nx))
                self.fresh_refs[res.get_id()] = res
            elif rty.is_ref():
                if self.is_record(rty.elem):
                    r = self.fresh('ret', INT)
                    self.assume(r != 0)
                    self.assume(r > self.st.next)
                    res = ObjLoc(r, rty.elem)
                else:
                    res = self.new_cell(rty.elem, self.havoc_value(rty.elem, 'ret'), 'ret')
            elif self.is_record(rty):
                res = self.new_obj(rty)
            else:
                res = self.havoc_value(rty, 'ret')
        cx.result = res
        cx._post = self.st.copy()
        if c.sets:
            for n, loc, t in c.sets(cx):
                self.write(loc, t)
            cx._post = self.st.copy()
        if c.post_axioms:
            for a in c.post_axioms(cx):
                self.assume(a)
        if c.ensures:
            for n, t in self.items(c.ensures(cx)):
                if n not in c.hide:
                    self.assume(t)
        # heap maps first mentioned by the contract
        for st in (pre, cx._post):
            for k, h in st.heap.items():
                self.st.heap.setdefault(k, h)
        return res

    def opaque_effect(self, d, this, args, ctor, nothrow=False):
        """a call of which nothing is known: it may raise any exception, change every object except those in the protected heap maps, and return anything"""
        keep = list(self.top.opts['keeps']) + ['ghost:raised']
        raised = not nothrow and self.choose('raises')
        for k in list(self.st.heap):
            if any(k == p or p.endswith('*') and k.startswith(p[:-1]) for p in keep):
                continue
            self.st.heap[k] = self.fresh('M[%s]' % k, self.st.heap[k].sort())
            for L in self.loopstack:
                if ('hall', k) not in L['info'].mods:
                    L['info'].mods[('hall', k)] = (k, z3.IntVal(0))
                    self.dirty = True
        for p, a in zip(d['params'], args):
            t = self.prog.ty(p)
            if t.is_ref() and not t.elem.id.startswith('const ') and isinstance(a, Loc) and not isinstance(a, ObjLoc):
                try:
                    self.write(a, self.havoc_value(t.elem, 'out'))
                except Unsupported:
                    pass
        if raised:
            rz = self.hmap('ghost:raised', BOOL)
            self.st.heap['ghost:raised'] = z3.Store(rz, z3.IntVal(0), z3.BoolVal(True))
            kinds = self.top.opts['raises']
            for k in kinds[:-1]:
                if self.choose('raises ' + k):
                    raise CppThrow(k, None)
            raise CppThrow(kinds[-1], None)
        rty = self.prog.ty(d['ret'])
        if ctor or rty.is_void():
            return None
        if rty.is_ref():
            if self.is_record(rty.elem):
                r = self.fresh('ret', INT)
                self.assume(And(r != 0, r > self.st.next))
                return ObjLoc(r, rty.elem)
            return self.new_cell(rty.elem, self.havoc_value(rty.elem, 'ret'), 'ret')
        if self.is_record(rty):
            return self.new_obj(rty)
        return self.havoc_value(rty, 'ret')

    def resolve_exc(self, cls):
        if cls in self.prog.records or cls in self.prog.types:
            return cls
        for k in self.prog.records:
            if k.split('::')[-1] == cls:
                return k
        return cls

    def havoc_mods(self, c, cx):
        if not c.modifies:
            return
        for m in c.modifies(cx):
            if isinstance(m, str):
                if m.endswith('*'):
                    raise Unsupported('wildcard frame at call site')
                h = self.st.heap.get(m, self.h0.get(m))
                if h is None:
                    continue
                nh = self.fresh('M[%s]' % m, h.sort())
                self.st.heap[m] = nh
                for L in self.loopstack:
                    if ('hall', m) not in L['info'].mods:
                        L['info'].mods[('hall', m)] = (m, z3.IntVal(0))
                        self.dirty = True
            else:
                self.havoc(m, 'm')


class BoxLoc(Loc):
    """library value object on the heap (e.g. *shared_ptr<std::string>)"""
    def __init__(self, ref, ty, key):
        self.ref, self.ty, self.key = ref, ty, key


_old_read, _old_write = Executor.read, Executor.write


def _read(self, loc):
    if isinstance(loc, BoxLoc):
        h = self.hmap(loc.key, self.sort(loc.ty))
        t = select(h, loc.ref)
        self.ref_fact(t, loc.ty)
        return self.lib.from_term(self, loc.ty, t)
    return _old_read(self, loc)


def _write(self, loc, v):
    if isinstance(loc, BoxLoc):
        if self.ghost:
            raise Unsupported('write in ghost evaluation')
        self.write_heap(loc.key, loc.ref, self.to_term(v, loc.ty), self.sort(loc.ty))
        return
    return _old_write(self, loc, v)


Executor.read, Executor.write = _read, _write


class LibCall:
    def __init__(self, X, e, d, o, nodes):
        self.X, self.e, self.d, self.o, self.nodes = X, e, d, o, nodes
        self.line = e.get('l', 0)
        self._args = None

    @property
    def args(self):
        if self._args is None:
            self._args = self.X.eval_args(self.d, self.nodes)
        return self._args

    def val(self, i):
        a = self.args[i]
        return self.X.read(a) if isinstance(a, Loc) else a

    @property
    def obj(self):
        """value of the object"""
        return self.X.read(self.o) if isinstance(self.o, Loc) else self.o

    @property
    def rty(self):
        return self.X.prog.ty(self.d['ret'])

    @property
    def cty(self):
        return self.X.prog.ty(self.d['cls'])

    def set(self, v):
        self.X.write(self.o, v)
