"""Trusted models of library types and functions (std, boost, logging).

Everything in this directory is an assumption of the proofs: the contracts of
the C++ standard library, boost and Eigen as used by the repository.
"""
import z3
from ..engine import *
from ..engine import _At

HANDLERS = {}
PURE = set()
PREFIX = []


def lib(*names, pure=False):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
            if pure:
                PURE.add(n)
        return f
    return deco


VEC = {'std::vector', 'std::list'}     # lists: only the ends, size and emptiness
SET = {'std::set'}
MAP = {'std::map'}
STRQ = {'std::basic_string'}
SPTR = {'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'boost::shared_ptr', 'std::__shared_ptr_access',
        'std::enable_shared_from_this', 'std::weak_ptr'}
ITER = {'__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::reverse_iterator',
        'std::back_insert_iterator', 'std::insert_iterator'}
OPAQUE_PREFIX = ('std::basic_ostream', 'std::basic_istream', 'std::basic_stringstream', 'std::basic_ostringstream',
                 'std::basic_istringstream', 'std::basic_ios', 'std::ios_base', 'std::basic_iostream', 'std::basic_ifstream', 'std::basic_ofstream',
                 'std::locale', 'std::type_info', 'std::basic_filebuf', 'std::function', 'std::exception', 'boost::', 'std::mutex', 'std::lock_guard')


CHAR = z3.Function('char_at', STR, INT, INT)     # the (signed) character of a string at an index


class Lib:
    link_chars = False
    char_writes = False

    def __init__(self, extra=None):
        self.h = dict(HANDLERS)
        self.pure = set(PURE)
        self.globals = {}
        self.opaque_types = set()
        self.ref_types = set()
        self.const_statics = set()     # static objects of these classes are what their initialiser makes them
        if extra:
            self.h.update(extra)

    # ------------------------------------------------------------------ types
    def is_string(self, ty):
        return ty.k == 'rec' and ty.q in STRQ

    def is_sptr(self, ty):
        return ty.k == 'rec' and ty.q in SPTR

    def is_vec(self, ty):
        return ty.k == 'rec' and ty.q in VEC

    def is_value(self, ty):
        return ty.k == 'rec' and (not ty.root() or ty.id in self.opaque_types) and ty.q not in self.ref_types

    def is_opaque(self, ty):
        return ty.k == 'rec' and (ty.q.startswith(OPAQUE_PREFIX) or ty.id in self.opaque_types)

    def is_const_static(self, ty):
        return ty.k == 'rec' and ty.q in self.const_statics

    def sort(self, X, ty):
        q = ty.q
        if q in STRQ:
            return STR
        if q in SPTR:
            return INT
        if q in VEC:
            return vec_sort(X.sort(ty.arg(0)))
        if q in SET:
            return z3.ArraySort(X.sort(ty.arg(0)), BOOL)
        if q in MAP:
            return map_sort(X.sort(ty.arg(0)), X.sort(ty.arg(1)))
        if q == 'std::pair':
            return pair_sort(X.sort(ty.arg(0)), X.sort(ty.arg(1)))
        if q == 'std::allocator' or q == 'std::less':
            return z3.DeclareSort('Unit')
        from . import eigen, sparse
        if q in sparse.NAMES:
            return sparse.it_sort()
        s = eigen.sort(X, ty)
        if s is not None:
            return s
        return None

    def from_term(self, X, ty, t):
        if ty.k == 'rec' and not isinstance(t, MatVal):
            from . import eigen
            if eigen.is_mat(ty):
                return eigen.unpack(X, ty, t)
            if self.sort(X, ty) is None and self.is_opaque(ty):
                return Opaque(ty.id)
        return t

    def to_term(self, X, ty, v):
        if isinstance(v, MatVal):
            from . import eigen
            return eigen.pack(X, ty, v)
        if isinstance(v, StrLit):
            if ty.is_rec():
                return self.litstr(v)
            raise Unsupported('string literal stored as pointer')
        if isinstance(v, Opaque):
            return X.fresh('opaque', X.sort(ty))
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if v is None:
            return X.fresh('uninit', X.sort(ty))
        raise Unsupported('value %s stored in memory' % type(v).__name__)

    def litstr(self, s):
        return z3.StringVal(''.join(chr(b) if 32 <= b < 127 and b != 92 else '\\u{%x}' % b for b in s.data))

    def havoc(self, X, ty, name):
        if ty.k == 'rec':
            from . import eigen
            if eigen.is_mat(ty):
                return eigen.havoc(X, ty, name)
            if self.is_opaque(ty):
                return Opaque(ty.id)
            if ty.q in ITER:
                raise Unsupported('iterator of unknown container')
        return None

    def wf_facts(self, X, ty, t):
        q = ty.q
        if q in VEC:
            return [vlen(t) >= 0]
        if q in SPTR:
            return []
        if q == 'Eigen::Matrix' and isinstance(t, z3.ExprRef) and t.sort().name().startswith('Vec<'):
            return [vlen(t) >= 0]
        return []

    def default(self, X, ty):
        """value of default initialisation; None when indeterminate"""
        if ty.k != 'rec':
            return None
        q = ty.q
        if q in STRQ:
            return z3.StringVal('')
        if q in SPTR:
            return z3.IntVal(0)
        if q in VEC:
            s = X.sort(ty)
            return vmk(s, z3.IntVal(0), X.fresh('data', s.accessor(0, 1).range()))
        if q in SET:
            return z3.K(X.sort(ty.arg(0)), z3.BoolVal(False))
        if q in MAP:
            s = X.sort(ty)
            return s.constructor(0)(z3.K(s.accessor(0, 0).range().domain(), z3.BoolVal(False)), X.fresh('mval', s.accessor(0, 1).range()))
        from . import eigen
        if eigen.is_mat(ty):
            return eigen.havoc(X, ty, 'uninit')
        if self.is_opaque(ty):
            return Opaque(ty.id)
        if q == 'std::pair':
            a, b = self.default(X, ty.arg(0)), self.default(X, ty.arg(1))
            s = X.sort(ty)
            return s.constructor(0)(X.to_term(a if a is not None else X.zero(ty.arg(0)), ty.arg(0)), X.to_term(b if b is not None else X.zero(ty.arg(1)), ty.arg(1)))
        return None

    def array_default(self, X, ty):
        return None

    def zero_array(self, X, ety):
        return z3.K(INT, X.to_term(X.zero(ety), ety))

    def global_value(self, X, name, ty):
        f = self.globals.get(name)
        if f:
            return f(X)
        if name in ('std::cerr', 'std::cout', 'std::clog'):
            return Opaque(name)
        if name.startswith('std::placeholders::_'):
            return Placeholder(int(name.rsplit('_', 1)[1]))
        return None

    # ------------------------------------------------------------------ dispatch
    def handler(self, d):
        q = d['q']
        h = self.h.get(q)
        if h:
            return h
        if d.get('cls'):
            n = q.rsplit('::', 1)[1]
            cq = q.rsplit('::', 1)[0]
            h = self.h.get(cq + '::*')
            if h:
                return h
            for p in OPAQUE_PREFIX:
                if cq.startswith(p) and not d.get('root'):
                    return opaque_call
        for p, f in PREFIX:
            if q.startswith(p):
                return f
        return None

    def handler_vals(self, d):
        h = self.handler(d)
        if h is None:
            return None

        def f(X, args):
            e = {'l': X.line}
            c = LibCall(X, e, d, args[0] if d.get('cls') and not d.get('static') else None, [])
            c._args = args[1:] if d.get('cls') and not d.get('static') else args
            return h(X, c)
        return f

    def is_pure(self, d):
        return d['q'] in self.pure

    # ------------------------------------------------------------------ strings
    def lit_chars(self, s):
        """characters of a literal, None for other terms"""
        s = simp(s)
        if not z3.is_string_value(s):
            return None
        b = [ord(x) for x in s.as_string()]
        if any(x > 126 or x < 32 or x == 92 for x in b):
            return None
        return b

    def str_char(self, X, s, i):
        lit = self.lit_chars(s)
        i0 = simp(i)
        if lit is not None and z3.is_int_value(i0) and 0 <= i0.as_long() < len(lit):
            return z3.IntVal(lit[i0.as_long()])
        c = CHAR(s, i)
        if not X.ghost:
            X.assume(And(c >= -128, c <= 127))
            if self.link_chars:
                u = z3.StrToCode(z3.SubString(s, i, 1))
                X.assume(Implies(And(0 <= i, i < z3.Length(s)), And(u >= 0, u <= 255, c == If(u > 127, u - 256, u))))
        return c

    def str_set(self, X, s, i, v):
        if self.char_writes:
            r = X.fresh('text', STR)
            j = z3.Int('j!wr')
            X.assume(And(z3.Length(r) == z3.Length(s), CHAR(r, i) == v))
            for k, x in enumerate(self.lit_chars(s) or []):
                X.assume(Implies(i != k, CHAR(r, k) == x))
            X.assume(z3.ForAll([j], Implies(j != i, CHAR(r, j) == CHAR(s, j)), patterns=[CHAR(r, j)]))
            return r
        return z3.Concat(z3.SubString(s, 0, i), self.char_str(v), z3.SubString(s, i + 1, z3.Length(s)))

    def char_str(self, v):
        v = simp(v)
        if z3.is_int_value(v):
            n = v.as_long() % 256
            return z3.StringVal('\\u{%x}' % n) if not (32 <= n < 127) or n == 92 else z3.StringVal(chr(n))
        return z3.StrFromCode(If(v < 0, v + 256, v))

    def as_string(self, X, v):
        """string term of a value that converts to std::string"""
        if isinstance(v, StrLit):
            return self.litstr(v)
        if isinstance(v, Loc):
            v = X.read(v)
            return self.as_string(X, v)
        if isinstance(v, CStr):
            return v.s if v.off is None else z3.SubString(v.s, v.off, z3.Length(v.s) - v.off)
        if isinstance(v, z3.ExprRef) and v.sort() == STR:
            return v
        if isinstance(v, z3.ExprRef) and v.sort() == INT:
            return self.cstring_at(X, v)
        if isinstance(v, PtrTo) and isinstance(v.loc, ElemLoc):
            return self.cstring_buf(X, v)
        if isinstance(v, Opaque):
            return X.fresh('text', STR)
        raise Unsupported('conversion to string')

    def cstring_at(self, X, p):
        """NUL terminated string at an unknown address: a function of the address"""
        f = z3.Function('cstr', INT, STR)
        return f(p)

    def cstring_buf(self, X, v):
        b = X.read(v.loc.base)
        if isinstance(b, StrLit) and z3.is_int_value(simp(v.loc.idx)):
            return self.litstr(StrLit(b.data[simp(v.loc.idx).as_long():]))
        arr = X.read_raw(v.loc.base)
        if v.loc.kind != 'arr' or not isinstance(arr, z3.ExprRef) or not z3.is_array(arr):
            raise Unsupported('string from local buffer')
        t = z3.Function('text of buffer', arr.sort(), INT, STR)(arr, v.loc.idx)     # up to the terminating NUL
        X.assume(Implies(z3.Select(arr, v.loc.idx) == 0, t == z3.StringVal('')))
        return t

    # ------------------------------------------------------------------ containers
    def cont_size(self, X, it):
        v = X.read_raw(it.cont)
        return self.size_of(X, v)

    def size_of(self, X, v):
        s = v.sort()
        if s == STR:
            return z3.Length(v)
        if s.kind() == z3.Z3_ARRAY_SORT:
            return self.card(X, v)
        if s.name().startswith('Vec<'):
            return vlen(v)
        if s.name().startswith('Map<'):
            return self.card(X, mdom(v))
        raise Unsupported('size')

    def card(self, X, s):
        n = set_card(s)
        if not X.ghost:
            k = ('card', s.get_id())
            if k not in X.wf:
                X.wf[k] = s
                for f in set_axioms(s):
                    X.assume(f)
        return n

    def iter_deref(self, X, it, line=0):
        v = X.read_raw(it.cont)
        s = v.sort()
        ct = it.cont.ty
        ct = ct.elem if ct.is_ref() else ct
        idx = it.idx
        if it.rev:
            idx = simp(self.size_of(X, v) - 1 - idx)
        if s == STR:
            if not X.ghost:
                X.oblige('dereference of an iterator outside its container', 'safety', And(idx >= 0, idx < z3.Length(v)), line)
            return ElemLoc(it.cont, idx, X.prog.ty('char'), 'str')
        if s.kind() == z3.Z3_DATATYPE_SORT and s.name().startswith('Vec<'):
            if not X.ghost:
                X.oblige('dereference of an iterator outside its container', 'safety', And(idx >= 0, idx < vlen(v)), line)
            return ElemLoc(it.cont, idx, ct.arg(0), 'vec')
        if s.kind() == z3.Z3_ARRAY_SORT:
            if it.key is not None:
                if not X.ghost:
                    X.oblige('dereference of an iterator outside its container', 'safety', it.found, line)
                return X.new_cell(ct.arg(0), it.key, 'key')
            n = self.card(X, v)
            if not X.ghost:
                X.oblige('dereference of an iterator outside its container', 'safety', And(idx >= 0, idx < n), line)
            k = set_key(v, idx)
            X.assume(Implies(And(idx >= 0, idx < n), z3.Select(v, k)))
            return X.new_cell(ct.arg(0), self.from_term(X, ct.arg(0), k), 'key') if not X.ghost else k
        if s.name().startswith('Map<'):
            if it.key is not None:
                if not X.ghost:
                    X.oblige('dereference of an iterator outside its container', 'safety', it.found, line)
                k = it.key
            else:
                n = self.card(X, mdom(v))
                if not X.ghost:
                    X.oblige('dereference of an iterator outside its container', 'safety', And(idx >= 0, idx < n), line)
                k = set_key(mdom(v), idx)
                X.assume(Implies(And(idx >= 0, idx < n), z3.Select(mdom(v), k)))
            return PairLoc(X.new_cell(ct.arg(0), k, 'key'), MapValLoc(it.cont, k, ct.arg(1)), X.prog.ty('pair?'))
        raise Unsupported('iterator')

    def member(self, X, b, lt, name, e):
        if lt.q == 'std::pair':
            v = X.read(b) if isinstance(b, Loc) else b
            if isinstance(v, PairVal):
                return v.first if name == 'first' else v.second
            i = 0 if name == 'first' else 1
            if isinstance(b, Loc):
                return PairFieldLoc(b, i, lt.arg(i))
            return self.from_term(X, lt.arg(i), acc(v.sort(), i, v))
        raise Unsupported('member %s of %s' % (name, lt.id))

    def make_pair(self, X, ty, a, b):
        return PairVal(a, b)

    def mat_get(self, X, m, i, j):
        from . import eigen
        return eigen.mat_get(X, m, i, j)

    def mat_set(self, X, m, i, j, v):
        from . import eigen
        return eigen.mat_set(X, m, i, j, v)

    def real_div(self, X, a, b, line):
        return a / b

    def delete(self, X, v, e):
        pass

    def construct(self, X, e, ty):
        q = ty.q
        from . import eigen
        if eigen.is_eigen(ty) and q + '::(ctor)' not in self.h:
            return eigen.construct(X, e, ty)
        d = X.prog.decls[e['fn']]
        nodes = e['a']
        h = self.h.get(q + '::(ctor)')
        if h is not None:
            return h(X, LibCall(X, e, d, None, nodes))
        if q in SPTR or q in STRQ or q in VEC or q in SET or q in MAP or q == 'std::pair' or q in ITER:
            args = [X.ev(a) for a in nodes]
            return self.construct_std(X, q, ty, d, args, e)
        if self.is_opaque(ty):
            for a in nodes:
                X.ev(a)
            return Opaque(ty.id)
        if len(nodes) == 1 and (d.get('copy') or d.get('move')):
            v = X.ev(nodes[0])
            return X.read(v) if isinstance(v, Loc) else v
        if not nodes and q in ('std::allocator', 'std::less', 'std::random_access_iterator_tag'):
            return Opaque(q)
        if not nodes and q.startswith('std::'):
            return Opaque(q)
        raise Unsupported('construction of ' + ty.id)

    def construct_std(self, X, q, ty, d, args, e):
        def rd(a):
            return X.read(a) if isinstance(a, Loc) and not isinstance(a, ObjLoc) else a
        n = len(args)
        if n == 0:
            if q in ITER:
                return Opaque('singular iterator')
            return self.default(X, ty)
        if n == 1 and (d.get('copy') or d.get('move')):
            return rd(args[0])
        if q in SPTR:
            v = rd(args[0])
            if isinstance(v, StrLit):
                raise Unsupported('sptr')
            if isinstance(v, ObjLoc):
                v = v.ref
            if isinstance(v, Opaque):
                return v
            return v
        if q in STRQ:
            pt = X.prog.ty(d['params'][0])
            a0 = args[0]
            if n >= 1 and not (pt.is_int()):
                v = rd(a0)
                if isinstance(v, Iter):
                    b = rd(args[1])
                    s = X.read_raw(v.cont)
                    return self.iter_range_str(X, v, b)
                if isinstance(v, CStr) and n >= 2 and pt.is_ptr() or (isinstance(v, CStr) and n >= 2 and isinstance(rd(args[1]), CStr)):
                    b = rd(args[1])
                    if isinstance(b, CStr):
                        if not b.s.eq(v.s):
                            raise Unsupported('string from pointers into different texts')
                        X.oblige('string constructed from a range outside its source', 'safety', And(v.idx >= 0, v.idx <= b.idx, b.idx <= z3.Length(v.s)), e['l'])
                        return z3.SubString(v.s, v.idx, b.idx - v.idx)
                s = self.as_string(X, v)
                ps = [X.prog.ty(p) for p in d['params']]
                if len(ps) >= 2 and ps[1].is_int():
                    k = rd(args[1])
                    if ps[0].is_ptr():
                        if isinstance(v, CStr) and v.off is not None:
                            X.oblige('string constructed from a range outside its source', 'safety', And(v.off >= 0, k >= 0, v.off + k <= z3.Length(v.s)), e['l'])
                            return z3.SubString(v.s, v.off, k)
                        X.oblige('string constructed from a range outside its source', 'safety', And(k >= 0, k <= z3.Length(s)), e['l'])
                        return z3.SubString(s, 0, k)
                    if len(ps) >= 3 and ps[2].is_int():
                        X.oblige_throw_if(k > z3.Length(s), 'std::out_of_range')
                        return z3.SubString(s, k, rd(args[2]))
                    return z3.SubString(s, k, z3.Length(s))
                return s
            # (count, char)
            k, ch = rd(args[0]), rd(args[1])
            r = X.fresh('rep', STR)
            X.assume(z3.Length(r) == k)
            i = z3.Int('i!rep')
            X.assume(z3.ForAll([i], Implies(And(0 <= i, i < k), z3.SubString(r, i, 1) == self.char_str(ch))))
            return r
        if q in VEC:
            s = X.sort(ty)
            et = ty.arg(0)
            pt = X.prog.ty(d['params'][0])
            v = rd(args[0])
            if pt.is_int():
                cnt = v
                if len(d['params']) >= 2 and not X.prog.ty(d['params'][1]).unref().q.startswith('std::allocator'):
                    val = X.to_term(rd(args[1]) if not isinstance(args[1], ObjLoc) else X.pack(args[1]), et)
                else:
                    z = self.default(X, et)
                    if z is None:
                        z = X.zero(et) if not X.is_record(et) else None
                    if z is None:
                        raise Unsupported('vector of default constructed records')
                    val = X.to_term(z, et)
                return vmk(s, cnt, z3.K(INT, val))
            if is_addr(v) and pt.is_ptr() and len(args) >= 2:
                b = rd(args[1])
                key = getattr(X, 'viewed_as', {}).get(v.get_id()) or X.mem_key(pt.elem)
                sz = pt.elem.size()
                X.oblige('range ends before it starts', 'safety', b >= v, e['l'])
                live(X, e['l'], 'copied elements', v, b - v)
                n = X.fresh('rng', s.accessor(0, 1).range())
                i = z3.Int('i!rg')
                if key == X.mem_key(pt.elem):
                    el = z3.Select(X.hmap(key, X.sort(pt.elem)), v + i * sz)
                else:
                    el = BYTE_OF(X.hmap(key, REAL), v + i)
                cnt = simp(b - v) if sz == 1 else simp((b - v) / sz)
                X.assume(z3.ForAll([i], Implies(And(0 <= i, i < cnt), z3.Select(n, i) == el), patterns=[z3.Select(n, i)]))
                return vmk(s, cnt, n)
            if isinstance(v, Iter) or isinstance(v, PtrTo):
                return self.iter_range_vec(X, ty, v, rd(args[1]))
            if isinstance(v, InitListVal):
                a = X.fresh('data', s.accessor(0, 1).range())
                for i, x in enumerate(v.items):
                    a = z3.Store(a, z3.IntVal(i), X.to_term(X.pack(x) if isinstance(x, ObjLoc) else x, et))
                return vmk(s, z3.IntVal(len(v.items)), a)
        if q == 'std::pair':
            s = X.sort(ty)
            if n == 2:
                return s.constructor(0)(X.to_term(rd(args[0]), ty.arg(0)), X.to_term(rd(args[1]), ty.arg(1)))
            v = rd(args[0])
            if isinstance(v, PairVal):
                return s.constructor(0)(X.to_term(rd(v.first), ty.arg(0)), X.to_term(rd(v.second), ty.arg(1)))
            return v
        if q in ITER:
            v = rd(args[0])
            if ty.q == 'std::reverse_iterator' and isinstance(v, Iter) and not v.rev:
                return Iter(v.cont, simp(self.cont_size(X, v) - v.idx), v.kind, None, True)
            return v
        if q in SET:
            v = rd(args[0])
            if isinstance(v, Iter):
                return set_insert_range(X, self.default(X, ty), v, rd(args[1]))
        raise Unsupported('constructor of ' + ty.id)

    def iter_range_vec(self, X, ty, a, b):
        s = X.sort(ty)
        if isinstance(a, PtrTo):
            src = X.read_raw(a.loc.base)
            lo, hi = a.loc.idx, b.loc.idx
            arr = src
            if src.sort().name().startswith('Vec<'):
                X.oblige('copied elements inside the vector', 'safety', And(0 <= lo, lo <= hi, hi <= vlen(src)), X.line if hasattr(X, 'line') else 0)
                arr = varr(src)
        else:
            v = X.read_raw(a.cont)
            if a.rev or not v.sort().name().startswith('Vec<'):
                raise Unsupported('vector from range')
            lo, hi, arr = a.idx, b.idx, varr(v)
        if arr.sort().range() != s.accessor(0, 1).range().range():
            raise Unsupported('vector from range of other element type')
        i = z3.Int('i!rg')
        l = simp(lo)
        if z3.is_int_value(l) and l.as_long() == 0:
            return vmk(s, hi, arr)
        n = X.fresh('rng', s.accessor(0, 1).range())
        X.assume(z3.ForAll([i], Implies(And(0 <= i, i < hi - lo), z3.Select(n, i) == z3.Select(arr, i + lo)), patterns=[z3.Select(n, i)]))
        return vmk(s, simp(hi - lo), n)

    def iter_range_str(self, X, a, b):
        v = X.read_raw(a.cont)
        if v.sort() != STR or a.rev:
            raise Unsupported('string from range')
        return z3.SubString(v, a.idx, b.idx - a.idx)


class CStr:
    """const char* obtained from std::string::c_str()"""
    nonnull = True

    def __init__(self, s, off=None):
        self.s, self.off = s, off

    @property
    def idx(self):
        return z3.IntVal(0) if self.off is None else self.off

    def advance(self, i):
        return CStr(self.s, simp(i if self.off is None else self.off + i))

    def havoc(self, X):
        return CStr(self.s, X.fresh('ptr', INT))

    def cur_ok(self):
        return And(0 <= self.idx, self.idx <= z3.Length(self.s))

    def char(self, X, line=0):
        if not X.ghost:
            X.oblige('character pointer outside the string', 'safety', self.cur_ok(), line)
        c = X.lib.str_char(X, self.s, self.idx)
        if not X.ghost:
            X.assume(Implies(self.idx < z3.Length(self.s), c != 0))
        return If(self.idx < z3.Length(self.s), c, z3.IntVal(0))


class CharAt(Loc):
    """character a CStr points to"""
    def __init__(self, p, ty, line):
        self.p, self.ty, self.line = p, ty, line


class PairVal:
    def __init__(self, a, b):
        self.first, self.second = a, b


class PairFieldLoc(Loc):
    def __init__(self, base, i, ty):
        self.base, self.i, self.ty = base, i, ty


_r, _w = Executor.read, Executor.write


def _read(self, loc):
    if isinstance(loc, PairFieldLoc):
        v = self.read_raw(loc.base)
        t = acc(v.sort(), loc.i, v)
        self.ref_fact(t, loc.ty)
        return self.lib.from_term(self, loc.ty, t)
    if isinstance(loc, CharAt):
        return loc.p.char(self, loc.line)
    return _r(self, loc)


_d, _pc, _pd = Executor.deref, Executor.ptr_cmp, Executor.ptr_diff


def _deref(self, p, ty, line=0, what='pointer'):
    if isinstance(p, CStr):
        return CharAt(p, ty, line)
    return _d(self, p, ty, line, what)


def _same_text(a, b):
    return isinstance(a, CStr) and isinstance(b, CStr) and a.s.eq(b.s)


def _ptr_cmp(self, op, a, b):
    if _same_text(a, b):
        return self.cmp(op, a.idx, b.idx)
    return _pc(self, op, a, b)


def _ptr_diff(self, a, b, ety):
    if _same_text(a, b):
        return simp(a.idx - b.idx)
    return _pd(self, a, b, ety)


Executor.deref, Executor.ptr_cmp, Executor.ptr_diff = _deref, _ptr_cmp, _ptr_diff


def _write(self, loc, v):
    if isinstance(loc, PairFieldLoc):
        b = self.read_raw(loc.base)
        self.write(loc.base, upd(b.sort(), loc.i, b, self.to_term(v, loc.ty)))
        return
    return _w(self, loc, v)


Executor.read, Executor.write = _read, _write


def throw_if(self, cond, cls):
    """library function that throws cls when cond holds"""
    if self.decide(cond):
        raise CppThrow(cls, None)


Executor.oblige_throw_if = throw_if


def opaque_call(X, c):
    """method of a stream-like object: no effect on the program state we track"""
    args = []
    for n in (c.nodes or []):
        args.append(X.ev(n))
    rt = c.rty
    if rt.is_void():
        return None
    if rt.is_ref() and X.lib.is_opaque(rt.elem) or X.lib.is_opaque(rt):
        return c.o if c.o is not None else Opaque(rt.id)
    if X.lib.is_string(rt):
        return X.fresh('text', STR)
    try:
        return X.havoc_value(rt, 'opq')
    except Unsupported:
        return Opaque(rt.id)


def val(X, v):
    return X.read(v) if isinstance(v, Loc) and not isinstance(v, ObjLoc) else v


# =========================================================================== std::vector
@lib('std::vector::size', 'std::list::size', 'std::basic_string::size', 'std::basic_string::length', 'std::set::size', 'std::map::size', pure=True)
def _(X, c):
    v = X.to_term(c.obj, c.cty)
    n = simp(X.lib.size_of(X, v))
    if not X.ghost and not z3.is_int_value(n):
        X.assume(And(n >= 0, n < (1 << 62)))
    return n


@lib('std::vector::empty', 'std::list::empty', 'std::basic_string::empty', 'std::set::empty', 'std::map::empty', pure=True)
def _(X, c):
    v = X.to_term(c.obj, c.cty)
    return X.lib.size_of(X, v) == 0


@lib('std::vector::begin', 'std::vector::cbegin', 'std::basic_string::begin', 'std::basic_string::cbegin', 'std::set::begin', 'std::set::cbegin', 'std::map::begin', 'std::map::cbegin', pure=True)
def _(X, c):
    return Iter(cont(X, c), z3.IntVal(0), 'it')


@lib('std::vector::end', 'std::vector::cend', 'std::basic_string::end', 'std::basic_string::cend', 'std::set::end', 'std::set::cend', 'std::map::end', 'std::map::cend', pure=True)
def _(X, c):
    l = cont(X, c)
    it = Iter(l, None, 'it')
    it.idx = X.lib.size_of(X, X.read_raw(l))
    it.isend = True
    return it


@lib('std::vector::rbegin', 'std::basic_string::rbegin', pure=True)
def _(X, c):
    return Iter(cont(X, c), z3.IntVal(0), 'it', rev=True)


@lib('std::vector::rend', 'std::basic_string::rend', pure=True)
def _(X, c):
    l = cont(X, c)
    it = Iter(l, None, 'it', rev=True)
    it.idx = X.lib.size_of(X, X.read_raw(l))
    return it


def cont(X, c):
    if isinstance(c.o, Loc):
        return c.o
    return X.new_cell(c.cty, c.o, 'tmpc')


@lib('std::vector::operator[]', pure=True)
def _(X, c):
    l = cont(X, c)
    v = X.read_raw(l)
    i = val(X, c.args[0])
    X.oblige('vector index out of bounds', 'safety', And(i >= 0, i < vlen(v)), c.line)
    return ElemLoc(l, i, c.cty.arg(0), 'vec')


@lib('std::vector::at')
def _(X, c):
    l = cont(X, c)
    v = X.read_raw(l)
    i = val(X, c.args[0])
    X.oblige_throw_if(Or(i < 0, i >= vlen(v)), 'std::out_of_range')
    return ElemLoc(l, i, c.cty.arg(0), 'vec')


@lib('std::vector::front', 'std::list::front')
def _(X, c):
    l = cont(X, c)
    X.oblige('front() of an empty container', 'safety', vlen(X.read_raw(l)) > 0, c.line)
    return ElemLoc(l, z3.IntVal(0), c.cty.arg(0), 'vec')


@lib('std::vector::back', 'std::list::back')
def _(X, c):
    l = cont(X, c)
    v = X.read_raw(l)
    X.oblige('back() of an empty container', 'safety', vlen(v) > 0, c.line)
    return ElemLoc(l, simp(vlen(v) - 1), c.cty.arg(0), 'vec')


def term_of(X, a, ty):
    if isinstance(a, ObjLoc):
        return X.pack(ObjLoc(a.ref, ty)) if X.is_record(ty) else a.ref
    return X.to_term(val(X, a), ty)


@lib('std::vector::push_back', 'std::list::push_back', 'std::vector::emplace_back')
def _(X, c):
    et = c.cty.arg(0)
    if c.d['n'] == 'emplace_back' and (len(c.args) != 1 or X.is_record(et) and not isinstance(c.args[0], ObjLoc)):
        raise Unsupported('emplace_back')
    v = X.read_raw(c.o)
    t = term_of(X, c.args[0], et)
    X.write(c.o, vmk(v.sort(), simp(vlen(v) + 1), z3.Store(varr(v), vlen(v), t)))


@lib('memcpy', 'std::memcpy', 'memmove', 'std::memmove')
def _(X, c):
    """between arrays of one element type that are fields or locals"""
    d, s, n = c.val(0), c.val(1), simp(c.val(2))
    if not (isinstance(d, PtrTo) and isinstance(s, PtrTo) and isinstance(d.loc, ElemLoc) and isinstance(s.loc, ElemLoc) and d.loc.kind == s.loc.kind == 'arr'):
        raise Unsupported('memcpy')
    if d.loc.ty.id.replace('const ', '') != s.loc.ty.id.replace('const ', '') or not z3.is_int_value(n) or n.as_long() % d.loc.ty.size():
        raise Unsupported('memcpy between different types')
    k = n.as_long() // d.loc.ty.size()
    if k > 256:
        raise Unsupported('memcpy of a large array')
    vals = []
    for i in range(k):
        vals.append(X.read(X.deref(X.ptr_add(s, z3.IntVal(i), s.loc.ty), s.loc.ty, c.line)))
    for i in range(k):
        X.write(X.deref(X.ptr_add(d, z3.IntVal(i), d.loc.ty), d.loc.ty, c.line), vals[i])
    return d


@lib('std::vector::capacity')
def _(X, c):
    r = X.fresh('capacity', INT)
    X.assume(And(r >= vlen(X.read_raw(c.o)), r < 2 ** 62))
    return r


@lib('std::vector::pop_back', 'std::list::pop_back')
def _(X, c):
    v = X.read_raw(c.o)
    X.oblige('pop_back() of an empty container', 'safety', vlen(v) > 0, c.line)
    X.write(c.o, vmk(v.sort(), simp(vlen(v) - 1), varr(v)))


@lib('std::list::pop_front')
def _(X, c):
    v = X.read_raw(c.o)
    X.oblige('pop_front() of an empty container', 'safety', vlen(v) > 0, c.line)
    a = X.fresh('rest', varr(v).sort())
    i = z3.Int('i!pf')
    X.assume(z3.ForAll([i], Implies(And(0 <= i, i < vlen(v) - 1), z3.Select(a, i) == z3.Select(varr(v), i + 1)), patterns=[z3.Select(a, i)]))
    X.write(c.o, vmk(v.sort(), simp(vlen(v) - 1), a))


@lib('std::vector::clear', 'std::list::clear')
def _(X, c):
    v = X.read_raw(c.o)
    X.write(c.o, vmk(v.sort(), z3.IntVal(0), varr(v)))


@lib('std::vector::reserve', 'std::vector::shrink_to_fit', 'std::basic_string::reserve')
def _(X, c):
    c.args
    return None


@lib('std::basic_string::resize')
def _(X, c):
    s = X.read_raw(c.o)
    n = c.val(0)
    r = X.fresh('text', STR)
    i = z3.Int('i!rs')
    fill = c.val(1) if len(c.args) > 1 else z3.IntVal(0)
    X.assume(And(z3.Length(r) == n, Implies(n <= z3.Length(s), r == z3.SubString(s, 0, n))))
    X.assume(z3.ForAll([i], Implies(And(0 <= i, i < n), CHAR(r, i) == If(i < z3.Length(s), CHAR(s, i), fill)), patterns=[CHAR(r, i)]))
    X.write(c.o, r)


@lib('std::vector::resize')
def _(X, c):
    v = X.read_raw(c.o)
    n = c.val(0)
    et = c.cty.arg(0)
    if len(c.args) > 1:
        t = term_of(X, c.args[1], et)
    else:
        z = X.lib.default(X, et)
        t = X.to_term(z if z is not None else X.zero(et), et)
    na = X.fresh('rsz', varr(v).sort())
    i = z3.Int('i!rs')
    X.assume(z3.ForAll([i], Implies(And(0 <= i, i < n), z3.Select(na, i) == If(i < vlen(v), z3.Select(varr(v), i), t)), patterns=[z3.Select(na, i)]))
    X.write(c.o, vmk(v.sort(), n, na))


@lib('std::vector::insert')
def _(X, c):
    v = X.read_raw(c.o)
    pos = c.val(0)
    if len(c.args) == 3 and isinstance(c.val(1), Iter):
        a, b = c.val(1), c.val(2)
        src = X.read_raw(a.cont)
        if a.rev or not src.sort() == v.sort():
            raise Unsupported('insert range')
        n = simp(b.idx - a.idx)
        get = lambda i: z3.Select(varr(src), a.idx + i)
        X.oblige('insert: invalid source range', 'safety', And(0 <= a.idx, a.idx <= b.idx, b.idx <= vlen(src)), c.line)
    elif len(c.args) == 2:
        n = z3.IntVal(1)
        t = term_of(X, c.args[1], c.cty.arg(0))
        get = lambda i: t
    else:
        raise Unsupported('vector::insert')
    X.oblige('insert: position outside the container', 'safety', And(0 <= pos.idx, pos.idx <= vlen(v)), c.line)
    na = X.fresh('ins', varr(v).sort())
    i = z3.Int('i!in')
    p = pos.idx
    X.assume(z3.ForAll([i], And(Implies(And(0 <= i, i < p), z3.Select(na, i) == z3.Select(varr(v), i)),
                                Implies(And(p <= i, i < p + n), z3.Select(na, i) == get(i - p)),
                                Implies(And(p + n <= i, i < vlen(v) + n), z3.Select(na, i) == z3.Select(varr(v), i - n))),
                       patterns=[z3.Select(na, i)]))
    X.write(c.o, vmk(v.sort(), simp(vlen(v) + n), na))
    return Iter(c.o, p, 'it')


@lib('std::vector::erase')
def _(X, c):
    v = X.read_raw(c.o)
    a = c.val(0)
    n = simp(c.val(1).idx - a.idx) if len(c.args) == 2 else z3.IntVal(1)
    X.oblige('erase: invalid range', 'safety', And(0 <= a.idx, 0 <= n, a.idx + n <= vlen(v)), c.line)
    na = X.fresh('ers', varr(v).sort())
    i = z3.Int('i!er')
    X.assume(z3.ForAll([i], z3.Select(na, i) == If(i < a.idx, z3.Select(varr(v), i), z3.Select(varr(v), i + n)), patterns=[z3.Select(na, i)]))
    X.write(c.o, vmk(v.sort(), simp(vlen(v) - n), na))
    return Iter(c.o, a.idx, 'it')


@lib('std::vector::operator=', 'std::basic_string::operator=', 'std::set::operator=', 'std::map::operator=',
     'std::shared_ptr::operator=', 'std::pair::operator=', 'std::unique_ptr::operator=', 'std::__shared_ptr::operator=')
def _(X, c):
    a = c.args[0]
    if X.lib.is_string(c.cty):
        pt = X.prog.ty(c.d['params'][0])
        v = X.lib.char_str(c.val(0)) if pt.is_char() else X.lib.as_string(X, val(X, a))
    elif X.lib.is_sptr(c.cty):
        v = val(X, a)
    elif c.cty.q == 'std::pair':
        v = val(X, a)
        if isinstance(v, PairVal):
            v = X.lib.construct_std(X, 'std::pair', c.cty, c.d, [v], c.e)
    else:
        v = val(X, a)
    X.write(c.o, v)
    return c.o


@lib('std::vector::swap', 'std::basic_string::swap', 'std::shared_ptr::swap', 'std::__shared_ptr::swap')
def _(X, c):
    a, b = X.read_raw(c.o), X.read_raw(c.args[0])
    X.write(c.o, b)
    X.write(c.args[0], a)


@lib('std::swap')
def _(X, c):
    a, b = X.read(c.args[0]), X.read(c.args[1])
    if isinstance(c.args[0], ObjLoc):
        raise Unsupported('swap of records')
    X.write(c.args[0], b)
    X.write(c.args[1], a)


@lib('std::vector::assign')
def _(X, c):
    v = X.read_raw(c.o)
    if isinstance(c.val(0), (Iter, PtrTo)):
        X.write(c.o, X.lib.iter_range_vec(X, c.cty, c.val(0), c.val(1)))
        return
    t = term_of(X, c.args[1], c.cty.arg(0))
    X.write(c.o, vmk(v.sort(), c.val(0), z3.K(INT, t)))


@lib('std::vector::data')
def _(X, c):
    return PtrTo(ElemLoc(cont(X, c), z3.IntVal(0), c.cty.arg(0), 'vec'))


# =========================================================================== iterators
def iter_eq(X, a, b):
    if isinstance(a, Iter) and isinstance(b, Iter):
        if a.key is not None and getattr(b, 'isend', False):
            return Not(a.found)
        if b.key is not None and getattr(a, 'isend', False):
            return Not(b.found)
        return a.idx == b.idx
    if isinstance(a, PtrTo) and isinstance(b, PtrTo):
        return X.ptr_cmp('==', a, b)
    raise Unsupported('iterator comparison')


def _itcmp(op):
    def f(X, c):
        vs = [val(X, x) for x in (([c.o] if c.o is not None else []) + c.args)]
        return generic_cmp(X, op, vs[0], vs[1], c)
    return f


def generic_cmp(X, op, a, b, c):
    if isinstance(a, Iter) or isinstance(b, Iter) or (isinstance(a, PtrTo) and isinstance(b, PtrTo)):
        if op == '==':
            return iter_eq(X, a, b)
        if op == '!=':
            return Not(iter_eq(X, a, b))
        return X.cmp(op, a.idx, b.idx)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return X.fresh('opq', BOOL)
    strs = [x for x in (a, b) if isinstance(x, (StrLit, CStr)) or (isinstance(x, z3.ExprRef) and x.sort() == STR)]
    if strs:
        x, y = X.lib.as_string(X, a), X.lib.as_string(X, b)
        if op == '==':
            return x == y
        if op == '!=':
            return x != y
        if op == '<':
            return x < y
        if op == '>':
            return y < x
        if op == '<=':
            return Not(y < x)
        return Not(x < y)
    ps = [X.prog.ty(p).unref() for p in c.d['params']]
    t = ps[0]
    if X.lib.is_sptr(t) or (len(ps) > 1 and X.lib.is_sptr(ps[1])):
        x = a if isinstance(a, z3.ExprRef) else z3.IntVal(0)
        y = b if isinstance(b, z3.ExprRef) else z3.IntVal(0)
        return X.cmp(op, x, y)
    if X.lib.is_vec(t):
        x, y = X.to_term(a, t), X.to_term(b, t)
        if X.is_record(t.arg(0)):
            raise Unsupported('vector of records comparison')
        eq = X.eqv(x, y, t)
        if op == '==':
            return eq
        if op == '!=':
            return Not(eq)
    if t.q in SET or t.q in MAP or t.q == 'std::pair':
        x, y = X.to_term(a, t), X.to_term(b, t)
        if op == '==' and t.q != 'std::map':
            return x == y
        if op == '!=' and t.q != 'std::map':
            return x != y
        if t.q == 'std::pair' and op == '<':
            a0, b0 = acc(x.sort(), 0, x), acc(y.sort(), 0, y)
            a1, b1 = acc(x.sort(), 1, x), acc(y.sort(), 1, y)
            return Or(a0 < b0, And(a0 == b0, a1 < b1))
    raise Unsupported('comparison of %s' % t.id)


for _op in ('==', '!=', '<', '>', '<=', '>='):
    for _ns in ('std', '__gnu_cxx', 'boost', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::rel_ops'):
        n = '%s::operator%s' % (_ns, _op)
        HANDLERS[n] = _itcmp(_op)
        PURE.add(n)

ITN = ['__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::reverse_iterator']


@lib(*[n + '::operator*' for n in ITN], *[n + '::operator->' for n in ITN])
def _(X, c):
    v = c.obj
    if isinstance(v, PtrTo):
        return v if c.d['n'] == 'operator->' else v.loc
    if isinstance(v, Opaque):
        raise Unsupported('iterator')
    l = X.lib.iter_deref(X, v, c.line)
    if c.d['n'] == 'operator->':
        return PtrTo(l)
    return l


@lib(*[n + '::operator++' for n in ITN], *[n + '::operator--' for n in ITN])
def _(X, c):
    v = c.obj
    d = 1 if c.d['n'].endswith('++') else -1
    if v.key is not None:
        raise Unsupported('increment of a found iterator')
    n = simp(v.idx + d)
    sz = X.lib.cont_size(X, v)
    X.oblige('iterator moved outside its container', 'safety', And(n >= 0, n <= sz), c.line)
    nv = v.with_idx(n)
    X.write(c.o, nv)
    return v if len(c.d['params']) == 1 else c.o


@lib(*[n + '::operator+' for n in ITN], *[n + '::operator-' for n in ITN])
def _(X, c):
    v = c.obj
    d = c.val(0)
    if isinstance(v, PtrTo):
        return X.ptr_add(v, d if c.d['n'].endswith('+') else -d, None)
    n = simp(v.idx + d if c.d['n'].endswith('+') else v.idx - d)
    X.oblige('iterator moved outside its container', 'safety', And(n >= 0, n <= X.lib.cont_size(X, v)), c.line)
    return v.with_idx(n)


@lib(*[n + '::operator+=' for n in ITN], *[n + '::operator-=' for n in ITN])
def _(X, c):
    v = c.obj
    d = c.val(0)
    n = simp(v.idx + d if c.d['n'].endswith('+=') else v.idx - d)
    X.oblige('iterator moved outside its container', 'safety', And(n >= 0, n <= X.lib.cont_size(X, v)), c.line)
    X.write(c.o, v.with_idx(n))
    return c.o


@lib(*[n + '::operator=' for n in ITN])
def _(X, c):
    X.write(c.o, c.val(0))
    return c.o


@lib('__gnu_cxx::__normal_iterator::operator[]')
def _(X, c):
    v = c.obj
    return X.lib.iter_deref(X, v.with_idx(simp(v.idx + c.val(0))), c.line)


@lib('__gnu_cxx::__normal_iterator::base')
def _(X, c):
    return c.obj


@lib('std::reverse_iterator::base')
def _(X, c):
    v = c.obj
    return Iter(v.cont, simp(X.lib.cont_size(X, v) - v.idx), v.kind)


@lib('std::operator-', '__gnu_cxx::operator-', 'std::distance')
def _(X, c):
    a, b = c.val(0), c.val(1)
    if c.d['n'] == 'distance':
        a, b = b, a
    if isinstance(a, Iter):
        return simp(a.idx - b.idx)
    if isinstance(a, PtrTo):
        return X.ptr_diff(a, b, None)
    raise Unsupported('operator-')


@lib('__gnu_cxx::operator+')
def _(X, c):
    n, v = c.val(0), c.val(1)
    return v.with_idx(simp(v.idx + n))


@lib('std::next', 'std::prev', 'std::advance')
def _(X, c):
    v = c.val(0)
    d = c.val(1) if len(c.args) > 1 else z3.IntVal(1)
    n = simp(v.idx - d if c.d['n'] == 'prev' else v.idx + d)
    X.oblige('iterator moved outside its container', 'safety', And(n >= 0, n <= X.lib.cont_size(X, v)), c.line)
    if c.d['n'] == 'advance':
        X.write(c.args[0], v.with_idx(n))
        return None
    return v.with_idx(n)


# =========================================================================== set / map
@lib('std::set::insert')
def _(X, c):
    s = X.read_raw(c.o)
    if len(c.args) == 2 and isinstance(c.val(0), Iter):
        X.write(c.o, set_insert_range(X, s, c.val(0), c.val(1)))
        return None
    k = term_of(X, c.args[0], c.cty.arg(0))
    was = select(s, k)
    X.write(c.o, z3.Store(s, k, z3.BoolVal(True)))
    return PairVal(Iter(c.o, z3.IntVal(0), 'it', key=k, found=z3.BoolVal(True)), Not(was))


def set_insert_range(X, s, a, b):
    src = X.read_raw(a.cont)
    n = X.fresh('ins', s.sort())
    k = z3.Const('k!in', s.sort().domain())
    full = z3.is_int_value(simp(a.idx)) and simp(a.idx).as_long() == 0 and getattr(b, 'isend', False)
    if src.sort() == s.sort() and full:
        X.assume(z3.ForAll([k], z3.Select(n, k) == Or(z3.Select(s, k), z3.Select(src, k)), patterns=[z3.Select(n, k)]))
        return n
    if src.sort().kind() == z3.Z3_DATATYPE_SORT and src.sort().name().startswith('Vec<') and not a.rev:
        i = z3.Int('i!in')
        X.assume(z3.ForAll([k], z3.Select(n, k) == Or(z3.Select(s, k), z3.Exists([i], And(a.idx <= i, i < b.idx, z3.Select(varr(src), i) == k)))))
        return n
    raise Unsupported('set insert range')


@lib('std::set::count', 'std::map::count', pure=True)
def _(X, c):
    v = X.read_raw(c.o) if isinstance(c.o, Loc) else c.o
    k = term_of(X, c.args[0], c.cty.arg(0))
    s = mdom(v) if c.cty.q in MAP else v
    return If(select(s, k), z3.IntVal(1), z3.IntVal(0))


@lib('std::set::find', 'std::map::find', pure=True)
def _(X, c):
    v = X.read_raw(c.o)
    k = term_of(X, c.args[0], c.cty.arg(0))
    s = mdom(v) if c.cty.q in MAP else v
    f = select(s, k)
    return Iter(c.o, If(f, set_pos(s, k), set_card(s)), 'it', key=k, found=f)


@lib('std::set::erase', 'std::map::erase')
def _(X, c):
    v = X.read_raw(c.o)
    a = c.val(0) if not isinstance(c.args[0], ObjLoc) else c.args[0]
    ismap = c.cty.q in MAP
    s = mdom(v) if ismap else v
    if isinstance(a, Iter):
        if len(c.args) == 2:
            raise Unsupported('erase range')
        if a.key is None:
            raise Unsupported('erase of a walking iterator')
        X.oblige('erase of an invalid iterator', 'safety', a.found, c.line)
        k = a.key
        r = Opaque('iterator')
    else:
        k = term_of(X, c.args[0], c.cty.arg(0))
        r = If(select(s, k), z3.IntVal(1), z3.IntVal(0))
    ns = z3.Store(s, k, z3.BoolVal(False))
    X.write(c.o, v.sort().constructor(0)(ns, mval(v)) if ismap else ns)
    return r


@lib('std::set::clear', 'std::map::clear')
def _(X, c):
    v = X.read_raw(c.o)
    if c.cty.q in MAP:
        X.write(c.o, v.sort().constructor(0)(z3.K(mdom(v).sort().domain(), z3.BoolVal(False)), mval(v)))
    else:
        X.write(c.o, z3.K(v.sort().domain(), z3.BoolVal(False)))


@lib('std::map::operator[]')
def _(X, c):
    v = X.read_raw(c.o)
    k = term_of(X, c.args[0], c.cty.arg(0))
    vt = c.cty.arg(1)
    if X.is_record(vt):
        o = X.new_obj(vt)
        kk = X.default_ctor(vt.id)
        if kk in X.prog.functions:
            X.invoke(kk, o, [], {'l': c.line}, ctor=True)
        else:
            X.default_init(o, vt.id, True)
        t = X.pack(o)
    else:
        z = X.lib.default(X, vt)
        t = X.to_term(z if z is not None else X.zero(vt), vt)
    dom = mdom(v)
    nv = z3.Store(mval(v), k, If(select(dom, k), select(mval(v), k), t))
    X.write(c.o, v.sort().constructor(0)(z3.Store(dom, k, z3.BoolVal(True)), nv))
    return MapValLoc(c.o, k, vt)


@lib('std::map::at')
def _(X, c):
    v = X.read_raw(c.o)
    k = term_of(X, c.args[0], c.cty.arg(0))
    X.oblige_throw_if(Not(select(mdom(v), k)), 'std::out_of_range')
    return MapValLoc(c.o, k, c.cty.arg(1))


@lib('std::map::insert')
def _(X, c):
    v = X.read_raw(c.o)
    if len(c.args) != 1:
        raise Unsupported('map insert')
    p = val(X, c.args[0])
    if isinstance(p, PairVal):
        k, w = X.to_term(val(X, p.first), c.cty.arg(0)), X.to_term(val(X, p.second), c.cty.arg(1))
    else:
        k, w = acc(p.sort(), 0, p), acc(p.sort(), 1, p)
    was = select(mdom(v), k)
    X.write(c.o, v.sort().constructor(0)(z3.Store(mdom(v), k, z3.BoolVal(True)), If(was, mval(v), z3.Store(mval(v), k, w))))
    return PairVal(Iter(c.o, z3.IntVal(0), 'it', key=k, found=z3.BoolVal(True)), Not(was))


@lib('std::make_pair')
def _(X, c):
    ty = c.rty
    s = X.sort(ty)
    return s.constructor(0)(term_of(X, c.args[0], ty.arg(0)), term_of(X, c.args[1], ty.arg(1)))


# =========================================================================== shared_ptr
SP = ['std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'std::weak_ptr']


@lib(*[s + '::get' for s in SP], *[s + '::operator->' for s in SP], 'std::weak_ptr::lock', pure=True)
def _(X, c):
    v = c.obj
    return v


@lib(*[s + '::operator*' for s in SP], pure=True)
def _(X, c):
    return X.deref(c.obj, c.rty.elem if c.rty.is_ref() else c.cty.arg(0), c.line)


@lib('std::shared_ptr::(conv)', 'std::__shared_ptr::(conv)', 'std::unique_ptr::(conv)', pure=True)
def _(X, c):
    v = c.obj
    if isinstance(v, Opaque):
        return X.fresh('opq', BOOL)
    return v != 0


@lib('std::shared_ptr::reset', 'std::__shared_ptr::reset', 'std::unique_ptr::reset')
def _(X, c):
    v = c.val(0) if c.args else z3.IntVal(0)
    X.write(c.o, v)


@lib('std::make_shared')
def _(X, c):
    ty = c.rty.arg(0)
    if X.is_record(ty):
        o = X.new_obj(ty)
        args = c.args
        cands = []
        for k, d in X.prog.decls.items():
            if d.get('cls') == ty.id and d.get('ctor') and len(d['params']) == len(args):
                cands.append((k, d))
        if not cands and not args:
            X.default_init(o, ty.id, True)
            return o.ref
        at = [X.prog.ty(t['t']).unref().id for t in c.d['targs'][1].get('p', [])] if len(c.d.get('targs', [])) > 1 else []
        best = [k for k, d in cands if [X.prog.ty(p).unref().id for p in d['params']] == at]
        if not best and len(args) == 1 and isinstance(args[0], ObjLoc) and args[0].ty.id == ty.id:
            X.unpack(o, X.pack(args[0]))       # implicit copy or move constructor
            return o.ref
        if not best and len(cands) == 1:
            best = [cands[0][0]]
        if not best:
            raise Unsupported('make_shared constructor of ' + ty.id)
        d = X.prog.decls[best[0]]
        if d.get('defaulted'):
            if args:
                X.unpack(o, args[0])
            else:
                X.default_init(o, ty.id, True)
        else:
            a2 = []
            for p, a in zip(d['params'], args):
                pt = X.prog.ty(p)
                a2.append(a if pt.is_ref() else (X.read(a) if isinstance(a, Loc) and not isinstance(a, ObjLoc) else a))
            X.invoke(best[0], o, a2, {'l': c.line}, ctor=True)
        return o.ref
    r = X.new_ref()
    b = BoxLoc(r, ty, 'box<%s>' % ty.id)
    if c.args:
        v = X.lib.as_string(X, val(X, c.args[0])) if X.lib.is_string(ty) else val(X, c.args[0])
    else:
        v = X.lib.default(X, ty)
        v = X.zero(ty) if v is None else v
    X.write(b, v)
    return r


@lib('std::dynamic_pointer_cast', 'std::static_pointer_cast', 'std::const_pointer_cast')
def _(X, c):
    v = val(X, c.args[0])
    if c.d['n'] == 'dynamic_pointer_cast':
        st = X.prog.ty(c.d['params'][0]).unref()
        if st.arg(0).id == c.rty.arg(0).id or X.prog.is_base_of(c.rty.arg(0).id, st.arg(0).id):
            return v
        return X.dyn_cast(v, c.e, FakePtr(c.rty.arg(0)))
    return v


class FakePtr:
    def __init__(self, e):
        self.elem = e

    def is_ref(self):
        return False


@lib('std::enable_shared_from_this::shared_from_this')
def _(X, c):
    o = c.o
    if isinstance(o, ObjLoc):
        return o.ref
    raise Unsupported('shared_from_this')


# =========================================================================== string
@lib('std::basic_string::operator[]', 'std::basic_string::at', pure=True)
def _(X, c):
    l = cont(X, c)
    s = X.read_raw(l)
    i = c.val(0)
    if c.d['n'] == 'at':
        X.oblige_throw_if(Or(i < 0, i >= z3.Length(s)), 'std::out_of_range')
    else:
        X.oblige('string index out of bounds', 'safety', And(i >= 0, i <= z3.Length(s)), c.line)
    return ElemLoc(l, i, X.prog.ty('char'), 'str')


@lib('std::basic_string::c_str', 'std::basic_string::data', pure=True)
def _(X, c):
    return CStr(X.lib.as_string(X, c.obj))


@lib('std::basic_string::substr')
def _(X, c):
    s = X.to_term(c.obj, c.cty)
    pos = c.val(0) if len(c.args) > 0 else z3.IntVal(0)
    n = c.val(1) if len(c.args) > 1 else z3.IntVal((1 << 64) - 1)
    X.oblige_throw_if(pos > z3.Length(s), 'std::out_of_range')
    ns = simp(n)
    if z3.is_int_value(ns) and ns.as_long() >= (1 << 62):
        return z3.SubString(s, pos, z3.Length(s) - pos)
    return z3.SubString(s, pos, n)


@lib('std::operator+')
def _(X, c):
    a, b = c.val(0), c.val(1)

    def st(v, i):
        t = X.prog.ty(c.d['params'][i])
        if t.is_char():
            return X.lib.char_str(v)
        return X.lib.as_string(X, v)
    if X.lib.is_string(c.rty):
        return z3.Concat(st(a, 0), st(b, 1))
    raise Unsupported('operator+ of ' + c.rty.id)


@lib('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def _(X, c):
    s = X.read_raw(c.o)
    t = X.prog.ty(c.d['params'][0])
    if len(c.args) > 1:
        v = c.val(0)
        if isinstance(v, Iter):
            r = X.lib.iter_range_str(X, v, c.val(1))
        elif t.is_int():
            raise Unsupported('append(n, ch)')
        elif len(c.args) == 2 and t.is_ptr():
            r = z3.SubString(X.lib.as_string(X, v), 0, c.val(1))
        else:
            raise Unsupported('append')
    elif t.is_char():
        r = X.lib.char_str(c.val(0))
    else:
        r = X.lib.as_string(X, c.val(0))
    X.write(c.o, z3.Concat(s, r))
    return c.o


@lib('std::basic_string::find', 'std::basic_string::rfind')
def _(X, c):
    s = X.to_term(c.obj, c.cty)
    t = X.prog.ty(c.d['params'][0])
    n = X.lib.char_str(c.val(0)) if t.is_char() else X.lib.as_string(X, c.val(0))
    if c.d['n'] == 'rfind':
        if not (z3.is_string_value(simp(n)) and len(simp(n).as_string()) == 1):
            raise Unsupported('rfind of a text')
        return last_of(X, s, n, c.val(1) if len(c.args) > 1 else None, False)
    pos = c.val(1) if len(c.args) > 1 else z3.IntVal(0)
    i = z3.IndexOf(s, n, pos)
    r = X.fresh('pos', INT)
    if not X.ghost:
        X.assume(And(i <= z3.Length(s), z3.Length(s) < (1 << 62)))
    X.assume(r == If(Or(i < 0, pos > z3.Length(s)), z3.IntVal((1 << 64) - 1), i))
    return r


NEXT_OF = z3.Function('next_of', STR, STR, INT, INT)            # first index from a position on whose character is in a set; the length when there is none
NEXT_NOT_OF = z3.Function('next_not_of', STR, STR, INT, INT)
LAST_OF = z3.Function('last_of', STR, STR, INT, INT)            # last index up to a position whose character is in a set; -1 when there is none
LAST_NOT_OF = z3.Function('last_not_of', STR, STR, INT, INT)


def in_set(s, d, i):
    return z3.Contains(d, z3.SubString(s, i, 1))


def next_facts(s, d, p, neg=False):
    """definition of NEXT_OF at one position (for 0 <= p <= length)"""
    from ..spec import forall
    f = NEXT_NOT_OF if neg else NEXT_OF
    n = f(s, d, p)
    i = z3.Int('i!no')
    hit = (lambda i: Not(in_set(s, d, i))) if neg else (lambda i: in_set(s, d, i))
    return [Implies(And(0 <= p, p <= z3.Length(s)), And(p <= n, n <= z3.Length(s))), Implies(n < z3.Length(s), hit(n)),
            forall([i], Implies(And(p <= i, i < n), Not(hit(i))), patterns=[z3.SubString(s, i, 1)])]


@lib('std::basic_string::find_first_of', 'std::basic_string::find_first_not_of')
def _(X, c):
    s = X.to_term(c.obj, c.cty)
    t = X.prog.ty(c.d['params'][0])
    if len(c.args) > 2:
        raise Unsupported('find_first_of with a length')
    d = X.lib.char_str(c.val(0)) if t.is_char() else X.lib.as_string(X, c.val(0))
    p = c.val(1) if len(c.args) > 1 else z3.IntVal(0)
    neg = c.d['n'].endswith('not_of')
    if not X.ghost:
        for f in next_facts(s, d, p, neg):
            X.assume(f)
        X.assume(z3.Length(s) < (1 << 62))
    n = (NEXT_NOT_OF if neg else NEXT_OF)(s, d, p)
    return If(Or(p > z3.Length(s), n == z3.Length(s)), z3.IntVal((1 << 64) - 1), n)


@lib('std::basic_string::find_last_of', 'std::basic_string::find_last_not_of')
def _(X, c):
    s = X.to_term(c.obj, c.cty)
    t = X.prog.ty(c.d['params'][0])
    if len(c.args) > 2:
        raise Unsupported('find_last_of with a length')
    d = X.lib.char_str(c.val(0)) if t.is_char() else X.lib.as_string(X, c.val(0))
    return last_of(X, s, d, c.val(1) if len(c.args) > 1 else None, c.d['n'].endswith('not_of'))


def last_of(X, s, d, pos, neg):
    p = z3.Length(s) - 1
    if pos is not None and not (z3.is_int_value(simp(pos)) and simp(pos).as_long() >= 1 << 62):
        p = If(pos < p, pos, p)
    n = (LAST_NOT_OF if neg else LAST_OF)(s, d, simp(p))
    i = z3.Int('i!lo')
    hit = (lambda i: Not(in_set(s, d, i))) if neg else (lambda i: in_set(s, d, i))
    if not X.ghost:
        X.assume(And(-1 <= n, n <= p))
        X.assume(z3.Length(s) < (1 << 62))
        X.assume(Implies(n >= 0, hit(n)))
        X.assume(z3.ForAll([i], Implies(And(n < i, i <= p), Not(hit(i))), patterns=[z3.SubString(s, i, 1)]))
    return If(n < 0, z3.IntVal((1 << 64) - 1), n)


@lib('std::basic_string::compare')
def _(X, c):
    s = X.to_term(c.obj, c.cty)
    if len(c.args) == 1:
        o = X.lib.as_string(X, c.val(0))
    elif len(c.args) == 3:
        pos, n = c.val(0), c.val(1)
        X.oblige_throw_if(pos > z3.Length(s), 'std::out_of_range')
        s = z3.SubString(s, pos, n)
        o = X.lib.as_string(X, c.val(2))
    else:
        raise Unsupported('compare')
    r = X.fresh('cmp', INT)
    X.assume(And((r == 0) == (s == o), (r < 0) == (s < o)))
    return r


@lib('std::basic_string::clear')
def _(X, c):
    X.write(c.o, z3.StringVal(''))


@lib('std::basic_string::assign')
def _(X, c):
    if len(c.args) == 2 and isinstance(c.val(0), CStr) and X.prog.ty(c.d['params'][1]).is_int():
        v, n = c.val(0), c.val(1)
        X.oblige('assign from a range outside its source', 'safety', And(v.idx >= 0, n >= 0, v.idx + n <= z3.Length(v.s)), c.line)
        X.write(c.o, z3.SubString(v.s, v.idx, n))
        return c.o
    if len(c.args) != 1:
        raise Unsupported('assign')
    X.write(c.o, X.lib.as_string(X, c.val(0)))
    return c.o


@lib('std::basic_string::erase')
def _(X, c):
    s = X.read_raw(c.o)
    a = c.val(0) if c.args else z3.IntVal(0)
    if isinstance(a, Iter):
        n = simp(c.val(1).idx - a.idx) if len(c.args) == 2 else z3.IntVal(1)
        X.oblige('erase: invalid range', 'safety', And(0 <= a.idx, 0 <= n, a.idx + n <= z3.Length(s)), c.line)
        X.write(c.o, z3.Concat(z3.SubString(s, 0, a.idx), z3.SubString(s, a.idx + n, z3.Length(s) - a.idx - n)))
        return Iter(c.o, a.idx, 'it')
    X.oblige_throw_if(a > z3.Length(s), 'std::out_of_range')
    if len(c.args) < 2 or (z3.is_int_value(simp(c.val(1))) and simp(c.val(1)).as_long() > (1 << 62)):
        X.write(c.o, z3.SubString(s, 0, a))
    else:
        n = c.val(1)
        e = If(a + n > z3.Length(s), z3.Length(s), a + n)
        X.write(c.o, z3.Concat(z3.SubString(s, 0, a), z3.SubString(s, e, z3.Length(s) - e)))
    return c.o


@lib('std::basic_string::back', 'std::basic_string::front')
def _(X, c):
    l = cont(X, c)
    s = X.read_raw(l)
    X.oblige('%s() of an empty string' % c.d['n'], 'safety', z3.Length(s) > 0, c.line)
    return ElemLoc(l, z3.Length(s) - 1 if c.d['n'] == 'back' else z3.IntVal(0), X.prog.ty('char'), 'str')


# =========================================================================== algorithms
def range_of(X, a, b):
    """(container value, lo, hi, get(i)) of an iterator range"""
    if isinstance(a, Iter):
        v = X.read_raw(a.cont)
        ct = a.cont.ty.unref()
        s = v.sort()
        if a.rev:
            n = X.lib.size_of(X, v)
            f = lambda i: n - 1 - i
        else:
            f = lambda i: i
        if s == STR:
            return v, a.idx, b.idx, (lambda i: ElemLoc(a.cont, f(i), X.prog.ty('char'), 'str')), X.prog.ty('char')
        if s.kind() == z3.Z3_DATATYPE_SORT and s.name().startswith('Vec<'):
            return v, a.idx, b.idx, (lambda i: ElemLoc(a.cont, f(i), ct.arg(0), 'vec')), ct.arg(0)
    if isinstance(a, PtrTo) and isinstance(a.loc, ElemLoc):
        l = a.loc
        return None, l.idx, b.loc.idx, (lambda i: ElemLoc(l.base, i, l.ty, l.kind)), l.ty
    raise Unsupported('iterator range')


def pure_pred(X, f, args):
    """evaluate a callable that must not fork, write or create obligations: gives a term"""
    st, pc, pcset, wf, nob = X.st, list(X.pc), dict(X.pcset), dict(X.wf), len(X.obls)
    dpos = X.dpos
    X.st = st.copy()
    try:
        r = X.call_pred(f, args, {'l': X.line})
        if isinstance(r, Loc):
            r = X.read(r)
        if X.dpos != dpos:
            raise Unsupported('predicate forks')
    finally:
        X.st = st
        X.pc, X.pcset, X.wf = pc, pcset, wf
        del X.obls[nob:]
    return r


@lib('std::lower_bound', 'std::upper_bound')
def _(X, c):
    a, b = c.val(0), c.val(1)
    key = c.args[2]
    v, lo, hi, get, et = range_of(X, a, b)
    r = X.fresh('lb', INT)
    i, j = z3.Ints('i!lb j!lb')

    def lt(idx):
        el = get(idx)
        k = key
        if len(c.args) > 3:
            f = val(X, c.args[3])
            if c.d['n'] == 'lower_bound':
                return X.truth(pure_pred(X, f, [el, k]))
            return Not(X.truth(pure_pred(X, f, [k, el])))
        ev, kv = X.read(el), val(X, k)
        return ev < kv if c.d['n'] == 'lower_bound' else Not(kv < ev)
    # precondition: partitioned
    X.oblige('%s: range is not partitioned' % c.d['n'], 'requires',
             z3.ForAll([i, j], Implies(And(lo <= i, i < j, j < hi, lt(j)), lt(i))), c.line)
    X.assume(And(lo <= r, r <= hi))
    X.assume(z3.ForAll([i], Implies(And(lo <= i, i < r), lt(i))))
    X.assume(z3.ForAll([i], Implies(And(r <= i, i < hi), Not(lt(i)))))
    X.assume(Implies(r < hi, Not(lt(r))))
    if isinstance(a, Iter):
        return a.with_idx(r)
    return PtrTo(get(r))


@lib('std::find', 'std::find_if', 'std::find_if_not')
def _(X, c):
    a, b = c.val(0), c.val(1)
    v, lo, hi, get, et = range_of(X, a, b)
    r = X.fresh('fi', INT)
    i = z3.Int('i!fi')

    def hit(idx):
        el = get(idx)
        if c.d['n'] == 'find':
            return X.eqv(X.read(el), val(X, c.args[2]), et)
        t = X.truth(pure_pred(X, val(X, c.args[2]), [el]))
        return Not(t) if c.d['n'].endswith('not') else t
    X.assume(And(lo <= r, r <= hi))
    X.assume(z3.ForAll([i], Implies(And(lo <= i, i < r), Not(hit(i)))))
    X.assume(Implies(r < hi, hit(r)))
    if isinstance(a, Iter):
        return a.with_idx(r)
    return PtrTo(get(r))


@lib('std::equal')
def _(X, c):
    if len(c.args) != 3:
        raise Unsupported('equal form')
    a, b, o = c.val(0), c.val(1), c.val(2)
    v, lo, hi, get, et = range_of(X, a, b)
    n = hi - lo
    if not isinstance(o, Iter) or o.rev or a.rev:
        raise Unsupported('equal of these ranges')
    w = X.read_raw(o.cont)
    X.oblige('compared range inside its container', 'safety', And(n >= 0, o.idx >= 0, o.idx + n <= X.lib.size_of(X, w)), X.line)
    if v is not None and v.sort() == STR and w.sort() == STR:
        if z3.is_int_value(simp(o.idx)) and simp(o.idx).as_long() == 0 and simp(hi).eq(simp(z3.Length(v))) and z3.is_int_value(simp(lo)) and simp(lo).as_long() == 0:
            return z3.PrefixOf(v, w)
        return z3.SubString(v, lo, n) == z3.SubString(w, o.idx, n)
    i = z3.Int('i!eq')
    return z3.ForAll([i], Implies(And(0 <= i, i < n), X.eqv(X.read(get(lo + i)), X.read(range_of(X, o, o)[3](o.idx + i)), et)))


@lib('std::any_of', 'std::all_of', 'std::none_of')
def _(X, c):
    v, lo, hi, get, et = range_of(X, c.val(0), c.val(1))
    i = z3.Int('i!ao')
    t = X.truth(pure_pred(X, val(X, c.args[2]), [get(i)]))
    rg = And(lo <= i, i < hi)
    r = X.fresh('ao', BOOL)
    if c.d['n'] == 'any_of':
        X.assume(r == z3.Exists([i], And(rg, t)))
    elif c.d['n'] == 'all_of':
        X.assume(r == z3.ForAll([i], Implies(rg, t)))
    else:
        X.assume(r == z3.ForAll([i], Implies(rg, Not(t))))
    return r


@lib('std::transform')
def _(X, c):
    a, b, o = c.val(0), c.val(1), c.val(2)
    f = val(X, c.args[3])
    if isinstance(o, Inserter) and X.lib.is_vec(o.cont.ty.unref()):
        v, lo, hi, get, et = range_of(X, a, b)
        d = X.read_raw(o.cont)
        ot = o.cont.ty.unref().arg(0)
        n0 = vlen(d)
        na = X.fresh('tr', varr(d).sort())
        i = z3.Int('i!tr')
        w = pure_pred(X, f, [get(lo + i - n0)])
        w = X.to_term(w, ot)
        X.assume(z3.ForAll([i], Implies(And(n0 <= i, i < n0 + (hi - lo)), z3.Select(na, i) == w), patterns=[z3.Select(na, i)]))
        X.assume(z3.ForAll([i], Implies(And(0 <= i, i < n0), z3.Select(na, i) == z3.Select(varr(d), i)), patterns=[z3.Select(na, i)]))
        X.write(o.cont, vmk(d.sort(), n0 + (hi - lo), na))
        return o
    if isinstance(a, Iter) and isinstance(o, Iter) and not a.rev:
        src = X.read_raw(a.cont)
        lf = simp(a.idx)
        if src.sort() == STR and X.read_raw(o.cont).sort() == STR and isinstance(f, FnRef) and getattr(b, 'isend', False):
            g = z3.Function('map<%s>' % f.key.split('(')[0], STR, STR)
            r = g(src)
            X.assume(z3.Length(r) == z3.Length(src))
            X.write(o.cont, r)
            X.assumed.add('std::transform over a string is the character-wise map of %s' % f.key.split('(')[0])
            return o.with_idx(z3.Length(src))
    raise Unsupported('transform')


# object representation: the byte at an address of memory that holds floating point elements
BYTE_OF = z3.Function('byte_of_object', z3.ArraySort(INT, REAL), INT, INT)


def is_addr(v):
    return isinstance(v, z3.ExprRef) and v.sort() == INT


def heap_copy(X, c, a, b, o):
    """elements of one type between heap ranges given by addresses"""
    t, u = X.prog.ty(c.d['params'][0]), X.prog.ty(c.d['params'][2])
    if not (t.is_ptr() and u.is_ptr() and X.mem_key(t.elem) == X.mem_key(u.elem)):
        raise Unsupported('copy between different element types')
    sz, key = t.elem.size(), X.mem_key(t.elem)
    live(X, c.line, 'copied elements', a, b - a)
    live(X, c.line, 'room for the copied elements', o, b - a)
    m = X.hmap(key, X.sort(t.elem))
    nm = X.fresh('mem', m.sort())
    i = z3.Int('i!hc')
    X.assume(z3.ForAll([i], z3.Select(nm, i) == If(And(o <= i, i < o + (b - a)), z3.Select(m, i - o + a), z3.Select(m, i)), patterns=[z3.Select(nm, i)]))
    X.st.heap[key] = nm
    X.note_write(('heap', key, o.get_id()), (key, o))
    return simp(o + (b - a))


def live(X, line, what, p, n):
    v = X.hmap('valid', BOOL)
    i = z3.Int('i!lv')
    X.oblige(what + ' lie inside live memory', 'memory', z3.ForAll([i], Implies(And(p <= i, i < p + n), z3.Select(v, i)), patterns=[z3.Select(v, i)]), line)


@lib('std::copy')
def _(X, c):
    a, b, o = c.val(0), c.val(1), c.val(2)
    if is_addr(a) and is_addr(b) and is_addr(o):
        return heap_copy(X, c, a, b, o)
    v, lo, hi, get, et = range_of(X, a, b)
    if isinstance(o, PtrTo) and isinstance(o.loc, ElemLoc):
        dst = X.read_raw(o.loc.base)
        arr = dst if o.loc.kind == 'arr' else varr(dst)
        na = X.fresh('cpy', arr.sort())
        i = z3.Int('i!cp')
        p = o.loc.idx
        n = hi - lo
        with X.at(X.st):
            src = X.to_term(X.read(get(i - p + lo)), et)
        X.assume(z3.ForAll([i], z3.Select(na, i) == If(And(p <= i, i < p + n), src, z3.Select(arr, i)), patterns=[z3.Select(na, i)]))
        X.write(o.loc.base, na if o.loc.kind == 'arr' else vmk(dst.sort(), vlen(dst), na))
        return X.ptr_add(o, n, et)
    raise Unsupported('copy')


@lib('std::max', 'std::min', pure=True)
def _(X, c):
    if len(c.args) != 2:
        raise Unsupported('max/min form')
    a, b = c.val(0), c.val(1)
    if a.sort() == BOOL:
        raise Unsupported('max of bool')
    return If(a < b, b, a) if c.d['n'] == 'max' else If(b < a, b, a)


@lib('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::__addressof', 'std::addressof')
def _(X, c):
    if len(c.args) != 1:
        raise Unsupported('std::move range')
    return c.args[0]


@lib('std::abs', 'abs', 'std::fabs', 'fabs', 'labs', pure=True)
def _(X, c):
    a = c.val(0)
    return If(a >= 0, a, -a)


@lib('std::basic_ostream::*', 'std::operator<<', 'std::endl')
def _(X, c):
    if c.nodes:
        vs = [X.ev(n) for n in c.nodes]
        return vs[0] if c.o is None else c.o
    return c.o if c.o is not None else c.args[0]


@lib('std::basic_stringstream::str', 'std::basic_ostringstream::str')
def _(X, c):
    return X.fresh('text', STR)


# exceptions and logging have no effect on the program state that is tracked
@lib('std::exception::what')
def _(X, c):
    return Opaque('what')


LOGQ = ('kwiver::vital::kwiver_logger', 'kwiver::vital::get_logger', 'kwiver::vital::logger_ns::location_info', 'kwiver::vital::logger_ns::')


def _log(X, c):
    n = c.d['n']
    rt = c.rty
    X.assumed.add('logging has no effect on program state')
    if rt.is_void():
        return None
    if rt.is_bool():
        return z3.BoolVal(True)
    return Opaque('logger')


for p in LOGQ:
    PREFIX.append((p, _log))
HANDLERS['kwiver::vital::logger_ns::location_info::(ctor)'] = lambda X, c: Opaque('loc')


@lib('isspace', 'std::isspace', 'isalpha', 'isdigit', 'isalnum', 'isupper', 'islower', pure=True)
def _(X, c):
    f = z3.Function(c.d['n'], INT, INT)
    return f(c.val(0))


@lib('tolower', 'toupper', pure=True)
def _(X, c):
    f = z3.Function(c.d['n'], INT, INT)
    return f(c.val(0))


@lib('strlen')
def _(X, c):
    v = c.val(0)
    s = X.lib.as_string(X, v)
    return z3.Length(s)


@lib('strcmp')
def _(X, c):
    a, b = X.lib.as_string(X, c.val(0)), X.lib.as_string(X, c.val(1))
    r = X.fresh('cmp', INT)
    X.assume(And((r == 0) == (a == b), (r < 0) == (a < b)))
    return r


# =========================================================================== function objects
class PyFn:
    """library function object with a python meaning"""
    def __init__(self, f, what=''):
        self.f, self.what = f, what

    def __call__(self, *a):
        return self.f(*a)


def conv_args(X, f, args):
    return args


@lib('std::ptr_fun', 'std::mem_fn', 'std::bind1st', 'std::not_fn')
def _(X, c):
    v = c.val(0)
    if c.d['n'] == 'ptr_fun':
        return v
    raise Unsupported(c.d['n'])


@lib('std::not1')
def _(X, c):
    f = c.val(0)

    def g(*args):
        r = X.call_pred(f, list(args), {'l': X.line})
        return Not(X.truth(r))
    return PyFn(g, 'not1')


@lib('std::bind')
def _(X, c):
    f = val(X, c.args[0])
    bound = []
    for a in c.args[1:]:
        v = val(X, a)
        if isinstance(v, Placeholder):
            bound.append(v)
        elif isinstance(a, Loc) and not isinstance(a, ObjLoc):
            bound.append(X.new_cell(a.ty, v, 'bound'))       # bound by value
        else:
            bound.append(v)

    def g(*args):
        a = [args[b.n - 1] if isinstance(b, Placeholder) else b for b in bound]
        return X.call_pred(f, a, {'l': X.line})
    return PyFn(g, 'bind')


class Placeholder:
    def __init__(self, n):
        self.n = n


def seq_filter(X, src, lo, hi, keep):
    """order preserving selection of the elements lo..hi-1 that satisfy keep: (count, picked(i) source index)"""
    n = X.fresh('kept', INT)
    X.symcount += 1
    pick = z3.Function('pick!%d' % X.symcount, INT, INT)
    at = z3.Function('at!%d' % X.symcount, INT, INT)
    i, j = z3.Ints('i!sf j!sf')
    X.assume(And(0 <= n, n <= hi - lo))
    X.assume(z3.ForAll([i], Implies(And(0 <= i, i < n), And(lo <= pick(i), pick(i) < hi, keep(pick(i)), at(pick(i)) == i)), patterns=[pick(i)]))
    X.assume(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < n), pick(i) < pick(j)), patterns=[z3.MultiPattern(pick(i), pick(j))]))
    return n, pick, at


@lib('std::remove_if')
def _(X, c):
    a, b = c.val(0), c.val(1)
    v, lo, hi, get, et = range_of(X, a, b)
    if not (isinstance(a, Iter) and a.cont.ty.unref().q in VEC) or a.rev:
        raise Unsupported('remove_if range')
    f = val(X, c.args[2])

    def keep(idx):
        return Not(X.truth(pure_pred(X, f, [get(idx)])))
    old = varr(v)
    n, pick, at = seq_filter(X, v, lo, hi, keep)
    na = X.fresh('rmif', old.sort())
    i, j = z3.Ints('i!ri j!ri')
    X.assume(z3.ForAll([i], Implies(And(lo <= i, i < lo + n), z3.Select(na, i) == z3.Select(old, pick(i - lo))), patterns=[z3.Select(na, i)]))
    X.assume(z3.ForAll([i], Implies(Or(i < lo, i >= hi), z3.Select(na, i) == z3.Select(old, i)), patterns=[z3.Select(na, i)]))
    # every kept element is picked
    X.assume(z3.ForAll([j], Implies(And(lo <= j, j < hi, keep(j)), And(0 <= at(j), at(j) < n, pick(at(j)) == j, z3.Select(na, lo + at(j)) == z3.Select(old, j))), patterns=[z3.Select(old, j)]))
    X.write(a.cont, vmk(v.sort(), vlen(v), na))
    return a.with_idx(lo + n)


@lib('std::back_inserter')
def _(X, c):
    return Inserter(c.args[0])


class Inserter:
    def __init__(self, cont):
        self.cont = cont


@lib('std::enable_shared_from_this::shared_from_this')
def _(X, c):
    X.assumed.add('shared_from_this is called on an object owned by a shared_ptr')
    o = c.o
    if isinstance(o, ObjLoc):
        return o.ref
    if isinstance(o, BoxLoc):
        return o.ref
    if isinstance(o, z3.ExprRef):
        return o
    raise Unsupported('shared_from_this on %r' % o)


from . import eigen as _eigen      # noqa: registers the models of Eigen and of the real functions
