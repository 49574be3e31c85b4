"""Small vocabulary for writing specifications."""
import z3
from .engine import *


class Spec:
    """contracts and lemmas of one area of the code, tagged with property ids"""
    def __init__(self, srcs, props=()):
        self.srcs = list(srcs)
        self.contracts = []
        self.lemmas = []
        self.props = tuple(props)
        self.setup = None        # Executor -> None: extra library models
        self.dynamic = None      # program -> None: adds contracts for the functions found in the program

    def prepare(self, prog):
        if self.dynamic:
            self.dynamic(prog)
            self.dynamic = None

    def fn(self, q, prop=None, **kw):
        c = Contract(q, **kw)
        c.prop = prop if isinstance(prop, (list, tuple)) else [prop] if prop else list(self.props)
        self.contracts.append(c)
        return c

    def lemma(self, name, prop=None):
        def deco(f):
            self.lemmas.append((name, prop if isinstance(prop, (list, tuple)) else [prop] if prop else list(self.props), f))
            return f
        return deco


class Lem:
    """environment of a lemma: objects, pure functions given by their contracts"""
    def __init__(self, X):
        self.X = X
        self.st = X.st

    def obj(self, cls, name):
        r = z3.Const(name, INT)
        self.X.initial.add(name)
        self.X.assume(r >= 1)
        return ObjLoc(r, self.X.prog.ty(cls))

    def var(self, ty, name):
        t = self.X.prog.ty(ty)
        v = z3.Const(name, self.X.sort(t))
        self.X.initial.add(name)
        self.X.ref_fact(v, t)
        return v

    def call(self, q, this, *args, match=None):
        """value of a pure function according to its contract"""
        X = self.X
        for c in X.contracts.get(q, []):
            if c.value is None:
                continue
            for k in X.prog.find(q):
                d = X.prog.decls[k]
                if (c.match is None or c.match(d)) and (match is None or match(d)):
                    a = [X.new_cell(X.prog.ty(d['params'][i]).unref(), x) if not isinstance(x, Loc) else x for i, x in enumerate(args)]
                    cx = Ctx(X, c, d, this, a, X.st)
                    cx.verifying = False
                    return c.value(cx)
        raise Unsupported('lemma: no pure contract for ' + q)


def wrap_s(v, bits):
    lo = -(1 << (bits - 1))
    return (v - lo) % (1 << bits) + lo


def trunc_real(v):
    """C conversion of a real to an integer"""
    return If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def forall_idx(n, f, name='i!sp', patterns=None):
    i = z3.Int(name)
    body = Implies(And(0 <= i, i < n), f(i))
    return forall([i], body, patterns(i) if patterns else None)


def exists_idx(n, f, name='i!ex'):
    i = z3.Int(name)
    return z3.Exists([i], And(0 <= i, i < n, f(i)))


def params(*ts):
    return lambda d: [p for p in d['params']] == list(ts)


def nparams(n):
    return lambda d: len(d['params']) == n


def forall(vs, body, patterns=None):
    """quantifier; patterns that the solver does not accept (e.g. containing if) are left out"""
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    good = []
    for p in patterns or []:
        try:
            z3.ForAll(list(vs), body, patterns=[p])
            good.append(p)
        except z3.Z3Exception:
            pass
    if good:
        return z3.ForAll(list(vs), body, patterns=good)
    return z3.ForAll(list(vs), body)


def locals_of(lc, sort):
    """local variables of the function (modified by the loop or not) with a given sort"""
    X = lc.X
    for key, loc in list(X.frame.env.items()):
        if not isinstance(loc, VarLoc):
            continue
        try:
            v = X.read(loc)
        except Unsupported:
            continue
        if isinstance(v, z3.ExprRef) and v.sort() == sort:
            yield str(key[1]), loc
