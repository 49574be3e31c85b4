"""Model of kwiversys::RegularExpression objects with a constant pattern.

An object is its pattern and the text of the last search.  Whether a pattern
occurs in a text, and where its leftmost longest occurrence and the groups lie,
are functions of the text, one family per pattern (patterns with the same
tokens, classes taken as sets of characters, are the same pattern).  Trusted:
offsets lie inside the text in order, and an occurrence of a pattern that
cannot match the empty text is not empty."""
import hashlib
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre
from ..engine import *
from .core import val

CLS = 'kwiversys::RegularExpression'


def canon(p):
    """(key, groups, can be empty): tokens of the pattern with character classes as sets"""
    t = sre.parse(p)

    def cs(items):
        r, neg = set(), False
        for op, a in items:
            op = str(op)
            if op == 'NEGATE':
                neg = True
            elif op == 'LITERAL':
                r.add(a)
            elif op == 'RANGE':
                r |= set(range(a[0], a[1] + 1))
            else:
                raise Unsupported('regular expression class ' + op)
        return ('^' if neg else '') + ','.join(map(str, sorted(r)))

    def walk(t):
        out = []
        for op, a in t:
            op = str(op)
            if op == 'LITERAL':
                out.append('[%d]' % a)
            elif op == 'NOT_LITERAL':
                out.append('[^%d]' % a)
            elif op == 'IN':
                out.append('[%s]' % cs(a))
            elif op in ('MAX_REPEAT',):
                out.append('{%s,%s}(%s)' % (a[0], a[1], walk(a[2])))
            elif op == 'SUBPATTERN':
                out.append('<%s:%s>' % (a[0], walk(a[3])))
            elif op == 'AT':
                out.append(str(a))
            elif op == 'ANY':
                out.append('.')
            elif op == 'BRANCH':
                out.append('|'.join(walk(x) for x in a[1]))
            else:
                raise Unsupported('regular expression ' + op)
        return ' '.join(out)
    return walk(t), t.state.groups - 1, t.getwidth()[0] == 0


class Pat:
    cache = {}

    def __new__(cls, p):
        if p not in cls.cache:
            o = object.__new__(cls)
            k, o.groups, o.nullable = canon(p)
            o.key = 're' + hashlib.sha256(k.encode()).hexdigest()[:8]
            cls.cache[p] = o
        return cls.cache[p]

    def found(self, s):
        return z3.Function('found(%s)' % self.key, STR, BOOL)(s)

    def start(self, s, n):
        return z3.Function('start%d(%s)' % (n, self.key), STR, INT)(s)

    def end(self, s, n):
        return z3.Function('end%d(%s)' % (n, self.key), STR, INT)(s)

    def match(self, s, n):
        return z3.SubString(s, self.start(s, n), self.end(s, n) - self.start(s, n))

    def facts(self, s):
        f = [0 <= self.start(s, 0), self.start(s, 0) <= self.end(s, 0), self.end(s, 0) <= z3.Length(s)]
        if not self.nullable:
            f.append(self.start(s, 0) < self.end(s, 0))
        for n in range(1, self.groups + 1):
            f += [self.start(s, 0) <= self.start(s, n), self.start(s, n) <= self.end(s, n), self.end(s, n) <= self.end(s, 0)]
        return [Implies(self.found(s), And(f)), z3.Length(s) < (1 << 62)]


class RegexVal:
    def __init__(self, pat, subj):
        self.pat, self.subj = pat, subj

    def havoc(self, X):
        return RegexVal(self.pat, None)


def enable(X):
    h = X.lib.h
    X.lib.opaque_types.add(CLS)
    X.lib.const_statics.add(CLS)

    def ctor(X, c):
        v = X.ev(c.nodes[0])
        v = X.read(v) if isinstance(v, Loc) else v
        if not isinstance(v, StrLit):
            raise Unsupported('regular expression that is not a literal')
        d = v.data
        return RegexVal(Pat(d if isinstance(d, str) else bytes(d).decode()), None)

    def get(c):
        v = c.X.read(c.o)
        if not isinstance(v, RegexVal):
            raise Unsupported('unknown regular expression')
        return v

    def find(X, c):
        v = get(c)
        s = X.lib.as_string(X, c.val(0))
        for f in v.pat.facts(s):
            X.assume(f)
        X.write(c.o, RegexVal(v.pat, s))
        return v.pat.found(s)

    def part(name):
        def f(X, c):
            v = get(c)
            n = simp(c.val(0)) if c.args else z3.IntVal(0)
            if v.subj is None or not z3.is_int_value(n):
                raise Unsupported('part of a regular expression match')
            return getattr(v.pat, name)(v.subj, n.as_long())
        return f
    h[CLS + '::(ctor)'] = ctor
    h[CLS + '::find'] = find
    for n in ('start', 'end', 'match'):
        h[CLS + '::' + n] = part(n)
