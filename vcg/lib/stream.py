"""Model of std::stringstream used for value conversion.

A stream is the text written to it and its fail flag.  What the formatted
input and output of the standard library do to a type is uninterpreted: FORMAT
(text of a value), PARSES (extraction succeeds on a text), PARSED (its value).
Trusted: integers and booleans are read back as they were written."""
from ..engine import *
from .core import opaque_call, HANDLERS


class StreamVal:
    def __init__(self, text, fail):
        self.text, self.fail = text, fail


def tag(ty):
    return ty.id.replace('const ', '')


def FORMAT(t, sort):
    return z3.Function('format<%s>' % t, sort, STR)


def PARSES(t):
    return z3.Function('parses<%s>' % t, STR, BOOL)


def PARSED(t, sort):
    return z3.Function('parsed<%s>' % t, STR, sort)


def round_trip(t, sort, v):
    """trusted fact about formatted output followed by formatted input of one value"""
    s = FORMAT(t, sort)(v)
    return And(PARSES(t)(s), PARSED(t, sort)(s) == v)


def get(X, o):
    if not isinstance(o, Loc):
        return None
    try:
        v = X.read(o)
    except Unsupported:
        return None
    return v if isinstance(v, StreamVal) else None


def ctor(X, c):
    for n in c.nodes or []:
        X.ev(n)
    return StreamVal(z3.StringVal(''), z3.BoolVal(False))


def out_free(X, c):
    o = c.args[0]
    s = get(X, o)
    if s is None:
        return HANDLERS['std::operator<<'](X, c)
    ps = c.d['params']
    t = X.prog.ty(ps[1]).unref()
    if X.lib.is_string(t) or t.is_ptr():
        txt = X.lib.as_string(X, c.val(1))
    elif t.is_char():
        txt = X.lib.char_str(c.val(1))
    else:
        raise Unsupported('stream output of ' + t.id)
    X.write(o, StreamVal(z3.Concat(s.text, txt), s.fail))
    return o


def out_member(X, c):
    s = get(X, c.o)
    if s is None:
        return opaque_call(X, c)
    t = X.prog.ty(c.d['params'][0])
    v = c.val(0)
    if not isinstance(v, z3.ExprRef):
        raise Unsupported('stream manipulator')
    txt = FORMAT(tag(t), v.sort())(v)
    X.write(c.o, StreamVal(z3.Concat(s.text, txt), s.fail))
    return c.o


def extract(X, o, target, t):
    s = get(X, o)
    if s is None:
        raise Unsupported('input from a stream')
    sort = X.sort(t)
    ok = PARSES(tag(t))(s.text)
    u = X.fresh('parse_rest', sort)
    X.write(target, If(ok, PARSED(tag(t), sort)(s.text), u))
    X.ref_fact(X.read(target), t)
    rest = X.fresh('rest', STR)
    X.write(o, StreamVal(rest, Or(s.fail, Not(ok))))
    return o


def in_member(X, c):
    return extract(X, c.o, c.args[0], X.prog.ty(c.d['params'][0]).unref())


def in_free(X, c):
    return extract(X, c.args[0], c.args[1], X.prog.ty(c.d['params'][1]).unref())


def fail(X, c):
    s = get(X, c.o)
    return opaque_call(X, c) if s is None else s.fail


def text(X, c):
    s = get(X, c.o)
    return X.fresh('text', STR) if s is None else s.text


def enable(X):
    h = X.lib.h
    for n in ('basic_stringstream', 'basic_ostringstream', 'basic_istringstream'):
        h['std::%s::(ctor)' % n] = ctor
        h['std::%s::str' % n] = text
    h['std::operator<<'] = out_free
    h['std::operator>>'] = in_free
    h['std::basic_ostream::operator<<'] = out_member
    h['std::basic_istream::operator>>'] = in_member
    h['std::basic_ios::fail'] = fail
