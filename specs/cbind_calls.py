"""C interface: no exception escapes an entry point, and the error handle tells whether there was one"""
import os
from vcg.spec import *
from vcg.lib import cmem, stream
from vcg.lib.core import CStr

R = '/repo/vital/bindings/c/'
FILES = ['config_block', 'algorithm', 'algorithm_plugin_manager', 'camera', 'camera_map', 'image', 'image_container', 'track', 'track_set', 'algo_def/convert_image', 'algo_def/image_io', 'algo_def/track_features']
S = Spec([R + f + '.cxx' for f in FILES], props=['C23'])
EH = 'vital_error_handle_s'
sel = z3.Select
KEEPS = [EH + '::*', 'vital_string_t::*', 'mem:8', 'mem:64', 'mem:32', 'valid', 'block']
RAISES = ['std::exception', 'const char *', 'int']


def setup(X):
    stream.enable(X)
    cmem.enable(X)

    def what(X, c):
        t = X.cur_exc
        if getattr(t, 'text', None) is None:
            t.text = X.fresh('what', STR)
        return CStr(t.text)
    for k, d in X.prog.decls.items():
        if d.get('n') == 'what' and not d['params']:
            X.lib.h[d['q']] = what
    X.lib.h['std::exception::what'] = what

    def out(X, c):
        o = c.args[0] if c.o is None else c.o
        if stream.get(X, o) is None:
            return o
        X.write(o, stream.StreamVal(X.fresh('text', STR), z3.BoolVal(False)))
        return o
    X.lib.h['std::operator<<'] = X.lib.h['std::basic_ostream::operator<<'] = out


S.setup = setup


def opaque(X, key, d):
    """everything but the library models and the helpers of the binding itself"""
    if X.lib.handler(d) is not None:
        return False
    if d['q'] == 'kwiver::vital::image::operator()' and X.top.name == 'vital_image_new_from_data':
        X.assumed.add('image::operator() does not raise for coordinates inside the image (C10)')
        return 'nothrow'
    fn = X.prog.functions.get(key)
    return not (fn is not None and not d.get('cls') and os.path.dirname(d.get('file', '')).startswith(R[:-1]) and d['file'].endswith('.cxx') and not d['file'].startswith(('common', 'error_handle', 'helpers')))


def hm(c, key, post=False, sort=INT):
    with c.X.at(c._post if post else c._pre):
        return c.X.hmap(key, sort)


def eh_param(d):
    for i, p in enumerate(d['params']):
        if 'vital_error_handle' in p:
            return i
    return None


def codes(n):
    if n in ('vital_config_block_file_read', 'vital_config_block_file_read_from_standard_location'):
        return [-1, 1, 2, 3]
    if n == 'vital_config_block_file_write':
        return [-1, 1]
    return [-1]


def req(i):
    def f(c):
        eh = c.val(i)
        return [('error handle null or live', Or(eh == 0, sel(hm(c, 'block'), eh) > 0)), ('nothing raised before', Not(sel(hm(c, 'ghost:raised', sort=BOOL), 0)))]
    return f


def post(i, n):
    def f(c):
        eh = c.val(i)
        raised = sel(hm(c, 'ghost:raised', True, BOOL), 0)
        code, msg = sel(hm(c, EH + '::error_code', True), eh), sel(hm(c, EH + '::message', True), eh)
        b, m, v = hm(c, 'block', True), hm(c, 'mem:8', True), hm(c, 'valid', True, BOOL)
        q = z3.Int('q!ms')
        R_ = lambda g: Implies(And(eh != 0, raised), g)
        return [('without an exception the handle stays as it was', Implies(And(eh != 0, Not(raised)), And(code == sel(hm(c, EH + '::error_code'), eh), msg == sel(hm(c, EH + '::message'), eh)))),
                ('an exception sets the documented code', R_(Or([code == k for k in codes(n)]))),
                ('the message is a live block', R_(And(msg != 0, sel(b, msg) >= 2, forall([q], Implies(And(msg <= q, q < msg + sel(b, msg) - 1), sel(v, q)), patterns=[sel(v, q)])))),
                ('the message is terminated at its end', R_(sel(m, msg + sel(b, msg) - 2) == 0))]
    return f


def dynamic(prog):
    for k in sorted(prog.functions):
        d = prog.decls[k]
        if d.get('extc') and d['q'].startswith('vital_') and d.get('file', '').startswith(R) and d['file'].endswith('.cxx'):
            i = eh_param(d)
            kw = dict(requires=req(i), ensures=post(i, d['q'])) if i is not None else dict(ensures=lambda c: [('no exception escapes', z3.BoolVal(True))])
            S.fn(d['q'], opaque=opaque, keeps=KEEPS, raises=RAISES, skip_kinds=('safety', 'overflow', 'requires'), frame=False, **kw)


S.dynamic = dynamic
