"""kwiver::vital::algo::image_io: path checks before the implementation is called, and nothing after it"""
from vcg.spec import *

S = Spec(['vital/algo/image_io.cxx'], props=['C27'])
V = 'kwiver::vital::'
IO = V + 'algo::image_io::'
ST = 'kwiversys::SystemTools::'
IMPL = 'kwiver::vital::image_exception'      # stands for any exception of the implementation
sel = z3.Select

# the file system is a fixed snapshot: two tests on path names
EXISTS = z3.Function('file_exists', STR, BOOL)
ISDIR = z3.Function('file_is_directory', STR, BOOL)
DIRNAME = z3.Function('filename_path', STR, STR)
FULL = z3.Function('collapse_full_path', STR, STR)
one = lambda d: len(d['params']) == 1 and 'basic_string' in d['params'][0]
S.fn(ST + 'FileExists', trusted=True, match=one, value=lambda c: EXISTS(c.val(0)))
S.fn(ST + 'FileIsDirectory', trusted=True, match=one, value=lambda c: ISDIR(c.val(0)))
S.fn(ST + 'GetFilenamePath', trusted=True, value=lambda c: DIRNAME(c.val(0)))
S.fn(ST + 'CollapseFullPath', trusted=True, match=one, value=lambda c: FULL(c.val(0)))

# ghost record of the calls of the implementation: number, last path, last image given, last image returned
GH = dict(loads=INT, saves=INT, path=STR, given=INT, back=INT)


def g(c, n, post=False):
    with c.X.at(c._post if post else c._pre):
        return sel(c.X.hmap('ghost:' + n, GH[n]), z3.IntVal(0))


def touch(c):
    for n in GH:
        c.X.hmap('ghost:' + n, GH[n])
    return []


mods = lambda c: ['ghost:' + n for n in GH]


def loaded(c):
    return [('one call of the implementation', And(g(c, 'loads', True) == g(c, 'loads') + 1, g(c, 'saves', True) == g(c, 'saves'))), ('with the path', g(c, 'path', True) == c.val(0))]


def saved(c):
    return [('one call of the implementation', And(g(c, 'saves', True) == g(c, 'saves') + 1, g(c, 'loads', True) == g(c, 'loads'))), ('with the path', g(c, 'path', True) == c.val(0)),
            ('with the image', g(c, 'given', True) == c.val(1))]


def untouched(c):
    return [('the implementation is not called', And([g(c, n, True) == g(c, n) for n in GH]))]


S.fn(IO + 'load_', trusted=True, axioms=touch, modifies=mods, throws=lambda c: {IMPL: ('may', z3.BoolVal(True))}, exc_ensures=loaded,
     ensures=lambda c: loaded(c) + [('the image', c.result == g(c, 'back', True))])
S.fn(IO + 'save_', trusted=True, axioms=touch, modifies=mods, throws=lambda c: {IMPL: ('may', z3.BoolVal(True))}, exc_ensures=saved, ensures=saved)


def guarded(ok, done):
    return lambda c: [(n, Implies(ok(c), f)) for n, f in done(c)] + [(n, Implies(Not(ok(c)), f)) for n, f in untouched(c)]


lok = lambda c: And(EXISTS(c.val(0)), Not(ISDIR(c.val(0))))
S.fn(IO + 'load', axioms=touch, modifies=mods,
     throws=lambda c: {V + 'path_not_exists': Not(EXISTS(c.val(0))), V + 'path_not_a_file': And(EXISTS(c.val(0)), ISDIR(c.val(0))), IMPL: ('may', lok(c))},
     exc_ensures=guarded(lok, loaded), ensures=lambda c: loaded(c) + [('its result unchanged', c.result == g(c, 'back', True))])
cdir = lambda c: DIRNAME(FULL(c.val(0)))
sok = lambda c: And(EXISTS(cdir(c)), ISDIR(cdir(c)))
S.fn(IO + 'save', axioms=touch, modifies=mods,
     throws=lambda c: {V + 'path_not_exists': Not(EXISTS(cdir(c))), V + 'path_not_a_directory': And(EXISTS(cdir(c)), Not(ISDIR(cdir(c)))), IMPL: ('may', sok(c))},
     exc_ensures=guarded(sok, saved), ensures=saved)
