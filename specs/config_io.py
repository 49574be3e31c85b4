"""reading and writing of configuration files: which files are opened, which errors are raised, which file of the search path counts"""
from vcg.spec import *
from vcg.lib import cmem

S = Spec(['vital/config/config_block_io.cxx'], props=['C06', 'C07'])
V = 'kwiver::vital::'
ST = 'kwiversys::SystemTools::'
CB, CP = V + 'config_block', V + 'config_parser'
NOTFOUND, NOTWRITTEN, NOTPARSED, RDONLY = V + 'config_file_not_found_exception', V + 'config_file_write_exception', V + 'config_file_not_parsed_exception', V + 'set_on_read_only_value_exception'
sel, Z = z3.Select, z3.IntVal(0)
truth = lambda r: r if r.sort() == BOOL else r != 0
LIST = vec_sort(STR)

# a fixed snapshot of the file system
EXISTS = z3.Function('file_exists', STR, BOOL)
ISDIR = z3.Function('file_is_directory', STR, BOOL)
FULLP = z3.Function('file_is_full_path', STR, BOOL)
DIRNAME = z3.Function('filename_path', STR, STR)
FULL = z3.Function('collapse_full_path', STR, STR)
MAKES = z3.Function('directory_can_be_made', STR, BOOL)
OPENS = z3.Function('file_can_be_opened_for_writing', STR, BOOL)
one = lambda d: len(d['params']) == 1 and 'basic_string' in d['params'][0]
S.fn(ST + 'FileExists', trusted=True, match=one, value=lambda c: EXISTS(c.val(0)))
S.fn(ST + 'FileIsDirectory', trusted=True, match=one, value=lambda c: ISDIR(c.val(0)))
S.fn(ST + 'FileIsFullPath', trusted=True, match=one, value=lambda c: FULLP(c.val(0)))
S.fn(ST + 'GetFilenamePath', trusted=True, value=lambda c: DIRNAME(c.val(0)))
S.fn(ST + 'CollapseFullPath', trusted=True, match=one, value=lambda c: FULL(c.val(0)))

# ghost state: the file opened last, how many were opened, whether everything could be written so far, directories made,
# number of blocks written and the last one, the content (a ghost value) of configuration objects
GH = dict(opens=INT, opened=STR, bad=BOOL, makes=INT, made=STR, writes=INT, written=INT, search=LIST, reads=INT, path=STR)
CFG = z3.DeclareSort('ConfigContent')
cfg_key = 'ghost:content'
READ = z3.Function('content_read_from', STR, LIST, CFG)
MERGE = z3.Function('merged_over', CFG, CFG, CFG)     # content after merging a second block into the first one


def g(c, n, post=False):
    with c.X.at(c._post if post else c._pre):
        return sel(c.X.hmap('ghost:' + n, GH[n]), Z)


def content(c, ref, post=False):
    with c.X.at(c._post if post else c._pre):
        return sel(c.X.hmap(cfg_key, CFG), ref)


def touch(c):
    for n in GH:
        c.X.hmap('ghost:' + n, GH[n])
    c.X.hmap(cfg_key, CFG)
    return []


def same(c, *ns):
    return And([g(c, n, True) == g(c, n) for n in ns])


mods = lambda c: ['ghost:' + n for n in GH]


def setup(X):
    def put(n, v):
        cmem.set_heap(X, 'ghost:' + n, z3.Store(X.hmap('ghost:' + n, GH[n]), Z, v))

    def get(n):
        return sel(X.hmap('ghost:' + n, GH[n]), Z)

    def ofstream(X, c):
        if not c.nodes:
            raise Unsupported('stream without a file')
        a = X.lib.as_string(X, X.ev(c.nodes[0]))
        for n in c.nodes[1:]:
            X.ev(n)
        put('opens', get('opens') + 1)
        put('opened', a)
        put('bad', Not(OPENS(a)))
        return Opaque('std::basic_ofstream')

    def close(X, c):
        put('bad', Or(get('bad'), X.fresh('close_fails', BOOL)))
        return None
    X.lib.h['std::basic_ofstream::(ctor)'] = ofstream
    X.lib.h['std::basic_ofstream::close'] = close
    X.lib.h['std::basic_ios::operator!'] = lambda X, c: get('bad')
    X.lib.h['std::basic_ios::fail'] = lambda X, c: get('bad')
    X.lib.h['std::basic_ios::operator bool'] = lambda X, c: Not(get('bad'))


S.setup = setup
S.fn(ST + 'MakeDirectory', trusted=True, axioms=touch, modifies=lambda c: ['ghost:makes', 'ghost:made'],
     ensures=lambda c: [('', And(g(c, 'makes', True) == g(c, 'makes') + 1, g(c, 'made', True) == c.val(0))), ('', truth(c.result) == MAKES(c.val(0)))])

# ------------------------------------------------------------------ writing
KEYS = z3.Function('keys_of', INT, LIST)
S.fn(CB + '::available_values', trusted=True, value=lambda c: KEYS(c.this.ref), axioms=lambda c: [vlen(KEYS(c.this.ref)) >= 0])
empty = lambda ref: vlen(KEYS(ref)) == 0
S.fn(V + 'write_config', trusted=True, axioms=touch, modifies=lambda c: ['ghost:bad', 'ghost:writes', 'ghost:written'], throws=lambda c: {NOTWRITTEN: empty(c.val(0))},
     ensures=lambda c: [('', And(g(c, 'writes', True) == g(c, 'writes') + 1, g(c, 'written', True) == c.val(0))), ('', Implies(g(c, 'bad'), g(c, 'bad', True)))])


def refused(c):
    path, parent = c.val(1), DIRNAME(FULL(c.val(1)))
    return Or(empty(c.val(0)), ISDIR(path), And(Not(ISDIR(parent)), Not(MAKES(parent))))


def wrote(c):
    path, parent = c.val(1), DIRNAME(FULL(c.val(1)))
    return [('the file is opened once', And(g(c, 'opens', True) == g(c, 'opens') + 1, g(c, 'opened', True) == path)), ('the block is written to it once', And(g(c, 'writes', True) == g(c, 'writes') + 1, g(c, 'written', True) == c.val(0))),
            ('everything was written', Not(g(c, 'bad', True))), ('a missing directory is made', If(ISDIR(parent), same(c, 'makes', 'made'), And(g(c, 'makes', True) == g(c, 'makes') + 1, g(c, 'made', True) == parent)))]


S.fn(V + 'write_config_file', prop=['C07'], axioms=touch, requires=lambda c: [('a block', c.val(0) != 0)], modifies=mods,
     throws=lambda c: {NOTWRITTEN: ('may', z3.BoolVal(True))},
     ensures=lambda c: [('no block without entries, no directory', Not(refused(c))), ('the file can be opened', OPENS(c.val(1)))] + wrote(c),
     exc_ensures=lambda c: [('no file is opened when it is refused', Implies(refused(c), same(c, 'opens', 'opened', 'writes'))), ('a block without entries and a directory leave the file system alone', Implies(Or(empty(c.val(0)), ISDIR(c.val(1))), same(c, 'makes', 'made'))),
                            ('an error means refused or not completely written', Or(refused(c), And(g(c, 'opens', True) == g(c, 'opens') + 1, g(c, 'bad', True))))])

# ------------------------------------------------------------------ reading one file: a parser of its own, given the search path
PMODS = lambda *ns: lambda c: ['ghost:' + n for n in ns]
PARSEERR = lambda ok: {NOTFOUND: ('may', Not(ok)), NOTPARSED: ('may', Not(ok)), RDONLY: ('may', Not(ok))}
GOOD = z3.Function('file_parses', STR, LIST, BOOL)
S.fn(CP + '::(ctor)', trusted=True, match=nparams(0), axioms=touch, modifies=lambda c: [c.pre.loc(c.this, 'm_priv'), 'ghost:search'], ensures=lambda c: [('', vlen(g(c, 'search', True)) == 0)])
S.fn(CP + '::(dtor)', trusted=True)
S.fn(CP + '::add_search_path', trusted=True, axioms=touch, match=lambda d: 'vector' in d['params'][0], modifies=PMODS('search'), ensures=lambda c: [('', Implies(vlen(g(c, 'search')) == 0, g(c, 'search', True) == c.val(0)))])
S.fn(CP + '::parse_config', trusted=True, axioms=touch, modifies=PMODS('reads', 'path'), throws=lambda c: PARSEERR(GOOD(c.val(0), g(c, 'search'))),
     ensures=lambda c: [('', And(g(c, 'reads', True) == g(c, 'reads') + 1, g(c, 'path', True) == c.val(0))), ('', GOOD(c.val(0), g(c, 'search')))])
S.fn(CP + '::get_config', trusted=True, axioms=touch, fresh_result=True, modifies=lambda c: [cfg_key],
     ensures=lambda c: [('', content(c, c.result, True) == READ(g(c, 'path'), g(c, 'search'))), ('', others(c))])


def others(c):
    r = z3.Int('r!ot')
    with c.X.at(c._pre):
        m0 = c.X.hmap(cfg_key, CFG)
    with c.X.at(c._post):
        m1 = c.X.hmap(cfg_key, CFG)
    return forall([r], Implies(r != c.result, sel(m1, r) == sel(m0, r)), patterns=[sel(m1, r)])


isfile = lambda p: And(EXISTS(p), Not(ISDIR(p)))
S.fn(V + 'read_config_file', name='read_config_file(path, search path)', match=nparams(2), axioms=touch, modifies=lambda c: ['ghost:search', 'ghost:reads', 'ghost:path', cfg_key], fresh_result=True,
     throws=lambda c: {NOTFOUND: ('may', Or(Not(isfile(c.val(0))), Not(GOOD(c.val(0), c.val(1))))), NOTPARSED: ('may', And(isfile(c.val(0)), Not(GOOD(c.val(0), c.val(1))))), RDONLY: ('may', And(isfile(c.val(0)), Not(GOOD(c.val(0), c.val(1)))))},
     exc_ensures=lambda c: [('what is no file is not read', Implies(Not(isfile(c.val(0))), same(c, 'reads', 'path')))],
     ensures=lambda c: [('it is a file that parses', And(isfile(c.val(0)), GOOD(c.val(0), c.val(1)))), ('the file is read once', And(g(c, 'reads', True) == g(c, 'reads') + 1, g(c, 'path', True) == c.val(0))),
                        ('its content, with the search path for its includes', content(c, c.result, True) == READ(c.val(0), c.val(1))), ('other blocks keep their content', others(c))])

# ------------------------------------------------------------------ searching the configuration directories, merging
CFP = z3.Function('configuration_directories', STR, STR, STR, LIST)
S.fn(V + 'config_file_paths', trusted=True, value=lambda c: CFP(c.val(0), c.val(1), c.val(2)), axioms=lambda c: [vlen(CFP(c.val(0), c.val(1), c.val(2))) >= 0, vlen(CFP(c.val(0), c.val(1), c.val(2))) < (1 << 40)])
MAP = lambda c, post: c._post.heap[cfg_key] if post else c._pre.heap[cfg_key]


def merges(c):
    me, r = c.this.ref, z3.Int('r!mg')
    with c.X.at(c._pre):
        m0 = c.X.hmap(cfg_key, CFG)
    with c.X.at(c._post):
        m1 = c.X.hmap(cfg_key, CFG)
    return [('', sel(m1, me) == MERGE(sel(m0, me), sel(m0, c.val(0)))), ('', forall([r], Implies(r != me, sel(m1, r) == sel(m0, r)), patterns=[sel(m1, r)]))]


S.fn(CB + '::merge_config', trusted=True, axioms=touch, modifies=lambda c: [cfg_key], ensures=merges, throws=lambda c: {RDONLY: ('may', z3.BoolVal(True))})

FIRST = z3.Function('first_file_found', LIST, STR, INT)
FOUND = z3.Function('file_found_before', LIST, STR, INT, BOOL)
ACC = z3.Function('merged_content', LIST, STR, INT, CFG)


class Search:
    """the places where the file is looked for: the configuration directories, then the current directory"""
    def __init__(self, c):
        self.c, self.name = c, c.val(0)
        self.dirs = CFP(c.val(1), c.val(2), c.val(3))
        self.n = vlen(self.dirs)

    def place(self, i):
        return z3.Concat(If(i < self.n, sel(varr(self.dirs), i), z3.StringVal('.')), z3.StringVal('/'), self.name)

    def at(self, i):
        """definitions for place i"""
        k = FIRST(self.dirs, self.name)
        f, g_ = FOUND(self.dirs, self.name, i), FOUND(self.dirs, self.name, simp(i + 1))
        ok = isfile(self.place(i))
        return [Implies(And(0 <= i, i < k), Not(ok)), Implies(i == k, Or(ok, k == self.n + 1)), 0 <= k, k <= self.n + 1,
                g_ == Or(f, ok), f == (k < i),
                ACC(self.dirs, self.name, simp(i + 1)) == If(ok, If(f, MERGE(READ(self.place(i), self.dirs), ACC(self.dirs, self.name, i)), READ(self.place(i), self.dirs)), ACC(self.dirs, self.name, i))]


def search_loops(lc):
    c, X = lc.c, lc.X
    s = Search(c)
    now = lambda r: sel(X.hmap(cfg_key, CFG), r)
    for pn, pos in lc.positions():
        def reached(pos=pos):
            for f in s.at(pos()):
                X.assume(f)
            return And(0 <= pos(), pos() <= s.n + 1)
        yield 'reached(%s)' % pn, reached
        yield 'first(%s)' % pn, lambda pos=pos: Implies(Not(c.val(4)), pos() <= FIRST(s.dirs, s.name))
        for n, loc in lc.vars:
            try:
                v0 = X.read(loc)
            except Exception:
                continue
            if isinstance(v0, z3.ExprRef) and v0.sort() == INT and loc.ty.k == 'rec':
                yield 'found(%s,%s)' % (n, pn), lambda loc=loc, pos=pos: (X.read(loc) != 0) == And(c.val(4), FOUND(s.dirs, s.name, pos()))
                yield 'content(%s,%s)' % (n, pn), lambda loc=loc, pos=pos: Implies(X.read(loc) != 0, now(X.read(loc)) == ACC(s.dirs, s.name, pos()))


def searched(c):
    s = Search(c)
    k = FIRST(s.dirs, s.name)
    absolute = FULLP(s.name)
    got = content(c, c.result, True)
    return [('an absolute name is that file', Implies(absolute, And(isfile(s.name), got == READ(s.name, s.dirs)))),
            ('otherwise a file was found', Implies(Not(absolute), k <= s.n)),
            ('without merging it is the first one', Implies(And(Not(absolute), Not(c.val(4))), got == READ(s.place(k), s.dirs))),
            ('with merging it is all of them, the first ones over the later ones', Implies(And(Not(absolute), c.val(4)), got == ACC(s.dirs, s.name, simp(s.n + 1))))]


S.fn(V + 'read_config_file', name='read_config_file(name, application, version, prefix, merge)', match=nparams(5), axioms=lambda c: touch(c) + Search(c).at(Search(c).n + 1), modifies=lambda c: ['ghost:search', 'ghost:reads', 'ghost:path', cfg_key],
     throws=lambda c: {e: ('may', z3.BoolVal(True)) for e in (NOTFOUND, NOTPARSED, RDONLY)}, ensures=searched, loops=search_loops)
