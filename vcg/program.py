"""Loading of the mechanically extracted program (output of front/astdump)."""
import json, os, subprocess, hashlib, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, '.work'))


class ExtractError(Exception):
    pass


class Ty:
    """Structured canonical type."""
    __slots__ = ('id', 'k', 'd', 'prog', 'const')

    def __init__(self, prog, tid):
        self.const = tid.startswith('const ') and tid not in prog.types
        if self.const:
            tid = tid[6:]
        self.id = tid
        self.prog = prog
        self.d = prog.types.get(tid)
        if self.d is None:
            self.d = {'k': 'other', 's': tid}
        self.k = self.d['k']

    def __repr__(self):
        return 'Ty(%s)' % self.id

    @property
    def elem(self):
        return self.prog.ty(self.d['e'])

    @property
    def q(self):
        return self.d.get('q', '')

    def is_ref(self):
        return self.k == 'ref'

    def is_ptr(self):
        return self.k == 'ptr'

    def is_bool(self):
        return self.k == 'builtin' and self.d['b'] == 'bool'

    def is_int(self):
        return (self.k == 'builtin' and self.d['b'] == 'int') or self.k == 'enum'

    def is_char(self):
        return self.k == 'builtin' and self.d['b'] == 'int' and self.d.get('ch', False)

    def is_float(self):
        return self.k == 'builtin' and self.d['b'] == 'float'

    def is_void(self):
        return self.k == 'builtin' and self.d['b'] == 'void'

    def is_rec(self):
        return self.k == 'rec'

    def bits(self):
        if self.k == 'enum':
            return self.prog.ty(self.d['u']).bits()
        return self.d['bits']

    def signed(self):
        if self.k == 'enum':
            return self.prog.ty(self.d['u']).signed()
        return self.d['sg']

    def size(self):
        if self.k == 'ptr':
            return 8
        if self.is_bool():
            return 1
        return self.bits() // 8

    def range(self):
        b = self.bits()
        if self.signed():
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def arg(self, i):
        a = self.d['args'][i]
        if 't' in a:
            return self.prog.ty(a['t'])
        if 'i' in a:
            return int(a['i'])
        return a

    def nargs(self):
        return len(self.d.get('args', []))

    def root(self):
        r = self.prog.records.get(self.id)
        return bool(r and r.get('root'))

    def unref(self):
        return self.elem if self.k == 'ref' else self


class Program:
    def __init__(self):
        self.types, self.records, self.enums = {}, {}, {}
        self.decls, self.functions, self.globals = {}, {}, {}
        self._ty = {}
        self.tus = []
        self.by_q = {}

    def ty(self, tid):
        t = self._ty.get(tid)
        if t is None:
            t = self._ty[tid] = Ty(self, tid)
        return t

    def add(self, data, tu):
        n = len(self.tus)
        self.tus.append(tu)
        for k, v in data['types'].items():
            self.types.setdefault(k, v)
        for k, v in data['records'].items():
            old = self.records.get(k)
            if old is None or (not old.get('complete') and v.get('complete')):
                self.records[k] = v
        for k, v in data['enums'].items():
            self.enums.setdefault(k, v)
        for k, v in data['globals'].items():
            g = dict(v)
            g['tu'] = n
            if k.startswith('static#'):
                k = '%d:%s' % (n, k)
                self.globals[k] = g
            else:
                old = self.globals.get(k)
                if old is None or ('i' not in old and 'i' in g):
                    self.globals[k] = g
        for k, v in data['decls'].items():
            kk = k
            if k.endswith(' @static'):
                pass
            old = self.decls.get(kk)
            if old is None or (not old.get('root') and v.get('root')):
                self.decls[kk] = v
        for k, v in data['functions'].items():
            if k not in self.functions:
                f = dict(v)
                f['tu'] = n
                f['key'] = k
                self.functions[k] = f
        self._ty.clear()
        self.by_q = {}

    def index(self):
        self.by_q = {}
        for k in self.functions:
            q = self.decls[k]['q']
            self.by_q.setdefault(q, []).append(k)

    def find(self, q, **kw):
        """functions (with bodies) having qualified name q"""
        if not self.by_q:
            self.index()
        return self.by_q.get(q, [])

    # -- records ---------------------------------------------------------
    def record(self, tid):
        return self.records.get(tid)

    def bases(self, tid):
        r = self.records.get(tid)
        return r.get('bases', []) if r else []

    def is_base_of(self, b, d):
        """is record b equal to or a base class of record d"""
        if b == d:
            return True
        return any(self.is_base_of(b, x) for x in self.bases(d))

    def all_fields(self, tid):
        """[(declaring class, field name, type id)] including inherited"""
        out = []
        for b in self.bases(tid):
            out += self.all_fields(b)
        r = self.records.get(tid)
        if r:
            for f in r.get('fields', []):
                out.append((tid, f['n'], f['t']))
        return out

    def field_type(self, tid, name):
        r = self.records.get(tid)
        if r:
            for f in r.get('fields', []):
                if f['n'] == name:
                    return f['t']
        for b in self.bases(tid):
            t = self.field_type(b, name)
            if t:
                return t
        return None


# ---------------------------------------------------------------------------
def gen_include_dir():
    """generated headers (configure output) in our own scratch build tree"""
    return os.path.join(WORK, 'cmake')


CXXFLAGS = ['-std=c++11', '-DNDEBUG']


def include_flags():
    g = gen_include_dir()
    return ['-I' + REPO, '-I' + g, '-isystem', '/usr/include/eigen3',
            '-isystem', g + '/vital/kwiversys']


def ast_include_dir():
    """A copy of the generated vital_config.h in which VITAL_FOREACH takes the
    range-for definition of vital/vital_foreach.h (a configuration the project
    supports) instead of the equivalent four nested for statements."""
    d = os.path.join(WORK, 'ast_inc')
    dst = os.path.join(d, 'vital', 'vital_config.h')
    src = os.path.join(gen_include_dir(), 'vital', 'vital_config.h')
    txt = open(src).read()
    txt = txt.replace('#define  VITAL_USE_CPP_RANGE_FOR 0', '#define  VITAL_USE_CPP_RANGE_FOR 1')
    if not os.path.exists(dst) or open(dst).read() != txt:
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = dst + '.%d.%d' % (os.getpid(), __import__('threading').get_ident())
        open(tmp, 'w').write(txt)
        os.rename(tmp, dst)
    return d


def astdump_bin():
    b = os.path.join(WORK, 'bin', 'astdump')
    src = os.path.join(VERIF, 'front', 'astdump.cpp')
    stamp = b + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(b) and os.path.exists(stamp) and open(stamp).read() == h:
        return b
    os.makedirs(os.path.dirname(b), exist_ok=True)
    tmp = b + '.%d' % os.getpid()
    subprocess.run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src,
                    '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'],
                   check=True)
    os.rename(tmp, b)
    with open(stamp, 'w') as f:
        f.write(h)
    return b


def ensure_config():
    """generated headers: run cmake's configure step out of tree (no build)"""
    g = gen_include_dir()
    if os.path.exists(os.path.join(g, 'vital', 'vital_config.h')):
        return
    os.makedirs(g, exist_ok=True)
    env = dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++')
    for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CPPFLAGS'):
        env.pop(k, None)
    r = subprocess.run(['cmake', '-S', REPO, '-B', g, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                        '-DBUILD_TESTING=OFF', '-DVITAL_ENABLE_TESTS=OFF', '-DVITAL_ENABLE_TOOLS=OFF',
                        '-DVITAL_ENABLE_C_LIB=ON', '-DVITAL_ENABLE_PYTHON=OFF', '-DVITAL_ENABLE_LOG4CXX=OFF',
                        '-DCMAKE_CXX_FLAGS=-Wno-error', '-DCMAKE_C_FLAGS=-Wno-error'],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise ExtractError('cmake configure failed: ' + r.stdout.decode('utf-8', 'replace')[-2000:])
    # kwiversys headers are generated at configure time as well


def extract(src, extra_flags=(), lang=None):
    """AST of one translation unit of the current working tree"""
    ensure_config()
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    fd, out = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    try:
        flags = list(CXXFLAGS)
        if path.endswith('.c') or lang == 'c':
            flags = ['-DNDEBUG']
        cmd = [astdump_bin(), out, path, '--root=' + REPO + '/', '--root=' + gen_include_dir() + '/',
               '--root=' + os.path.join(VERIF, 'specs') + '/', '--'] + flags + ['-I' + ast_include_dir()] + include_flags() + list(extra_flags) + \
              ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-Wno-everything']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        txt = open(out, 'rb').read()
        if r.returncode != 0 or not txt:
            raise ExtractError('extraction of %s failed: %s' % (src, r.stderr.decode('utf-8', 'replace')[-2000:]))
        return json.loads(txt.decode('utf-8', 'replace'))
    finally:
        os.unlink(out)


def load(srcs):
    import concurrent.futures as cf
    ensure_config()
    astdump_bin()
    p = Program()
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: extract(*(s if isinstance(s, tuple) else (s,))), srcs))
    for s, d in zip(srcs, res):
        p.add(d, s)
    p.index()
    return p
