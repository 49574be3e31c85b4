"""Replay harnesses: the specification as an executable oracle, run against the real code.

A harness never decides a property by itself; it looks for a concrete failing
input when an obligation fails, and stands in (bounded, labelled so) for
functions the verifier cannot take."""
import os, subprocess, hashlib, glob, tempfile, shutil, time, fcntl
import concurrent.futures as cf
from . import program as P

CXX = ['g++', '-std=c++11', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-w']
CC = ['gcc', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-w']
_hdr = None
KW = 'vital/kwiversys/'
KWDEFS = {'SystemTools.cxx': ['-DKWSYS_CXX_HAS_ENVIRON_IN_STDLIB_H=0', '-DKWSYS_CXX_HAS_SETENV=1', '-DKWSYS_CXX_HAS_UNSETENV=1', '-DKWSYS_CXX_HAS_UTIMENSAT=1',
                              '-DKWSYS_CXX_HAS_UTIMES=1', '-DKWSYS_CXX_STAT_HAS_ST_MTIM=1', '-DKWSYS_CXX_STAT_HAS_ST_MTIMESPEC=0'],
          'SystemInformation.cxx': ['-DKWSYS_' + d + '=1' for d in 'CXX_HAS_ATOL CXX_HAS_ATOLL CXX_HAS_GETLOADAVG CXX_HAS_RLIMIT64 SYSTEMINFORMATION_HAS_BACKTRACE SYSTEMINFORMATION_HAS_CPP_DEMANGLE SYSTEMINFORMATION_HAS_DEBUG_BUILD SYSTEMINFORMATION_HAS_SYMBOL_LOOKUP SYS_HAS_IFADDRS_H USE_LONG_LONG'.split()] + ['-DSIZEOF_VOID_P=8'],
          'EncodingC.c': ['-DKWSYS_ENCODING_DEFAULT_CODEPAGE=CP_ACP'], 'ProcessUNIX.c': ['-DKWSYS_C_HAS_PTRDIFF_T=1', '-DKWSYS_C_HAS_SSIZE_T=1'],
          'System.c': ['-DKWSYS_C_HAS_PTRDIFF_T=1', '-DKWSYS_C_HAS_SSIZE_T=1']}
GROUPS = {'KWSYS': [KW + f for f in ('SystemTools.cxx', 'DynamicLoader.cxx', 'Directory.cxx', 'EncodingCXX.cxx', 'EncodingC.c', 'FStream.cxx', 'RegularExpression.cxx')],
          'CONFIGIO': ['vital/config/' + f for f in ('config_block_io.cxx', 'config_parser.cxx', 'token_expander.cxx', 'token_type.cxx', 'token_type_config.cxx', 'token_type_env.cxx', 'token_type_symtab.cxx', 'token_type_sysenv.cxx')]
                      + ['vital/util/get_paths.cxx', 'KWSI'],
          'KWSI': [KW + f for f in ('SystemInformation.cxx', 'ProcessUNIX.c', 'System.c')],
          'TRACKS': ['vital/types/' + f for f in ('track.cxx', 'track_set.cxx', 'feature.cxx')],
          'CAMERA': ['vital/types/' + f for f in ('camera.cxx', 'camera_intrinsics.cxx', 'rotation.cxx', 'similarity.cxx')],
          'EXC': ['vital/exceptions/' + f for f in ('algorithm.cxx', 'base.cxx', 'image.cxx', 'io.cxx', 'math.cxx')],
          'LOGGER': ['vital/logger/' + f for f in ('default_logger.cxx', 'kwiver_logger.cxx', 'kwiver_logger_factory.cxx', 'kwiver_logger_manager.cxx', 'location_info.cxx')]}


def expand(l):
    out = []
    for x in l:
        for y in (expand(GROUPS[x]) if x in GROUPS else [x]):
            if y not in out:
                out.append(y)
    return out


def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        pats = []
        for root, ds, fs in os.walk(os.path.join(P.REPO, 'vital')):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.in', '.txx', '.hxx', '.hpp', '.hxx.in', '.h.in')):
                    pats.append(os.path.join(root, f))
        pats += sorted(glob.glob(os.path.join(P.gen_include_dir(), 'vital', '**', '*.h*'), recursive=True))
        pats += sorted(glob.glob(os.path.join(P.VERIF, 'harness', '*.h')))
        for p in pats:
            h.update(p.encode())
            h.update(open(p, 'rb').read())
        _hdr = h.hexdigest()
    return _hdr


def flags(extra):
    return P.include_flags() + ['-I' + os.path.join(P.VERIF, 'harness')] + list(extra)


def compile_one(src, extra, defs):
    path = src if os.path.isabs(src) else os.path.join(P.REPO, src)
    c = src.endswith('.c')
    if '/kwiversys/' in path:
        defs = list(defs) + ['-DKWSYS_NAMESPACE=kwiversys', '-Dkwiversys_EXPORTS'] + KWDEFS.get(os.path.basename(path), [])
    cmd = (CC if c else CXX) + flags(extra) + list(defs) + ['-c', path]
    k = hashlib.sha256((headers_hash() + ' '.join(cmd)).encode() + open(path, 'rb').read()).hexdigest()[:32]
    d = os.path.join(P.WORK, 'obj')
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, k + '.o')
    if os.path.exists(o):
        return o, ''
    tmp = o + '.%d.tmp' % os.getpid()
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return None, r.stdout.decode('utf-8', 'replace')[-3000:]
    os.rename(tmp, o)
    return o, ''


def build(H):
    """H: dict(src, repo=[...], libs=[...], flags=[...]); returns (path, error)"""
    P.ensure_config()
    srcs = [os.path.join(P.VERIF, 'harness', H['src'])] + expand(H.get('repo', []))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: compile_one(s, H.get('flags', []), H.get('defs', [])), srcs))
    for s, (o, err) in zip(srcs, res):
        if o is None:
            return None, 'compilation of %s failed: %s' % (s, err)
    objs = [o for o, _ in res]
    k = hashlib.sha256(' '.join(objs + H.get('libs', [])).encode()).hexdigest()[:32]
    out = os.path.join(P.WORK, 'bin', 'h_' + k)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(['g++', '-fsanitize=address,undefined'] + objs + ['-o', tmp] + H.get('libs', []) + ['-ldl', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            return None, 'link failed: ' + r.stdout.decode('utf-8', 'replace')[-3000:]
        os.rename(tmp, out)
    return out, ''


def run(binary, prop, seed, tier, timeout=300, known=()):
    """-> dict(status ok/fail/error, text, cases, distinct, samples)"""
    d = tempfile.mkdtemp(prefix='vh_', dir=P.WORK)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1',
               VERIF_KNOWN='\n'.join(known), LC_ALL='C')
    t0 = time.time()
    try:
        r = subprocess.run([binary, prop, str(seed), tier], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out, err, rc = r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace'), r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b'').decode('utf-8', 'replace'), '', 'timeout'
    finally:
        subprocess.run(['chmod', '-R', 'u+rwX', d], check=False, stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)
    R = dict(time=time.time() - t0, cases=0, distinct=0, samples=[], text=out[-6000:] + '\n' + err[-6000:], rc=rc, known=[])
    for l in out.split('\n'):
        if l.startswith('KNOWN '):
            R['known'].append(l[6:])
    if rc == 0 and '\nOK cases=' in '\n' + out:
        R['status'] = 'ok'
        for l in out.split('\n'):
            if l.startswith('OK cases='):
                a = l.split()
                R['cases'], R['distinct'] = int(a[1].split('=')[1]), int(a[2].split('=')[1])
            if l.startswith('SAMPLE '):
                R['samples'].append(l[7:])
    elif 'FAIL property=' in out or (isinstance(rc, int) and rc != 0):
        R['status'] = 'fail'
    else:
        R['status'] = 'error'
    return R
