"""Build /repo to LLVM bitcode, run the symbolic executor over harnesses, replay
counterexamples natively, write evidence.  Used by check.py."""
import os, sys, json, hashlib, subprocess, glob, re, shutil, time, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
NCPU = os.cpu_count() or 8
CLANG = 'clang-18'
CF = ['-O1', '-fno-inline', '-fwrapv', '-fno-strict-aliasing', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
      '-ftrivial-auto-var-init=pattern', '-std=gnu17', '-w', '-g', '-Wno-error', '-fno-pic']
SYMF = ['-emit-llvm', '-fno-builtin-printf', '-fno-builtin-sprintf']
NATF = ['-fsanitize=address', '-fno-omit-frame-pointer', '-fno-pie']

class BuildError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def repo_files():
    out = []
    for root in ('libparted', 'include', 'parted'):
        for d, dn, fn in os.walk(os.path.join(REPO, root)):
            dn[:] = [x for x in dn if x not in ('tests', '.libs', '.deps')]
            for f in fn:
                if f.endswith(('.c', '.h', '.gperf')): out.append(os.path.join(d, f))
    return sorted(out)

def dir_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode()); h.update(b'\0')
        try: h.update(open(f, 'rb').read())
        except OSError: pass
        h.update(b'\0')
    return h.hexdigest()[:20]

_repo_hash = None
def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        fs = repo_files() + sorted(glob.glob(V + '/shim/*')) + sorted(glob.glob(V + '/rt/*')) + [__file__]
        _repo_hash = dir_hash([f for f in fs if not f.endswith('pt-limit.c')])
    return _repo_hash

def lib_sources():
    P = REPO + '/libparted/'
    s = [P + x for x in ('architecture.c', 'device.c', 'exception.c', 'filesys.c', 'libparted.c', 'timer.c', 'unit.c', 'disk.c')]
    # any extra top-level C file (a refactoring may add one)
    s += [f for f in sorted(glob.glob(P + '*.c')) if f not in s and os.path.basename(f) != 'debug.c']
    s += sorted(glob.glob(P + 'cs/*.c'))
    s += [f for f in sorted(glob.glob(P + 'labels/*.c')) if os.path.basename(f) not in ('dasd.c', 'fdasd.c', 'vtoc.c', 'pt-limit.c')]
    s += [f for f in sorted(glob.glob(P + 'fs/*/*.c')) if '/fs/r/' not in f]
    return s

class Lib:
    """per-source object cache for one state of /repo"""
    def __init__(self):
        self.dir = os.path.join(BUILD, 'c-' + repo_hash())
        self.inc = self.dir + '/inc'
        if not os.path.exists(self.dir + '/ok'):
            self._clean_old()
            self._headers()
            open(self.dir + '/ok', 'w').write('ok')
        self.pool = ThreadPoolExecutor(NCPU)
    def _clean_old(self):
        ds = sorted(glob.glob(BUILD + '/c-*'), key=lambda d: os.path.getmtime(d))
        for d in ds[:-4]:
            if d != self.dir: shutil.rmtree(d, ignore_errors=True)
    def _headers(self):
        os.makedirs(self.inc + '/parted', exist_ok=True)
        for f in glob.glob(REPO + '/include/parted/*.in.h'):
            t = open(f, errors='replace').read()
            t = re.sub(r' _GL_ATTRIBUTE_CONST\b', ' __attribute__ ((__const__))', t)
            t = re.sub(r' _GL_ATTRIBUTE_PURE\b', ' __attribute__ ((__pure__))', t)
            open(self.inc + '/parted/' + os.path.basename(f)[:-5] + '.h', 'w').write(t)
        r = subprocess.run(['gperf', '-C', '-N', 'pt_limit_lookup', '-n', '-t', '-s', '6', '-k', '*', '--language=ANSI-C', 'pt-limit.gperf'],
                           cwd=REPO + '/libparted/labels', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise BuildError('gperf: ' + r.stderr)
        o = []
        for l in r.stdout.split('\n'):
            if '__GNUC_STDC_INLINE__' in l: o.append('static')
            o.append(l)
        open(self.inc + '/pt-limit.c', 'w').write('\n'.join(o))
    def incs(self):
        return ['-I' + V + '/shim', '-I' + self.inc, '-I' + V + '/rt', '-I' + REPO + '/include', '-I' + REPO + '/libparted', '-I' + REPO + '/libparted/labels',
                '-I' + REPO, '-include', 'verif_pre.h', '-idirafter', V + '/shim/gnulib', '-idirafter', REPO + '/lib']
    def obj(self, src, native=False, extra=()):
        key = hashlib.sha256((src + '|' + ' '.join(extra) + open(src, errors='replace').read() + (harness_headers() if src.startswith(V) else '')).encode()).hexdigest()[:12]
        out = '%s/%s-%s%s' % (self.dir, os.path.basename(src).replace('.', '_'), key, '.o' if native else '.bc')
        if os.path.exists(out): return out
        fl = CF + (NATF if native else SYMF) + list(extra)
        if os.path.basename(src) == 'rt_libc.c': fl = fl + ['-fno-builtin']
        tmp = out + '.tmp%d' % os.getpid()
        # pt-limit.c is #included from the label directory: ours must win
        r = sh([CLANG] + fl + ['-c'] + self.incs() + ['-o', tmp, src], cwd=self.dir)
        if r.returncode: raise BuildError('compiling %s:\n%s' % (src, r.stdout[-3000:]))
        os.replace(tmp, out)
        return out
    def objs(self, srcs, native=False):
        """srcs: list of path or (path, extra-flags)"""
        def one(s):
            return self.obj(s[0], native, s[1]) if isinstance(s, tuple) else self.obj(s, native)
        return list(self.pool.map(one, srcs))
    def link(self, name, srcs, native=False):
        o = self.objs(srcs, native)
        key = hashlib.sha256('|'.join(o).encode()).hexdigest()[:12]
        out = '%s/%s-%s%s' % (self.dir, name, key, '.exe' if native else '.full.bc')
        if os.path.exists(out): return out
        tmp = out + '.tmp%d' % os.getpid()
        if native: r = sh([CLANG, '-fsanitize=address', '-no-pie', '-g', '-o', tmp] + o)
        else:
            r = sh(['llvm-link-18', '-o', tmp] + o)
        if r.returncode: raise BuildError('linking %s:\n%s' % (name, r.stdout[-3000:]))
        os.replace(tmp, out)
        return out

def harness_headers(): return ''.join(open(f).read() for f in sorted(glob.glob(V + '/harness/*.h')))

def harness_sources(h, native):
    """h: dict with src, lib (bool), drop (list), add (list), flags"""
    s = []
    ff = h.get('filefl', {})
    if h.get('lib', True): s += [(x, tuple(ff[os.path.basename(x)])) if os.path.basename(x) in ff else x for x in lib_sources() if not any(x.endswith('/' + d) for d in h.get('drop', []))]
    s += h.get('add', [])
    fl = tuple(h.get('flags', ()))
    s.append((V + '/harness/' + h['src'], fl))
    if h.get('env', True): s.append((V + '/rt/rt_env.c', tuple(h.get('envflags', ()))))
    s.append(V + '/rt/' + ('rt_native.c' if native else 'rt_libc.c'))
    return s

def build_engine():
    r = sh(['bash', V + '/engine/build.sh'])
    if r.returncode or not os.path.exists(BUILD + '/psym'): raise BuildError('engine:\n' + r.stdout[-3000:])

def run_psym(bc, case, params, tm, out, vdir, opts=()):
    cmd = [BUILD + '/psym', bc, '--case', str(case), '--time', str(tm), '--out', out, '--dir', vdir, '--seed', os.environ.get('VERIF_SEED', '1'), '--repo', REPO + '/']
    for k, v in params.items(): cmd += ['--param', k, str(v)]
    cmd += list(opts)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tm + 60)
        txt = r.stdout
    except subprocess.TimeoutExpired as e:
        return None, 'timeout'
    try: return json.load(open(out)), txt
    except Exception: return None, (txt or '')[-2000:]

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=43:malloc_fill_byte=165:max_malloc_fill_size=1073741824:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:print_legend=0', LC_ALL='C.UTF-8')
def run_native(exe, replay, tm=20):
    try:
        r = subprocess.run([exe], env=dict(ENV, VF_REPLAY=replay), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tm)
    except subprocess.TimeoutExpired: return 'hang', '', 'no termination within %ds' % tm
    return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')

def read_logs(path):
    return [l.rstrip('\n') for l in open(path) if l.startswith('log ')]
