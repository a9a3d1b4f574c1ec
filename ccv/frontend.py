"""Mechanical extraction: the typed AST of /repo's current source, via ccvx (clang 18)."""
import fcntl, hashlib, json, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('CCV_REPO', '/repo')
BUILD = os.environ.get('CCV_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18'
sys.setrecursionlimit(100000)

class ExtractionError(Exception):
    pass

def tool():
    """Build the extractor if needed (about 12 s, once)."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'extract', 'ccvx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'ccvx-' + h)
    with open(os.path.join(BUILD, 'ccvx.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            tmp = exe + '.tmp%d' % os.getpid()
            r = subprocess.run(['clang++-18', '-std=c++17', '-O0', '-DNDEBUG', '-fno-rtti', src,
                                '-I%s/include' % LLVM, LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.1',
                                '-Wl,-rpath,%s/lib' % LLVM, '-o', tmp], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError('cannot build the extractor:\n' + r.stderr[-3000:])
            os.replace(tmp, exe)
    return exe

INCLUDES = ['arg-capture-io/include', 'rtl/include', 'sdfg/include', 'rpc/include', 'opt/include']

class Unit:
    """One translation unit: functions, records, enums, globals and the type table."""
    def __init__(self, data):
        self.types = data['types']
        self.functions = data['functions']
        self.records = {}
        for r in data['records']:
            self.records[r['d']] = r
        self.enums = {e['n']: e for e in data['enums']}
        self.globals = {g.get('qn', g['n']): g for g in data['globals']}
        self.by_d = {f['d']: f for f in self.functions}
        self.T = [None] * len(self.types)

    def fns(self, qn):
        return [f for f in self.functions if f['qn'] == qn]

    def fn(self, qn, nparams=None):
        c = [f for f in self.fns(qn) if nparams is None or len(f['params']) == nparams]
        if len(c) != 1:
            raise ExtractionError('%d definitions of %s' % (len(c), qn))
        return c[0]

_cache = {}
def load(main, extra=(), wrapper=None, roots=None, defs=()):
    """Extract `main` (path relative to /repo), or the text `wrapper` that includes /repo files."""
    key = (main, tuple(extra), wrapper, tuple(defs))
    if key in _cache:
        return _cache[key]
    exe = tool()
    roots = roots or [REPO + '/']
    if wrapper is not None:
        path = os.path.join(BUILD, 'wrap-%s.cpp' % hashlib.sha256(wrapper.encode()).hexdigest()[:12])
        with open(path, 'w') as f: f.write(wrapper)
        roots = roots
    else:
        path = os.path.join(REPO, main)
        if not os.path.exists(path):
            raise ExtractionError('no file %s' % path)
    cmd = [exe, ':'.join(roots), path, '-std=c++20', '-resource-dir', LLVM + '/lib/clang/18', '-w']
    cmd += ['-I' + os.path.join(REPO, i) for i in INCLUDES] + list(extra) + ['-D' + d for d in defs]
    r = subprocess.run(cmd, capture_output=True)
    if r.returncode:
        raise ExtractionError('ccvx failed on %s: %s' % (main or path, r.stderr.decode(errors='replace')[-2000:]))
    u = Unit(json.loads(r.stdout))
    u.main = main
    _cache[key] = u
    return u
