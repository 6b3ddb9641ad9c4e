"""Compile the library sources of /repo's working tree to LLVM bitcode in a scratch directory and
dump the flattened / raw IR as JSON lines.  Nothing of /repo is executed except its own code generator
(codegen.py, a build step that writes indicators.h and indicators_index.c) inside the scratch copy."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TI_REPO', '/repo')
CLANG = '/usr/bin/clang-18'
CLANGXX = '/usr/bin/clang++-18'
VT_PY = '/opt/veriftools/pyvenv/bin/python'


class Broken(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


def tian_path():
    p = os.path.join(VERIF, 'build', 'tian')
    src = os.path.join(VERIF, 'tool', 'tian.cpp')
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        build_tian(p, src)
    return p


def build_tian(p, src):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = p + '.%d' % os.getpid()
    cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS',
           '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18',
           '-Wl,-rpath,/usr/lib/llvm-18/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build tian: ' + r.stderr[-2000:])
    os.replace(tmp, p)


class Tree:
    """A scratch copy of the analysed sources plus generated files and IR."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.dir = tempfile.mkdtemp(prefix='tian-')
        atexit.register(shutil.rmtree, self.dir, ignore_errors=True)
        self._ir = {}
        self._copy()

    def _copy(self):
        d = self.dir
        for sub in ('indicators', 'utils'):
            shutil.copytree(os.path.join(self.repo, sub), os.path.join(d, sub))
        for f in ('codegen.py', 'version.py', 'indicators.yaml', 'CMakeLists.txt', 'docsgen.py'):
            shutil.copy(os.path.join(self.repo, f), d)
        env = dict(os.environ, GIT_DIR='/nonexistent', PYTHONDONTWRITEBYTECODE='1')
        before = self._sources()
        r = subprocess.run([VT_PY, 'codegen.py'], cwd=d, env=env, capture_output=True, text=True, timeout=120)
        if r.returncode or not os.path.exists(os.path.join(d, 'indicators_index.c')):
            raise Broken('codegen.py failed: ' + (r.stderr or r.stdout)[-1500:])
        if self._sources() != before:
            raise Broken('codegen.py had to generate boilerplate: an indicator of the index has no implementation')

    def _sources(self):
        res = {}
        for sub in ('indicators', 'utils'):
            for f in sorted(os.listdir(os.path.join(self.dir, sub))):
                p = os.path.join(self.dir, sub, f)
                if os.path.isfile(p):
                    res[sub + '/' + f] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
        return res

    def units(self):
        res = []
        for sub in ('indicators', 'utils'):
            for f in sorted(os.listdir(os.path.join(self.dir, sub))):
                if f.endswith(('.c', '.cc', '.cpp', '.cxx')):
                    res.append(sub + '/' + f)
        return res + ['indicators_index.c']

    def bitcode(self):
        bc = os.path.join(self.dir, 'bc')
        if os.path.isdir(bc):
            return self._bc
        os.makedirs(bc)

        def one(u):
            out = os.path.join(bc, u.replace('/', '_') + '.bc')
            cxx = not u.endswith('.c')
            cmd = [CLANGXX if cxx else CLANG, '-std=c++17' if cxx else '-std=c99', '-O1', '-Xclang', '-disable-llvm-passes',
                   '-DNDEBUG', '-g', '-fno-discard-value-names', '-fPIC', '-w', '-emit-llvm', '-c', u, '-o', out]
            r = subprocess.run(cmd, cwd=self.dir, capture_output=True, text=True)
            if r.returncode:
                raise Broken('clang failed on %s: %s' % (u, r.stderr[-1500:]))
            return out
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            self._bc = list(ex.map(one, self.units()))
        return self._bc

    def ir(self, mode='flat', extra=()):
        """List of (functions, globals) dumped by tian; cached by content of the bitcode's inputs."""
        key = (mode,) + tuple(extra)
        if key in self._ir:
            return self._ir[key]
        cache = os.environ.get('TIAN_CACHE')
        path = None
        if cache:
            h = hashlib.sha1()
            h.update(open(os.path.join(VERIF, 'tool', 'tian.cpp'), 'rb').read())
            h.update(repr(key).encode())
            h.update(repr(sorted(self._sources().items())).encode())
            for f in ('indicators_index.c', 'indicators.h'):
                t = open(os.path.join(self.dir, f)).read()
                h.update('\n'.join(l for l in t.split('\n') if 'TI_BUILD' not in l).encode())
            path = os.path.join(cache, h.hexdigest() + '.json')
            if os.path.exists(path):
                res = _load(open(path, 'rb').read())
                self._ir[key] = res
                return res
        bcs = self.bitcode()
        cmd = [tian_path(), '--' + mode] + list(extra) + bcs
        r = subprocess.run(cmd, capture_output=True, cwd=self.dir)
        if r.returncode:
            raise Broken('tian failed: ' + r.stderr.decode()[-1500:])
        if path:
            os.makedirs(cache, exist_ok=True)
            open(path, 'wb').write(r.stdout)
        res = _load(r.stdout)
        self._ir[key] = res
        return res

    def yaml(self):
        import yaml
        return yaml.safe_load(open(os.path.join(self.dir, 'indicators.yaml'), encoding='utf8'))


def _load(raw):
    fns, gls = {}, {}
    for line in raw.split(b'\n'):
        if line.strip():
            o = json.loads(line)
            if 'global' in o:
                gls[o['global']] = o
            else:
                fns[o['name']] = o
    return fns, gls
