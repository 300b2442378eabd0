"""Builds the extractor, runs it over every translation unit of the current
/repo tree and loads the resulting program facts.

A *program* is one linkable set of sources:
  lib  : src/*.cc + toolbox/src (acme part) + sfun        (what CMake builds as enve / enve_sfun)
  tbx  : toolbox/src/*.cc + toolbox/src_mex/*.cc           (what the MATLAB toolbox compiles)
"""
import os, sys, time, json, subprocess, hashlib, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
ENVE_COPIES = {'flat.cc', 'mesh.cc', 'rib.cc', 'shape.cc', 'shell.cc', 'triangleground.cc'}


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (vanished anchor, parse error, zero instances)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_extractor():
    src = os.path.join(VERIF, 'engine', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    inc = '/usr/lib/llvm-18/include'
    tmp = exe + '.tmp%d' % os.getpid()
    cmd = ['clang++-18', '-std=c++17', '-O0', '-fno-rtti', '-w', '-I' + inc, '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
           src, '-o', tmp, '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
    r = sh(cmd)
    if r.returncode:
        raise AnalysisBroken('extractor does not build:\n' + r.stdout[-3000:])
    os.replace(tmp, exe)
    return exe


def flags(prog):
    f = ['-xc++', '-std=c++11', '-isystem', '/usr/include/eigen3', '-Wno-everything', '-fparse-all-comments']
    if prog == 'lib':
        f += ['-I' + REPO + '/src', '-I' + REPO + '/toolbox/src', '-I' + REPO + '/sfun/include_sfun']
    else:
        f += ['-I' + REPO + '/toolbox/src', '-I' + REPO + '/toolbox/src_mex', '-I' + VERIF + '/engine/stubs', '-DMATLAB_MEX_FILE']
    return f


def units(prog):
    R = REPO
    if prog == 'lib':
        u = sorted(glob.glob(R + '/src/*.cc')) + sorted(glob.glob(R + '/sfun/src_sfun/*.cc'))
        u += [f for f in sorted(glob.glob(R + '/toolbox/src/*.cc')) if os.path.basename(f) not in ENVE_COPIES]
        return u
    return sorted(glob.glob(R + '/toolbox/src/*.cc')) + sorted(glob.glob(R + '/toolbox/src_mex/*.cc'))


def common_hash(prog):
    """everything a unit's facts can depend on besides the unit itself: headers, flags, extractor"""
    h = hashlib.sha256()
    fs = []
    for d in ('src', 'sfun', 'toolbox/src', 'toolbox/src_mex'):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if not f.endswith(('.cc', '.m', '.png', '.o', '.slx', '.mlx')):
                    fs.append(os.path.join(root, f))
    for f in sorted(fs):
        h.update(os.path.relpath(f, REPO).encode()); h.update(open(f, 'rb').read())
    for f in (os.path.join(VERIF, 'engine', 'extract.cpp'), os.path.join(VERIF, 'engine', 'facts.py')):
        h.update(open(f, 'rb').read())
    for root, _, files in os.walk(os.path.join(VERIF, 'engine', 'stubs')):
        for f in sorted(files):
            h.update(open(os.path.join(root, f), 'rb').read())
    h.update(repr((prog, flags(prog))).replace(REPO, '@').encode())
    return h.hexdigest()


class Program:
    def __init__(self, name):
        self.name = name
        self.funcs = {}      # usr -> function dict
        self.byname = {}     # qualified name -> [function dict]
        self.records = {}    # qualified name -> record
        self.globals = {}    # usr -> global
        self.decls = {}
        self.units = []

    def add(self, unit, d):
        self.units.append(unit)
        for f in d['functions']:
            if f['u'] not in self.funcs:
                f['unit'] = unit
                self.funcs[f['u']] = f
                self.byname.setdefault(f['n'], []).append(f)
        for r in d['records']:
            self.records.setdefault(r['n'], r)
        for g in d['globals']:
            o = self.globals.get(g['u'])
            if o is None or (g['isdef'] and not o['isdef']):
                self.globals[g['u']] = g
        for c in d['decls']:
            self.decls.setdefault(c['u'], c)

    def fn(self, name, *ptypes, n=None):
        """The functions of that qualified name whose parameter types contain the given fragments, in order."""
        r = []
        for f in self.byname.get(name, []):
            ps = [p['t'] for p in f['params']]
            if n is not None and len(ps) != n:
                continue
            if len(ptypes) > len(ps):
                continue
            if all(q in p for q, p in zip(ptypes, ps)):
                r.append(f)
        return r

    def one(self, name, *ptypes, n=None):
        r = self.fn(name, *ptypes, n=n)
        if len(r) != 1:
            raise AnalysisBroken('%s: expected exactly one definition of %s(%s), found %d' % (self.name, name, ', '.join(ptypes), len(r)))
        return r[0]

    def bases(self, rec):
        """all transitive repo base classes of rec (including itself)"""
        out, todo = [], [rec]
        while todo:
            n = todo.pop()
            if n in out or n not in self.records:
                continue
            out.append(n)
            todo += self.records[n]['bases']
        return out

    def all_fields(self, rec):
        r = []
        for b in self.bases(rec):
            r += [(b, f) for f in self.records[b]['fields']]
        return r

    def rel(self, path):
        return path[len(REPO) + 1:] if path.startswith(REPO + '/') else path


def extract_unit(exe, prog, u, out):
    r = sh([exe, '-root=' + REPO + '/', '-o=' + out, u, '--'] + flags(prog))
    if r.returncode or not os.path.exists(out):
        raise AnalysisBroken('cannot parse %s:\n%s' % (u, r.stdout[-2000:]))
    d = json.load(open(out))
    if d.get('errors'):
        raise AnalysisBroken('%s does not compile:\n%s' % (u, r.stdout[-2000:]))
    return d


_cache = {}


def evict(cdir):
    try:
        fs = [os.path.join(cdir, f) for f in os.listdir(cdir) if f.endswith('.json')]
        if len(fs) > 2500:
            for f in sorted(fs, key=os.path.getmtime)[:-1500]:
                if time.time() - os.path.getmtime(f) > 7200:
                    os.unlink(f)
    except OSError:
        pass


def load(prog, want=None):
    """want: optional predicate on unit path, to parse only part of the program"""
    key = (prog, want)
    if key in _cache:
        return _cache[key]
    exe = build_extractor()
    ch = common_hash(prog)
    cdir = os.path.join(BUILD, 'facts')
    os.makedirs(cdir, exist_ok=True)
    us = [u for u in units(prog) if want is None or want(u)]
    if not us:
        raise AnalysisBroken('no translation units for program ' + prog)

    def job(u):
        k = hashlib.sha256((ch + os.path.relpath(u, REPO)).encode() + open(u, 'rb').read()).hexdigest()[:24]
        o = os.path.join(cdir, '%s-%s.json' % (os.path.basename(u), k))
        if not os.path.exists(o):
            t = o + '.tmp%d' % os.getpid()
            extract_unit(exe, prog, u, t)
            s = open(t).read().replace(REPO + '/', '@REPO@/')   # facts do not depend on where the tree lies
            open(t, 'w').write(s)
            os.replace(t, o)
        return json.loads(open(o).read().replace('@REPO@/', REPO + '/'))
    evict(cdir)
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(job, us))
    p = Program(prog)
    for u, o in zip(us, outs):
        p.add(u, o)
    _cache[key] = p
    return p


if __name__ == '__main__':
    for pr in sys.argv[1:] or ['lib', 'tbx']:
        p = load(pr)
        print(pr, len(p.units), 'units', len(p.funcs), 'functions', len(p.records), 'records', len(p.globals), 'globals')
