#!/usr/bin/env python3
"""trybug.py [--tests] [--all] ID...: build a scratch copy of /repo with seeded/ID applied, run its demo (and the stable tests), and
run the check of its property (or all checks) on the copy. Prints one line per bug. The copies live in /tmp/bugs."""
import os, sys, subprocess, json, glob, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = '/tmp/bugs'
STABLE = ['enve_rtf_00', 'enve_test_00', 'enve_test_02', 'enve_test_03', 'enve_test_04', 'enve_test_06', 'enve_test_sfun_00']


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def mirror(d, patch):
    os.makedirs(d, exist_ok=True)
    sh(['rsync', '-a', '--delete', '--exclude=_build', '--exclude=.git', '/repo/', d + '/']) if shutil.which('rsync') else \
        sh('rm -rf %s && mkdir -p %s && cd /repo && tar c --exclude=./_build --exclude=./.git . | tar x -C %s' % (d, d, d))
    if patch:
        r = sh(['patch', '-p1', '-s', '-d', d, '-i', patch])
        if r.returncode:
            return r.stdout + r.stderr
    return ''


def compile_one(a):
    src, obj, d = a
    inc = ['-I' + d + '/sfun/include_sfun', '-I/usr/include/eigen3', '-I' + d + '/toolbox/src/acmeonly', '-I' + d + '/src']
    r = sh(['g++', '-std=gnu++11', '-w', '-fPIC', '-O1', '-D_USE_MATH_DEFINES', '-c', src, '-o', obj] + inc)
    return '' if r.returncode == 0 else src + r.stderr[:1500]


def build(d, ref=None, patch=''):
    """libraries where the demos look for them; acme objects are reused from ref unless the patch touches them"""
    ao = d + '/toolbox/src/acmeonly'
    os.makedirs(ao, exist_ok=True)
    for x in ('acme', 'acme.hh'):
        if not os.path.lexists(ao + '/' + x):
            os.symlink('../' + x, ao + '/' + x)
    o = d + '/_build/o'
    os.makedirs(o + '/acme', exist_ok=True)
    os.makedirs(d + '/_build/cmake/submodules/acme', exist_ok=True)
    jobs = []
    for s in glob.glob(d + '/src/*.cc') + glob.glob(d + '/sfun/src_sfun/*.cc'):
        jobs.append((s, o + '/' + os.path.basename(s) + '.o', d))
    enve = {os.path.basename(s) for s in glob.glob(d + '/src/*.cc')}
    acme_t = ref is None or 'toolbox/src/' in patch
    for s in glob.glob(d + '/toolbox/src/*.cc'):
        if os.path.basename(s) in enve:
            continue
        t = o + '/acme/' + os.path.basename(s) + '.o'
        if acme_t:
            jobs.append((s, t, d))
        else:
            shutil.copy(ref + '/_build/o/acme/' + os.path.basename(s) + '.o', t)
    if ref and 'toolbox/src/acme' not in patch and 'src/enve' not in patch and '.hh' not in patch:
        touched = [l[6:].strip() for l in patch.splitlines() if l.startswith('+++ b/')]
        keep = []
        for s, t, dd in jobs:
            r = ref + t[len(d):]
            if os.path.relpath(s, d) not in touched and os.path.exists(r):
                shutil.copy(r, t)
            else:
                keep.append((s, t, dd))
        jobs = keep
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        return '\n'.join(errs)
    e = d + '/_build/cmake/libenve_linux_static.a'
    a = d + '/_build/cmake/submodules/acme/libacme_linux_static.a'
    for x in (e, a):
        if os.path.exists(x):
            os.unlink(x)
    sh('ar rcs %s %s/*.o && ar rcs %s %s/acme/*.o' % (e, o, a, o))
    return ''


def tests(d):
    os.makedirs(d + '/bin', exist_ok=True)

    def one(t):
        r = sh('g++ -std=gnu++11 -w -O1 -D_USE_MATH_DEFINES -I{d}/sfun/include_sfun -I/usr/include/eigen3 -I{d}/toolbox/src/acmeonly -I{d}/src {d}/tests/{t}.cc {d}/_build/cmake/libenve_linux_static.a {d}/_build/cmake/submodules/acme/libacme_linux_static.a -ldl -o {d}/bin/{t}.exe'.format(d=d, t=t))
        if r.returncode:
            return t + ' build ' + r.stderr[:300]
        try:
            r = sh('./bin/%s.exe' % t, cwd=d, timeout=400, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return t + ' timeout'
        src = open(d + '/tests/%s.cc' % t).read()
        if r.returncode != 0 or (': Completed' in src and not any(l.endswith(': Completed') for l in r.stdout.splitlines())):
            return t + ' rc %d %s' % (r.returncode, r.stdout[-200:])
        return ''
    with cf.ThreadPoolExecutor(7) as ex:
        return [x for x in ex.map(one, STABLE) if x]


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    opt = {x for x in sys.argv[1:] if x.startswith('--')}
    ref = B + '/ref'
    head = sh('git -C /repo rev-parse HEAD; git -C /repo status --short').stdout
    stamp = B + '/ref.stamp'
    if not os.path.exists(stamp) or open(stamp).read() != head:
        mirror(ref, None)
        e = build(ref)
        if e:
            print(e); return 1
        open(stamp, 'w').write(head)
    if not a:
        a = sorted(os.listdir(V + '/seeded'))
    for i in a:
        sd = V + '/seeded/' + i
        pt = sd + '/patch.diff'
        meta = json.load(open(sd + '/meta.json'))
        d = B + '/' + i
        e = mirror(d, pt)
        if e:
            print(i, 'PATCH FAILS', e); continue
        res = []
        if '--nodemo' not in opt:
            e = build(d, ref, open(pt).read())
            if e:
                print(i, 'BUILD FAILS', e[:1500]); continue
            r0 = sh(['bash', sd + '/demo.sh'], cwd=ref); r1 = sh(['bash', sd + '/demo.sh'], cwd=d)
            res.append('demo %d/%d' % (r0.returncode, r1.returncode))
            if r0.returncode != 0 or r1.returncode == 0:
                res.append('DEMO BAD: ' + (r0.stdout + r0.stderr)[-800:] + ' // ' + (r1.stdout + r1.stderr)[-400:])
            if '--tests' in opt:
                t = tests(d)
                res.append('tests ' + ('ok' if not t else 'FAIL ' + '; '.join(t)))
        ids = [meta['property']]
        if '--all' in opt:
            sys.path.insert(0, V)
            from rules import registry
            ids = list(registry.RULES)
        out = []
        for p in ids:
            r = sh(['python3', V + '/check.py', p], env=dict(os.environ, VERIF_REPO=d))
            v = {0: 'quiet', 1: 'CAUGHT'}.get(r.returncode, 'rc%d' % r.returncode)
            if r.returncode == 0 and 'UNDECIDED' in r.stdout:
                v = 'UNDECIDED'
            if '--all' not in opt or v != 'quiet':
                out.append(p + ':' + v)
            if '--show' in opt:
                print('\n'.join(r.stdout.splitlines()[-12:])[:3000])
        print(i, meta['property'], *res, *out, flush=True)
        sh(['rm', '-rf', d])


main()
