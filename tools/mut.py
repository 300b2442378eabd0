"""mut.py SPEC: quick mutations.  SPEC defines MUTS = [(checks, file, old, new)], run on scratch copies; prints which checks fire."""
import re, sys, os, shutil, subprocess, concurrent.futures as cf, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
KEEP = '-v' in sys.argv


def one(i):
    checks, f, old, new = ns['MUTS'][i]
    d = tempfile.mkdtemp(prefix='mut')
    try:
        for x in ('src', 'sfun', 'toolbox'):
            shutil.copytree('/repo/' + x, d + '/' + x)
        s = open(d + '/' + f).read()
        if old not in s:
            return i, 'NO MATCH'
        s = s.replace(old, new, 1)
        open(d + '/' + f, 'w').write(s)
        out = []
        for c in (checks.split() if isinstance(checks, str) else checks):
            r = subprocess.run(['python3', '/verif/check.py', c], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            t = r.stdout + r.stderr
            rules = sorted({l.strip()[6:] for l in t.splitlines() if l.strip().startswith('rule:')})
            und = (re.findall(r'(\d+) undecided', t) or ['?'])[0]
            out.append('%s rc=%d und=%s %s' % (c, r.returncode, und, '; '.join(rules)[:150]) + (('\n' + t[-1500:]) if KEEP or r.returncode > 1 else ''))
        return i, ' | '.join(out)
    finally:
        shutil.rmtree(d)


with cf.ThreadPoolExecutor(7) as ex:
    for i, r in ex.map(one, range(len(ns['MUTS']))):
        print(i, repr(ns['MUTS'][i][3][:50]), '->', r, flush=True)
