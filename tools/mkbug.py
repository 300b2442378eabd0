#!/usr/bin/env python3
"""mkbug.py SPEC: SPEC is a python file defining BUGS = [(id, property, needs, breaks, [(file, old, new)], demo_cc)];
writes seeded/<id>/{patch.diff,demo.sh,demo.cc,meta.json}"""
import os, sys, json, subprocess, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# builds demo.cc against the libraries built from the current tree; exit 0 = the property holds
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/inc"
ln -s "$root/toolbox/src/acme" "$T/inc/acme"; ln -s "$root/toolbox/src/acme.hh" "$T/inc/acme.hh"
g++ -std=gnu++11 -O1 -w -D_USE_MATH_DEFINES -I"$root/src" -I"$T/inc" -I/usr/include/eigen3 -I"$root/sfun/include_sfun" "$here/demo.cc" EXTRA \
  _build/cmake/libenve_linux_static.a _build/cmake/submodules/acme/libacme_linux_static.a -ldl -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''
HEAD = r'''#include "enve.hh"
#include <iostream>
#include <fstream>
#include <cmath>
#include <cstdlib>
using namespace acme;
using namespace enve;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::cout << "FAILED line " << __LINE__ << ": " << #c << std::endl; bad = 1; } } while (0)
static bool near_(real a, real b, real t = 1e-9) { return std::abs(a - b) <= t * (1.0 + std::abs(a) + std::abs(b)); }
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for (i, p, needs, breaks, edits, demo, *extra) in ns['BUGS']:
    d = V + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    out = ''
    for f in dict.fromkeys(e[0] for e in edits):
        a = b = open('/repo/' + f).read()
        for g, old, new in edits:
            if g == f:
                assert b.count(old) == 1, (i, f, b.count(old), old)
                b = b.replace(old, new)
        out += ''.join(difflib.unified_diff(a.splitlines(1), b.splitlines(1), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.cc', 'w').write(HEAD + demo)
    open(d + '/demo.sh', 'w').write(DEMO.replace('EXTRA', ' '.join('"$root/%s"' % x for x in extra)))
    json.dump({'property': p, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'], capture_output=True, text=True)
    print(i, 'ok' if r.returncode == 0 else r.stderr)
