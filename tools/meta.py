#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (python3 tools/meta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH, RI, FL, ME, TR, SP = ['src/%s.cc' % x for x in ('shell', 'rib', 'flat', 'mesh', 'triangleground', 'shape')]
SHH, RIH, FLH, MEH, TRH, SPH, OUH = ['src/enve/%s.hxx' % x for x in ('shell', 'rib', 'flat', 'mesh', 'triangleground', 'shape', 'output')]

PROPS, NA = [], {}


def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None):
    p = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'hook_needed': None}}
    if state:
        p['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe:
        p['anchors']['observe_at'] = observe
    PROPS.append((p, technique, note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    prop(id, title, statement, over, quant, why, files, mech, None, None)
    NA[id] = reason


AI = 'abstract interpretation over the type-checked AST (clang): value numbering with path facts and loop induction'
TRUST = ' Trusts: the fact extractor (clang 18 AST), the interpreter\'s model of the standard containers and of the Eigen operations used, real arithmetic instead of floating point.'
NOTEST = 'The tests drive a few tyres over a few roads and print the results without comparing them with anything: '

exec(open(os.path.join(V, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, t, n in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
           'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                       'technique': t, 'level': 'other', 'level_note': n} for p, t, n in PROPS if t],
           'not_applicable': [{'property': k, 'reason': r} for k, r in NA.items()],
           'notes': 'Static analysis only: /repo is parsed with the flags of its own build and interpreted abstractly, never executed. No hooks.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    import jsonschema
    s = json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(man, s)
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p, _, _ in PROPS:
        jsonschema.validate(p, s)
    print(len(PROPS), 'properties,', len(NA), 'not applicable')


if __name__ == '__main__':
    main()
