#!/opt/venv/bin/python
"""Write properties.jsonl, MANIFEST.json and the per-property part of
DESIGN.md from the META of each check (and tools/na.py)."""
import importlib.util
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def load(p):
    spec = importlib.util.spec_from_file_location('m_' + os.path.basename(
        p)[:-3], p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def mech(s):
    n, _, w = s.rpartition(' @ ')
    return {'name': n, 'where': w}


def prop(pid, M):
    assert len(M['title']) <= 80, pid
    return {'id': pid, 'title': M['title'], 'statement': M['statement'],
            'quantifier': {'over': M.get('over', ['inputs']),
                           'text': M['forall']},
            'why_tests_cant': M['why'],
            'anchors': {'files': M['files'],
                        'mechanism': [mech(s) for s in M['mech']],
                        'hook_needed': None}}


props, checks, doc = [], [], []
ids = sorted(f[:-3] for f in os.listdir(V + '/checks')
             if re.match(r'[A-Z]\d+\.py$', f))
for pid in ids:
    m = load('%s/checks/%s.py' % (V, pid))
    if not hasattr(m, 'META'):
        print('no META:', pid)
        continue
    M = m.META
    props.append(prop(pid, M))
    b = m.BOUNDS['quick'] if isinstance(m.BOUNDS, dict) else m.BOUNDS
    extra = '' if isinstance(m.BOUNDS, str) else '; thorough: ' + \
        m.BOUNDS['thorough'] if 'thorough' in m.BOUNDS else ''
    tech = M.get('technique', 'symbolic execution of the real source + SMT')
    note = ('Bounded: %s. Trusted: the engine in symx/ (its models of '
            'numpy/scipy calls, validated against the real library on '
            'solver-chosen inputs of every path); floats as exact reals. '
            'Outside: %s.' % (b, m.OUTSIDE))
    checks.append({'property': pid, 'quick_cmd': './check %s --quick' % pid,
                   'thorough_cmd': './check %s --thorough' % pid,
                   'technique': tech, 'level': 'model_checking',
                   'level_note': note})
    doc.append('### %s %s\n\n%s\n\n*Decided by*: %s%s\n\n*Encoded*: %s\n\n'
               '*Bounds*: %s%s. *Outside*: %s.\n\n*Beyond tests*: %s\n' % (
                   pid, M['title'], M['statement'], tech,
                   '; ' + M['how'] if 'how' in M else '',
                   ', '.join(M['mech']), b, extra, m.OUTSIDE, M['why']))
na = load(V + '/tools/na.py').NA
for pid, M in na:
    props.append(prop(pid, M))
    doc.append('### %s %s\n\n%s\n\n*Not applicable*: %s\n' % (
        pid, M['title'], M['statement'], M['reason']))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': './check --setup', 'checks': checks,
       'not_applicable': [{'property': p, 'reason': M['reason']}
                          for p, M in na],
       'notes': 'check <ID> --case SUBSTR -v runs part of a check; '
       'check --replay FILE re-runs a counterexample on the real code'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
d = V + '/DESIGN.md'
s = open(d).read() if os.path.exists(d) else '<!-- PROPS -->\n<!-- /PROPS -->'
a, b = s.index('<!-- PROPS -->'), s.index('<!-- /PROPS -->')
s = s[:a] + '<!-- PROPS -->\n' + '\n'.join(doc) + '\n' + s[b:]
open(d, 'w').write(s)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in props:
        jsonschema.validate(p, json.load(open(
            '/root/.vp/PROPERTIES.schema.json')))
except ImportError:
    print('no jsonschema')
print(len(checks), 'checks,', len(na), 'not applicable')
