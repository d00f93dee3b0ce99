#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written notes below plus what the check modules, seeded bugs and findings file say."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from harness.boot import boot
boot('/repo')

INTRO = open(os.path.join(ROOT, 'tools', 'design_intro.md')).read()
NOTES = {}
cur = None
for line in open(os.path.join(ROOT, 'tools', 'design_notes.md')):
    if line.startswith('## C'):
        cur = line[3:].strip()
        NOTES[cur] = ''
    elif cur:
        NOTES[cur] += line

props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
out = [INTRO.rstrip(), '', '# Properties', '']
total = 0
for p in props:
    pid = p['id']
    reg = importlib.import_module('checks.' + pid.lower()).R
    q = sum(f.n for f in reg.facets)
    t = sum(f.thorough for f in reg.facets)
    total += q
    out.append('## %s %s' % (pid, p['title']))
    out.append('')
    out.append('**Specified.** ' + p['statement'])
    out.append('')
    out.append(NOTES.get(pid, '**Decided by.** (missing)\n').strip())
    out.append('')
    out.append('**Generated.** ' + reg.rule)
    out.append('')
    out.append('**Facets** (cases quick / thorough): ' + ', '.join(
        '`%s` %d/%d' % (f.name, f.n, f.thorough) for f in reg.facets) + '. Total %d / %d.' % (q, t))
    out.append('')
    out.append('**Why the tests cannot settle it.** ' + p['why_tests_cant'])
    out.append('')
out.append('Nothing is listed under `not_applicable`: every property above is decided by generated-input search.')
out.append('')
out.append('# Seeded bugs and what catches them')
out.append('')
out.append('Each was written from a property\'s text and the code, confirmed by `tools/plant.py` in a scratch copy (builds, '
           'passes the stable tests, its demo fails with it and passes without) and then run against the property\'s quick '
           'check. All of the following are caught by the check of the property they are listed under; those marked * '
           'were missed at first and led to the strengthening described in "What the bugs taught".')
out.append('')
strong = set(open(os.path.join(ROOT, 'tools', 'missed_first.txt')).read().split())
sd = os.path.join(ROOT, 'seeded')
by = {}
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    with open(os.path.join(sd, b, 'meta.json')) as fp:
        m = json.load(fp)
    by.setdefault(m['property'], []).append((b, m))
out.append('| property | bug | what it breaks | needs |')
out.append('|---|---|---|---|')


def cell(x):
    return str(x).replace('|', '\\|').replace('\n', ' ')


for pid in sorted(by):
    for b, m in by[pid]:
        out.append('| %s | %s%s | %s | %s |' % (pid, b, '*' if b in strong else '', cell(m['what_it_breaks']), cell(m['needs'])))
out.append('')
with open(os.path.join(ROOT, 'known_findings.json')) as fp:
    kf = json.load(fp)
out.append('# Genuine defects found and repaired')
out.append('')
out.append('Each is a separate `fix:` commit in /repo; the check that found it reports it again if it returns (verified by '
           'reverting each commit in a scratch copy).' )
out.append('')
for x in kf['fixed']:
    out.append('- ' + x)
out.append('')
out.append('Open known findings: %s.' % (len(kf['findings']) or 'none'))
out.append('')
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fp:
    fp.write('\n'.join(out))
print('DESIGN.md', len(out), 'lines,', total, 'quick cases')
