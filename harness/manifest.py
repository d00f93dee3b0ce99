"""Development tool: rewrite MANIFEST.json from properties.jsonl and the check modules present"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}


def main():
    props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
    tech = {}
    path = os.path.join(ROOT, 'harness', 'techniques.json')
    if os.path.exists(path):
        tech = json.load(open(path))
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
            t = tech.get(i, ['property-based testing (Hypothesis) against an independent oracle', ''])
            checks.append(dict(
                property=i, quick_cmd='./run_check %s --tier quick' % i,
                thorough_cmd='./run_check %s --tier thorough' % i,
                technique=t[0], level='exploration',
                level_note=t[1] or 'Generated-input search: no counterexample among the cases counted in the '
                'evidence file; assumes the generated domain and tolerances described in DESIGN.md.'))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    out = dict(version=1, setup_cmd='./run_check --selftest', checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
        json.dump(out, fp, indent=1)
        fp.write('\n')
    print(len(checks), 'checks,', len(na), 'not claimed')


if __name__ == '__main__':
    main()
