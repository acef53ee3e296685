"""Writes properties.jsonl and MANIFEST.json from the one list below.

usage: python tools/catalog.py      (then commit the two files)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe,
         note, technique, state=None):
    assert len(title) <= 80, (pid, len(title))
    anchors = {'files': ['bicycleparameters/' + f for f in files],
               'mechanism': [{'name': n, 'where': w} for n, w in mech],
               'observe_at': observe, 'hook_needed': None}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append((dict(id=pid, title=title, statement=statement,
                   quantifier={'over': over, 'text': text},
                   why_tests_cant=why, anchors=anchors), note, technique))


exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())

TRUST = ('Random and structured search, so absence of a counterexample is '
         'not proof. Trusts NumPy/SciPy/Hypothesis and the oracle in '
         'checks/%s.py%s. ')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p, note, tech in P:
        pid = p['id']
        if not os.path.exists(os.path.join(HERE, 'checks', pid + '.py')):
            raise SystemExit('no check for ' + pid)
        checks.append({
            'property': pid,
            'quick_cmd': 'bash run.sh %s quick' % pid,
            'thorough_cmd': 'bash run.sh %s thorough' % pid,
            'technique': 'property-based testing (Hypothesis): ' + tech,
            'level': 'exploration',
            'level_note': TRUST % (pid, '') + note})
    man = {'version': 1, 'setup_cmd': 'bash run.sh selftest',
           'checks': checks, 'not_applicable': [],
           'notes': 'Pure Python: nothing to build; every check imports the '
                    'package from /repo\'s working tree and writes only '
                    'below a scratch directory it removes, evidence/ and '
                    'replays/.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
