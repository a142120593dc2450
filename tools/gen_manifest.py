#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = 'extension/src/'
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None):
    PROPS.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))),
                      technique=technique, note=note))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, None, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, 'tools', 'props.py')).read())

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in sorted(PROPS, key=lambda x: x['p']['id']):
            assert len(x['p']['title']) <= 80, x['p']['title']
            f.write(json.dumps(x['p']) + '\n')
    checks = [dict(property=x['p']['id'], quick_cmd='./run.sh %s quick' % x['p']['id'], thorough_cmd='./run.sh %s thorough' % x['p']['id'],
                   technique=x['technique'], level='other', level_note=x['note']) for x in sorted(PROPS, key=lambda x: x['p']['id']) if x['technique']]
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=NA, notes=NOTES)
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(NA), 'not applicable')
