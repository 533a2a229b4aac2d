#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mech, technique, note, level='other'):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=text, why=' '.join(why.split()), files=files, mech=mech,
                      technique=technique, note=' '.join(note.split()), level=level))


def na(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, None, '')
    NA.append((id, ' '.join(reason.split())))


exec(open(os.path.join(V, 'props_list.py')).read())

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes='All checks are static: they compile /repo to LLVM IR and analyse it, nothing of /repo is executed. ./check ID [--thorough] [-v]; props.py regenerates this file and properties.jsonl.')
    for p in PROPS:
        if p['technique']:
            m['checks'].append(dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --thorough' % p['id'],
                                    technique=p['technique'], level=p['level'], level_note=p['note']))
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1); f.write('\n')
    print(len(m['checks']), 'checks', len(NA), 'not applicable')
