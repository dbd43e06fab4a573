#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), na=None, technique=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, state=state, observe=observe, na=na,
                      technique=technique, note=note))

exec(open(os.path.join(ROOT, 'tools', 'props_table.py')).read())

def main():
    for p in PROPS:
        if p['id'] in CLAIMS:
            p['na'] = None
            p['technique'], p['note'] = CLAIMS[p['id']]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            d = {"id": p['id'], "title": p['title'], "statement": p['statement'],
                 "quantifier": {"over": p['over'], "text": p['qtext']},
                 "why_tests_cant": p['why'],
                 "anchors": {"files": p['files'],
                             "mechanism": [{"name": n, "where": w} for n, w in p['mech']]}}
            if p['state']:
                d['anchors']['state'] = [{"name": n, "meaning": m, "where": w} for n, m, w in p['state']]
            if p['observe']:
                d['anchors']['observe_at'] = list(p['observe'])
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['na']:
            na.append({"property": p['id'], "reason": p['na']})
        else:
            checks.append({"property": p['id'],
                           "quick_cmd": f"./check.sh {p['id']}",
                           "thorough_cmd": f"./check.sh {p['id']}",
                           "evidence_file": f"evidence/{p['id']}.json",
                           "technique": p['technique'], "level": "other",
                           "level_note": p['note']})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": NOTES}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1); f.write('\n')

main()
