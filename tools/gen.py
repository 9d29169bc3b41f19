#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, hook=hook))

exec(open(os.path.join(here, 'tools', 'table.py')).read())

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(dict(
            id=x['id'], title=x['title'], statement=x['statement'],
            quantifier=dict(over=x['over'], text=x['text']),
            why_tests_cant=x['why'],
            anchors=dict(files=x['files'], mechanism=[dict(name=n, where=w) for n, w in x['mech']],
                         observe_at=x['observe'], hook_needed=x['hook'])), ensure_ascii=False) + '\n')

claimed = sys.argv[1:] or [x['id'] for x in P]
m = dict(version=1, setup_cmd='bash build.sh',
    hooks=dict(guard='none', enable='nothing to enable: the checks use the public interface only', source_commits=[]),
    checks=[dict(property=x['id'], quick_cmd=f"bash check.sh {x['id']} quick", thorough_cmd=f"bash check.sh {x['id']} thorough",
                 evidence_file=f"evidence/{x['id']}.json", technique=x['technique'], level='exploration', level_note=x['note'])
            for x in P if x['id'] in claimed],
    not_applicable=[dict(property=x['id'], reason='check not built yet') for x in P if x['id'] not in claimed],
    notes='Property-based testing: one Rust harness (harness/), byte-tape generators driven by proptest, explicit oracle per property; see DESIGN.md. Listed and repaired defects: KNOWN_FINDINGS.txt.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
