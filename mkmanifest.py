#!/opt/venv/bin/python
"""Regenerate properties.jsonl and MANIFEST.json from pbt/catalog.py"""
import json
import pathlib
import sys
HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from pbt.catalog import PROPERTIES

props, checks, na = [], [], []
for p in PROPERTIES:
    assert len(p['title']) <= 80, p['id']
    props.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['text']),
        why_tests_cant=p['why'],
        anchors=dict(files=p['files'],
            mechanism=[dict(name=n, where=w) for n, w in p['mech']])))
    if (HERE/'props'/f"{p['id']}.py").exists():
        cmd = f"/opt/venv/bin/python run.py {p['id']}"
        checks.append(dict(property=p['id'], quick_cmd=cmd + ' --tier quick',
            thorough_cmd=cmd + ' --tier thorough',
            evidence_file=f"evidence/{p['id']}.json",
            technique=p['technique'], level='exploration',
            level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason='the check for this property '
            'is not built yet'))
(HERE/'properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in props))
man = dict(version=1,
    setup_cmd='/opt/venv/bin/python -c "import gravity_toolkit"',
    checks=checks, not_applicable=na,
    notes='Every check runs generated inputs (Hypothesis) through the code in '
        '/repo (imported from its working tree; pure Python, nothing to build) '
        'against an explicit oracle; see DESIGN.md. Replay a failure with '
        'run.py <ID> --replay <file>.')
(HERE/'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')
print(len(checks), 'claimed,', len(na), 'not')
