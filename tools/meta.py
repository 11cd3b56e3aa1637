#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table.

A property is claimed as soon as mc/props/<id>.py exists.
"""
import importlib.util, json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from tools.table import PROPS, NOT_APPLICABLE  # noqa

PRE = 'src/eprempy/'


def full(path):
    return path if path.startswith('scripts/') else PRE + path


def main():
    lines, checks = [], []
    for p in PROPS:
        if len(p['title']) > 80:
            raise SystemExit(f"title too long: {p['id']}")
        rec = {
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['all']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': [full(f) for f in p['files']],
                'mechanism': [{'name': n, 'where': full(w)} for n, w in p['mechanism']],
                'observe_at': p.get('observe', []),
                'hook_needed': None,
            },
        }
        if 'state' in p:
            rec['anchors']['state'] = [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']]
        lines.append(json.dumps(rec, ensure_ascii=False))
        if (ROOT / 'mc' / 'props' / f"{p['id'].lower()}.py").exists():
            cmd = f"python3 /verif/check.py {p['id']}"
            checks.append({
                'property': p['id'],
                'quick_cmd': cmd + ' --tier quick',
                'thorough_cmd': cmd + ' --tier thorough',
                'evidence_file': f"evidence/{p['id']}.json",
                'technique': p['technique'],
                'level': p.get('level', 'model_checking'),
                'level_note': p['note'],
            })
        elif p['id'] not in {n['property'] for n in NOT_APPLICABLE}:
            print('unclaimed:', p['id'], file=sys.stderr)
    claimed = {c['property'] for c in checks}
    na = list(NOT_APPLICABLE) + [
        {'property': p['id'], 'reason': 'check not built yet'}
        for p in PROPS if p['id'] not in claimed
        and p['id'] not in {n['property'] for n in NOT_APPLICABLE}
    ]
    (ROOT / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
    (ROOT / 'MANIFEST.json').write_text(json.dumps({
        'version': 1,
        'setup_cmd': 'python3 /verif/check.py --selftest',
        'checks': checks,
        'not_applicable': na,
    }, indent=1, ensure_ascii=False) + '\n')


main()
