#!/usr/bin/env python3
"""Write DESIGN.md from design_head.md, the table, the modules and seeded/."""
import importlib, json, pathlib, sys, textwrap
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from tools.table import PROPS, NOT_APPLICABLE  # noqa

# how the expected answer is obtained, what tests cannot reach, quick/thorough cost on 8 idle cores
ORACLE = json.loads((ROOT / 'tools' / 'oracles.json').read_text())


def fill(text, lead='- '):
    return textwrap.fill(' '.join(text.split()), 79, initial_indent=lead,
                         subsequent_indent=' ' * len(lead), break_long_words=False)


def main():
    out = [(ROOT / 'tools' / 'design_head.md').read_text().rstrip(), '', '## Properties, one by one', '']
    seeds = {}
    for meta in sorted((ROOT / 'seeded').glob('*/meta.json')):
        m = json.loads(meta.read_text())
        seeds.setdefault(m['property'], []).append((meta.parent.name, m))
    for p in PROPS:
        out += [f"### {p['id']} {p['title']}", '']
        try:
            mod = importlib.import_module(f"mc.props.{p['id'].lower()}")
        except ModuleNotFoundError:
            out += ['Not claimed.', '']
            continue
        o = ORACLE.get(p['id'], {})
        out.append(fill('**Method**: ' + p['technique'] + '.'))
        out.append(fill('**Enumerated**: ' + mod.RULE + '.'))
        for tier in ('quick', 'thorough'):
            b = '; '.join(f'{k}: {v}' for k, v in mod.BOUNDS[tier].items())
            cost = f" About {o[tier]} on 8 idle cores." if tier in o else ''
            out.append(fill(f'**Bounds, {tier}**: {b}.{cost}'))
        if 'oracle' in o:
            out.append(fill('**Oracle**: ' + o['oracle']))
        out.append(fill('**Why beyond the tests**: ' + p['why']))
        out.append(fill('**Assumptions**: ' + '; '.join(mod.ASSUMPTIONS) + '.'))
        if p['id'] in seeds:
            out.append(fill('**Planted bugs**: ' + '; '.join(f"{n} ({m['what_it_breaks']})" for n, m in seeds[p['id']]) + '.'))
        out.append('')
    for n in NOT_APPLICABLE:
        out += [f"- {n['property']}: {n['reason']}"]
    missed = ROOT / 'tools' / 'missed.txt'
    bad = {l.split()[0] for l in missed.read_text().splitlines() if l.strip()} if missed.exists() else set()
    out += ['## Planted bugs and what catches them', '',
            'Each is caught by the quick check of its own property unless marked.', '',
            '| bug | property | needs | caught |', '|---|---|---|---|']
    for pid in sorted(seeds):
        for n, m in seeds[pid]:
            out.append(f"| {n} | {pid} | {m['needs']} | {'no' if n in bad else 'yes'} |")
    out += ['', '## Findings', '']
    known, fixed = [], []
    for line in (ROOT / 'known_findings.txt').read_text().splitlines():
        if line.startswith('known:'):
            known.append(line[6:].strip())
        elif line.startswith('fixed:'):
            fixed.append(line[6:].strip())
    out += [f'{len(fixed)} genuine defects were repaired in /repo by "fix:" commits, each with an entry',
            'in `known_findings.txt` (which names the commit and what failed). Reverting',
            'the commit makes the check of the property report it again. Recorded but not repaired:', '']
    out += [fill(k) for k in known]
    out.append('')
    (ROOT / 'DESIGN.md').write_text('\n'.join(out))


main()
