#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below (kept in one place so that they stay in step)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
CH = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
def claim(id, technique, note, level='proof'):
    CH.append(dict(property=id, quick_cmd=f'python3-vt check.py {id}', thorough_cmd=f'VERIF_TIER=thorough python3-vt check.py {id}', evidence_file=f'evidence/{id}.json', technique=technique, level=level, level_note=note))
def na(id, reason): NA.append(dict(property=id, reason=reason))
exec(open(f'{V}/tools/proptable.py').read())
ids = [p['id'] for p in P]; assert len(ids) == len(set(ids))
cl = {c['property'] for c in CH}; nn = {n['property'] for n in NA}
assert not (cl & nn) and cl | nn == set(ids), (set(ids) ^ (cl | nn))
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', hooks=dict(guard='none', enable='no hooks are needed: the checks compile the unmodified sources', source_commits=[]), checks=CH, not_applicable=NA,
    notes='Deductive verification of the LLVM IR clang produces from the unmodified sources; see DESIGN.md'), open(f'{V}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
