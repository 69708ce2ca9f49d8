#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools')); sys.path.insert(0, os.path.join(H, 'irv'))
import props_data, registry
lines = []; checks = []; na = []
for p in props_data.P:
    an = dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])
    if p['state']: an['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
    if p['observe']: an['observe_at'] = p['observe']
    lines.append(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                 why_tests_cant=p['why'], anchors=an)))
    for f in p['files']:
        assert os.path.exists('/repo/' + f), f
    assert len(p['title']) <= 80, p['title']
    if p['na']: na.append(dict(property=p['id'], reason=p['na'])); continue
    assert p['id'] in registry.PROPS, p['id']
    cmd = 'python3-vt check.py %s' % p['id']
    checks.append(dict(property=p['id'], quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough',
                       technique='contract-based deductive verification of the real headers (VC generation over LLVM IR, z3)',
                       level=p['level'], level_note=p['note']))
open(os.path.join(H, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++-18 --version', checks=checks, not_applicable=na,
               notes='no hooks: the contracts are in /verif and are compiled against the unmodified headers'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(lines), 'properties,', len(checks), 'checks')
