"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import registry

props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in registry.CHECKS:
        continue
    c = registry.CHECKS[p]
    mods = ', '.join('spec/%s.tla' % registry.MODULE_OF.get(m, m) for m in c.get('models', []))
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s --tier quick' % p,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'technique': 'TLA+ specification (spec/%s.tla) checked with TLC; behaviours of the model%s replayed on the real code and '
                     'recorded executions validated against the specification by TLC' % ('T_Mix' if c['spec'] == 'Mix' else 'S_' + c['spec'], ' ' + mods if mods else ''),
        'level': c.get('level', 'model_checking'),
        'level_note': c.get('note', 'Exhaustive over the bounded models; the real code is checked call by call against the '
                            'specification on the replayed behaviours and on a generated workload, not for all inputs. '
                            'Trusts TLC, the Java overrides of the hash and big-number operators (compared with their TLA+ '
                            'definitions by M_Base) and the projections of harness/obs.py.'),
    })
na = [{'property': p, 'reason': registry.NOT_APPLICABLE.get(p, 'no check built yet')} for p in props if p not in registry.CHECKS]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: everything is observed through the public interface. Known findings: known_findings.txt.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
