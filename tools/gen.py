"""python3-vt tools/gen.py: writes properties.jsonl and MANIFEST.json from tools/props.py and the contract registry"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
import props                                                  # noqa: E402
from contracts import reg                                     # noqa: E402

for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
    if f.startswith('c_') and f.endswith('.py'):
        importlib.import_module('contracts.' + f[:-3])

TECH = 'contract-based deductive verification: verification conditions generated from the real functions, discharged by SMT'
checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as out:
    for p in props.P:
        p = dict(p)
        why = p.pop('_na')
        assert len(p['title']) <= 80, p['title']
        out.write(json.dumps(p) + '\n')
        cs = [c for c in reg.REG if p['id'] in c.prop]
        if why or not cs:
            na.append(dict(property=p['id'], reason=why or 'check not built yet'))
            continue
        bd = [c for c in cs if c.bounded or c.opts.get('nosym')]
        un = [c for c in cs if c not in bd]
        note = '%d contract(s) proved without a bound' % len(un)
        if bd:
            note += '; bounded (never counted as proved): ' + '; '.join(
                '%s [%s]' % (c.name, c.bounded or 'concrete inputs only') for c in bd)
        note += '. Reals for floats, rounding as an interval; an undecided obligation falls back to a bounded run and is listed in the evidence.'
        checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                           technique=TECH, level='proof' if un else 'other', level_note=note))
json.dump(dict(version=1, setup_cmd='python3-vt tools/selftest.py', checks=checks, not_applicable=na,
               notes='Evidence names every contract, its bound if any, the obligations and the back end that discharged them. '
                     'See DESIGN.md.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
with open(os.path.join(HERE, 'CONTRACTS.md'), 'w') as out:
    out.write('# Contracts (generated by tools/gen.py)\n\nKind: `all inputs` = obligations for all inputs, no bound; `bounded` = bounded in the '
              'stated way, explored completely for all real values within it; `concrete` = random concrete inputs only.\n')
    for p in props.P:
        out.write('\n## %s %s\n\n' % (p['id'], p['title']))
        for c in reg.REG:
            if p['id'] in c.prop:
                kind = 'concrete' if c.opts.get('nosym') else 'bounded: ' + c.bounded if c.bounded else 'all inputs'
                out.write('- `%s` (%s): %s. Functions: %s%s\n' % (
                    c.key, kind, c.name, ', '.join('`%s`' % f.split(':')[-1] for f in c.fns), '; ' + '; '.join(c.notes) if c.notes else ''))
print(len(checks), 'checks', len(na), 'not applicable')
