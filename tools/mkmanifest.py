"""writes MANIFEST.json from contracts/props.py"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'contracts'))
import props
checks = []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)['id']
    c = props.PROPS.get(p)
    if not c:
        continue
    pr = bool(c['funcs'])
    whole = pr and c.get('level') != 'exploration'
    checks.append(dict(
        property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + p,
        technique='contract-based deductive verification: symbolic-execution verification conditions from the current go/ssa, discharged by z3 and cvc5' + ('' if not c['left'] else '; bounded harness for the functions listed as out of reach') if pr
        else 'bounded stand-in: generated histories against an oracle (no function of this property is under contract yet)',
        level='proof' if whole else 'exploration',
        level_note=('Every obligation of the functions under contract is discharged on each run, for all inputs. ' if whole else 'The obligations of part of its functions are discharged on each run; the property as a whole is explored, bounded. ' if pr else 'Bounded, nothing proved. ') +
        ('Bounded only: ' + '; '.join(c['left']) + '. ' if c['left'] else '') +
        ('Trusts the condition generator and its memory model, go/ssa, the solvers, the models of external functions, and the assumptions listed in the evidence.' if pr else '')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
