"""regenerate MANIFEST.json from properties.jsonl and the property modules present"""
import json, os, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{HERE}/properties.jsonl')]
NA = {}
f = f'{HERE}/tools/not_applicable.json'
if os.path.exists(f):
    NA = json.load(open(f))
checks, na = [], []
for p in props:
    i = p['id']
    mod = f'{HERE}/props/{i.lower()}.py'
    if i in NA or not os.path.exists(mod):
        na.append(dict(property=i, reason=NA.get(i, 'no check yet: work in progress')))
        continue
    src = open(mod).read()
    m = re.search(r"^NOTE = '''(.*?)'''", src, re.S | re.M)
    note = re.sub(r'\s+', ' ', m.group(1)).strip() if m else ''
    checks.append(dict(
        property=i,
        quick_cmd=f'/opt/venv/bin/python run.py {i} --tier quick',
        thorough_cmd=f'/opt/venv/bin/python run.py {i} --tier thorough',
        technique='symbolic execution of the real source (numpy/scipy modelled), Z3 over reals, integers and IEEE thresholds; '
                  'every counterexample replayed on the real code',
        level='model_checking',
        level_note=note or 'bounded symbolic execution: holds for every value within the bounds listed per case in the evidence file; nothing is claimed outside them'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy" && /opt/venv/bin/python run.py --selftest', checks=checks, not_applicable=na,
         notes='See DESIGN.md. One command per property; run.py --replay FILE replays a reported counterexample on the real code.')
json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
