"""regenerate BOUNDS.md: every case of every check with its bounds"""
import importlib, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + '/lib']
out = ['# Cases and bounds per check', '', 'Generated by tools/mkbounds.py; `t` marks cases of the thorough tier only.  The evidence file of a run repeats them with what each covered.', '']
for i in range(1, 31):
    m = importlib.import_module(f'props.c{i:02d}')
    q, t = m.cases('quick'), m.cases('thorough')
    names = {c.name: c.bound for c in q}
    out.append(f'## C{i:02d}')
    for c in t:
        if c.name not in names:
            out.append(f'- t `{c.name}`: {c.bound}')
        elif names[c.name] != c.bound:
            out.append(f'- `{c.name}`: {names[c.name]} (thorough: {c.bound})')
        else:
            out.append(f'- `{c.name}`: {c.bound}')
    for c in q:
        if c.name not in {d.name for d in t}:
            out.append(f'- `{c.name}` (quick only): {c.bound}')
    out.append('')
open(HERE + '/BOUNDS.md', 'w').write('\n'.join(out))
