#!/opt/venv/bin/python
"""usage: run.py C01 [--tier quick|thorough] [--case NAME] [-v]      decide a property
          run.py --replay FILE                                       replay a reported counterexample"""
import sys, os, json, time, argparse, importlib, multiprocessing as mp
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), HERE]
sys.setrecursionlimit(20000)
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
import warnings
warnings.simplefilter('ignore')
import harness as H
import loader


def work(a):
    prop, name, tier, verbose, k = a
    mod = importlib.import_module('props.' + prop.lower())
    case = [c for c in mod.cases(tier) if c.name == name][0]
    try:
        return k, H.run_case(case, tier, prop, verbose)
    except BaseException as e:
        import traceback
        return k, dict(case=name, bound=case.bound, paths=0, complete=False, asserts=0, witnesses=0, witness_rejected=0,
                       undecided=[], limits=['internal: ' + traceback.format_exc()[-1500:]], notes=[], violation=None, samples=[],
                       functions=[], aborted=0, queries=0, solver_s=0, branches=0, obligations=0, how={}, unknown=0, wall_s=0)


def known():
    f = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'finding':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    if a.selftest:
        loader.real(), loader.twin()
        print('ok')
        return
    if a.replay:
        d = json.load(open(a.replay))
        mod = importlib.import_module('props.' + d['property'].lower())
        for tier in ('quick', 'thorough'):
            cs = [c for c in mod.cases(tier) if c.name == d['case']]
            if cs:
                s, l, i = H.replay(cs[0], d['inputs'])
                print(s, l, i)
                sys.exit(1 if s == 'fail' else 0)
        sys.exit(2)
    t0 = time.time()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    mod = importlib.import_module('props.' + prop.lower())
    cases = mod.cases(tier)
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    jobs = [(prop, c.name, tier, a.v, k) for k, c in enumerate(cases)]
    assert len({c.name for c in cases}) == len(cases), 'duplicate case names'
    jobs.sort(key=lambda j: -cases[j[4]].budget)
    results = [None] * len(cases)
    stop = False
    if a.j == 1:
        for j in jobs:
            k, r = work(j)
            results[k] = r
    else:
        # one process per case; stop early once a violation has been reproduced
        total = float(os.environ.get('DWT_BUDGET') or getattr(mod, 'TOTAL', {'quick': 400, 'thorough': 840}).get(tier))
        with mp.get_context('fork').Pool(min(a.j, len(jobs)), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(work, jobs)
            n = 0
            while n < len(jobs):
                try:
                    k, r = it.next(timeout=max(1, t0 + total - time.time()))
                except mp.TimeoutError:
                    break
                n += 1
                results[k] = r
                if r['violation']:
                    break
            pool.terminate()
    done = [r for r in results if r]
    wall = time.time() - t0
    viol = [r['violation'] for r in done if r['violation']]
    kf = known()
    fresh, listed = [], []
    for v in viol:
        m = [k for k in kf if k['property'] == prop and k['case'] == v['case'] and v['label'].startswith(k['label'])]
        (listed if m else fresh).append((v, m))
    decided = [r for r in done if r['paths'] and r['asserts'] and not r['limits'] and not r['undecided'] and r['complete']]
    partial = [r for r in done if r not in decided]
    how = {}
    funcs = set()
    for r in done:
        for k, v in r['how'].items():
            how[k] = how.get(k, 0) + v
        funcs |= set(r['functions'])
    tot = lambda k: sum(r[k] for r in done)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=tot('paths'), transitions=tot('branches'), traces_validated_against_impl=tot('witnesses'),
                  samples=[s for r in done for s in r['samples']][:6],
                  explanation='states: symbolic paths completed; transitions: branch decisions taken to the solver; '
                              'traces_validated_against_impl: solver models of paths replayed on the real code',
                  cases=[dict(name=r['case'], bound=r['bound'], paths=r['paths'], complete=r['complete'], obligations=r['obligations'],
                              queries=r['queries'], solver_s=r['solver_s'], wall_s=r['wall_s'],
                              **({'undecided': r['undecided'][:3]} if r['undecided'] else {}),
                              **({'limits': [x[:300] for x in r['limits'][:3]]} if r['limits'] else {}),
                              **({'notes': [x[:300] for x in r['notes'][:2]]} if r['notes'] else {})) for r in done],
                  cases_total=len(cases), cases_decided=len(decided),
                  cases_not_run=[c.name for c, r in zip(cases, results) if r is None],
                  obligations=tot('obligations'), discharged_by=how, undecided=sum(len(r['undecided']) for r in done),
                  solver_queries=tot('queries'), solver_s=round(tot('solver_s'), 2), solver_unknown=tot('unknown'),
                  functions_encoded=sorted(funcs), source_digest=loader.source_digest(),
                  exhaustive=len(decided) == len(cases)),
              assumptions=list(getattr(mod, 'ASSUME', [])), wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.case:
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            ev['coverage']['cases'] = [{k: c[k] for k in ('name', 'paths', 'complete', 'obligations')} for c in ev['coverage']['cases']]
            s = json.dumps(ev)
        open(os.path.join(HERE, 'evidence', prop + '.json'), 'w').write(s)
    for r in sorted(done, key=lambda r: r['case']):
        if a.v or a.case or r in partial:
            print(f"{prop} {r['case']}: paths={r['paths']} complete={r['complete']} aborted={r['aborted']} obl={r['obligations']} asserts={r['asserts']} "
                  f"wit={r['witnesses']}(-{r['witness_rejected']}) q={r['queries']} {r['wall_s']}s {r['how']}"
                  + (f" UNDECIDED {r['undecided'][:4]}" if r['undecided'] else '') + (f" LIMITS {r['limits'][:4]}" if r['limits'] else '')
                  + (f" NOTES {r['notes'][:3]}" if r['notes'] else ''))
    for c, r in zip(cases, results):
        if r is None and not viol:
            print(f'{prop} {c.name}: NOT RUN (time)')
    for v, m in listed:
        print(f"KNOWN-FINDING: property={prop} {m[0]['what']}")
    if fresh:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        v = fresh[0][0]
        f = os.path.join(HERE, 'replays', f"{prop}-{v['case'].replace('/', '_').replace(' ', '_')}.json")
        json.dump(v, open(f, 'w'), indent=1)
        print(f"{prop} case {v['case']}: {v['label']}: {v['info']}\n  inputs {json.dumps(v['inputs'])[:800]}")
        print(f'VIOLATION property={prop} replay={f}')
        sys.exit(1)
    print(f"{prop} {tier}: {len(decided)}/{len(cases)} cases decided, {tot('paths')} paths, {tot('obligations')} obligations, "
          f"{tot('queries')} queries, {tot('witnesses')} replays, {wall:.1f}s")
    if not decided and not listed:
        print('no case could be decided')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
