#!/usr/bin/env python3
"""Decide one property of sympl from the current source of /repo.

usage: check.py PROPERTY [--tier quick|thorough] [--verbose]

Exit 0: no violation found (undecided obligations are counted in the evidence).
Exit 1: a VIOLATION line names the property; the file named by replay= gives the
construct, the rule and the two summaries that differ.
"""
import argparse
import json
import os
import sys
import time
import traceback
import multiprocessing

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import model, lints            # noqa: E402
from sa.terms import show              # noqa: E402

WORLD = None


def relpath(p):
    return os.path.relpath(p, WORLD.repo) if p and p.startswith(WORLD.repo) else p


def run_obligation(arg):
    name, limit, variant, prop = arg
    sys.setrecursionlimit(20000)
    ob = [o for o in model.obligations(WORLD) if o.name == name][0]
    t0 = time.time()
    try:
        o = model.check(WORLD, ob, limit, variant, prop)
    except Exception as e:                              # the analysis, not the code, failed
        return dict(name=name, kind='summary', status='undecided', reason='analysis failed: %r' % e,
                    functions=[], projections=[], diffs=[], wall=time.time() - t0, events=0,
                    trace=traceback.format_exc()[-1500:])
    diffs = []
    for d in o.diffs:
        if o.status == 'violated' and d.weak:
            continue
        diffs.append(dict(what=d.what, file=relpath(d.loc[0]), line=d.loc[1], function=d.loc[2],
                          found=show(d.got, 9)[:2000], required=show(d.want, 9)[:2000]))
    return dict(name=name, kind='summary', status=o.status, reason=o.reason,
                functions=o.functions, projections=o.checked, diffs=diffs,
                wall=round(time.time() - t0, 3), events=getattr(o, 'events', 0),
                stats={k: v for k, v in getattr(o, 'stats', {}).items() if isinstance(v, int)})


def run_lint(name):
    t0 = time.time()
    try:
        r = lints.LINTS[name][1](WORLD)
    except Exception as e:
        return dict(name=name, kind='rule', status='undecided', reason='analysis failed: %r' % e,
                    functions=[], projections=[], diffs=[], wall=time.time() - t0, events=0,
                    trace=traceback.format_exc()[-1500:])
    status = 'violated' if r['violations'] else ('undecided' if r.get('undecided') else 'holds')
    return dict(name=name, kind='rule', status=status, reason=r.get('undecided'),
                functions=r.get('functions', []), projections=[r['rule']],
                diffs=[dict(what=v[0], file=relpath(v[1]), line=v[2], function=v[3],
                            found=v[4], required=v[5]) for v in r['violations']],
                wall=round(time.time() - t0, 3), events=r.get('sites', 0))


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('KNOWN-FINDING:') and 'property=%s ' % prop in line:
                out.append(line.strip())
    return out


def main():
    global WORLD
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    limit = 600 if tier == 'thorough' else 100
    results, load_error = [], None
    try:
        WORLD = model.World()
    except SyntaxError as e:
        load_error = 'source does not parse: %s' % e
    if WORLD is not None:
        obs = [o for o in model.obligations(WORLD) if a.property in o.props and
               (tier == 'thorough' or o.options.get('tier') != 'thorough')]
        if a.only:
            obs = [o for o in obs if a.only in o.name]
        names = [o.name for o in obs]
        slow = {'labelled_tracers': 3, 'tracers': 2, 'labelled': 1}
        names.sort(key=lambda n: -max([v for k, v in slow.items() if n.endswith(k)] or [0]))
        ls = [n for n, (props, _) in lints.LINTS.items() if a.property in props and
              (not a.only or a.only in n)]
        # one process per obligation: no analysis depends on an earlier one
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(8, maxtasksperchild=1) as pool:
            fs = [pool.apply_async(run_obligation, ((n, limit, 0, a.property),)) for n in names] + \
                 [pool.apply_async(run_lint, (n,)) for n in ls]
            for f in fs:
                try:
                    results.append(f.get(limit + 60))
                except Exception as e:
                    results.append(dict(name='?', kind='summary', status='undecided', reason=repr(e),
                                        functions=[], projections=[], diffs=[], wall=0, events=0))
            # a difference counts when it does not depend on the order of the analysis
            again = [r for r in results if r['status'] == 'violated' and r['kind'] == 'summary']
            fs = [(r, pool.apply_async(run_obligation, ((r['name'], 100, v, a.property),))) for r in again for v in (1, 2)]
            for r, f in fs:
                try:
                    x = f.get(limit + 160)
                except Exception:
                    continue
                if x['status'] == 'holds' or x['status'] == 'undecided' and r['status'] == 'violated' \
                        and 'exceeded' not in (x['reason'] or ''):
                    r.update(status=x['status'], reason=x['reason'], diffs=[])
    results.sort(key=lambda r: r['name'])
    bad = [r for r in results if r['status'] == 'violated']
    held = [r for r in results if r['status'] == 'holds']
    und = [r for r in results if r['status'] not in ('violated', 'holds')]
    known = known_findings(a.property)
    fresh = []
    for r in bad:
        for d in r['diffs']:
            tag = '%s: %s in %s' % (r['name'], d['what'], d['function'])
            if any(tag in k for k in known):
                continue
            fresh.append((r, d))
    for k in known:
        print(k)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, '%s.violation.json' % a.property)
    if os.path.exists(replay):
        os.remove(replay)
    if fresh:
        with open(replay, 'w') as f:
            json.dump([dict(obligation=r['name'], **d) for r, d in fresh], f, indent=1)
    functions = sorted({q for r in results for q in r['functions']})
    ev = dict(
        property=a.property, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other',
        coverage=dict(
            explanation='Value-flow abstract interpretation of the current source. Each obligation '
            'summarises the repository code reached from a public entry point (returned value, '
            'conditions of each exception, calls made, final contents of the arguments, as gated '
            'value graphs over arbitrary inputs) and compares it, projection by projection, with '
            'the summary of the required behaviour; rule obligations inspect every matching '
            'construct of the source. No code of the repository is executed.',
            obligations=len(results), discharged=len(held), undecided=len(und),
            undecided_reasons=sorted({'%s: %s' % (r['name'], r['reason']) for r in und}),
            projections_compared=sum(len(r['projections']) for r in results),
            functions_analysed=len(functions), functions=functions,
            events_recorded=sum(r['events'] for r in results),
            samples=[dict(obligation=r['name'], kind=r['kind'], status=r['status'], wall_s=r['wall'],
                          compared=r['projections'][:6]) for r in results][:40],
            load_error=load_error),
        wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(evdir, a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if a.verbose:
        for r in results:
            print('%-40s %-9s %6.2fs %s' % (r['name'], r['status'], r['wall'], r['reason'] or ''))
    print('%s %s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (
        a.property, tier, len(results), len(held), len(und), len(bad), time.time() - t0))
    for r, d in fresh[:20]:
        print('  %s:%s in %s: %s [%s]' % (d['file'], d['line'], d['function'], d['what'], r['name']))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (a.property, replay))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
