#!/usr/bin/env python3
"""Decides one property:  check.py P01 [--replay FILE]

exit 0: the property held on everything explored; exit 1 with "VIOLATION property=<id> replay=<path>" otherwise.
"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa
from registry import PROPS, UNITS, MODELS  # noqa

ALWAYS = {'CRASH', 'SPEC', 'HARNESS', 'HANG'}  # the run left what the specification describes: no property can be granted


def mine(pid, bad):
    return [b for b in bad if {pid, *ALWAYS} & set(b[0].split("/"))]


def seeds(pid, fam, n):
    base = 1000003 * vlib.SEED + sum(ord(c) * 7919 ** j for j, c in enumerate(pid + fam)) % 100000 * 17
    return [[fam, base + j] for j in range(n)]


def run_lab(pid, mult, d):
    jobs = []
    for fam, n in PROPS[pid]['lab'].items():
        jobs += seeds(pid, fam, int(n * mult))
    if not jobs:
        return None
    traces = vlib.run_jobs(jobs, f'{d}/lab')
    verdicts = vlib.monitor('GlompoTrace', traces, d)
    return [('lab', t, verdicts[j]) for j, t in enumerate(traces)]


def run_unit(pid, unit, mult, d):
    u = UNITS[unit]
    traces = vlib.run_unit(u, int(u['n'] * mult), vlib.SEED, f'{d}/{unit}')
    verdicts = vlib.monitor(u['module'], traces, d)
    return [(unit, t, verdicts[j]) for j, t in enumerate(traces)]


def findings(pid):
    out = []
    p = f'{vlib.HERE}/findings'
    for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
        with open(f'{p}/{f}') as fh:
            k = json.load(fh)
        if pid in k['properties']:
            out.append(k)
    return out


def main(pid, tier):
    t0 = time.time()
    mult = 1 if tier == 'quick' else PROPS[pid].get('thorough', 12)
    spec = PROPS[pid]
    results = []
    models = []
    with vlib.Scratch() as d:
        for m in spec.get('models', []):
            models.append(vlib.model_check(m, MODELS[m], tier, d))
        results += run_lab(pid, mult, d) or []
        for unit in spec.get('units', []):
            results += run_unit(pid, unit, mult, d)
        known = []
        for k in findings(pid):
            if k['kind'] == 'lab':
                tr = vlib.run_jobs([k['scenario']], f'{d}/known{len(known)}')
                bad = mine(pid, vlib.monitor('GlompoTrace', tr, d)[0]['bad'])
            else:
                u = UNITS[k['kind']]
                tr = vlib.run_unit(u, 0, vlib.SEED, f'{d}/known{len(known)}', cases=[k['scenario']])
                bad = mine(pid, vlib.monitor(u['module'], tr, d)[0]['bad'])
            rest = [b for b in bad if b[1] not in k['clauses']]
            known.append((k, len(bad) - len(rest)))
            if rest:
                results.append((k['kind'], tr[0], {'bad': rest}))

    viol = []
    for kind, t, v in results:
        bad = mine(pid, v['bad'])
        if bad:
            viol.append((kind, t, sorted(bad, key=lambda b: b[2])))
    rdir = f'{vlib.EVID}/replay'
    os.makedirs(rdir, exist_ok=True)
    for n, (kind, t, bad) in enumerate(viol[:5]):
        path = f'{rdir}/{pid}-{n}.json'
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'kind': kind, 'scenario': t['sc'], 'clauses': bad[:5]}, fh)
        print(f'  {kind} {json.dumps(bad[0])[:300]}')
        print(f'VIOLATION property={pid} replay={path}')
    for m in models:
        if not m['ok']:
            path = f'{rdir}/{pid}-{m["name"]}.txt'
            with open(path, 'w') as fh:
                fh.write(m['out'])
            print(f'VIOLATION property={pid} replay={path}')
    for k, hit in known:
        if hit:
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')

    nontriv = [t for _, t, v in results if len(t['ev']) >= 5]
    sizes = sorted((len(t['ev']), i) for i, t in enumerate(nontriv))
    samples = []
    for q in (0, len(sizes) // 2, len(sizes) - 1):
        if sizes:
            t = nontriv[sizes[q][1]]
            samples.append({'scenario': t['sc'], 'events': len(t['ev']), 'head': t['ev'][:4]})
    ev = dict(property=pid, tier=tier, seed=vlib.SEED, level='model_checking', wall_s=round(time.time() - t0, 1),
              coverage=dict(
                  states=sum(m['distinct'] for m in models) + sum(len(t['ev']) + 1 for _, t, _ in results),
                  transitions=sum(m['generated'] for m in models) + sum(len(t['ev']) for _, t, _ in results),
                  design_models=[{z: m[z] for z in ('name', 'complete', 'distinct', 'generated', 'depth', 'wall_s')} for m in models],
                  traces_validated_against_impl=len(results),
                  trace_events=sum(len(t['ev']) for _, t, _ in results),
                  by_source={k: sum(1 for kk, _, _ in results if kk == k) for k in {kk for kk, _, _ in results}},
                  scenario_families=spec['lab'],
                  known_findings=[k['what'] for k, hit in known if hit],
                  violations=len(viol) + sum(1 for m in models if not m['ok']),
                  samples=samples or [m['name'] for m in models]))
    with open(f'{vlib.EVID}/{pid}.json', 'w') as fh:
        json.dump(ev, fh, indent=1)
    print(f'{pid} {tier}: {len(results)} behaviours of the code judged by TLC, '
          f'{sum(m["distinct"] for m in models)} design states, {len(viol)} violations, {time.time() - t0:.0f}s')
    if viol or any(not m['ok'] for m in models):
        return 1
    if vlib.INCOMPLETE:
        print('\n'.join(vlib.INCOMPLETE))
        return 2
    return 0


def replay(pid, path):
    with open(path) as fh:
        k = json.load(fh)
    with vlib.Scratch() as d:
        if k['kind'] == 'lab':
            tr = vlib.run_jobs([k['scenario']], d)
            bad = vlib.monitor('GlompoTrace', tr, d)[0]['bad']
        else:
            u = UNITS[k['kind']]
            tr = vlib.run_unit(u, 0, vlib.SEED, d, cases=[k['scenario']])
            bad = vlib.monitor(u['module'], tr, d)[0]['bad']
    for j, e in enumerate(tr[0]['ev'], 1):
        print(j, json.dumps(e)[:400])
    for b in sorted(mine(pid, bad), key=lambda b: b[2]):
        print('FAILS', b)
    return 1 if mine(pid, bad) else 0


if __name__ == '__main__':
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            sys.exit(replay(sys.argv[1], sys.argv[3]))
        sys.exit(main(sys.argv[1], 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')))
    except Exception:
        traceback.print_exc()
        sys.exit(2)
