#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo by symbolic execution of its current source (see DESIGN.md).
Every solver counterexample is replayed against the real code (real KLayout, real
protobuf, native Python) before it is reported."""
import argparse
import glob
import json
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY):
    PY = 'python3-vt'
BUDGET = {'quick': 420, 'thorough': 3 * 3600}


def run(args, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION=os.environ.get('PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION', 'upb'))
    if args[0] == 'real':
        env['MALLOC_PERTURB_'] = '165'      # memory errors of native code show up
    return subprocess.run([PY, '-B', os.path.join(VERIF, 'symx', 'run.py')] + args, env=env, cwd=VERIF, **kw)


def num(x):
    if isinstance(x, bool):
        return None
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, str):
        try:
            return float(Fraction(x))
        except (ValueError, ZeroDivisionError):
            return None
    return None


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a == b:
        return True
    x, y = num(a), num(b)
    return x is not None and y is not None and math.isclose(x, y, rel_tol=1e-6, abs_tol=1e-9)


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line[len('finding: property=%s ' % prop):]
                key, _, what = rest.partition(' ')
                assert key.startswith('label=')
                out.append((key[len('label='):], what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in BUDGET else 'quick'
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    replays = os.path.join(VERIF, 'build', 'replay', a.prop)
    os.makedirs(replays, exist_ok=True)
    for f in glob.glob(os.path.join(replays, '*.json')):
        os.unlink(f)
    tmp = tempfile.mkdtemp(prefix='check-', dir=os.path.join(VERIF, 'build'))
    try:
        return decide(a, tier, t0, tmp, replays)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(a, tier, t0, tmp, replays):
    out = os.path.join(tmp, 'sym.json')
    p = run(['sym', a.prop, tier, str(BUDGET[tier]), out] + ([a.only] if a.only else []),
            stderr=subprocess.PIPE, text=True)
    if not os.path.exists(out):
        print('ERROR: the symbolic run did not finish (rc=%s)' % p.returncode)
        print((p.stderr or '')[-3000:])
        return 2
    if os.environ.get('SYMX_DEBUG'):
        print(p.stderr)
    with open(out) as f:
        res = json.load(f)
    good = [r for r in res if 'error' not in r]
    errors = [r for r in res if 'error' in r]
    tot = {k: sum(r[k] for r in good) for k in
           ('paths', 'infeasible', 'branches', 'truncated', 'queries', 'solver_s', 'obligations', 'decided',
            'violating', 'undecided')}
    reached = {}
    functions = set()
    for r in good:
        for k, v in r['reached'].items():
            reached[k] = reached.get(k, 0) + v
        functions |= set(r['functions'])
    viols = [v for r in good for v in r['violations']]
    # ---- replay counterexamples and a sample of passing paths against the real code
    viols.sort(key=lambda v: (v['case'], v['label']))
    passing = [c for r in good for c in r['cases']]
    limit = 400 if tier == 'thorough' else 120
    if len(passing) > limit:
        step = len(passing) / limit
        passing = [passing[int(i * step)] for i in range(limit)]
    todo = viols[:120] + passing
    replay_in, replay_out = os.path.join(tmp, 'in.json'), os.path.join(tmp, 'real.json')
    rep = []
    if todo:
        with open(replay_in, 'w') as f:
            json.dump(todo, f)
        p = run(['real', a.prop, replay_in, replay_out], stderr=subprocess.PIPE, text=True)
        if not os.path.exists(replay_out):
            print('ERROR: the replay against the real code did not finish (rc=%s)' % p.returncode)
            print((p.stderr or '')[-3000:])
            return 2
        with open(replay_out) as f:
            rep = json.load(f)
    nv = len(viols[:120])
    confirmed, unconfirmed, disagreements, validated, rejected = [], [], [], 0, 0
    for it, r in zip(todo[:nv], rep[:nv]):
        if r.get('outcome') == 'fail' or r.get('crashed'):
            confirmed.append((it, r))
        else:
            unconfirmed.append((it, r))
    for it, r in zip(todo[nv:], rep[nv:]):
        if r.get('outcome') == 'fail' or r.get('crashed'):
            it = dict(it, label=r.get('label') or 'crash', detail='found when a passing path was replayed: ' + str(r.get('detail')))
            confirmed.append((it, r))
        elif r.get('outcome') == 'pass':
            if same(it['observed'], r['observed']):
                validated += 1
            else:
                disagreements.append(dict(case=it['case'], values=it['values'], symbolic=it['observed'], real=r['observed']))
        else:
            rejected += 1
    # ---- classify
    known = known_findings(a.prop)
    new, printed = [], set()
    for it, r in confirmed:
        label = r.get('label') or it['label']
        k = [w for (l, w) in known if l == label or l == it['label']]
        if k:
            if k[0] not in printed:
                printed.add(k[0])
                print('KNOWN-FINDING: property=%s %s' % (a.prop, k[0]))
        else:
            new.append((it, r))
    meta = getattr(load_meta(a.prop), 'META', {})
    incomplete = [dict(case=r['case'], why=r['why']) for r in good if not r['complete'] and not r['violations']]
    und = [u for r in good for u in r['undecided_samples']]
    ev = dict(
        property=a.prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
        coverage=dict(
            states=tot['paths'], transitions=tot['branches'],
            traces_validated_against_impl=validated,
            samples=[dict(case=c['case'], inputs=c['values'], observed=c['observed']) for c in passing[:6]],
            exhaustive=bool(not incomplete and not errors and not tot['undecided'] and not tot['truncated'] and not unconfirmed),
            meaning='states = feasible execution paths of the real code explored (each path stands for every input '
                    'satisfying its path condition); transitions = branch decisions settled by the solver; '
                    'traces_validated_against_impl = solver-chosen inputs of passing paths re-run against the real '
                    'code with equal observations',
            cases=[dict(name=r['case'], paths=r['paths'], obligations=r['obligations'], queries=r['queries'],
                        wall_s=round(r['wall_s'], 2), complete=r['complete'], truncated=r['truncated']) for r in good],
            infeasible_paths=tot['infeasible'], truncated_paths=tot['truncated'], undecided_paths=tot['undecided'],
            obligations=tot['obligations'], discharged=tot['decided'] - tot['violating'] if tot['violating'] <= tot['decided'] else 0,
            obligations_reached=reached,
            queries=tot['queries'], solver_s=round(tot['solver_s'], 3),
            functions_encoded=sorted(functions), bounds=meta.get('bounds', []), outside=meta.get('outside', []),
            incomplete_cases=incomplete, failed_cases=[dict(case=e['case'], error=e['error'][-400:]) for e in errors],
            undecided_samples=und[:10],
            counterexamples_replayed=nv, counterexamples_confirmed=len([1 for it, r in confirmed if it in todo[:nv]]),
            counterexamples_not_reproduced=[dict(case=i['case'], label=i['label'], values=i['values'], detail=i['detail'])
                                            for i, r in unconfirmed][:10],
            disagreements=disagreements[:5], disagreement_count=len(disagreements), passing_replays_rejected=rejected),
        assumptions=meta.get('assumptions', []) + COMMON, wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d paths, %d branches, %d obligations (%d decided), %d queries, %.1fs solver, '
          '%d validated, %d disagreements, %d undecided, %d truncated, %d incomplete, %d failed cases, wall %.1fs' % (
              a.prop, tier, len(res), tot['paths'], tot['branches'], tot['obligations'], tot['decided'], tot['queries'],
              tot['solver_s'], validated, len(disagreements), tot['undecided'], tot['truncated'], len(incomplete),
              len(errors), time.time() - t0))
    for x in (und[:3] + incomplete[:3] + [dict(c, error=c['error'][-800:]) for c in errors[:3]] + disagreements[:2]):
        print('  note:', json.dumps(x)[:1500])
    for it, r in unconfirmed[:3]:
        print('  not reproduced on the real code:', json.dumps(it)[:1200], json.dumps(r)[:300])
    if a.v:
        for r in sorted(good, key=lambda r: -r['wall_s'])[:15]:
            print('   %-40s paths %d, %.1fs' % (r['case'], r['paths'], r['wall_s']))
        print('   reached:', reached)
    if new:
        seen = set()
        for i, (it, r) in enumerate(new):
            label = it['label']
            if label in seen:
                continue
            seen.add(label)
            path = os.path.join(replays, '%d.json' % i)
            with open(path, 'w') as f:
                json.dump(dict(property=a.prop, **{k: it[k] for k in ('case', 'label', 'values', 'detail') if k in it},
                               real=r), f, indent=1)
            print('counterexample [%s / %s]: inputs %s -> %s' % (
                it['case'], label, json.dumps(it['values'])[:600], json.dumps({k: r.get(k) for k in ('label', 'detail')})[:400]))
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if tot['decided'] == 0:
        print('ERROR: nothing could be decided')
        return 2
    return 0


COMMON = [
    'float arithmetic of the code is modelled as exact real arithmetic (literals read at 15 significant digits)',
    'KLayout, protobuf, json, csv and file-system primitives are replaced by models; solver-chosen inputs of '
    'passing paths are re-run on the real libraries and compared',
    'the AST rewriting of symx/instrument.py preserves Python semantics for the constructs used',
]


def load_meta(prop):
    """META is a literal dict at the top of the harness"""
    import ast
    tree = ast.parse(open(os.path.join(VERIF, 'harness', prop + '.py')).read())

    class M:
        META = {}
    for st in tree.body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', None) == 'META':
            M.META = ast.literal_eval(st.value)
    return M


if __name__ == '__main__':
    sys.exit(main())
