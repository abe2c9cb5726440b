#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's current tree (tier from VERIF_TIER, default quick)
check.py --replay FILE       run a replay file again on the real code

Stage 1: the verifier (pv/prove.py under python3-vt) generates and discharges the obligations of every contract
of the property from the current source.  Stage 2: the same contracts run on sampled inputs against the real
code (cross-check, replay, and bounded stand-in for contracts the verifier leaves undecided).
"""
import sys, os, json, subprocess, time, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.path.join(HERE, 'evidence')
VT = 'python3-vt'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore')
BUDGET = {'quick': dict(sample=12, search=45, prove=240), 'thorough': dict(sample=240, search=300, prove=3000)}


GENERAL = ['byte strings and lists have fewer than 2**61 elements, histories fewer than 2**60 steps (machine limits of CPython); Python integers are mathematical, ctypes fields have their real widths',
           'termination is not proved (a run that never returns fulfils every postcondition)',
           'coroutines are interleaved at suspension points only; several threads using one object are not considered',
           'callees inside the repository are executed in place rather than replaced by their contracts; the contracts replace code at the boundaries transport, stream, crypto library, time keeper and time checker']


def sh(cmd, timeout):
    try:
        p = subprocess.run(cmd, cwd=HERE, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', '', (e.stderr or b'').decode(errors='replace')


def sample(prop, seed, seconds, tmp, tag, only=None, extra=None):
    out, j = os.path.join(tmp, 's_%s.json' % tag), os.path.join(tmp, 'j_%s.json' % tag)
    rc, so, se = sh([PY, 'pv/concrete.py', 'sample', prop, str(seed), str(seconds), out, j, json.dumps({'only': only, 'extra': extra})], seconds * 4 + 240)
    if os.path.exists(out):
        with open(out) as h:
            return json.load(h)
    r = {'contracts': {}, 'failure': None, 'error': 'sampler ended with %s: %s' % (rc, se[-2000:])}
    if isinstance(rc, int) and rc < 0 and os.path.exists(j):
        try:
            jj = json.load(open(j))
            r['failure'] = {'contract': jj['contract'], 'label': 'no-crash', 'detail': 'the interpreter was killed by signal %d' % -rc, 'k': jj['k'], 'inputs': [], 'seeded': [str(seed), prop, jj['contract'], jj['k']]}
        except Exception:
            pass
    return r


def replay(prop, contract, inputs, tmp, tag):
    f, out = os.path.join(tmp, 'r_%s.json' % tag), os.path.join(tmp, 'ro_%s.json' % tag)
    with open(f, 'w') as h:
        json.dump({'property': prop, 'contract': contract, 'inputs': inputs}, h)
    rc, so, se = sh([PY, 'pv/concrete.py', 'replay', f, out], 120)
    if os.path.exists(out):
        with open(out) as h:
            return json.load(h)
    if isinstance(rc, int) and rc < 0:
        return {'result': ['no-crash', 'the interpreter was killed by signal %d' % -rc], 'inputs': inputs}
    return {'error': se[-2000:]}


def contracts_of(prop):
    rc, so, se = sh([VT, 'pv/prove.py', 'list', prop], 120)
    if rc != 0:
        raise SystemExit('cannot list contracts: ' + se[-2000:])
    return json.loads(so)


def prove(prop, name, tier, tmp, seconds):
    out = os.path.join(tmp, 'p_%s.json' % name)
    rc, so, se = sh([VT, 'pv/prove.py', 'prove', prop, name, tier, str(seconds), out], seconds + 60)
    if os.path.exists(out):
        with open(out) as h:
            return json.load(h)
    return {'contract': name, 'status': 'undecided', 'reason': 'verifier ended with %s: %s' % (rc, se[-1500:]), 'obligations': [], 'stats': {}}


def known_findings(prop):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as h:
        return [x for x in json.load(h).get('findings', []) if x['property'] == prop]


def write_replay(prop, body):
    d = os.path.join(EVID, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s-%s.json' % (prop, body['contract'], h))
    with open(p, 'w') as f:
        json.dump(body, f, indent=1, default=str)
    return p


def main():
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as h:
            b = json.load(h)
        tmp = tempfile.mkdtemp(prefix='pv_')
        try:
            if b.get('inputs') is None:
                print('no failing input was found; failed obligation: %s / %s' % (b['contract'], b.get('label')))
                print(b.get('verifier_output', ''))
                return 1
            r = replay(b['property'], b['contract'], b['inputs'], tmp, 'x')
            print(json.dumps(r, indent=1)[:4000])
            return 1 if r.get('result') not in (None, 'discard') else 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    B = BUDGET[tier]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    ev = os.path.join(EVID, prop + '.json')
    if os.path.exists(ev):
        os.remove(ev)
    tmp = tempfile.mkdtemp(prefix='pv_')
    try:
        return run(prop, tier, seed, B, t0, ev, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay_all(prop, r, tmp):
    """The verifier's counterexamples, run on the real code: the first that fails."""
    for k, cex in enumerate(r.get('counterexamples', [])[:8]):
        if cex.get('inputs') is None:
            continue
        rr = replay(prop, r['contract'], cex['inputs'], tmp, '%s%d' % (r['contract'], k))
        x = rr.get('result')
        if x not in (None, 'discard'):
            return r['contract'], x[0], x[1], rr['inputs'], 'counterexample of obligation "%s" replayed on the real code' % cex['label']
    return None


def judge(prop, r, B, seed, tmp):
    """A refuted contract: replay the verifier's counterexamples on the real code, then search for another failing
    input; failing both, the failed obligation itself is the report (no-failing-input-found)."""
    name = r['contract']
    v = replay_all(prop, r, tmp)
    if v:
        return v
    cex = r['counterexamples'][0]
    f2 = sample(prop, seed + 1000, B['search'], tmp, 'x_' + name, only=[name], extra=r.get('extra')).get('failure')
    if f2:
        return name, f2['label'], f2['detail'], f2['inputs'], 'obligation "%s" refuted; failing input found by search' % cex['label']
    how = 'the solver has a model of the negated obligation' if r.get('exact') else 'the solver has a model of the negated obligation under the inferred loop invariants or quantified facts (the invariants may be too weak)'
    return name, cex['label'], 'obligation not discharged: ' + how, None, json.dumps({'status': r['status'], 'reason': r.get('reason'), 'exact': r.get('exact'), 'counterexamples': r['counterexamples']}, default=str)[:8000]


def run(prop, tier, seed, B, t0, ev, tmp):
    names = contracts_of(prop)
    with ThreadPoolExecutor(max_workers=8) as ex:
        fs = ex.submit(sample, prop, seed, B['sample'], tmp, 'main')
        fp = [ex.submit(prove, prop, c['name'], tier, tmp, B['prove']) for c in names]
        sres = fs.result()
        pres = [f.result() for f in fp]
    violations = []      # (contract, label, detail, inputs or None, verifier output)
    fail = sres.get('failure')
    if fail:
        violations.append((fail['contract'], fail['label'], fail['detail'], fail['inputs'], 'found by running the contract on the real code'))
    undecided, refuted = [], []
    for r in pres:
        if r['status'] == 'refuted':
            refuted.append(r)
        elif r['status'] != 'proved':
            undecided.append(r)
    failed_contracts = {v[0] for v in violations}
    todo = [r for r in refuted if r['contract'] not in failed_contracts]
    with ThreadPoolExecutor(max_workers=8) as ex:
        violations += list(ex.map(lambda r: judge(prop, r, B, seed, tmp), todo))
    if undecided and not violations:
        with ThreadPoolExecutor(max_workers=8) as ex:
            violations += [v for v in ex.map(lambda r: replay_all(prop, r, tmp), undecided) if v]
    if undecided and not violations:
        # bounded stand-in: a longer search on the real code for the contracts without a proof
        per = max(5, B['search'] / max(1, len(undecided)) if tier == 'quick' else B['search'] / len(undecided))
        with ThreadPoolExecutor(max_workers=8) as ex:
            rs = list(ex.map(lambda r: sample(prop, seed + 2000, per, tmp, 'u_' + r['contract'], only=[r['contract']]), undecided))
        for r, s2 in zip(undecided, rs):
            r['standin'] = s2['contracts'].get(r['contract'])
            f2 = s2.get('failure')
            if f2:
                violations.append((r['contract'], f2['label'], f2['detail'], f2['inputs'], 'contract undecided by the verifier (%s); failing input found by the bounded stand-in' % r.get('reason')))
    # ---- report ---------------------------------------------------------------------------------------
    known = known_findings(prop)
    code = 0
    for (c, label, detail, inputs, how) in violations:
        kf = [k for k in known if k['contract'] == c and k['label'] == label]
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf[0]['what']))
            continue
        p = write_replay(prop, {'property': prop, 'contract': c, 'label': label, 'detail': detail, 'inputs': inputs, 'verifier_output': how,
                                'rerun': 'cd /verif && python3 check.py --replay <this file>'})
        print('failed obligation: contract %s, "%s": %s (%s)' % (c, label, detail, how[:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if inputs is not None else ' no-failing-input-found'))
        code = 1
    bound = {c['name']: c['bound'] for c in names if c.get('bound')}     # contracts limited by their own text: never counted as proved
    bounded = [r for r in pres if r['contract'] in bound]
    pres = [r for r in pres if r['contract'] not in bound]
    obl = sum(len(r.get('obligations', [])) for r in pres)
    dis = sum(1 for r in pres for o in r.get('obligations', []) if o['status'] == 'proved' and r['status'] == 'proved')
    pres = pres + bounded
    st = {}
    for r in pres:
        for k, v in r.get('stats', {}).items():
            if isinstance(v, (int, float)):
                st[k] = round(st.get(k, 0) + v, 3)
    trusted = sorted({t for r in pres for t in r.get('trusted', [])})
    funcs = sorted({f for r in pres for f in r.get('functions', [])})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'VERIF_TIER=%s VERIF_SEED=%d python3 /verif/check.py %s' % (tier, seed, prop),
            'trusted_base': ['pv engine (/verif/pv: AST transformation, symbolic semantics of the Python subset, loop-invariant inference), cross-checked against CPython on every run',
                             'z3 (python3-vt)', 'CPython 3.12'] + trusted,
            'back_end': 'z3 (every obligation and every pruned branch)' + ('; cvc5 asked again about every query z3 answered unsat' if tier == 'thorough' else ''),
            'contracts': [{'contract': r['contract'], 'status': 'bounded' if r['contract'] in bound and r['status'] == 'proved' else r['status'], 'bounded': bound.get(r['contract']) or bool(r.get('bounded')), 'obligations': len(r.get('obligations', [])),
                           'names': sorted({o['label'] for o in r.get('obligations', [])}), 'reason': r.get('reason'),
                           'loops': r.get('loops'), 'covers': r.get('covers'), 'standin': r.get('standin'), 'second_solver': r.get('second_solver'), 'stats': r.get('stats')} for r in pres],
            'functions_under_contract': funcs, 'solver_s': st.get('solver_s', 0), 'solver_queries': st.get('queries', 0), 'paths': st.get('paths', 0),
            'undecided_contracts': [r['contract'] for r in undecided],
            'cross_check_runs_on_real_code': sum(c['runs'] for c in sres['contracts'].values()),
            'cross_check': {k: {a: c[a] for a in ('runs', 'distinct', 'checks', 'discarded')} for k, c in sres['contracts'].items()},
            'samples': [{k: c['sample']} for k, c in list(sres['contracts'].items())[:2]],
        },
        'assumptions': GENERAL + trusted, 'wall_s': round(time.time() - t0, 2), 'violations': code and len(violations),
    }
    if sres.get('error'):
        evidence['coverage']['sampler_error'] = sres['error']
    with open(ev, 'w') as h:
        json.dump(evidence, h, indent=1)
    if obl == 0 and not violations:
        print('no obligations were generated: %s' % [r.get('reason') for r in pres])
        return 3 if not any(c['runs'] for c in sres['contracts'].values()) else 0
    if code == 0:
        print('%s: %d contracts, %d/%d obligations discharged, undecided %s, %d cross-check runs, %.1f s' %
              (prop, len(pres), dis, obl, [r['contract'] + ': ' + str(r.get('reason'))[:160] for r in undecided], sum(c['runs'] for c in sres['contracts'].values()), time.time() - t0))
    return code


if __name__ == '__main__':
    sys.exit(main())
