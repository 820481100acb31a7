"""Driver: run.py P01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only', help='only scenarios whose name contains this')
    ap.add_argument('--no-evidence', action='store_true')
    ns = ap.parse_args()
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.path[:0] = [HERE]
    sys.dont_write_bytecode = True
    root = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else '/tmp'
    base = tempfile.mkdtemp(prefix='hsmc-', dir=root)
    os.environ['VERIF_SCRATCH'] = base
    try:
        code = drive(ns)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def known():
    """Listed findings: {property: [(key, text)]}"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                _, prop, key, text = line.split(None, 3)
                out.setdefault(prop.partition('=')[2], []).append((key.partition('=')[2], text))
    return out


def drive(ns):
    import explore
    seed = int(os.environ.get('VERIF_SEED') or 1)
    prop = ns.prop.upper()
    mod = importlib.import_module('checks.' + prop.lower())
    if ns.replay:
        rec = json.load(open(ns.replay))
        chk = mod.make(rec['tier'])
        return replay(chk, rec)
    chk = mod.make(ns.tier)
    chk.prop = prop
    import gen_manifest
    chk.level = 'fault_enumeration' if gen_manifest.CHECKS[prop] is gen_manifest.FAULT else 'exploration'
    if ns.only:
        chk.scenarios = [s for s in chk.scenarios if ns.only in s.name]
        if ns.only != 'cases':
            chk.cases = []
    budget = ns.budget or (420 if ns.tier == 'quick' else 800)
    t0 = time.time()
    st = chk.run(ns.tier, budget)
    code = 0
    listed = known().get(prop, [])
    hits = {}
    viol = list(st.violations)
    if viol:
        confirmed = None
        for attempt in (1, 2):
            viol.sort(key=lambda v: (len(v[2] or ()), str(v[:3])))
            for v in viol[:5]:
                confirmed = confirm(chk, v)
                if confirmed:
                    break
            if confirmed or attempt == 2 or not viol:
                break
            # neither the same choices nor the same case show it again: the machine got in the way, everything is done again
            unreproduced = str(viol[0])[:2000]
            print(f'{prop}: not reproduced, starting over: {unreproduced}', file=sys.stderr)
            st = chk.run(ns.tier, max(60, min(budget, 780 - (time.time() - t0))))
            viol = list(st.violations)
        if confirmed:
            path = write_replay(ns, prop, chk, v, confirmed)
            print(f'{prop}: violated')
            for m in confirmed[:6]:
                print('   ', str(m)[:2000])
            print(f'VIOLATION property={prop} replay={path}')
            code = 1
        elif viol:
            st.errors.append(f'violation could not be reproduced: {viol[0]}')
    if st.errors and code == 0:
        print(f'{prop}: the check itself failed:\n' + '\n'.join(st.errors[:3]), file=sys.stderr)
        code = 3
    # known findings: each has its own recorded history, replayed on every run
    if code == 0:
        for key, text in listed:
            fn = getattr(mod, 'FINDINGS', {}).get(key)
            if fn is None:
                print(f'{prop}: listed finding {key} has no history', file=sys.stderr)
                code = 3
                continue
            if explore_finding(fn):
                print(f'KNOWN-FINDING: property={prop} {text}')
                hits[key] = True
    wall = time.time() - t0
    if not ns.no_evidence and not ns.only:
        write_evidence(ns, prop, seed, chk, st, wall, code, hits)
    print(f'{prop} [{ns.tier}]: {st.executions} executions, {st.points} choice points, {st.steps} steps, '
          f'{len(st.digests)} distinct, complete={st.complete}, {wall:.1f} s, exit {code}')
    if os.environ.get('VERIF_DEBUG'):
        for k, d in st.per.items():
            print('   ', k, dict(d))
        for k, n in st.outcomes.most_common(12):
            print('   ', n, k)
    return code


def in_child(fn):
    """Run in a forked child (the driver never runs hypershell itself)."""
    import explore
    pool = explore.Pool(lambda task: fn(), 1)
    res = []
    try:
        pool.run([('x',)], lambda task, msg: res.append(msg))
    finally:
        pool.close()
    return res[0]


def explore_finding(fn):
    r = in_child(fn)
    if r[0] != 'ok':
        raise RuntimeError(f'known finding history failed: {r[1]}')
    return r[1]


def confirm(chk, v):
    """The same schedule must show it again, with the same history, in a fresh worker."""
    def again():
        import explore
        explore.begin(v[:3])
        r = chk.replay(v)
        if v[0] == 'case':
            return r[0]
        return r.violations
    for _ in range(3):
        r = in_child(again)
        if r[0] == 'hang':
            return v[3]
        if r[0] == 'ok' and r[1]:
            return r[1]
    return None


def write_replay(ns, prop, chk, v, msgs):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}.json')
    rec = {'property': prop, 'tier': ns.tier, 'messages': [str(m) for m in msgs]}
    if v[0] == 'case':
        rec['case'] = v[1]
        rec['case_text'] = repr(chk.cases[v[1]])
    else:
        rec.update(scenario=chk.scenarios[v[0]].name, policy=v[1], deviations=[list(x) for x in v[2]])

        def tr():
            r = chk.replay(v, trace=True)
            return [list(map(str, x)) for x in r.trace][-600:]
        try:
            r = in_child(tr)
            rec['trace'] = r[1] if r[0] == 'ok' else str(r[1])
        except Exception as e:      # noqa
            rec['trace'] = str(e)
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def replay(chk, rec):
    def again():
        if 'case' in rec:
            return chk.judge(chk.cases[rec['case']])[0], None
        i = [s.name for s in chk.scenarios].index(rec['scenario'])
        r = chk.replay((i, rec['policy'], tuple(tuple(x) for x in rec['deviations'])), trace=True)
        return r.violations, r.trace
    m = in_child(again)
    if m[0] != 'ok':
        print(m[1])
        return 3
    msgs, trace = m[1]
    for x in trace or ():
        print(*x)
    for x in msgs:
        print('VIOLATED:', x)
    return 1 if msgs else 0


def write_evidence(ns, prop, seed, chk, st, wall, code, hits):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    samples = list(st.samples[:12])
    for c in (chk.cases[:2] + chk.cases[-2:]) if chk.cases else []:
        samples.append({'case': repr(c)[:600]})
    cov = {
        'evaluations': st.executions, 'distinct_nontrivial': len(st.digests), 'rule': chk.rule,
        'samples': samples, 'choice_points': st.points, 'scheduler_steps': st.steps,
        'distinct_outcomes': len(st.outcomes), 'exhaustive': bool(st.complete),
        'scenarios': {s.name: s.describe() for s in chk.scenarios},
        'parts': {k: dict(v) for k, v in st.per.items()},
        'outcomes': dict(st.outcomes.most_common(12)),
    }
    cov.update(getattr(chk, 'extra_evidence', None) or {})
    rec = {'property': prop, 'tier': ns.tier, 'seed': seed, 'level': chk.level, 'coverage': cov,
           'assumptions': chk.assumptions, 'wall_s': round(wall, 2), 'violations': 1 if code == 1 else 0}
    with open(os.path.join(d, f'{prop}.json'), 'w') as f:
        json.dump(rec, f, indent=1)


if __name__ == '__main__':
    main()
