"""Writes BOUNDS.md: what each check enumerates, from the checks themselves (and, if present, from the last evidence)."""
import importlib
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE]
sys.dont_write_bytecode = True


def main():
    from gen_manifest import CHECKS
    out = ['# Bounds', '', 'Written by `mc/gen_bounds.py` from the checks. For every scenario all executions with up to `depth` deviations from each base schedule are',
           'run (depth 2 with a window: pairs at most that many points apart); `last:` and `slow:` schedules of every thread are base schedules too.', '']
    for p in CHECKS:
        m = importlib.import_module(f'checks.{p.lower()}')
        q, t = m.make('quick'), m.make('thorough')
        out += [f'## {p}', '']
        if q.rule and not q.rule.startswith('Scenarios are'):
            out += [q.rule, '']
        if t.cases:
            out += [f'Cases: {len(q.cases)} quick, {len(t.cases)} thorough.', '']
        if t.scenarios:
            names = {s.name for s in q.scenarios}
            out += [f'Scenarios: {len(q.scenarios)} quick, {len(t.scenarios)} thorough.', '']
            for s in t.scenarios:
                out.append(f"* {s.name}: {s.describe()[:420]}{'' if s.name in names else ' (thorough only)'}")
            out.append('')
    with open(os.path.join(VERIF, 'BOUNDS.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    base = os.environ['VERIF_SCRATCH'] = tempfile.mkdtemp(prefix='hsmc-')
    try:
        main()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0)
