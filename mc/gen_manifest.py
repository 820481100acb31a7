"""Writes MANIFEST.json.  Run after adding a check."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE]
PY = '/opt/venv/bin/python'

SCHED = 'stateless model checking of the real programs: exhaustive schedule enumeration up to a deviation bound under a controlled scheduler'
FAULT = SCHED.replace('schedule enumeration', 'schedule, crash-point and fault enumeration')
CASES = 'bounded exhaustive enumeration of inputs and operation sequences on the real code against a reference model'
NOTE = {
    SCHED: 'Holds on every enumerated schedule within the bounds in the evidence file; trusts the models of queue/process/clock (conformance-tested) and that code between scheduling points is atomic.',
    FAULT: 'Holds on every enumerated schedule, crash point and fault within the bounds in the evidence file; trusts the models of queue/process/clock (conformance-tested).',
    CASES: 'Holds on every enumerated case (complete product of the alphabets stated in DESIGN.md); says nothing about values outside the alphabet.',
}
CHECKS = {
    'P01': SCHED, 'P02': FAULT, 'P03': FAULT, 'P04': FAULT, 'P05': SCHED, 'P06': SCHED, 'P07': FAULT, 'P08': CASES, 'P09': FAULT,
    'P10': FAULT, 'P11': SCHED, 'P12': FAULT, 'P13': FAULT, 'P14': SCHED, 'P15': SCHED, 'P16': FAULT, 'P17': SCHED, 'P18': SCHED,
    'P19': CASES, 'P20': CASES, 'P21': CASES, 'P22': CASES, 'P23': CASES, 'P24': SCHED, 'P25': CASES, 'P26': CASES, 'P27': CASES,
    'P28': SCHED, 'P29': CASES, 'P30': FAULT, 'P31': CASES, 'P32': CASES, 'P33': FAULT, 'P34': FAULT,
}


def main():
    checks, na = [], []
    for p, tech in CHECKS.items():
        if not os.path.exists(f'{HERE}/checks/{p.lower()}.py'):
            na.append({'property': p, 'reason': 'not built yet'})
            continue
        level = 'fault_enumeration' if tech is FAULT else 'exploration'
        checks.append({'property': p, 'quick_cmd': f'{PY} mc/run.py {p} --tier quick',
                       'thorough_cmd': f'{PY} mc/run.py {p} --tier thorough', 'evidence_file': f'evidence/{p}.json',
                       'technique': tech, 'level': level, 'level_note': NOTE[tech]})
    m = {'version': 1, 'setup_cmd': f'{PY} mc/setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the checks load copies of the package from /repo/src with its threads, queues, processes and clock replaced.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
