#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent

KIND = {
    'C01': 'exhaustive enumeration of construction routes, layouts and operation sequences on the real objects, with mutation of every reachable buffer',
    'C02': 'bounded exhaustive exploration of editing histories on the real curves against a list-of-points model (lock-step)',
    'C03': 'bounded exhaustive exploration of editing histories of parametric curves against a list of (point, t) pairs (lock-step)',
    'C04': 'bounded exhaustive enumeration of curves x indexers against Python lists',
    'C05': 'bounded exhaustive enumeration of words and dtypes against a list model',
    'C06': 'exhaustive enumeration of representations of the same data, differential against a canonical form',
    'C22': 'explicit exploration of all event histories of the registries against a state-machine model (lock-step, forked processes)',
    'C23': 'exhaustive exploration of ordered pairs and histories of operations in forked processes, against values of fresh processes',
    'C11': 'bounded exhaustive exploration of access histories of cached values in curve, point and segment views',
    'C26': 'systematic exploration of thread interleavings of the real code under a controlled scheduler (line granularity), all schedules up to a bound of preemptions',
    'C25': 'exhaustive enumeration of plot configurations and chains; artists of the axes are compared with the curve',
}
DEFAULT = 'bounded exhaustive enumeration of inputs executed on the real code, against an independent reference model'

NOTE = ('Every case of the stated finite spaces is executed on the real code of /repo and compared with an independent reference model '
        '(no sampling; bounds are in the evidence file and DESIGN.md). Nothing is claimed outside of the bounds; numpy, scipy and the interpreter are trusted.')


def main():
    checks = []
    for line in (ROOT / 'properties.jsonl').read_text().splitlines():
        if not line.strip():
            continue
        pid = json.loads(line)['id']
        checks.append({
            'property': pid,
            'quick_cmd': f'./check.sh {pid} --tier quick',
            'thorough_cmd': f'./check.sh {pid} --tier thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': 'model checking: ' + KIND.get(pid, DEFAULT),
            'level': 'model_checking',
            'level_note': NOTE,
        })
    out = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'/repo\'); import numpy, scipy, skcurve"',
        'checks': checks,
        'not_applicable': [],
        'notes': 'No hooks in /repo. Checks import the package from the working tree of /repo (pure Python, nothing to build). '
                 'Findings are listed in KNOWN_FINDINGS.txt.',
    }
    (ROOT / 'MANIFEST.json').write_text(json.dumps(out, indent=1) + '\n')


if __name__ == '__main__':
    main()
