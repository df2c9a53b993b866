# -*- coding: utf-8 -*-
"""python -m mc.main C01 [--replay FILE] (run through check.sh)"""

import argparse
import importlib
import json
import os
import sys
import traceback
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--space', help='explore only this space (debugging)')
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 0)
    pid = args.property

    from mc import core

    warnings.simplefilter('ignore')
    sys.path.insert(0, core.REPO)
    try:
        import skcurve
    except Exception as err:
        path = core.write_replay(pid, 'import', None, f'the package cannot be imported: {err!r}', [True])
        print(f'{pid}: the package cannot be imported: {err!r}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    where = os.path.realpath(skcurve.__file__)
    if not where.startswith(os.path.realpath(core.REPO) + os.sep):
        print(f'skcurve was imported from {where}, not from {core.REPO}', file=sys.stderr)
        return 2

    try:
        mod = importlib.import_module(f'mc.checks.{pid.lower()}')
        spaces = mod.spaces(args.tier)
    except Exception as err:
        # the objects which all cases need cannot be built: the code under test has refused valid arguments
        frames = traceback.extract_tb(err.__traceback__)
        if not any(os.path.realpath(f.filename).startswith(os.path.dirname(where)) for f in frames):
            raise SystemExit(2) from err
        traceback.print_exc()
        path = core.write_replay(pid, 'setup', None, f'the objects of the check cannot be built: {err!r}', [True])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if args.space:
        spaces = [s for s in spaces if s.name == args.space]

    if args.replay:
        rec = json.load(open(args.replay))
        sp = {s.name: s for s in spaces}.get(rec['space'])
        if sp is None:
            sp = {s.name: s for s in mod.spaces('thorough')}[rec['space']]
        case = eval(rec['case'], {'nan': float('nan'), 'inf': float('inf'), 'slice': slice})
        msg = core.replay_once(sp, case)
        print('case:', rec['case'])
        print('result:', 'property holds' if msg is None else f'violated: {msg}')
        return 0 if msg is None else 1

    return core.main(pid, mod.TITLE, spaces, args.tier, seed, getattr(mod, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
    sys.exit(main())
