"""Runs harnesses concretely, on plain (uninstrumented) code."""

import importlib
import json
import sys
import traceback

from . import paths
from .ctx import ConCtx, HarnessFailure, jsonable
from .job import Params


def run(items, tier):
    for item in items:
        mod = importlib.import_module(f'harness.{item["module"]}')
        job = {j.name: j for j in mod.jobs(tier)}[item['job']]
        ctx = ConCtx(Params(job.params), item['inputs'], {})
        r = {'ok': True, 'failure': None}
        try:
            job.func(ctx)
            if ctx.failure:
                r = {'ok': False, 'failure': ctx.failure}
        except HarnessFailure as e:
            r = {'ok': False, 'failure': ctx.failure or str(e)}
        except Exception as e:
            # failed check could have been handled by the code
            r = {'ok': False, 'failure': ctx.failure} if ctx.failure else {'ok': False, 'failure': f'unexpected exception: '
                                         f'{type(e).__name__}: {e}',
                 'traceback': traceback.format_exc()}
        r['observations'] = [[n, jsonable(v)] for n, v in ctx.observations]
        yield r


def main():
    # replay.py IN OUT: batch mode; replay.py FILE: report one counterexample
    src = sys.argv[1]
    data = json.load(open(src))
    paths.setup_plain()
    res = run(data['items'], data['tier'])
    if len(sys.argv) > 2:
        with open(sys.argv[2], 'w') as f:
            for r in res:
                f.write(json.dumps(r) + '\n')
                f.flush()
        return
    bad = False
    for item, r in zip(data['items'], res):
        print(item['module'], item['job'], item['inputs'])
        print('  ->', 'ok' if r['ok'] else 'FAILS: ' + r['failure'])
        for o in r['observations']:
            print('    ', o)
        if r.get('traceback'):
            print(r['traceback'])
        bad |= not r['ok']
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
