#!/usr/bin/env python3
"""Decide one property: check.py ID [--replay FILE] (see DESIGN.md)."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from lib import core, registry


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    if '--replay' in sys.argv:
        with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
            replay = json.load(f)
        tier, seed = replay['tier'], replay['seed']
    ctx = core.Ctx(prop, tier, seed, replay and replay['scenario'])
    try:
        for suite in registry.SUITES[prop]:
            importlib.import_module('suites.' + suite).run(ctx)
        return core.finish(ctx, registry.LEVEL.get(prop, 'model_checking'))
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            # What TLC has already refused stays refused
            return core.finish(ctx, registry.LEVEL.get(prop,
                                                       'model_checking'))
        return 2
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', ctx.scratch)
        else:
            ctx.cleanup()


if __name__ == '__main__':
    sys.exit(main())
