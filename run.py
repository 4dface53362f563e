import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import boot  # noqa: E402


def load(pid):
    mod = importlib.import_module('props.' + pid.lower())
    return mod.PROP


def main():
    args = sys.argv[1:]
    replay_path = os.path.abspath(args[1]) if args and args[0] == '--replay' else None
    try:
        boot.setup()
    except ImportError as e:
        # the tree under test cannot even be imported: no property can be decided
        print(f'cannot import the code under test: {e}', file=sys.stderr)
        return 2
    from vf import core
    if replay_path:
        rec = json.load(open(replay_path))
        return core.replay(load(rec['property']), rec)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
        args.remove('--thorough')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return core.run_property(load(args[0]), tier, seed)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
