import importlib
import os
import sys
import time

from mc import core


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    core.load_known(prop)
    t0 = time.time()
    import typedload
    assert os.path.realpath(os.path.dirname(os.path.dirname(typedload.__file__))) == os.path.realpath(core.REPO), typedload.__file__
    mod = importlib.import_module('mc.' + prop.lower())
    total, info = mod.run(tier, seed)
    return core.finish(prop, tier, seed, total, 'model_checking', t0, **info)


if __name__ == '__main__':
    sys.exit(main())
