import os
import sys
import warnings

warnings.simplefilter('ignore')


def main(argv):
    from . import core
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        i = argv.index('--tier')
        tier = argv[i + 1]
        del argv[i:i + 2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if argv[0] == '--replay':
        return core.replay(argv[1])
    try:
        import scipy.integrate  # noqa: F401  (shared by forked workers)
    except ImportError:
        pass
    rc = 0
    for pid in argv:
        try:
            import dcf  # noqa: F401
            core.load(pid)
        except Exception as e:
            print('dcf can not be imported: %r' % e)
            print('VIOLATION property=%s replay=none' % pid)
            rc = 1
            continue
        rc = max(rc, core.check(pid, tier, seed))
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
