"""Entry point: `main.py C05 [quick|thorough]` or `main.py replay FILE`."""
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[0] = HERE
sys.path.insert(0, REPO)

from mc import base      # noqa: E402


def main():
    args = sys.argv[1:]
    if args and args[0] == 'replay':
        sys.exit(base.replay(args[1]))
    if args and args[0] == 'setup':
        import ebmlite
        print('ebmlite', ebmlite.__file__)
        return
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(base.run(args[0], tier))


if __name__ == '__main__':
    main()
