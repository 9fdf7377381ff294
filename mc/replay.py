"""python -m mc.replay FILE   re-executes one recorded case against /repo and says whether it still fails."""
import json
import sys

from .run import load


def main():
    rec = json.load(open(sys.argv[1]))
    mod = load(rec['property'])
    if hasattr(mod, 'configure'):
        mod.configure('quick')
    mod.setup()
    msg = mod.replay(rec['case'])
    print(json.dumps(rec['case'], ensure_ascii=False))
    if msg:
        print('still fails: %s' % msg)
        return 1
    print('passes now')
    return 0


if __name__ == '__main__':
    sys.exit(main())
