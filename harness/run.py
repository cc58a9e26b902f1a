import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import env  # noqa: E402


def main():
    pid = sys.argv[1]
    env.setup()
    mod = importlib.import_module('checks.%s' % pid.lower())
    return mod.CHECK.main(sys.argv[2:])


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
