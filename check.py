#!/usr/bin/env python3
"""check.py ID: decide one property against /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import core, checks

if __name__ == '__main__':
    pid = sys.argv[1]
    try:
        core.build()
        if pid == 'build':
            sys.exit(0)
        sys.exit(getattr(checks, pid)(core.Check(pid)))
    except core.ToolError as e:
        print(f'{pid}: tool error: {e}')
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
