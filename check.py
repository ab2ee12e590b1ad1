#!/usr/bin/env python3
"""check.py <property>: decide one property against /repo's working tree.
exit 0 held, 1 violated (VIOLATION line), 2 no answer."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import common
import checks


def main():
    prop = sys.argv[1]
    r = common.Report(prop)
    try:
        getattr(checks, prop.lower())(r)
        return r.finish()
    except common.CheckError as e:
        print('ERROR property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
