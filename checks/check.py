#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree.  Exit 0: held; 1: violated (VIOLATION line); 2: the check itself failed."""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import core
import props


def main():
    prop = sys.argv[1]
    rep = core.Report(prop)
    with core.Workdir() as work:
        try:
            props.run(prop, rep, work)
        except core.CheckError as e:
            if not rep.violations:
                print("check error: %s" % e)
                traceback.print_exc()
                return 2
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
