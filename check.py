#!/usr/bin/env python3
"""check.py Pxx [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def run():
    import traceback
    import common
    pid = sys.argv[1]
    try:
        common.load_sut()
    except common.ImportFailure:
        raise
    except Exception as e:
        # The package cannot even be imported from the working tree
        traceback.print_exc()
        frames = common.sut_frames(e)
        if not frames:
            return 2
        path = common.write_replay(pid, "import", {}, "importing fibermat raises %r" % e)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    module = importlib.import_module("props." + pid.lower())
    return common.main(pid, module, sys.argv[2:])


if __name__ == "__main__":
    try:
        code = run()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
