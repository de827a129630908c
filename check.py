#!/usr/bin/env python3
"""check.py <property id> [--replay FILE]

Decides one property for the working tree of /repo; see DESIGN.md."""
import importlib, json, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import harness


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    chk = harness.Check(pid)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            info = json.load(open(sys.argv[3]))
            rc = mod.replay(chk, info) if hasattr(mod, 'replay') else harness.replay(chk, mod, info)
        else:
            rc = mod.main(chk)
    except harness.ToolError as e:
        print('ERROR:', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        import shutil
        shutil.rmtree(chk.tmp, ignore_errors=True)
    if chk.violations and rc != 1:
        rc = 1
    return rc


sys.exit(main())
