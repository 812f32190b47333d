#!/usr/bin/env python3
"""check.py <property id>: decides one property; see DESIGN.md."""
import sys, traceback
import vlib
import props


def main():
    pid = sys.argv[1]
    fn, level = props.CHECKS[pid]
    c = vlib.Check(pid, level)
    try:
        code = fn(c)
    except vlib.ToolError as e:
        print("ERROR: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        c.close()
    sys.exit(code)


if __name__ == "__main__":
    main()
