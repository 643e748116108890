#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def registry():
    import laya_checks
    reg = dict(laya_checks.CHECKS)
    try:
        import jp2_checks
        reg.update(jp2_checks.CHECKS)
        import jp2_boxes
        reg.update(jp2_boxes.CHECKS)
        import jp2_instances
        reg.update(jp2_instances.CHECKS)
        import jp2_encoder
        reg.update(jp2_encoder.CHECKS)
    except ImportError:
        pass
    return reg


if __name__ == "__main__":
    try:
        sys.exit(registry()[sys.argv[1]]())
    except Exception as e:
        print("TOOL ERROR:", e) if isinstance(e, vlib.ToolError) else traceback.print_exc()
        # what was found before a later stage could not be carried out stands
        ck = vlib.Check.current
        sys.exit(ck.finish() if ck and ck.viol else 2)
