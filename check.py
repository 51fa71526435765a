#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property of /verif/properties.jsonl"""
import os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import checks


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = vlib.Run(prop, tier, seed)
    fn, assumptions = checks.CHECKS[prop]
    try:
        try:
            run.harness()
            fn(run)
            run.wait()
        except vlib.Violation:
            pass
        run.finish(assumptions)
    except Exception as e:  # noqa
        run.finish(assumptions)
        if not run.violations:
            if not isinstance(e, vlib.CheckError):
                traceback.print_exc()
            print("ERROR property=%s %s" % (prop, e))
            sys.stdout.flush()
            os._exit(2)
    c = run.cov
    print("%s: states=%d transitions=%d traces=%d generated=%d trace_events=%d" % (
        prop, c["states"], c["transitions"], c["traces_validated_against_impl"], c["generated_tests"], c["trace_events"]))
    if run.violations:
        for what, path in run.violations[:3]:
            print("VIOLATION property=%s replay=%s  (%s)" % (prop, path, what))
        sys.stdout.flush()
        os._exit(1)
    print("OK property=%s" % prop)
    sys.stdout.flush()
    os._exit(0)


main()
