"""python3 -m analysis.main <property id> [quick|thorough]"""
import importlib, sys, time, traceback
from . import absint, ir, report


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else "quick"
    rep = report.Report(pid)
    mod = importlib.import_module("analysis.checks." + pid.lower())
    prog = ir.Program()
    sys.setrecursionlimit(10000)
    absint.DEADLINE[0] = time.monotonic() + (480 if tier == "quick" else 4 * 3600)
    rep.count("function bodies in the program", len(prog.bodies))
    for rule in mod.RULES:
        rep.rule(rule.__name__, (rule.__doc__ or "").strip())
        try:
            rule(prog, rep, tier)
        except Exception as e:  # a construct the rule does not understand is not evidence of a defect
            traceback.print_exc()
            rep.unk(rule.__name__, "whole rule", "%s: %s" % (type(e).__name__, e))
    return report.finish(rep, tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
