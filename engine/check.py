#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build, interp, common, toks

DERIVE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"]


CONFIGS = [("", None), (" (without type analysis)", ["std"])]


def load(feats, pid, **kw):
    path = os.path.join(build.BUILD, "dump_%s_%d.json" % (pid, os.getpid()))
    try:
        return interp.Interp(build.dump(feats, path, **kw))
    finally:
        if os.path.exists(path):
            os.remove(path)


def unmodelled(rep, I):
    for key, k in I.unknown.items():
        rep.add("unmodelled_calls", "%s x%d" % (key, k))
        rep.undecided("call", "`%s` (%s) has no transfer function" % (key[1], key[0]))
    for (fn, why), k in I.stops.items():
        rep.undecided("paths of `%s`" % fn, why)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rep = common.Report(pid)
    try:
        os.makedirs(build.BUILD, exist_ok=True)
        if pid in DERIVE:
            import derive_checks as M
            I = load(build.all_features(), pid)
            rep.counts["mir_functions_dumped"] = len(I.d["fns"])
            I.tolerant = True
            I.deadline = rep.t0 + 700
            M.thresholds(I)
            rep.counts["largest_number_of_variants"] = max(M.VARS)
            f = getattr(M, pid)
            if f.__code__.co_argcount > 2:
                f(I, rep, tier)
            else:
                f(I, rep)
            unmodelled(rep, I)
        else:
            import ae_checks as M
            dbg = ((" (release)", False), (" (debug assertions)", True)) if pid == "C26" else (("", False),)
            Is = [(c + d, load(build.all_features() if fs is None else fs, pid, debug=g)) for c, fs in CONFIGS for d, g in dbg]
            if pid == "C26":
                import ae_panic as M
            for k, (_, I) in enumerate(Is):
                I.tolerant = True
                I.deadline = rep.t0 + 660 * (k + 1) / len(Is)
            rep.counts["mir_functions_dumped"] = sum(len(I.d["fns"]) for _, I in Is)
            getattr(M, pid)(Is, rep, tier)
            for _, I in Is:
                unmodelled(rep, I)
    except build.CompileError as e:
        rep.viol("compile", "the crate does not compile: %s" % str(e)[-600:])
    except toks.BadTokens as e:
        rep.viol("malformed", "the expansion is malformed: %s" % e)
    except Exception as e:
        import traceback
        rep.undecided("the rest of the analysis", "%s: %s" % (type(e).__name__, traceback.format_exc()[-600:]))
    return common.finish(rep, tier, "")


if __name__ == "__main__":
    sys.exit(main())
