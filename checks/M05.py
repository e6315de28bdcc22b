import vlib


def sig(rec, why):
    return "%s:%s" % (rec.get("kind"), "/".join(sorted(why)))


def run(c):
    c.model("MCSplitEval", "MCSplitEvalBig" if vlib.THOROUGH else "MCSplitEval", workers=8 if vlib.THOROUGH else 3)
    exe = vlib.driver("eval_drv")
    for mode in ("sur", "dc"):
        p, _ = c.drive(exe, [mode, vlib.SEED, 20000 if vlib.THOROUGH else 1600], name=mode)
        c.validate("SplitEvalTrace", p, sig=sig)
