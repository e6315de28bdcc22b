import vlib


def sig(rec, why):
    return "%s:%s" % ("extended" if rec.get("ext") else "simple", "/".join(sorted(why)))


def run(c):
    c.model("MCVarmaEval", "MCVarmaEvalBig" if vlib.THOROUGH else "MCVarmaEval", workers=8 if vlib.THOROUGH else 3)
    exe = vlib.driver("varma_drv")
    p, _ = c.drive(exe, ["sim", vlib.SEED, 20000 if vlib.THOROUGH else 1200], name="sim")
    c.validate("VarmaEvalTrace", p, sig=sig)
