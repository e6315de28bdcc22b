import vlib


def sig(rec, why):
    return "%s:%s:%s" % (rec.get("kind", ""), rec.get("rest", ""), "/".join(sorted(why)))


def run(c):
    c.model("MCVarma", "MCVarmaBig" if vlib.THOROUGH else "MCVarma", workers=8 if vlib.THOROUGH else 3)
    exe = vlib.driver("varma_drv")
    p, _ = c.drive(exe, ["est", vlib.SEED, 20000 if vlib.THOROUGH else 1100], name="est")
    c.validate("VarmaTrace", p, sig=sig)
    p, _ = c.drive(exe, ["ext", vlib.SEED, 12000 if vlib.THOROUGH else 650], name="ext")
    c.validate("VarmaTrace", p, sig=sig)
