import vlib


def sig(rec, why):
    return "%s:%s:%s" % (rec.get("kind", ""), rec.get("rest", ""), "/".join(sorted(why)))


def run(c):
    exe = vlib.driver("varma_drv")
    p, _ = c.drive(exe, ["est", vlib.SEED + 7000, 20000 if vlib.THOROUGH else 1100], name="est")
    c.validate("VarmaTrace", p, sig=sig)
    p, _ = c.drive(exe, ["ext", vlib.SEED + 7000, 12000 if vlib.THOROUGH else 500], name="ext")
    c.validate("VarmaTrace", p, sig=sig)
