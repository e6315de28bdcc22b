import vlib


def sig(rec, why):
    return "%s:%s:%s:%s" % (rec.get("kind"), "binary" if rec.get("J") == 1 else "ordered", rec.get("dist"), "/".join(sorted(why)))


def run(c):
    exe = vlib.driver("dc_drv")
    for mode, n in (("model", 1000), ("whole", 500)):
        p, _ = c.drive(exe, [mode, vlib.SEED, 40 * n if vlib.THOROUGH else n], name=mode)
        c.validate("DiscreteChoiceTrace", p, sig=sig)
