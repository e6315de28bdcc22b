import vlib


def sig(rec, why):
    return "%s:%s:%s" % (rec.get("kind"), rec.get("type", ""), "/".join(sorted(why)))


def run(c):
    exe = vlib.driver("dist_drv")
    k = 25 if vlib.THOROUGH else 1
    for mode, n in (("uni", 600), ("mix", 300), ("hist", 700), ("emp", 80)):
        p, _ = c.drive(exe, [mode, vlib.SEED, n * k], name=mode)
        c.validate("DistributionsTrace", p, sig=sig)
