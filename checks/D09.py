import vlib


def sig(rec, why):
    return "%s:%s:%s" % (rec.get("kind"), rec.get("op"), "/".join(sorted(why)))


def run(c):
    exe = vlib.driver("matrix_drv")
    p, _ = c.drive(exe, ["all", vlib.SEED, 240000 if vlib.THOROUGH else 20000], name="matrix")
    c.validate("MatricesTrace", p, sig=sig)
