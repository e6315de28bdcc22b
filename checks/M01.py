import vlib


def run(c):
    exe = vlib.driver("model_drv")
    p, _ = c.drive(exe, ["sur", vlib.SEED, 20000 if vlib.THOROUGH else 3000], name="sur")
    c.validate("SurTrace", p, sig=lambda rec, why: "%s:%s" % (rec["mode"], "/".join(sorted(why))))
