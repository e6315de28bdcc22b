import vlib


def run(c):
    exe = vlib.driver("help_drv")
    p, _ = c.drive(exe, ["array", vlib.SEED, 20000 if vlib.THOROUGH else 6000], name="array")
    c.validate("HelperTrace", p)
