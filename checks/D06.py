import vlib


def run(c):
    exe = vlib.driver("help_drv")
    p, _ = c.drive(exe, ["poly", vlib.SEED, 6000 if vlib.THOROUGH else 1500], name="poly")
    c.validate("HelperTrace", p)
