import vlib


def run(c):
    exe = vlib.driver("var_drv")
    k = 10 if vlib.THOROUGH else 1
    p, _ = c.drive(exe, ["conv", vlib.SEED, 350 * k], name="conv")
    c.validate("VariableTrace", p)
    p, _ = c.drive(exe, ["daily", vlib.SEED, 600 * k], name="daily")
    c.validate("VariableTrace", p)
