import vlib


def run(c):
    exe = vlib.driver("var_drv")
    k = 10 if vlib.THOROUGH else 1
    for mode in ("text", "trim", "table"):
        p, _ = c.drive(exe, [mode, vlib.SEED, 900 * k], name=mode)
        c.validate("VariableTrace", p)
