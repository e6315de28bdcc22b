import vlib


def run(c):
    exe = vlib.driver("stat_drv")
    p, _ = c.drive(exe, ["stat", vlib.SEED, 8000 if vlib.THOROUGH else 2000], name="stat")
    c.validate("StatsTrace", p)
