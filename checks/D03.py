import vlib


def run(c):
    exe = vlib.driver("stat_drv")
    p, _ = c.drive(exe, ["group", vlib.SEED, 15000 if vlib.THOROUGH else 4000], name="group")
    c.validate("ClusterTrace", p)
