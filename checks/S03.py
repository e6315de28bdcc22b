import vlib


def run(c):
    exe = vlib.driver("search_drv")
    p, _ = c.drive(exe, ["agg", vlib.SEED, 3000 if vlib.THOROUGH else 900], name="agg")
    c.validate("SearchTrace", p, env={"PROP": "S03"})
