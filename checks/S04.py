import vlib


def run(c):
    exe = vlib.driver("search_drv")
    p, _ = c.drive(exe, ["fail", vlib.SEED, 3000 if vlib.THOROUGH else 900], name="fail")
    c.validate("SearchTrace", p, env={"PROP": "S04"})
