import vlib


def run(c):
    exe = vlib.driver("search_drv")
    p, _ = c.drive(exe, ["enum", vlib.SEED, 20000 if vlib.THOROUGH else 3000, 5 if vlib.THOROUGH else 4], name="enum")
    c.validate("SearchTrace", p, env={"PROP": "S01"})
    p, _ = c.drive(exe, ["count", vlib.SEED, 4000 if vlib.THOROUGH else 800], name="count")
    c.validate("SearchTrace", p, env={"PROP": "S01"})
