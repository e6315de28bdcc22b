import vlib


def run(c):
    exe = vlib.driver("real_drv")
    big = vlib.THOROUGH
    c.model("MCSearchReal", workers=4)
    for mode, n in (("sur", 4000 if big else 250), ("dc", 4000 if big else 250), ("varma", 2000 if big else 120)):
        p, _ = c.drive(exe, [mode, vlib.SEED, n], name=mode)
        c.validate("SearchRealTrace", p, env={"PROP": "S06"}, sig=lambda rec, why: rec["kind"] + ":" + "+".join(sorted(why)))
