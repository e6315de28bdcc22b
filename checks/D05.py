import vlib


def run(c):
    c.model("MCMoments", "MCMomentsBig" if vlib.THOROUGH else "MCMoments")
    exe = vlib.driver("help_drv")
    p, _ = c.drive(exe, ["moments", vlib.SEED, 4000 if vlib.THOROUGH else 1000], name="moments")
    c.validate("MomentsTrace", p, group=lambda r: r["kind"] == "new")
