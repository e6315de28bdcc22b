import vlib


def run(c):
    exe = vlib.driver("score_drv")
    p, _ = c.drive(exe, ["cost", vlib.SEED, 20000 if vlib.THOROUGH else 4000], name="cost")
    c.validate("ScoringTrace", p)
