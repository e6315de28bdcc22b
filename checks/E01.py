import vlib


def run(c):
    exe = vlib.driver("score_drv")
    p, _ = c.drive(exe, ["roc", vlib.SEED, 20000 if vlib.THOROUGH else 3000], name="roc")
    c.validate("ScoringTrace", p)
