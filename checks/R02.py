import rlib
import vlib


def run(c):
    c.model("MCSteps", "MCSteps")
    n, real = (4000, 200) if vlib.THOROUGH else (400, 12)
    p, _ = rlib.drive(c, "steps", [vlib.SEED, n, real], name="steps", timeout=800)
    c.validate("StepsTrace", p, sig=lambda rec, why: rec["method"] + ":" + "+".join(sorted(why)))
