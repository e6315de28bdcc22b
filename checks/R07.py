import os
import rlib
import vlib


def run(c):
    so, exports = rlib.build("Rpackage_F")
    n = 4000 if vlib.THOROUGH else 300
    p, _ = rlib.drive(c, "simul", [vlib.SEED, n, os.path.join(vlib.REPO, "Rpackage_F", "R"), so, exports], name="simul", timeout=300)
    c.validate("SimulatorsTrace", p, sig=lambda rec, why: rec["kind"] + ":" + "+".join(sorted(why)))
