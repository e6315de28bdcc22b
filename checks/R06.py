import os
import rlib
import vlib


def run(c):
    so, exports = rlib.build("Rpackage_F")
    n = 1500 if vlib.THOROUGH else 230
    p, _ = rlib.drive(c, "access", [vlib.SEED, n, os.path.join(vlib.REPO, "Rpackage_F", "R"), so, exports], name="access", timeout=300)
    c.validate("AccessTrace", p, sig=lambda rec, why: rec["kind"] + ":" + "+".join(sorted(why)))
