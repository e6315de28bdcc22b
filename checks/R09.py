import os
import rlib
import vlib


def run(c):
    so, exports = rlib.build("Rpackage_F")
    n = 2500 if vlib.THOROUGH else 420
    p, _ = rlib.drive(c, "printing", [vlib.SEED, n, os.path.join(vlib.REPO, "Rpackage_F", "R"), so, exports], name="printing", timeout=600)
    c.validate("PrintingTrace", p, sig=lambda rec, why: rec["kind"] + ":" + rec["method"] + ":" + "+".join(sorted(why)))
