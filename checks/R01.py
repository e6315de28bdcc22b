import rlib
import vlib


def run(c):
    c.model("MCMerge", "MCMergeBig" if vlib.THOROUGH else "MCMerge")
    n = 3000 if vlib.THOROUGH else 160
    p, _ = rlib.drive(c, "merge", [vlib.SEED, n], name="merge", timeout=800)
    c.validate("ReportTrace", p, sig=lambda rec, why: rec["kind"] + ":" + rec["method"] + ":" + "+".join(sorted(why)))
