import rlib
import vlib


def run(c):
    n = 12000 if vlib.THOROUGH else 1000
    p, _ = rlib.drive(c, "stats", [vlib.SEED, n], name="stats", timeout=300)
    c.validate("StatsRTrace", p, sig=lambda rec, why: rec["kind"] + ":" + "+".join(sorted(why)))
