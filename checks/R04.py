import rlib
import vlib


def run(c):
    n = 1500 if vlib.THOROUGH else 75
    p, _ = rlib.drive(c, "whole", [vlib.SEED, n], name="whole", timeout=800)
    c.validate("WholeTrace", p, sig=lambda rec, why: rec["kind"] + ":" + rec["method"] + ":" + "+".join(sorted(why)))
