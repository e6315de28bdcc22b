import rlib
import vlib


def run(c):
    p, _ = rlib.drive(c, "assemble", [vlib.SEED, 6000 if vlib.THOROUGH else 900], native=False, name="assemble")
    c.validate("AssembleTrace", p, sig=lambda rec, why: rec["kind"] + ":" + "+".join(sorted(why)))
