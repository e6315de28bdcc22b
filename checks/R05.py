import rlib
import vlib


def run(c):
    c.model("MCRData", "MCRDataBig" if vlib.THOROUGH else "MCRData")
    n = 12000 if vlib.THOROUGH else 900
    p, _ = rlib.drive(c, "tdata", [vlib.SEED, n], name="tdata", timeout=400 if vlib.THOROUGH else 100, pkg="Rpackage_F")
    c.validate("RDataTrace", p, sig=lambda rec, why: rec["kind"] + ":" + (rec["f"]["k"] if "f" in rec else rec.get("case", "")) + ":" + "+".join(sorted(why)))
