import vlib


def run(c):
    c.model("MCVarma", "MCVarmaBig" if vlib.THOROUGH else "MCVarma", workers=8 if vlib.THOROUGH else 3)
    exe = vlib.driver("varma_drv")
    p, _ = c.drive(exe, ["sizes", 1 if vlib.THOROUGH else 0], name="sizes")
    c.validate("VarmaTrace", p, sig=lambda rec, why: "%s" % ("/".join(sorted(why))))
