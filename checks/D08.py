import vlib


def sig(rec, why):
    return "%s:%s" % (rec.get("kind"), "/".join(sorted(why)))


def run(c):
    c.model("MCPca", "MCPca", workers=3)
    exe = vlib.driver("pca_drv")
    for mode, n in (("raw", 300), ("select", 200), ("sur", 200), ("dc", 120), ("varma", 200)):
        p, _ = c.drive(exe, [mode, vlib.SEED, 40 * n if vlib.THOROUGH else n], name=mode)
        c.validate("PcaTrace", p, sig=sig)
