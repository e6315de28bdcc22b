import vlib


def run(c):
    c.model("MCSplit", workers=4)
    exe = vlib.driver("data_drv")
    p, _ = c.drive(exe, ["split", vlib.SEED, 6000 if vlib.THOROUGH else 1000], name="split")
    c.validate("DataTrace", p)
