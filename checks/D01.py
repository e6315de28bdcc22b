import vlib


def run(c):
    exe = vlib.driver("data_drv")
    p, _ = c.drive(exe, ["data", vlib.SEED, 10000 if vlib.THOROUGH else 2500], name="data")
    c.validate("DataTrace", p, sig=lambda r, w: r.get("site", "?") + (":no-nan-scan" if r.get("kind") == "series" and not r.get("hasNan") else "") + ":" + "+".join(sorted(w)))
