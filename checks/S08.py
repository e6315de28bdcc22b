import vlib


def run(c):
    exe = vlib.driver("score_drv")
    p, _ = c.drive(exe, ["metric", vlib.SEED, 40000 if vlib.THOROUGH else 4000], name="metric")
    c.validate("MetricsTrace", p, sig=lambda rec, why: "%s:%s:%s" % (rec.get("kind"), rec.get("side", ""), rec.get("name", "")) + ":" + "/".join(sorted(why)))
    exe = vlib.driver("search_drv")
    p, _ = c.drive(exe, ["set", vlib.SEED, 3000 if vlib.THOROUGH else 400], name="stored")
    c.validate("MetricsTrace", p)
