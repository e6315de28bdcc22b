import vlib


def run(c):
    c.model("MCCluster", workers=6)
    if vlib.THOROUGH:
        c.model("MCCluster", "MCCluster5", workers=8)
    exe = vlib.driver("stat_drv")
    p, _ = c.drive(exe, ["cluster", vlib.SEED, 6000 if vlib.THOROUGH else 1000], name="cluster")
    c.validate("ClusterTrace", p)
