import json
import os
import random
import re

import vlib


def schedules(c, big, most):
    """Behaviours of SearchParGen as lines for the driver."""
    r = c.generate("SearchParGen", "SearchParGenBig" if big else "SearchParGen", workers=4, heap="6g" if big else "2g")
    gen = re.findall(r'"GEN (\{.*\})"', r.out)
    rnd = random.Random(vlib.SEED)
    by = {}
    for g in gen:
        d = json.loads(g.replace('\\"', '"'))
        by.setdefault((d["parts"], tuple(d["sizes"]), d["inner"]), []).append(d["steps"])
    out = []
    for (p, s, k), v in sorted(by.items()):
        v.sort()
        rnd.shuffle(v)
        for st in v[:most // len(by)]:
            out.append("%d %s %d %s" % (p, ",".join(map(str, s)), k, ",".join(map(str, st))))
    path = os.path.join(c.tmp, "schedules")
    open(path, "w").write("\n".join(out) + "\n")
    return path, len(out)


def run(c):
    exe = vlib.driver("par_drv")
    big = vlib.THOROUGH
    c.model("MCSearchPar", workers=4)
    if big:
        c.model("MCSearchPar", "MCSearchParBig", workers=4)
    path, n = schedules(c, big, 12000 if big else 800)
    logs = [c.drive(exe, ["replay", vlib.SEED, n, path], name="replay")[0]]
    for mode, n in (("gate", 4000 if big else 200), ("seq", 2000 if big else 100), ("free", 4000 if big else 100)):
        logs.append(c.drive(exe, [mode, vlib.SEED, n], name=mode)[0])
    for p in logs:
        c.validate("SearchParTrace", p, env={"PROP": "S05"}, sig=lambda rec, why: "+".join(sorted(why)))
    exe = vlib.driver("real_drv")
    for kind in ("sur", "dc", "varma"):
        for how in ("p", "c", "pc"):
            n = (1000 if big else 40) if kind != "varma" else (500 if big else 20)
            p, _ = c.drive(exe, [kind, vlib.SEED * 10 + len(how), n, 0, how], name=kind + "-" + how)
            c.validate("SearchRealTrace", p, env={"PROP": "S05"}, chunks=1, sig=lambda rec, why: rec["kind"] + ":" + "+".join(sorted(why)))
