#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID>."""
import sys, os, json, time, re, traceback, importlib.util, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import CheckError, VERIF, TIER, SEED, THOROUGH

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"KNOWN property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.tmp = tempfile.mkdtemp(prefix="chk-" + pid + "-")
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.rejections, self.counts = [], [], [], {}
        self.assumptions = []
        self.pool = ThreadPoolExecutor(6)
        self.pending = []

    # ---- the specification checked on its own
    def model(self, module, cfg=None, workers=2, heap="2g", timeout=800, env=None):
        """Model-checks spec/<module>.tla in the background; a failure is an error of the specification."""
        def go():
            r = vlib.tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, env=env)
            if not r.ok:
                raise CheckError("model check of %s/%s failed:\n%s" % (module, cfg or module, r.out[-3000:]))
            return module, cfg or module, r
        self.pending.append(self.pool.submit(go))

    def generate(self, module, cfg=None, env=None, workers=2, heap="2g", timeout=800):
        """Runs TLC to enumerate behaviours of the specification; lines printed as JSON strings after 'GEN ' are returned."""
        r = vlib.tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, env=env)
        if not r.ok:
            raise CheckError("generation with %s failed:\n%s" % (module, r.out[-3000:]))
        self.models.append(dict(module=module, cfg=cfg or module, states=r.distinct, generated=r.generated, wall_s=round(r.wall, 2)))
        self.states += r.distinct
        self.transitions += r.generated
        return r

    # ---- records of the real code checked against the specification
    def drive(self, exe, args=(), timeout=600, env=None, stdin=None, name="log"):
        """Runs a driver; its stdout is one JSON record per line.  A crash or hang of the code under test is a rejection."""
        key = hashlib.sha256((exe + repr(args) + name).encode()).hexdigest()[:10]
        import subprocess
        for attempt in (1, 2):
            try:
                rc, out, err = vlib.run_driver(exe, args, timeout, env, stdin)
            except subprocess.TimeoutExpired as ex:
                out = (ex.stdout or b"").decode("utf-8", "replace")
                rc, err = -99, "no end after %d s" % timeout
            if rc == 0:
                break
            if rc == 3:   # the driver's own complaint
                raise CheckError("driver %s %s: %s" % (os.path.basename(exe), args, err[-2000:]))
        lines = [l for l in out.split("\n") if l.startswith("{")]
        good = []
        for l in lines:
            try:
                json.loads(l)
                good.append(l)
            except ValueError:
                pass
        if rc != 0:
            last = json.loads(good[-1]) if good else {}
            self.reject("crash:" + name, dict(driver=os.path.basename(exe), args=list(map(str, args)), rc=rc, stderr=err[-1500:], after=last),
                        ["the code ended abnormally (status %s)" % rc])
        path = os.path.join(self.tmp, key + ".ndjson")
        with open(path, "w") as f:
            f.write("\n".join(good) + "\n")
        return path, [json.loads(l) for l in good]

    def validate(self, module, path, cfg=None, chunks=4, env=None, heap="2g", sig=None, timeout=800, unit="records", count=True, group=None):
        """Checks the records of a log against spec/<module>.tla; rejected records become rejections.
        group(record) is true of the first record of a history: histories are kept together, in order."""
        lines = [l for l in open(path).read().split("\n") if l]
        n = len(lines)
        if n == 0:
            if any(k[0].startswith("crash:") for k in self.rejections):   # the code under test ended before its first record: already a rejection
                return
            raise CheckError("empty log for " + module)
        chunks = max(1, min(chunks, n // 20 + 1))
        if group:
            hist = []
            for l in lines:
                if group(json.loads(l)) or not hist:
                    hist.append([])
                hist[-1].append(l)
            dealt = [[l for h in hist[c::chunks] for l in h] for c in range(chunks)]
        else:
            dealt = [lines[c::chunks] for c in range(chunks)]
        def go(c):
            part = dealt[c]
            if not part:
                return c, part, [], 0, 0
            p = "%s.%s.%d" % (path, module, c)
            open(p, "w").write("\n".join(part) + "\n")
            start, rej, st, tr = 1, [], 0, 0
            while start <= len(part):
                e = dict(env or {}, TRACE=p, START=start)
                r = vlib.tlc(module, cfg or module, env=e, heap=heap, timeout=timeout)
                st += r.distinct
                tr += r.generated
                # TLC breaks wide values over several lines
                found = [(int(m.group(1)), re.findall(r'"([^"]*)"', m.group(2)))
                         for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\{[^{}]*\}|<<(?:[^<>]|<(?!<)|>(?!>))*>>)\s*>>', r.out)]
                if len(found) != r.out.count('"REJECT"'):
                    raise CheckError("unreadable report of %s:\n%s" % (module, r.out[-3000:]))
                rej += found
                if r.ok:
                    if not re.search(r'"DONE", %d\b' % len(part), r.out):
                        raise CheckError("trace spec %s did not consume the log:\n%s" % (module, r.out[-2000:]))
                    break
                m = re.findall(r"^(?:/\\ )?i = (\d+)", r.out, re.M)
                if not m or "Parsing or semantic analysis failed" in r.out or "OutOfMemory" in r.out:
                    raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-3000:]))
                # TLC could not evaluate the specification on this record: it has not the shape the specification requires
                at = max(int(x) for x in m)
                if at < start:
                    raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-3000:]))
                rej.append((at, ["not evaluable"]))
                if os.environ.get("VERIF_DEBUG") and len(rej) < 3:
                    sys.stderr.write("\n".join(l for l in r.out.split("\n") if re.search(r"Error:|rror: |xception|Attempted|verflow|<<>>|[0-9]+\. Line", l))[-900:] + "\n" + part[at - 1][:400] + "\n")
                start = at + 1
                while group and start <= len(part) and not group(json.loads(part[start - 1])):
                    start += 1
                if len(rej) > 60:
                    break
            return c, part, rej, st, tr
        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(go, range(chunks)))
        nrej = 0
        for c, part, rej, st, tr in res:
            self.states += st
            self.transitions += tr
            seen = set()
            for i, why in rej:
                rec = json.loads(part[i - 1])
                if group:
                    b = i - 1
                    while b > 0 and not group(json.loads(part[b])):
                        b -= 1
                    rec = dict(rec, history=[json.loads(l) for l in part[b:i]][-40:])
                s = sig(rec, why) if sig else (rec.get("site", module) + ":" + "+".join(sorted(why)))
                self.reject(s, rec, why)
                seen.add(i)
            nrej += len(seen)
        if count:
            self.traces += n - nrej
        self.counts[module] = self.counts.get(module, 0) + n
        recs = [json.loads(l) for l in lines[:: max(1, n // 3)][:3]]
        for r in recs:
            t = json.dumps(r)
            self.samples.append(r if len(t) < 1500 else t[:1500] + "...")
        return nrej

    def reject(self, sig, record, why):
        self.rejections.append((re.sub(r"\s+", "_", sig), record, why))

    def finish(self):
        for f in self.pending:
            module, cfg, r = f.result()
            self.models.append(dict(module=module, cfg=cfg, states=r.distinct, generated=r.generated, wall_s=round(r.wall, 2)))
            self.states += r.distinct
            self.transitions += r.generated
        kn = known(self.pid)
        new, old = [], {}
        for s, rec, why in self.rejections:
            hit = kn.get(s)
            if hit is None:
                new.append((s, rec, why))
            else:
                old[s] = old.get(s, 0) + 1
        for s, n in sorted(old.items()):
            print("KNOWN-FINDING: property=%s %s (%d records) %s" % (self.pid, s, n, kn[s]))
        replay = None
        if new:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, self.pid + ".json")
            with open(replay, "w") as f:
                json.dump([dict(sig=s, failed=w, record=r) for s, r, w in new[:50]], f, indent=1)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples[:6], models=self.models, records=self.counts,
                                known_findings=sorted(old)),
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(new))
        txt = json.dumps(ev, indent=1)
        if len(txt) > 60000:
            ev["coverage"]["samples"] = [str(x)[:400] for x in ev["coverage"]["samples"]]
            txt = json.dumps(ev, indent=1)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w").write(txt + "\n")
        print("%s: states=%d transitions=%d traces=%d rejected=%d (%d known) %.1fs" %
              (self.pid, self.states, self.transitions, self.traces, len(self.rejections), sum(old.values()), time.time() - self.t0))
        if new:
            sigs = {}
            for s, r, w in new:
                sigs[s] = sigs.get(s, 0) + 1
            for s, n in sorted(sigs.items())[:12]:
                print("  rejected: %s x%d" % (s, n))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        return 0


def main():
    pid = sys.argv[1]
    spec = importlib.util.spec_from_file_location("prop_" + pid, os.path.join(VERIF, "checks", pid + ".py"))
    mod = importlib.util.module_from_spec(spec)
    chk = Check(pid)
    try:
        try:
            spec.loader.exec_module(mod)
            mod.run(chk)
            n1 = len(chk.rejections)
            return chk.finish()
        except CheckError as e:
            print("ERROR in the check of %s: %s" % (pid, e))
        except Exception:
            traceback.print_exc()
        # what was rejected before the error is still a violation
        try:
            return 1 if chk.rejections and chk.finish() == 1 else 2
        except Exception:
            traceback.print_exc()
            return 2
    finally:
        chk.pool.shutdown(wait=False)
        shutil.rmtree(chk.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    os._exit(rc) if sys.stdout.flush() is None else None
