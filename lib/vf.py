"""Check runner: model-check the specification, generate scripts (from TLC and
at random), run them on the real code, validate what it did against the
specification with TLC, write evidence."""
import copy, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as bld

V = bld.V
SPEC = V + "/spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Failure(Exception):
    """The check itself could not run."""


def tlc(module, cfg=None, workers=1, env=None, extra=(), timeout=600, mem="2g", tmp=None):
    """Runs TLC on spec/<module>.tla; returns (exit code, output)."""
    md = tempfile.mkdtemp(prefix="tlc.", dir=tmp)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-Xmx" + mem, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss16m",
           "-cp", CP, "tlc2.TLC", "-metadir", md,
           "-config", SPEC + "/" + (cfg or module) + ".cfg", "-workers", str(workers),
           "-noGenerateSpecTE", "-deadlock"]
    cmd += list(extra) + [SPEC + "/" + module + ".tla"]
    try:
        p = subprocess.run(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        rc, out = -1, (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def scratch_base():
    base = os.environ.get("TMPDIR", "/tmp")
    return base


class Check:
    """One property's check. Subclasses or module attributes give:
    pid         property id
    level       'model_checking'
    mc          list of (module, cfg, workers) exhaustive runs; tier variants by cfg name
    gens        list of (module, cfg, num, depth, convert) TLC simulations that
                print behaviours; convert(list) -> script dict
    scripts(rng, tier)    random scripts
    harness     (name, sources[, flags])
    trace       trace module (its cfg has the same name)
    """
    level = "model_checking"
    mc = []
    mc_thorough = []
    gens = []
    gens_thorough = None
    shards = 4
    assumptions = []
    known = None  # function(script, event) -> finding text or None
    mem = "2g"

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.rng = random.Random(seed * 1000003 + 17)
        self.tmp = tempfile.mkdtemp(prefix="verif.%s." % self.pid, dir=scratch_base())
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.counts = {}
        self.kf = {}
        self.notes = []

    # ---- pieces -----------------------------------------------------------
    def scripts(self, rng, tier):
        return []

    def prepare(self):
        """Hook for inputs the harness needs (binaries...)."""

    def run_mc(self):
        runs = list(self.mc) + (list(self.mc_thorough) if self.tier == "thorough" else [])
        res = []
        for module, cfg, workers in runs:
            t = time.time()
            rc, out = tlc(module, cfg, workers, tmp=self.tmp,
                          timeout=700 if self.tier == "quick" else 7200, mem="6g")
            g, d = tlc_counts(out)
            if rc != 0:
                raise Failure("model check %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
            res.append({"module": module, "config": cfg, "generated": g, "distinct": d,
                        "seconds": round(time.time() - t, 1)})
            self.cov["states"] += d
            self.cov["transitions"] += g
        self.cov["model_checks"] = res

    def run_gens(self):
        out_scripts = []
        gens = self.gens
        if self.tier == "thorough" and self.gens_thorough:
            gens = self.gens_thorough
        for module, cfg, num, depth, conv in gens:
            extra = []
            if num:
                extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed + 7)]
            rc, out = tlc(module, cfg, 1, tmp=self.tmp, extra=extra, mem="4g", timeout=600)
            behaviours = []
            for line in dict.fromkeys(out.splitlines()):
                if line.startswith('"@@'):
                    behaviours.append(json.loads(json.loads(line)[2:]))
            if not behaviours:
                raise Failure("generator %s/%s printed nothing (rc %d):\n%s" % (module, cfg, rc, out[-3000:]))
            seen = set()
            n = 0
            self.rng.shuffle(behaviours)
            if num:
                behaviours = behaviours[:2 * num]
            for b in behaviours:
                k = json.dumps(b)
                if k in seen:
                    continue
                seen.add(k)
                s = conv(b)
                if s is None:
                    continue
                n += 1
                s["src"] = "tlc"
                out_scripts.append(s)
            self.cov.setdefault("tlc_generated_scripts", 0)
            self.cov["tlc_generated_scripts"] += n
        return out_scripts

    def build_harness(self):
        return bld.build(*self.harness)

    def run_harness(self, exe, scripts, tag, env=None):
        sp, op = "%s/%s.scripts" % (self.tmp, tag), "%s/%s.trace" % (self.tmp, tag)
        with open(sp, "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
        e = dict(os.environ)
        e["VH_TMP"] = self.tmp + "/h." + tag
        os.makedirs(e["VH_TMP"], exist_ok=True)
        e.update(env or {})
        e["GLOG_logtostderr"] = "1"
        p = subprocess.run([exe, sp, op], env=e, cwd=self.tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise Failure("harness failed: rc %d %s" % (p.returncode, p.stdout[-1000:]))
        return op

    # Trace post-processing hook (per line dict -> dict or None)
    def project(self, ev):
        return ev

    def validate(self, trace_path, tag):
        """Returns (ok, index of the first rejected line, TLC output)."""
        rc, out = tlc(self.trace, None, 1, env={"TRACE": trace_path}, tmp=self.tmp, mem=self.mem,
                      timeout=800 if self.tier == "quick" else 7200)
        if rc == 0 and "No error has been found" in out:
            return True, None, out
        m = re.findall(r'<<"REJECTED", (\d+)>>', out)
        if m:
            return False, int(m[-1]) - 1, out
        if rc in (10, 11, 12, 13, 75, 76, 77) or "evaluat" in out or "is violated" in out or "Attempted" in out:
            # a state predicate failed or a recorded value is outside the
            # specification's types: the last printed l is where
            m = re.findall(r"\bl = (\d+)", out)
            return False, (int(m[-1]) - 1 if m else 0), out
        raise Failure("trace validation of %s could not run (rc %d):\n%s" % (tag, rc, out[-3000:]))

    # ---- main -------------------------------------------------------------
    def violation(self, scripts, event, out, note):
        rd = V + "/build/replay"
        os.makedirs(rd, exist_ok=True)
        path = "%s/%s-%d-%d.json" % (rd, self.pid, self.seed, int(time.time() * 1000) % 10**9)
        with open(path, "w") as f:
            json.dump({"property": self.pid, "how": "python3 check.py %s --replay <this file>" % self.pid,
                       "note": note, "rejected_event": event, "scripts": scripts, "tlc": out[-4000:]}, f, indent=1)
        print("rejected event: %s" % json.dumps(event)[:1500])
        print(note)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        self.cov["violation"] = note

    def judge(self, exe, scripts):
        """Runs scripts, validates; returns True when all were accepted."""
        byid = {}
        for i, s in enumerate(scripts):
            s["id"] = i + 1
            byid[i + 1] = s
        n = max(1, min(self.shards, len(scripts) // 20 or 1))
        parts = [scripts[i::n] for i in range(n)]
        traces = [None] * n

        def one(i):
            traces[i] = self.run_harness(exe, parts[i], "s%d" % i)
            self.postprocess(traces[i])
            return self.validate(traces[i], "s%d" % i)

        with ThreadPoolExecutor(n) as ex:
            results = list(ex.map(one, range(n)))
        for t in traces:
            for line in open(t):
                e = json.loads(line)
                self.counts[e["e"]] = self.counts.get(e["e"], 0) + 1
        for i, (ok, idx, out) in enumerate(results):
            g, d = tlc_counts(out)
            self.cov["states"] += d
            self.cov["transitions"] += g
            if ok:
                self.cov["traces_validated_against_impl"] += len(parts[i])
                continue
            lines = [json.loads(x) for x in open(traces[i])]
            ev = lines[min(idx, len(lines) - 1)] if lines else {}
            sid = ev.get("sid")
            s = byid.get(sid)
            # repeat: the script alone, else the whole shard
            again = False
            if s is not None:
                tr = self.run_harness(exe, [s], "r%d" % i)
                self.postprocess(tr)
                ok2, idx2, out2 = self.validate(tr, "repeat")
                if not ok2:
                    again = True
                    l2 = [json.loads(x) for x in open(tr)]
                    ev = l2[min(idx2, len(l2) - 1)] if l2 else ev
                    self.violation([s], ev, out2, "script %s: the specification does not allow what the code did" % sid)
            if not again:
                tr = self.run_harness(exe, parts[i], "R%d" % i)
                self.postprocess(tr)
                ok2, idx2, out2 = self.validate(tr, "repeat")
                if not ok2:
                    again = True
                    self.violation(parts[i], ev, out2, "script %s within its shard: the specification does not allow what the code did" % sid)
            if not again:
                raise Failure("a rejection did not repeat (script %s): %s" % (sid, json.dumps(ev)[:500]))
            return False
        self.all_traces = traces
        return True

    def postprocess(self, path):
        pass

    def tamper(self):
        """Corrupts one recorded value and expects a rejection: shows that the
        trace specification binds the record."""
        best = None
        for t in self.all_traces:
            cur, sid = [], None
            for line in open(t):
                e = json.loads(line)
                if e["e"] == "Reset":
                    if cur and (best is None or len(json.dumps(cur)) > len(json.dumps(best))) and len(cur) < 200:
                        best = cur
                    cur = []
                cur.append(e)
            if cur and (best is None or len(json.dumps(cur)) > len(json.dumps(best))) and len(cur) < 200:
                best = cur
        if not best:
            raise Failure("no trace to tamper with")
        for target in range(len(best) - 1, 0, -1):
            t = copy.deepcopy(best)
            if self.tamper_event(t[target]):
                p = self.tmp + "/tampered.trace"
                with open(p, "w") as f:
                    for e in t:
                        f.write(json.dumps(e) + "\n")
                ok, _, _ = self.validate(p, "tampered")
                if ok:
                    continue
                self.cov["tampered_trace_rejected"] = {"event": best[target]["e"]}
                return
        raise Failure("a tampered trace was accepted")

    tamper_keys = ("st", "r", "out")

    def tamper_event(self, ev):
        def bump(x):
            if isinstance(x, bool):
                return None if kind is int else not x
            if isinstance(x, kind):
                return x + (1 if kind is int else "!")
            if isinstance(x, list):
                for i in range(len(x) - 1, -1, -1):
                    b = bump(x[i])
                    if b is not None:
                        x[i] = b
                        return x
            if isinstance(x, dict):
                for k in x:
                    b = bump(x[k])
                    if b is not None:
                        x[k] = b
                        return x
            return None
        for kind in (int, str):
            for k in self.tamper_keys:
                if k in ev:
                    b = bump(ev[k])
                    if b is not None:
                        ev[k] = b
                        return True
        return False

    def main(self, replay=None):
        t0 = time.time()
        rc = 0
        try:
            if replay:
                d = json.load(open(replay))
                self.prepare()
                exe = self.build_harness()
                return 0 if self.judge(exe, d["scripts"]) else 1
            err = []
            gen = {}

            def bg(name, f):
                def g():
                    try:
                        gen[name] = f()
                    except Exception as x:  # noqa
                        err.append(x)
                th = threading.Thread(target=g)
                th.start()
                return th
            ths = [bg("exe", self.build_harness)]
            g2 = bg("gen", self.run_gens)
            self.prepare()
            for th in ths:
                th.join()
            g2.join()
            if err:
                raise err[0]
            mcth = bg("mc", self.run_mc)
            scripts = gen["gen"] + self.scripts(self.rng, self.tier)
            self.cov["scripts"] = len(scripts)
            ok = self.judge(gen["exe"], scripts)
            if ok:
                self.tamper()
            mcth.join()
            if err:
                raise err[0]
            for s in scripts[:1] + scripts[-2:]:
                txt = json.dumps(s)
                self.cov["samples"].append(s if len(txt) < 3000 else txt[:3000])
            rc = 0 if ok else 1
            self.cov["events"] = self.counts
            ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
                  "coverage": self.cov, "assumptions": list(self.assumptions),
                  "wall_s": round(time.time() - t0, 1), "violations": 0 if ok else 1}
            os.makedirs(V + "/evidence", exist_ok=True)
            with open("%s/evidence/%s.json" % (V, self.pid), "w") as f:
                json.dump(ev, f, indent=1)
            print("%s %s: %s; %d scripts, %d traces validated, %d model states, %.1fs" % (
                self.pid, self.tier, "held" if ok else "VIOLATED", len(scripts),
                self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - t0))
            return rc
        except (Failure, bld.BuildError) as x:
            print("CHECK ERROR property=%s: %s" % (self.pid, x))
            return 2
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(self.tmp, ignore_errors=True)
            else:
                print("kept", self.tmp)
