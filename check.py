#!/usr/bin/env python3
"""Runs one check: python3 check.py <property>.  See DESIGN.md.

Exit 0: the property held on everything explored; 1: VIOLATION; 2: the check itself failed."""
import sys, os, re, json, time, glob, shutil, subprocess, importlib

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tool"))
B = os.path.join(V, ".build")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.thorough = TIER == "thorough"
        self.dir = os.path.join(B, "w", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replay_dir = os.path.join(V, "replays", pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        self.violations = []      # (key, replay path)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.stages = []
        self.known = self.load_known()
        self.known_seen = set()

    # -- known findings ------------------------------------------------------------------------
    def load_known(self):
        out = []
        p = os.path.join(V, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"known: property=(\S+) match=(\{.*?\}) :: (.*)", l.strip())
                if m and m.group(1) == self.pid:
                    out.append((json.loads(m.group(2)), m.group(3)))
        return out

    def is_known(self, rec):
        for m, text in self.known:
            if isinstance(rec, dict) and all(rec.get(k) == v for k, v in m.items()):
                self.known_seen.add(text)
                return True
        return False

    # -- build ---------------------------------------------------------------------------------
    def build(self, binary, crate="harness", optional=False):
        """Builds one harness program against the current tree.  An optional one compiles a source file of
        the tree itself: if that is no longer possible its stage is left out."""
        t = time.time()
        java = os.path.join(B, "java")
        stamp = os.path.join(java, "plv", "Overrides.class")
        srcs = glob.glob(os.path.join(V, "java", "plv", "*.java"))
        if not os.path.exists(stamp) or any(os.path.getmtime(s) > os.path.getmtime(stamp) for s in srcs):
            os.makedirs(java, exist_ok=True)
            r = sh("javac -cp %s/tla2tools.jar -d %s %s" % (TLA, java, " ".join(srcs)))
            if r.returncode != 0:
                raise ToolError("javac failed:\n" + r.stdout)
        rd = lambda n: open(os.path.join(V, "spec", n + ".tla")).read()
        for n in ("BigNat", "Fp", "Poly", "Curve"):   # the definitions the Java overrides are checked against
            want = re.sub(r"MODULE %s\b" % n, "MODULE %sPure" % n, rd(n)).replace("EXTENDS Fp\n", "EXTENDS FpPure\n")
            if want != rd(n + "Pure"):
                raise ToolError("spec/%sPure.tla is not a copy of spec/%s.tla" % (n, n))
        r = sh(". %s/env.sh && cd %s/%s && cargo build --release --offline --bin %s 2>&1" % (V, V, crate, binary))
        if r.returncode != 0:
            if optional:
                self.note("not built", {"program": binary})
                return False
            raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
        self.bin = os.path.join(B, "target", "release", binary)
        self.note("build", {"seconds": round(time.time() - t, 1)})
        return True

    def note(self, name, d):
        self.stages.append(dict(stage=name, **d))
        print("[%s] %s %s" % (self.pid, name, json.dumps(d)), flush=True)

    # -- running the implementation ----------------------------------------------------------------
    def run(self, cmd, timeout=None, env=None, args=()):
        """Run a harness command; it writes its observations into the work directory.  An abort, a
        signal or a hang is behaviour of the code under test (every panic is caught and recorded)."""
        t = time.time()
        timeout = timeout or (3000 if self.thorough else 420)
        e = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER, RUST_MIN_STACK="67108864")
        e.update(env or {})
        how = None
        try:
            r = subprocess.run([self.bin, cmd, self.dir] + list(args), env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            if r.returncode == 2:
                raise ToolError("harness: " + r.stderr[-2000:])
            if r.returncode != 0:
                how = "exit status %d" % r.returncode
                err = r.stderr[-2000:]
        except subprocess.TimeoutExpired:
            how, err = "no answer within %d s" % timeout, ""
        self.note("run " + cmd, {"seconds": round(time.time() - t, 1)})
        if how:
            self.violate("run-" + cmd, {"command": cmd, "ended": how, "stderr": err,
                                        "note": "the code under test aborted, crashed or did not terminate"})
            return False
        return True

    # -- TLC -----------------------------------------------------------------------------------
    def java(self, spec, cfg, env, workers, timeout, extra=(), opts=()):
        meta = os.path.join(self.dir, "meta-" + os.path.basename(spec) + "-" + os.path.basename(cfg))
        shutil.rmtree(meta, ignore_errors=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx%dg" % (20 if self.thorough else 10), "-Xss128m",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:plv.Overrides"] + list(opts) + [
               "-cp", "%s/java:%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (B, TLA, TLA),
               "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
               "-config", cfg] + list(extra) + [spec]
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            r = subprocess.run(cmd, cwd=os.path.join(V, "spec"), env=e, timeout=timeout, text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b""
            return None, o.decode("utf8", "replace") if isinstance(o, bytes) else o
        finally:
            shutil.rmtree(meta, ignore_errors=True)

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out.replace(",", ",").replace(" ", " "))
        if not m:
            return None
        g, d, left = m[-1]
        return int(g), int(d), int(left)

    def model(self, spec, cfg=None, env=None, workers=8, timeout=None, expect=None, extra=(), min_states=2):
        """Model-check a specification exhaustively within the constants of its configuration.  This
        says something about the design only; a failure here is an error of the check."""
        t = time.time()
        cfg = cfg or spec + ".cfg"
        e = {"OUT": self.dir}
        e.update(env or {})
        rc, out = self.java(spec, cfg, e, workers, timeout or (7200 if self.thorough else 300), extra)
        open(os.path.join(self.dir, "tlc-%s.log" % cfg), "w").write(out)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("TLC on %s/%s (status %s):\n%s" % (spec, cfg, rc, out[-3000:]))
        n = self.counts(out)
        if n is None or n[1] < min_states:
            raise ToolError("TLC explored nothing in " + spec)
        if expect is not None and n[1] != expect:
            raise ToolError("%s: %d distinct states, expected %d" % (spec, n[1], expect))
        self.states += n[1]
        self.transitions += n[0]
        self.note("model " + cfg, {"distinct_states": n[1], "states_generated": n[0], "seconds": round(time.time() - t, 1)})
        return out

    def validate(self, spec, trace="trace.ndjson", cfg="Trace.cfg", env=None, timeout=None, need=1, hdr="hdr.ndjson", vacuity=None, sample=None, count=True):
        """TLC validates the observations in a trace against a specification, record by record."""
        t = time.time()
        path = os.path.join(self.dir, trace)
        with open(path) as f:
            lines = [l for l in f if l.strip()]
        if len(lines) < need:
            raise ToolError("%s has %d records, expected at least %d" % (trace, len(lines), need))
        hdr = os.path.join(self.dir, hdr)
        e = {"TRACE": path, "HDR": hdr}
        e.update(env or {})
        rc, out = self.java(spec, cfg, e, 8, timeout or (3000 if self.thorough else 420))
        open(os.path.join(self.dir, "tlc-%s-%s.log" % (spec, trace)), "w").write(out)
        if rc != 0 or "No error has been found" not in out:
            bad = re.findall(r"Idx = (\d+)", out)
            raise ToolError("TLC on %s (status %s):\n%s" % (spec, rc, "\n".join(
                l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))[:6000]))
        n = self.counts(out)
        k = min(len(lines), 64)
        if n is None or n[1] != len(lines) + k:
            raise ToolError("TLC validated %s of %d records of %s" % (n, len(lines), trace))
        self.states += n[1]
        self.transitions += len(lines)
        if count:
            self.traces += len(lines)
        bad = sorted(set(int(x) for x in re.findall(r'<<"BAD", (\d+)>>', out)))
        ops = {}
        step = max(1, len(lines) // 400)
        for i, l in enumerate(lines):
            m = re.search(r'"op":"([^"]*)"', l)
            ops[m.group(1) if m else "?"] = ops.get(m.group(1) if m else "?", 0) + 1
        for i in (len(lines) // 3, len(lines) - 1):
            if len(self.samples) < 8:
                l = lines[i].strip()
                self.samples.append({"spec": spec, "index": i + 1, "record": l if len(l) < 1500 else l[:1500] + "..."})
        self.note("validate %s against %s" % (trace, spec), {"records": len(lines), "rejected": len(bad), "by_op": ops, "seconds": round(time.time() - t, 1)})
        for b in bad[:400]:
            rec = json.loads(lines[b - 1])
            if self.is_known(rec):
                continue
            self.violate("%s-%d" % (spec, b), {"trace": trace, "index": b, "specification": spec, "record": rec,
                                              "seed": SEED, "tier": TIER,
                                              "note": "this observation of the implementation is not one the specification allows"})
        return len(lines)

    def explore(self, spec, cfg=None, trace="trace.ndjson", hdr="hdr.ndjson", need=1, timeout=None):
        """TLC explores, for every job (a circuit the code built and values of its inputs), all assignments
        which satisfy the circuit, and judges them and the table generated by the code."""
        t = time.time()
        cfg = cfg or spec + ".cfg"
        path = os.path.join(self.dir, trace)
        with open(path) as f:
            lines = [l for l in f if l.strip()]
        if len(lines) < need:
            raise ToolError("%s has %d records, expected at least %d" % (trace, len(lines), need))
        rc, out = self.java(spec, cfg, {"TRACE": path, "HDR": os.path.join(self.dir, hdr)}, 8, timeout or (6000 if self.thorough else 420))
        open(os.path.join(self.dir, "tlc-%s-%s.log" % (spec, trace)), "w").write(out)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("TLC on %s (status %s):\n%s" % (spec, rc, "\n".join(
                l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", "<<")))[:6000]))
        n = self.counts(out)
        if n is None or n[1] < len(lines):
            raise ToolError("TLC explored %s states for %d jobs" % (n, len(lines)))
        tags = lambda tag: set(int(x) for x in re.findall(r'<<"%s", (\d+)' % tag, out))
        bad, leaf, yes, sampled = (tags(x) for x in ("BAD", "LEAF", "YES", "SAMPLED"))
        lost = yes - leaf - bad       # the exploration gave up: nothing is judged there
        if len(lost) * 4 > len(yes):
            raise ToolError("no satisfying assignment found for %d of %d jobs, e.g. %s" % (len(lost), len(yes), sorted(lost)[:5]))
        if len(yes) < need // 4:
            raise ToolError("only %d satisfiable jobs" % len(yes))
        self.states += n[1]
        self.transitions += n[0]
        self.traces += len(lines)
        recs = [json.loads(l) for l in lines]
        ops = {}
        for r in recs:
            ops[r["op"]] = ops.get(r["op"], 0) + 1
        brief = lambda r: {k: v for k, v in r.items() if k not in ("hv", "hx")}
        for i in (len(recs) // 3, len(recs) - 1):
            self.samples.append({"spec": spec, "index": i + 1, "record": json.dumps(brief(recs[i]))[:1500]})
        self.note("explore %s with %s" % (trace, spec), {"jobs": len(lines), "rejected": len(bad), "distinct_states": n[1],
                  "satisfiable": len(yes), "no_assignment_found": len(lost), "leaves": len(re.findall(r'<<"LEAF"', out)), "sampled": len(sampled), "by_op": ops,
                  "seconds": round(time.time() - t, 1)})
        heads = None
        for b in sorted(bad)[:400]:
            if self.is_known(recs[b - 1]):
                continue
            if heads is None:
                heads = [l for l in open(os.path.join(self.dir, hdr))]
            why = re.findall(r'<<"WHY", %d, "(\w+)">>' % b, out)
            circ = json.loads(heads[recs[b - 1]["c"] - 1])
            self.violate("%s-%d" % (spec, b), {"trace": trace, "index": b, "specification": spec, "record": recs[b - 1], "circuit": circ,
                         "judged": sorted(set(why)), "seed": SEED, "tier": TIER,
                         "note": "generated: the table generated for these inputs is not what the specification requires; "
                                 "leaf: another assignment, which is not what the program computes, satisfies the circuit"})
        return len(lines)

    # -- verdict -------------------------------------------------------------------------------
    def violate(self, key, obj):
        os.makedirs(self.replay_dir, exist_ok=True)
        if len(self.violations) < 20:
            p = os.path.join(self.replay_dir, re.sub(r"[^\w.-]", "_", key) + ".json")
            with open(p, "w") as f:
                json.dump(obj, f, indent=1)
            print("  violation: " + json.dumps(obj)[:600])
        else:
            p = self.violations[-1][1]
        self.violations.append((key, p))

    def finish(self, meta):
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
                           "stages": self.stages},
              "assumptions": meta.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t in sorted(self.known_seen):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        for text in [t for _, t in self.known if t not in self.known_seen]:
            print("note: the known finding did not show: " + text)
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][1]))
            return 1
        print("%s: held on everything explored (%d states, %d observations) in %.0f s" % (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0


def main():
    pid = sys.argv[1]
    import checks
    fn = checks.CHECKS[pid]
    c = Check(pid)
    try:
        fn(c)
        return c.finish({"assumptions": checks.ASSUMPTIONS.get(pid, [])})
    except ToolError as e:
        if c.violations:   # e.g. a crash left an incomplete trace: the crash is what counts
            print("note: " + str(e)[-1500:])
            return c.finish({"assumptions": checks.ASSUMPTIONS.get(pid, [])})
        print("CHECK-ERROR: " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
