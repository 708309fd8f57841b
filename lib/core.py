"""Common machinery of the checks: building harnesses from /repo's working tree,
running TLC on specifications and on recorded traces, reporting."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=undefined"]
SANENV = {"ASAN_OPTIONS": "alloc_dealloc_mismatch=0,new_delete_type_mismatch=0,detect_leaks=0,"
                          "abort_on_error=1,allocator_may_return_null=1,handle_segv=0,handle_abort=0",
          "UBSAN_OPTIONS": "halt_on_error=1,abort_on_error=1"}


class CheckError(Exception):
    pass


class Check:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or TIER
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "build", prop + "-" + self.tier)
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.replays = os.path.join(VERIF, "build", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.models = []
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.known = load_known(prop)
        self.known_seen = {}
        self.extra = {}
        self.assumptions = []
        self.drift = []

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def harn(self, *a):
        return os.path.join(HARN, *a)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- building
    def build(self, jobs):
        """jobs: list of (output name, source, [extra flags]).  Parallel g++."""
        def one(j):
            out, src, flags = j
            cxx = os.environ.get("CXX", "g++")
            cmd = [cxx, "-std=c++17", "-w", "-I" + HARN, "-I" + os.path.join(REPO, "include")] + flags + \
                  [os.path.join(HARN, src) if not os.path.isabs(src) else src, "-o", self.path(out)]
            # libraries must come last
            libs = [f for f in cmd if f.startswith("-l")]
            cmd = [f for f in cmd if not f.startswith("-l")] + libs
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return j, p
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for j, p in ex.map(one, jobs):
                if p.returncode:
                    raise CheckError("cannot build %s from the working tree:\n%s" % (j[0], p.stdout[-3000:]))
        self.log("built", len(jobs), "harnesses")

    def run(self, args, timeout=600, env=None, check=True):
        e = dict(os.environ)
        e.update(SANENV)
        if env:
            e.update(env)
        try:
            with open(self.path("harness.err"), "ab") as err:
                p = subprocess.run([self.path(args[0])] + [str(a) for a in args[1:]], env=e,
                                   stdout=subprocess.PIPE, stderr=err, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out: " + " ".join(map(str, args)))
        if check and p.returncode:
            raise CheckError("harness failed (%d): %s" % (p.returncode, " ".join(map(str, args))))
        return p.stdout.decode(errors="replace")

    def run_all(self, cmds, timeout=600, env=None):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(lambda c: self.run(c, timeout, env), cmds))

    # --------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=NCPU, heap="6g", args=(), env=None, timeout=800, ss="64m"):
        e = dict(os.environ)
        if env:
            e.update(env)
        meta = tempfile.mkdtemp(dir=self.dir, prefix="tlc-")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + ss, "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-config", cfg, "-metadir", meta, "-noGenerateSpecTE"] + list(args) + \
              [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise CheckError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout.decode(errors="replace")

    def cfg(self, name, base, consts=None, text=None):
        """A configuration file in the check's directory: base with constants replaced."""
        s = text if text is not None else open(os.path.join(SPEC, base)).read()
        for k, v in (consts or {}).items():
            s, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), s)
            if not n:
                raise CheckError("no constant %s in %s" % (k, base))
        p = self.path(name)
        with open(p, "w") as f:
            f.write(s)
        return p

    def model(self, module, cfg, label=None, **kw):
        """Exhaustive check of a design model; any violation there is an error of
        the specification, not of the code."""
        rc, out = self.tlc(module, cfg, **kw)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace(",", ",")) or \
            re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if rc or not m:
            raise CheckError("TLC rejects the design model %s (%s):\n%s" % (module, cfg, out[-4000:]))
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
        self.states += dist
        self.transitions += gen
        self.models.append({"model": label or module, "distinct_states": dist, "states_generated": gen})
        self.log("model", label or module, dist, "states", gen, "transitions")
        return out

    def refuted(self, module, cfg, label, **kw):
        """A variant of the design with a known defect: TLC must find it, or the
        model could not tell right from wrong."""
        rc, out = self.tlc(module, cfg, **kw)
        if "is violated" not in out and "was violated" not in out and "were violated" not in out:
            raise CheckError("TLC does not refute the broken design %s (%s):\n%s" % (module, label, out[-3000:]))
        self.models.append({"model": label, "refuted_as_it_must_be": True})
        self.log("refuted", label)

    # ---------------------------------------------------- interleavings of real code
    def build_conc(self, jobs):
        """jobs: (output name, source, flags): compiled with clang's memory-access
        callbacks, linked with the cooperative scheduler of vsched.cpp."""
        inst = ["-DVS_EXPLORER", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"]

        def cc(j):
            out, src, flags, base = j
            cmd = ["clang++", "-std=c++17", "-w", "-O1", "-g", "-I" + HARN, "-I" + os.path.join(HARN, "stubs"),
                   "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src", "benchmark")] + flags + base + \
                  ["-c", os.path.join(HARN, src), "-o", self.path(out + ".o")]
            return out, subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        # the maps reclaim at every retirement; the epoch manager is looked at as it is
        hook = ["-DINDEXES_VERIFY_RECLAMATION_THRESHOLD=1"]
        todo = [(o, s, f, inst + (hook if s != "conc_epoch.cpp" else [])) for o, s, f in jobs] + [("vsched", "vsched.cpp", ["-O2"], [])]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for out, p in ex.map(cc, todo):
                if p.returncode:
                    raise CheckError("cannot build %s from the working tree:\n%s" % (out, p.stdout[-3000:]))
            def ld(j):
                return j[0], subprocess.run(["clang++", self.path(j[0] + ".o"), self.path("vsched.o"), "-o", self.path(j[0])],
                                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            for out, p in ex.map(ld, jobs):
                if p.returncode:
                    raise CheckError("cannot link %s:\n%s" % (out, p.stdout[-3000:]))
        self.log("built", len(jobs), "explorers")

    def explore(self, groups, timeout=800):
        """groups: (program, [scenario lines]).  Explores every scenario, spread
        over the processors; returns the files of distinct histories."""
        cmds, files = [], []
        total = sum(len(s) for _, s in groups)
        for prog, lines in groups:
            np = max(1, min(len(lines), (NCPU * 2 * len(lines) + total - 1) // total))
            sf = self.path(prog + ".scen")
            with open(sf, "w") as f:
                f.write("\n".join(prog + ":" + l for l in lines) + "\n")
            for k in range(np):
                out = self.path("%s.%d.ndjson" % (prog, k))
                cmds.append([prog, out, sf, SEED, k, np])
                files.append(out)
        for o in self.run_all(cmds, timeout):
            m = re.search(r"execs (\d+) points (\d+)", o)
            self.extra["executions_explored"] = self.extra.get("executions_explored", 0) + int(m.group(1))
            self.extra["scheduling_points"] = self.extra.get("scheduling_points", 0) + int(m.group(2))
        self.extra["scenarios"] = self.extra.get("scenarios", 0) + total
        files = [f for f in files if os.path.getsize(f)]
        self.log("explored", self.extra["executions_explored"], "executions of", total, "scenarios")
        return files

    def validate(self, module, files, cfg=None, heap="8g", limit=60000000, par=None, timeout=800, what=None):
        """Validates NDJSON trace files against a trace specification; returns
        the rejections.  Every trace must be accepted or rejected explicitly."""
        chunks = []
        for f in files:
            chunks += split_file(f, limit, self.dir)
        if not chunks:
            raise CheckError("no traces")
        # join small files
        par = par or 4
        groups = pack(chunks, limit, self.dir)
        w = max(1, NCPU // min(par, len(groups)))
        rejects = []

        def one(g):
            rc, out = self.tlc(module, cfg or os.path.join(SPEC, module + ".cfg"), workers=w,
                               heap=heap, env={"TRACE": g}, timeout=timeout)
            return g, rc, out
        with cf.ThreadPoolExecutor(par) as ex:
            for g, rc, out in ex.map(one, groups):
                acc = set(re.findall(r'<<"ACCEPT", "([^"]*)">>', out))
                rej = re.findall(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*"((?:[^"\\]|\\.)*)"', out)
                ids = {}
                with open(g) as fh:
                    for n, line in enumerate(fh):
                        m = re.match(r'\{"id":"([^"]*)"', line)
                        if m.group(1) in ids:
                            raise CheckError("two traces named " + m.group(1))
                        ids[m.group(1)] = line
                rejids = {r[0] for r in rej}
                missing = set(ids) - acc - rejids
                if rc or missing:
                    raise CheckError("TLC failed on %s: %d traces undecided\n%s" % (g, len(missing), out[-3000:]))
                m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
                self.traces += len(acc)
                nev = 0
                for i, line in ids.items():
                    if i in acc:
                        nev += 1
                self.states += int(m.group(2).replace(",", ""))
                self.transitions += int(m.group(1).replace(",", ""))
                self.events += int(m.group(2).replace(",", "")) - len(ids)
                if len(self.samples) < 2 and acc:
                    i = sorted(acc)[0]
                    self.samples.append(ids[i].strip()[:600])
                for rid, pos, ev in rej:
                    rejects.append((rid, int(pos), ev, ids[rid]))
        self.log("validated", what or module, ":", self.traces, "traces accepted so far,", len(rejects), "rejected")
        return rejects

    # --------------------------------------------------------------- reporting
    def reject(self, rejects, module):
        for rid, pos, ev, line in rejects:
            self.violation("%s@%d" % (rid, pos), {
                "spec": module, "trace": rid, "rejected_event": pos, "event": ev,
                "history": trunc(line, pos)})

    def violation(self, key, info, match=None):
        """match: text the known-findings patterns are matched against."""
        text = match if match is not None else key + " " + json.dumps(info)
        for k in self.known:
            if re.search(k["pattern"], text):
                self.known_seen[k["pattern"]] = k
                return False
        self.violations.append((key, info))
        return True

    def finish(self, level="model_checking"):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "design_models": self.models, "samples": self.samples or ["(none)"]}
        if self.known:
            cov["known_findings_seen"] = [k["text"] for k in self.known_seen.values()]
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            for n, (key, info) in enumerate(self.violations[:5]):
                rp = os.path.join(self.replays, "%s-%s-%d.json" % (self.prop, self.tier, n))
                with open(rp, "w") as f:
                    json.dump({"property": self.prop, "seed": SEED, "tier": self.tier, "what": key, "detail": info},
                              f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
                print("   ", key, str(info.get("event", ""))[:300] if isinstance(info, dict) else "")
            return 1
        # traces and harness binaries are not needed any more
        shutil.rmtree(self.dir, ignore_errors=True)
        self.log("held on everything explored:", self.states, "states,", self.traces, "traces")
        return 0


def trunc(line, pos, keep=60):
    try:
        d = json.loads(line)
        evs = d.get("ev", [])
        a = max(0, pos - keep)
        d["ev"] = evs[a:pos]
        d["events_before"] = a
        return d
    except Exception:
        return line[:2000]


def split_file(f, limit, tmpdir):
    if os.path.getsize(f) <= limit:
        return [f] if os.path.getsize(f) else []
    out, cur, n = [], None, 0
    with open(f) as fh:
        for line in fh:
            if cur is None or n + len(line) > limit:
                if cur:
                    cur.close()
                p = "%s.part%d" % (f, len(out))
                cur, n = open(p, "w"), 0
                out.append(p)
            cur.write(line)
            n += len(line)
    if cur:
        cur.close()
    return out


def pack(files, limit, tmpdir):
    groups, cur, n = [], [], 0
    for f in files:
        s = os.path.getsize(f)
        if cur and n + s > limit:
            groups.append(cur)
            cur, n = [], 0
        cur.append(f)
        n += s
    if cur:
        groups.append(cur)
    res = []
    for g in groups:
        if len(g) == 1:
            res.append(g[0])
        else:
            fd, p = tempfile.mkstemp(dir=tmpdir, suffix=".ndjson")
            with os.fdopen(fd, "w") as o:
                for f in g:
                    with open(f) as i:
                        shutil.copyfileobj(i, o)
            res.append(p)
    return res


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> pattern=/<regex>/ <text>' lines
    suppress, 'fixed: ...' lines do not."""
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) pattern=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"pattern": m.group(2), "text": m.group(3)})
    return out
