"""Shared machinery of the checks: building harnesses against /repo, running TLC (model checking,
behaviour generation, trace validation), reporting, evidence, known findings."""
import argparse, concurrent.futures, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 4))
# (a failed CURRENT_ASSERT would only be printed)
CXXFLAGS = ["-std=c++17", "-DCURRENT_CI", "-DCURRENT_ASSERT(e)=((e)?static_cast<void>(0):__builtin_trap())", "-Wno-strict-aliasing", "-w", "-pthread"]


class CheckError(Exception):
    """The check itself could not be carried out (exit 2: neither a pass nor an alarm)."""


class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.violated = ("is violated" in out) or ("Deadlock reached" in out) or ("was violated" in out)
        self.ok = rc == 0 and "Model checking completed. No error has been found" in out
        self.sim_ok = rc == 0 and "Error:" not in out


class Check:
    def __init__(self, pid, description=""):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--keep", action="store_true")
        ap.add_argument("--replay", default=None)
        self.args = ap.parse_args()
        self.pid, self.tier, self.seed = pid, self.args.tier, self.args.seed
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        base = os.path.join(VERIF, "_work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + ".", dir=base)
        self.replay_dir = os.path.join(VERIF, "_replay", pid)
        self.violations = []      # (finding_key or None, text, replay path)
        self.known_hits = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "parts": {}}
        self.assumptions = []
        self.known = self._load_known()
        self._replay_n = 0

    # ---------------------------------------------------------------- misc
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def _load_known(self):
        res = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line)
                if m and m.group(1) == self.pid:
                    res.append((m.group(2), m.group(3)))
        return res

    def path(self, *a):
        return os.path.join(self.work, *a)

    # ---------------------------------------------------------------- build
    def build(self, name, sources, flags=(), link=(), obj_flags=None, cxx="g++"):
        """Compiles the harness from the current working tree of /repo; returns the executable."""
        exe = self.path(name)
        objs, procs = [], []
        for i, s in enumerate(sources):
            s = s if os.path.isabs(s) else os.path.join(VERIF, "harness", s)
            o = self.path("%s.%d.o" % (name, i))
            extra = list((obj_flags or {}).get(os.path.basename(s), flags))
            cmd = [cxx] + CXXFLAGS + extra + ["-I", REPO, "-I", os.path.join(VERIF, "harness"), "-c", s, "-o", o]
            procs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            objs.append(o)
        for s, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                raise CheckError("cannot compile %s:\n%s" % (s, out[-4000:]))
        r = subprocess.run([cxx, "-pthread", "-o", exe] + objs + list(link) + ["-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("cannot link %s:\n%s" % (name, r.stdout[-4000:]))
        for o in objs:
            os.unlink(o)
        return exe

    # ---------------------------------------------------------------- running harnesses
    def run(self, cmd, timeout=120, env=None, stdin=None, cwd=None):
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                               input=stdin, cwd=cwd or self.work)
            return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired as ex:
            return "timeout", (ex.stdout or b"").decode("utf8", "replace"), (ex.stderr or b"").decode("utf8", "replace")

    def pmap(self, f, xs, n=None):
        with concurrent.futures.ThreadPoolExecutor(n or NCPU) as ex:
            return list(ex.map(f, xs))

    # ---------------------------------------------------------------- programs under the scheduler
    def build_sched(self, name, sources, flags=(), extra=()):
        """A driver whose code is preempted at memory accesses (see harness/csched.h)."""
        of = {os.path.basename(s): ["-O1", "-fsanitize=thread"] + list(flags) for s in sources}
        of["csched.cc"] = ["-O2", "-fno-threadsafe-statics"]
        for s in extra:
            of[os.path.basename(s)] = ["-O2"]
        return self.build(name, list(sources) + ["csched.cc"] + list(extra), obj_flags=of)

    def _run_job(self, exe, job, timeout, env, args=()):
        """One job, restarted whenever the driver wants a fresh process. -> (traces, stucks, steps, schedules)"""
        traces, stucks, steps, n, lo = [], [], 0, job["n"], job["seed0"]
        end = lo + n
        while lo < end:
            j = dict(job, seed0=lo, n=end - lo)
            rc, out, err = self.run(["setarch", "-R", exe] + list(args), timeout=timeout, env=env, stdin=(json.dumps(j) + "\n").encode())
            nxt, stuck = None, None
            for x in read_ndjson(out):
                if "stuck" in x:
                    stuck = dict(x, prog=job["prog"], first=lo, job=j)
                elif "ev" in x:
                    traces.append(dict(x, prog=job["prog"]))
                else:
                    steps += x.get("steps", 0)
                    nxt = x.get("next", end)
            if stuck:
                stucks.append(stuck)
            if nxt is None:
                if rc == "timeout":
                    stucks.append({"stuck": "hang", "detail": "no result within %ds" % timeout, "prog": job["prog"], "first": lo, "seed": lo, "ev": [], "job": j})
                else:
                    stucks.append({"stuck": "died", "detail": "rc=%s %s" % (rc, err[-300:]), "prog": job["prog"], "first": lo, "seed": lo, "ev": [], "job": j})
                break
            lo = nxt
            if len(stucks) >= 3:
                break
        return traces, stucks, steps, lo - job["seed0"]

    def explore(self, exe, jobs, what, timeout=150, env=None, args=(), key=None):
        """Runs jobs {"prog", "seed0", "n", "opt"} under the scheduler. Runs that cannot finish are violations (when they
        repeat); the distinct traces of the others are returned."""
        for i, j in enumerate(jobs):
            j["id"] = i
        jobs = list(jobs)
        found = [0]

        def one(j):  # (once there are enough runs which cannot finish, the rest need not be looked for)
            if found[0] >= 8:
                return [], [], 0, 0
            r = self._run_job(exe, j, timeout, env, args)
            found[0] += len([s for s in r[1] if not (key and key(s) in {k for k, _ in self.known})])
            return r
        res = self.pmap(one, jobs)
        traces, steps, sched = [], 0, 0
        stucks = []
        for t, s, st, n in res:
            traces += t
            stucks += s
            steps += st
            sched += n
        for s in stucks[:6]:
            j = s["job"]
            again = self._run_job(exe, dict(j, n=(s["seed"] - s["first"] + 1) if s["stuck"] not in ("hang", "died") else j["n"]), timeout, env, args)[1]
            if again and (again[0]["stuck"] == s["stuck"]):
                k = key(s) if key else None
                self.violation("%s: %s (%s) in program %s seed %s; events so far: %s" %
                               (what, s["stuck"], s["detail"], json.dumps(s["prog"])[:600], s["seed"], json.dumps(s["ev"])[-1500:]), s, key=k)
            else:
                self.log("%s: %s (%s) did not repeat; ignored" % (what, s["stuck"], s["detail"]))
        uniq = {}
        for t in traces:
            k = json.dumps([t["prog"], t["ev"]])
            if k in uniq:
                uniq[k]["n"] += t["n"]
            else:
                uniq[k] = t
        p = self.cov["parts"].setdefault("schedules:" + what, {"programs": 0, "schedules": 0, "distinct_traces": 0, "steps": 0, "stuck": 0})
        p["programs"] += len(jobs)
        p["schedules"] += sched
        p["distinct_traces"] += len(uniq)
        p["steps"] += steps
        p["stuck"] += len(stucks)
        self.log("schedules %s: %d programs, %d schedules, %d distinct traces, %d steps, %d stuck" %
                 (what, len(jobs), sched, len(uniq), steps, len(stucks)))
        return list(uniq.values())

    # ---------------------------------------------------------------- TLC
    def tlc(self, module_path, cfg_text, extra=(), env=None, workers=None, timeout=600, mem="4g", jprops=(), wrap=None):
        d = tempfile.mkdtemp(prefix="tlc.", dir=self.work)
        src = module_path if os.path.isabs(module_path) else os.path.join(VERIF, "specs", module_path)
        srcdir = os.path.dirname(src)
        for f in os.listdir(srcdir):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(srcdir, f), d)
        mod = os.path.basename(src)
        if wrap:
            w = "MODULE " + mod[:-4] + "W"
            open(os.path.join(d, mod[:-4] + "W.tla"), "w").write("---- %s ----\nEXTENDS %s\n%s\n====\n" % (w, mod[:-4], wrap))
            mod = mod[:-4] + "W.tla"
        cfg = os.path.join(d, "run.cfg")
        open(cfg, "w").write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss256m"] + ["-D" + j for j in jprops] + \
              ["-cp", TLA_CP, "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers or NCPU)] + list(extra) + [mod]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out = p.stdout.decode("utf8", "replace")
            rc = p.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT", -1
        shutil.rmtree(d, ignore_errors=True)
        return TLCResult(rc, out)

    def model_check(self, part, module, cfg_text, **kw):
        """Exhaustive check of the specification itself: a failure is an error of the check, not of /repo."""
        r = self.tlc(module, cfg_text, **kw)
        if not r.ok:
            raise CheckError("model checking of %s failed:\n%s" % (part, r.out[-6000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["parts"]["mc:" + part] = {"distinct_states": r.distinct, "generated": r.generated, "depth": r.depth}
        self.log("model %s: %d distinct states, depth %d" % (part, r.distinct, r.depth))
        return r

    def generate(self, part, module, cfg_text, **kw):
        """Behaviours of the specification: every line 'GEN <json>' TLC prints."""
        r = self.tlc(module, cfg_text, **kw)
        if r.rc != 0 and not kw.get("allow_rc"):
            raise CheckError("generation from %s failed:\n%s" % (part, r.out[-4000:]))
        res = []
        for line in r.out.splitlines():
            if line.startswith('"GEN '):
                res.append(json.loads(json.loads(line)[4:]))
        self.cov["parts"]["gen:" + part] = {"behaviours": len(res)}
        return res

    def validate(self, part, module, traces, consts="", workers=None, timeout=600, dfs=False, extra_cfg="",
                 invariants=(), chunk=None, spec="TraceSpec"):
        """Trace validation. `traces` is a list of dicts (one JSON object per trace, events in `ev`).
        The trace module must define TraceSpec over variables (tid, l, ...), print <<"ACC", tid>> when a trace is
        consumed completely.  Returns list of (trace index, prefix length, detail) for rejected traces."""
        self.tags = {}
        given, back = traces, [i for i, t in enumerate(traces) if t["ev"]]  # nothing to judge in a trace without events
        traces = [given[i] for i in back]
        if not traces:
            return []
        rejected = []
        chunk = chunk or max(1, (len(traces) + 3) // 4) if len(traces) > 400 else len(traces)
        groups = [list(range(i, min(i + chunk, len(traces)))) for i in range(0, len(traces), chunk)]

        def go(idxs):
            return self._validate_group(module, [traces[i] for i in idxs], consts,
                                        workers or max(1, NCPU // min(len(groups), NCPU)), timeout, dfs, extra_cfg,
                                        invariants, spec)
        results = self.pmap(go, groups, n=min(len(groups), 4))
        st = gen = 0
        for idxs, (acc, r) in zip(groups, results):
            st += r.distinct
            gen += r.generated
            for name, k in re.findall(r'<<"TAG", "([^"]+)", (\d+)>>', r.out):
                self.tags.setdefault(name, set()).add(back[idxs[int(k) - 1]])
            for k, i in enumerate(idxs):
                if (k + 1) not in acc:
                    rejected.append(i)
        # confirm each rejection on its own (a rejection is believed only if it repeats)
        out = []
        for i in rejected[:10]:
            acc, r = self._validate_group(module, [traces[i]], consts, 1, timeout, dfs, extra_cfg, invariants, spec, at=True)
            if 1 in acc:
                self.log("rejection of trace %d did not repeat; ignored" % i)
                continue
            m = re.findall(r'<<"AT", \d+, (\d+)>>', r.out)
            at = max([int(x) for x in m] + [0]) - 1 if m else r.depth
            out.append((back[i], at, r.out[-1500:]))
        p = self.cov["parts"].setdefault("traces:" + part, {"traces": 0, "events": 0, "tlc_states": 0})
        p["traces"] += len(traces)
        p["events"] += sum(len(t["ev"]) for t in traces)
        p["tlc_states"] += st
        self.cov["traces_validated_against_impl"] += len(traces) - len(out)
        self.cov["states"] += st
        self.cov["transitions"] += gen
        self.log("traces %s: %d validated (%d events, %d TLC states), %d rejected" %
                 (part, len(traces), sum(len(t["ev"]) for t in traces), st, len(out)))
        return out

    def _validate_group(self, module, traces, consts, workers, timeout, dfs, extra_cfg, invariants, spec, at=False):
        f = tempfile.NamedTemporaryFile("w", prefix="traces.", suffix=".ndjson", dir=self.work, delete=False)
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
        f.close()
        cfg = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec + consts + "\n" + extra_cfg + "\n" + \
              "".join("INVARIANT %s\n" % i for i in invariants)
        jp = ["tlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []
        if at:
            cfg += "CONSTRAINT AtPrint\n"
        r = self.tlc(module, cfg, wrap="AtPrint == PrintT(<<\"AT\", tid, l>>)" if at else None, env={"TRACES": f.name}, workers=workers, timeout=timeout, jprops=jp,
                     extra=["-continue"] if invariants else [])
        os.unlink(f.name)
        if r.rc not in (0, 12, 13) or (r.rc != 0 and not invariants):
            if r.rc in (75, 76, 77, 255) and "Parsing or semantic analysis failed" not in r.out:
                # What was recorded is outside of what the specification can even evaluate: find which trace it is.
                if len(traces) == 1:
                    return set(), r
                h, accs = len(traces) // 2, set()
                for off, part in ((0, traces[:h]), (h, traces[h:])):
                    a, r2 = self._validate_group(module, part, consts, workers, timeout, dfs, extra_cfg, invariants, spec, at)
                    accs |= {x + off for x in a}
                    r = r2
                return accs, r
            raise CheckError("trace validation with %s failed (rc=%s):\n%s" % (module, r.rc, r.out[-6000:]))
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.out))
        if invariants and r.rc != 0:
            # an invariant failed in some trace: it names tid in the printed state
            bad = set(int(x) for x in re.findall(r"/\\ tid = (\d+)", r.out))
            acc -= bad
        return acc, r

    # ---------------------------------------------------------------- reporting
    def violation(self, text, payload=None, key=None):
        """Registers a violation; `key` identifies it against known_findings.txt."""
        if key is not None:
            for k, what in self.known:
                if k == key:
                    self.known_hits[k] = what
                    return
        self._replay_n += 1
        os.makedirs(self.replay_dir, exist_ok=True)
        rp = os.path.join(self.replay_dir, "replay.%d.%d.json" % (self.seed, self._replay_n))
        with open(rp, "w") as f:
            json.dump({"property": self.pid, "what": text, "key": key, "payload": payload}, f, indent=1)
        self.violations.append((key, text, rp))
        if len(self.violations) <= 5:
            self.log("violation:", text[:1500])

    def sample(self, s, cap=6):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s if isinstance(s, str) else json.dumps(s)[:600])

    def finish(self, level="model_checking", rule="", evaluations=None, nontrivial=None):
        cov = self.cov
        for k, v in (("evaluations", evaluations), ("distinct_nontrivial", nontrivial), ("rule", rule)):
            if v:
                cov[k] = v
            elif not cov.get(k):
                cov.pop(k, None)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions,
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.args.keep:
            shutil.rmtree(self.work, ignore_errors=True)
        for k, what in self.known_hits.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if self.violations:
            for _, text, rp in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.stdout.flush()
            os._exit(1)
        self.log("OK: held on everything explored")
        sys.stdout.flush()
        os._exit(0)


def main(pid, body):
    c = Check(pid)
    try:
        body(c)
    except CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (pid, e))
        if not c.args.keep:
            shutil.rmtree(c.work, ignore_errors=True)
        # A violation already established stands on its own.
        if c.violations:
            c.finish()
        sys.stdout.flush()
        os._exit(2)


def read_ndjson(text):
    res = []
    for line in text.splitlines():
        line = line.strip()
        if line.startswith("{"):
            try:
                res.append(json.loads(line))
            except ValueError:
                pass
    return res


def tla(v):
    """A Python value as a TLA+ literal for cfg constants."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (list, tuple)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    raise ValueError(v)
