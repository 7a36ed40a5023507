"""Runs TLC on the specifications in /verif/spec, replays the behaviours it
generates into the library (harness `jj`), records behaviours of the library
and validates them with TLC, and keeps the books for the evidence file.

Nothing in here decides a property: TLC and the specification do."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, why, payload):
        super().__init__(why)
        self.why = why
        self.payload = payload


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.quick = tier != "thorough"
        self.budget = 840 if self.quick else 6 * 3600
        self.work = os.path.join(HERE, "work", f"{prop}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.replayed = 0
        self.evals = {}
        self.notes = {}
        self.models = []
        self.samples = []
        self.findings = []
        self.assumptions = []
        self.bins = {}
        self.nfile = 0
        self.known = known_findings()
        self._probe = None

    def left(self):
        return max(5, self.budget - (time.time() - self.t0))

    def path(self, name):
        self.nfile += 1
        return os.path.join(self.work, f"{self.nfile:03d}-{name}")

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ----------------------------------------------------------------- build
    def bin(self, kind="full"):
        """the harness, built from /repo's working tree as it is now"""
        if kind in self.bins:
            return self.bins[kind]
        target = os.path.join(HARNESS, "target", kind)
        h = hashlib.sha256()
        for base, dirs, files in sorted(os.walk(REPO)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "tests"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(base, f)
                    h.update(p.encode())
                    with open(p, "rb") as fd:
                        h.update(fd.read())
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
        stamp = os.path.join(target, "stamp")
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != h.hexdigest() and os.path.isdir(target):
            sh(["cargo", "clean", "--offline", "-p", "justjson", "-p", "jj"], cwd=HARNESS, env=env)
        cmd = ["cargo", "build", "--offline", "-q"]
        cmd += {"full": [], "alloc": ["--no-default-features", "--features", "full"], "noalloc": ["--no-default-features"]}[kind]
        r = sh(cmd, cwd=HARNESS, env=env, timeout=self.left())
        if r.returncode != 0:
            raise ToolError("the harness does not build against /repo:\n" + r.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(h.hexdigest())
        b = os.path.join(target, "debug", "jj")
        self.bins[kind] = b
        self.log(f"built harness ({kind})")
        return b

    def probe(self, name):
        if self._probe is None:
            r = self.spawn([self.bin(), "probe"], 60)
            try:
                self._probe = json.loads(r[1].strip().splitlines()[-1])
            except Exception:
                raise ToolError("probe: " + r[1])
        return self._probe[name]

    def backspace(self):
        """what `\\b` decodes to, as a constant for the specification"""
        return 7 if self.probe("backspace") == 7 else 8

    # ------------------------------------------------------------------- TLC
    def tlc(self, label, module, constants=None, invariants=(), properties=(), view=None, constraint=None,
            action_constraint=None, spec="Spec", workers=1, heap="2g", simulate=None, depth=None, env=None,
            expect_violation=False, postcondition=None, timeout=None, stack=None, init_next=None):
        out = self.path(label + ".out")
        cfg = self.path(label + ".cfg")
        meta = self.path(label + ".states")
        os.makedirs(meta)
        with open(cfg, "w") as f:
            if init_next:
                f.write(f"INIT {init_next[0]}\nNEXT {init_next[1]}\n")
            else:
                f.write(f"SPECIFICATION {spec}\n")
            for k, v in (constants or {}).items():
                f.write(f"CONSTANT {k} {v[0]} {v[1]}\n" if isinstance(v, tuple) else f"CONSTANT {k} = {tla(v)}\n")
            for i in invariants:
                f.write(f"INVARIANT {i}\n")
            for p in properties:
                f.write(f"PROPERTY {p}\n")
            if view:
                f.write(f"VIEW {view}\n")
            if constraint:
                f.write(f"CONSTRAINT {constraint}\n")
            if action_constraint:
                f.write(f"ACTION_CONSTRAINT {action_constraint}\n")
            if postcondition:
                f.write(f"POSTCONDITION {postcondition}\n")
            f.write("CHECK_DEADLOCK FALSE\n")
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", f"-Xmx{heap}",
               f"-Xss{stack or '16m'}", "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
               "-workers", str(workers), "-config", cfg]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(self.seed)]
        cmd += [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        e = dict(os.environ)
        e.update(env or {})
        with open(out, "w") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC, env=e, start_new_session=True)
            try:
                p.wait(timeout=timeout or self.left())
            except subprocess.TimeoutExpired:
                kill(p)
                raise ToolError(f"TLC timed out on {label}")
        shutil.rmtree(meta, ignore_errors=True)
        res = {"label": label, "module": module, "rc": p.returncode, "out": out, "wall": time.time() - t}
        gen = dist = emitted = 0
        tail = []
        reject = None
        for line in open(out, errors="replace"):
            if line.startswith('"{'):
                emitted += 1
                continue
            if line.startswith('<<"REJECT"'):
                reject = reject or line.strip()
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                gen = dist = int(m.group(1))
            tail.append(line)
            if len(tail) > 160:
                tail.pop(0)
        res.update(generated=gen, distinct=dist, emitted=emitted, reject=reject, tail="".join(tail))
        if reject is None and p.returncode != 0:
            raise ToolError(f"TLC failed on {label} (rc {p.returncode}):\n" + res["tail"][-3500:])
        return res

    def model(self, jobs):
        """several TLC runs in parallel; job = dict(label=, module=, ...); the
        specification itself must satisfy its invariants"""
        with cf.ThreadPoolExecutor(max_workers=max(1, CPUS)) as ex:
            rs = list(ex.map(lambda j: self.tlc(**j), jobs))
        for j, r in zip(jobs, rs):
            if r["reject"]:
                raise ToolError(f"unexpected rejection in {r['label']}: {r['reject']}")
            self.book(j, r)
        return rs

    def book(self, j, r):
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": r["label"], "module": r["module"],
                            "constants": {k: (v[1] if isinstance(v, tuple) else v) for k, v in (j.get("constants") or {}).items()},
                            "invariants": list(j.get("invariants", ())),
                            "states": r["distinct"], "transitions": r["generated"], "behaviours_emitted": r["emitted"],
                            "wall_s": round(r["wall"], 1)})
        self.log(f"TLC {r['label']}: {r['distinct']} states, {r['generated']} transitions, {r['emitted']} behaviours, {r['wall']:.1f}s")

    # --------------------------------------------------------------- harness
    def spawn(self, cmd, timeout, out=None):
        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        f = open(out, "w") if out else subprocess.PIPE
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, text=True, errors="replace",
                             preexec_fn=limits, start_new_session=True, cwd=self.work)
        try:
            o, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            kill(p)
            return ("timeout", "")
        finally:
            if out:
                f.close()
        return (p.returncode, o if not out else open(out, errors="replace").read())

    def replay(self, results, aspects, kind="full", shards=CPUS, extra=()):
        """feed emitted behaviours to the library; judge the given aspects"""
        files = [r["out"] if isinstance(r, dict) else r for r in results]
        total = sum(r["emitted"] for r in results if isinstance(r, dict))
        if total == 0:
            raise ToolError("no behaviours to replay")
        b = self.bin(kind)

        def one(i):
            prog = self.path(f"progress{i}")
            cmd = [b, "replay", "--aspects", ",".join(aspects), "--files", ",".join(files), "--shard", f"{i}/{shards}",
                   "--progress", prog, "--seed", str(self.seed)] + list(extra)
            return i, prog, self.spawn(cmd, self.left())

        with cf.ThreadPoolExecutor(max_workers=shards) as ex:
            outs = list(ex.map(one, range(shards)))
        fails, done, lines = [], 0, set()
        for i, prog, (rc, out) in outs:
            last = ""
            for line in out.splitlines():
                if line.startswith("FAIL "):
                    fails.append(json.loads(line[5:]))
                elif line.startswith("DONE "):
                    d = json.loads(line[5:])
                    done += 1
                    lines.add(d["lines"])
                    self.replayed += d["vectors"]
                    for k, v in d["evals"].items():
                        self.evals[k] = self.evals.get(k, 0) + v
                    for k, v in d["notes"].items():
                        self.notes[k] = self.notes.get(k, 0) + v
                else:
                    last = line
            if rc == 0:
                continue
            if rc == 4 or rc == 2 or rc == 101:
                raise ToolError(f"harness failed (rc {rc}):\n{out[-3000:]}")
            why = {5: "the library does not terminate (no progress for 25 s)", "timeout": "the library does not terminate"}.get(
                rc, f"the process was ended by signal {-rc if isinstance(rc, int) else rc}: {last[-300:]}")
            vec = progress_vector(prog, files)
            if vec is None:
                raise ToolError(f"harness died before the first vector (rc {rc}):\n{out[-3000:]}")
            fails.append({"aspect": aspects[0], "why": why, "vec": vec})
        if fails:
            fails.sort(key=lambda f: len(f["vec"]))
            f = fails[0]
            raise Violation(f"[{f['aspect']}] {f['why']}", {"kind": "vector", "bin": kind, "aspects": aspects, "why": f["why"],
                                                          "vector": f["vec"], "others": [x["why"][:300] for x in fails[1:10]]})
        if done != shards or lines != {total}:
            raise ToolError(f"replay incomplete: {done} of {shards} shards, {lines} lines instead of {total}")
        for a in aspects:
            if not self.evals.get(a):
                raise ToolError(f"aspect {a} was never evaluated")
        self.log(f"replayed {total} behaviours into the library, aspects {','.join(aspects)}")

    def record(self, suite, count, kind="full", shards=CPUS, seed0=0):
        """record `count` behaviours of the library, spread over `shards` files"""
        b = self.bin(kind)

        def one(i):
            out = self.path(f"trace-{suite}-{i}.ndjson")
            prog = self.path(f"rec-progress{i}")
            n = count // shards + (1 if i < count % shards else 0)
            cmd = [b, "record", "--suite", suite, "--seed", str(self.seed * 1000 + seed0 + i), "--count", str(n), "--out", out,
                   "--progress", prog]
            return out, prog, n, self.spawn(cmd, self.left())

        with cf.ThreadPoolExecutor(max_workers=shards) as ex:
            rs = list(ex.map(one, range(shards)))
        files = []
        for out, prog, n, (rc, txt) in rs:
            if rc != 0:
                if rc in (4, 2, 101):
                    raise ToolError(f"recorder failed (rc {rc}):\n{txt[-3000:]}")
                inp = open(prog, errors="replace").read() if os.path.exists(prog) else "?"
                raise Violation(f"the library crashes or hangs while recording {suite} (rc {rc})",
                                {"kind": "recording", "suite": suite, "input": inp, "rc": str(rc)})
            files.append(out)
        self.log(f"recorded {count} {suite} behaviours")
        return files

    def validate(self, module, files, constants=None, label=None, workers=1, min_states=1, heap="3g", invariants=("Conforms",)):
        """TLC decides whether the recorded behaviours are behaviours of the specification"""
        def one(f):
            return f, self.tlc(label or f"{module}-{os.path.basename(f)[:3]}", module, constants=constants, invariants=invariants,
                               workers=workers, env={"TRACE": f}, heap=heap, stack="64m")

        with cf.ThreadPoolExecutor(max_workers=CPUS) as ex:
            rs = list(ex.map(one, files))
        st = tr = n = 0
        for f, r in rs:
            lines = [x for x in open(f, errors="replace").read().split("\n") if x]
            if r["reject"]:
                m = re.match(r'<<"REJECT", (\d+)(.*)>>', r["reject"])
                idx = int(m.group(1))
                raise Violation(f"recorded behaviour rejected by {module}: {r['reject'][:400]}",
                                {"kind": "trace", "module": module, "constants": constants, "trace": lines[idx - 1],
                                 "reason": r["reject"], "state": r["tail"][-2500:]})
            if r["distinct"] < min_states * len(lines):
                raise ToolError(f"{module}: only {r['distinct']} states for {len(lines)} traces")
            st += r["distinct"]
            tr += r["generated"]
            n += len(lines)
        if n == 0:
            raise ToolError("no traces")
        self.states += st
        self.transitions += tr
        self.validated += n
        self.models.append({"model": label or module, "module": module, "constants": constants or {}, "traces": n, "states": st, "transitions": tr})
        self.log(f"TLC validated {n} recorded behaviours against {module}: {st} states")
        return rs

    def reject_check(self, module, file, mutate, constants=None, heap="3g"):
        """the binding is not vacuous: a corrupted recording must be rejected"""
        lines = [json.loads(x) for x in open(file, errors="replace").read().split("\n") if x]
        out = self.path("corrupt.ndjson")
        done = False
        with open(out, "w") as f:
            for l in lines:
                if not done and mutate(l):
                    done = True
                    f.write(json.dumps(l) + "\n")
        if not done:
            raise ToolError(f"{module}: nothing to corrupt")
        r = self.tlc(f"{module}-corrupted", module, constants=constants, invariants=("Conforms",), env={"TRACE": out}, heap=heap, stack="64m")
        if not r["reject"]:
            raise ToolError(f"{module} accepts a corrupted trace")
        self.notes["corrupted traces rejected"] = self.notes.get("corrupted traces rejected", 0) + 1

    def sample(self, what, item):
        if len(self.samples) < 12:
            self.samples.append({what: item})

    def sample_vectors(self, result, n=3):
        """a few of the emitted behaviours, for the evidence"""
        got = []
        with open(result["out"], errors="replace") as f:
            for line in f:
                if line.startswith('"{'):
                    got.append(line)
                    if len(got) > 4000:
                        break
        if got:
            for k in range(n):
                v = unprint(got[(k * 7919 + self.seed * 31) % len(got)])
                self.sample(f"behaviour from {result['label']}", v if len(v) < 700 else v[:700] + "...")

    # --------------------------------------------------------------- endings
    def finding(self, fid, what):
        """a deviation that was observed: known (listed) or a violation"""
        if (self.prop, fid) in self.known:
            self.findings.append(fid)
            print(f"KNOWN-FINDING: property={self.prop} {fid}: {what}", flush=True)
        else:
            raise Violation(what, {"kind": "finding", "id": fid, "what": what})

    def evidence(self, level, violations, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.replayed + self.validated,
               "behaviours_replayed_into_impl": self.replayed, "recorded_traces_validated": self.validated,
               "judgements": self.evals, "notes": self.notes, "models": self.models, "samples": self.samples or ["none"]}
        cov.update(extra or {})
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": level,
                       "coverage": cov, "assumptions": self.assumptions, "known_findings_observed": self.findings,
                       "wall_s": round(time.time() - self.t0, 1), "violations": violations}, f, indent=1)

    def replay_file(self, payload):
        d = os.path.join(HERE, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"violation-seed{self.seed}.json")
        payload = dict(payload, property=self.prop, seed=self.seed, tier=self.tier)
        with open(p, "w") as f:
            json.dump(payload, f, indent=1)
        return p

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"' + v + '"'
    return str(v)


def unprint(line):
    """undo TLC's printing of a string"""
    s = line.strip()[1:-1]
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s)


def progress_vector(prog, files):
    try:
        fi, no = open(prog).read().split()[:2]
        no = int(no)
    except Exception:
        return None
    k = 0
    for line in open(files[int(fi)], errors="replace"):
        if line.startswith('"{') or line.startswith("{"):
            k += 1
            if k == no:
                return unprint(line) if line[0] == '"' else line.strip()
    return None


def known_findings():
    known = set()
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+)", line)
            if m:
                known.add((m.group(1), m.group(2)))
    return known
