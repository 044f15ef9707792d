#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--seed N] [--keep]
Decide one property: model check its specification(s) with TLC, drive the real code with the
specification's behaviours and with generated histories, and let TLC decide whether every recorded
trace is a behaviour of the specification. See DESIGN.md."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import CHECKS  # noqa: E402

JAVA_CP = ":".join([BUILD + "/java", "/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def toolchain_env():
    env = dict(os.environ)
    out = sh(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"]).stdout
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            env[k] = v
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    return env


def build_java():
    src = os.path.join(VERIF, "java/Prims.java")
    dst = os.path.join(BUILD, "java")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = os.path.join(dst, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(dst, exist_ok=True)
    r = sh(["javac", "-nowarn", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", dst, src])
    if r.returncode:
        raise CheckError("javac failed\n" + r.stdout)
    open(stamp, "w").write(h)


def repo_digest():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
                h.update(b"\0")
    return h.hexdigest()


def build_crate(crate):
    """Build /verif/harness/<crate> against REPO's working tree; returns the binary."""
    target = os.path.join(BUILD, crate)
    os.makedirs(target, exist_ok=True)
    env = toolchain_env()
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_INCREMENTAL"] = "1"
    cwd = os.path.join(VERIF, "harness", crate)
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "--message-format=json"]
    lock = open(os.path.join(target, ".vlock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    digest = repo_digest()
    stamp = os.path.join(target, ".repo-digest")
    prev = open(stamp).read() if os.path.exists(stamp) else ""

    def run():
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            msgs = [json.loads(l).get("message", {}).get("rendered", "") for l in r.stdout.splitlines()
                    if '"level":"error"' in l]
            raise CheckError("harness build failed\n" + "".join(m or "" for m in msgs)[-6000:] + r.stderr[-3000:])
        arts = [json.loads(l) for l in r.stdout.splitlines() if '"compiler-artifact"' in l]
        return arts
    arts = run()
    local = [a for a in arts if REPO + "/" in a.get("manifest_path", "")]
    if prev and prev != digest and all(a.get("fresh") for a in local):
        # the sources differ from the last build but cargo saw no newer file: rebuild them
        for name in {os.path.basename(os.path.dirname(a["manifest_path"])): a for a in local}.values():
            subprocess.run(["cargo", "clean", "--offline", "-p", name["package_id"]], cwd=cwd, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        arts = run()
    open(stamp, "w").write(digest)
    exe = [a["executable"] for a in arts if a.get("executable")]
    if not exe:
        raise CheckError("no harness executable")
    return exe[-1]


def tlc(module, cfg, work, env_extra, heap="2g", timeout=3600, workers=1, extra=()):
    """Run TLC; returns dict(ok, depth, states, distinct, out)."""
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ)
    env.update(env_extra)
    meta = os.path.join(work, "meta-" + os.path.basename(cfg))
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java", *gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=" + ("4" if timeout > 1000 else "4"),
           "-cp", JAVA_CP, "-DTLA-Library=" + VERIF + "/spec", "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(VERIF, "spec", cfg), *extra,
           os.path.join(VERIF, "spec", module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = "\n".join(l for l in r.stdout.splitlines() if not l.startswith("Loading "))
    res = {"rc": r.returncode, "out": out, "depth": None, "generated": 0, "distinct": 0}
    m = re.search(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        res["depth"] = int(m.group(1))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        res["generated"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
    return res


def limit():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = CHECKS[pid]
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.cov_models = []
        self.violations = []

    def run_models(self):
        scheds = []
        jobs = []
        for m in self.spec.get("models", []):
            if self.tier == "quick" and m.get("thorough_only"):
                continue
            cfg = m.get("thorough_cfg", m["cfg"]) if self.tier == "thorough" else m["cfg"]
            env = dict(m.get("env", {}))
            env.update(m.get("env_thorough", {}) if self.tier == "thorough" else {})
            sched = None
            if m.get("emits"):
                sched = os.path.join(self.work, cfg.replace(".cfg", "") + ".sched.ndjson")
                env["SCHED_OUT"] = sched
                scheds.append(sched)
            jobs.append((m, cfg, env, sched))

        def one(j):
            m, cfg, env, sched = j
            w = m.get("workers", 1)
            return tlc(m["module"], cfg, os.path.join(self.work, "mc-" + cfg), env, heap=m.get("heap", "2g"), workers=w)
        with cf.ThreadPoolExecutor(4) as ex:
            results = list(ex.map(one, jobs))
        for (m, cfg, env, sched), r in zip(jobs, results):
            if r["rc"] != 0:
                # the model is ours: a failing model is an error of the check, not of the code
                raise CheckError(f"model {cfg} failed\n" + r["out"][-4000:])
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["generated"]
            n = sum(1 for _ in open(sched)) if sched and os.path.exists(sched) else 0
            self.cov_models.append({"model": cfg, "states": r["distinct"], "transitions": r["generated"],
                                    "depth": r["depth"], "schedules_emitted": n})
        return scheds

    def run_driver(self, exe, driver, scheds, tdir):
        shards = self.spec.get("shards", 6)
        cmd = [exe, driver, "--seed", str(self.seed), "--tier", self.tier, "--out", tdir, "--shards", str(shards)]
        for s in scheds:
            cmd += ["--schedules", s]
        tmo = self.spec.get("driver_timeout", 400 if self.tier == "quick" else 3000)
        os.makedirs(tdir, exist_ok=True)
        err = open(os.path.join(tdir, "stderr"), "w")
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=err, text=True, timeout=tmo, preexec_fn=limit, cwd=tdir)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, out = "timeout", (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        if rc != 0:
            last = ""
            try:
                last = open(os.path.join(tdir, "last")).read()
            except OSError:
                pass
            tail = open(os.path.join(tdir, "stderr")).read()[-1500:]
            self.violation({"kind": "process", "exit": rc, "driver": driver, "while": last, "stderr": tail},
                           f"the code under test ended or hung the process (exit {rc}) during {last[:300]}")
            return None
        m = re.search(r"SUMMARY (\{.*\})", out)
        if not m:
            raise CheckError("driver printed no summary")
        return json.loads(m.group(1))

    def known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            for k in json.load(open(p)).get("known", []):
                if k["property"] == self.pid:
                    out.append(k)
        return out

    def violation(self, data, msg):
        for k in self.known():
            blob = json.dumps(data.get("row", data), sort_keys=True)
            if all(s in blob for s in k["match"]) and not any(s in blob for s in k.get("without", [])):
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                return
        rd = os.path.join(BUILD, "replays")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, f"{self.pid}-{len(self.violations)}.json")
        data["property"], data["seed"], data["tier"] = self.pid, self.seed, self.tier
        json.dump(data, open(p, "w"), indent=1)
        self.violations.append(p)
        if len(self.violations) > 5:
            return
        print(f"  {msg}")
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)

    def check_shard(self, module, cfg, path):
        rows = open(path).read().splitlines()
        rejected = []
        acc_states = 0
        accepted_cases = 0
        for attempt in range(6):
            if not rows:
                break
            cur = path + f".cur"
            open(cur, "w").write("\n".join(rows) + "\n")
            r = tlc(module, cfg, os.path.dirname(path) + "/" + os.path.basename(path) + ".d", {"TRACE": cur},
                    heap=self.spec.get("heap", "3g"))
            depth = r["depth"]
            if depth is None and 75 <= r["rc"] <= 79 and r["distinct"] and "OutOfMemory" not in r["out"]:
                # TLC could not evaluate the specification on the row: it has a shape no behaviour has
                depth = r["distinct"]
                if os.environ.get("KEEP"):
                    print(r["out"][-3000:])
            if depth is None or (depth - 1 >= len(rows) and r["rc"] != 0):
                raise CheckError(f"TLC error on {path} ({module})\n" + r["out"][-5000:])
            acc_states += r["distinct"]
            if depth - 1 >= len(rows):
                accepted_cases = len({json.loads(x)["c"] for x in rows})
                break
            bad = json.loads(rows[depth - 1])
            case = [x for x in rows if json.loads(x)["c"] == bad["c"]]
            rejected.append((bad, [json.loads(x) for x in case]))
            rows = [x for x in rows if json.loads(x)["c"] != bad["c"]]
        return accepted_cases, acc_states, rejected, path

    def run_traces(self, summary, part, tdir):
        module = part["trace"]
        cfg = part.get("cfg", "Trace.cfg")
        paths = [os.path.join(tdir, f) for f in sorted(os.listdir(tdir)) if re.fullmatch(r"t\d+\.ndjson", f)]
        paths = [p for p in paths if os.path.getsize(p)]
        if not paths:
            raise CheckError("no trace recorded")
        with cf.ThreadPoolExecutor(8) as ex:
            for n, st, rej, path in ex.map(lambda p: self.check_shard(module, cfg, p), paths):
                self.cov["traces_validated_against_impl"] += n
                self.cov["states"] += st
                self.cov["transitions"] += st
                for bad, case in rej:
                    self.violation({"kind": "trace", "spec": module, "row": bad, "case": case},
                                   f"{module} has no step for the recorded event {json.dumps(bad)[:700]}")
        self.cov.setdefault("events", 0)
        self.cov["events"] += summary["events"]
        self.cov.setdefault("event_kinds", {}).update(summary["kinds"])
        self.cov["samples"] += summary["samples"][:4]
        for k, v in summary.get("extra", {}).items():
            self.cov.setdefault("driver_counts", {})[k] = v

    def run(self):
        t0 = time.time()
        build_java()
        with cf.ThreadPoolExecutor(2) as ex:
            fm = ex.submit(self.run_models)
            fb = {c: build_crate(c) for c in {p["crate"] for p in self.spec["parts"]}}
            scheds = fm.result()
        for i, part in enumerate(self.spec["parts"]):
            tdir = os.path.join(self.work, f"trace{i}")
            s = self.run_driver(fb[part["crate"]], part["driver"], scheds, tdir)
            if s is not None:
                self.run_traces(s, part, tdir)
        self.cov["models"] = self.cov_models
        if not self.violations and self.cov["traces_validated_against_impl"] == 0:
            raise CheckError("nothing was checked")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.spec.get("level", "model_checking"),
              "coverage": self.cov, "assumptions": self.spec.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        if not os.environ.get("KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        print(f"{self.pid} {self.tier}: {self.cov['traces_validated_against_impl']} traces, {self.cov.get('events', 0)} events, "
              f"{self.cov['states']} states, {ev['wall_s']} s, {len(self.violations)} violation(s)")
        return 1 if self.violations else 0


def main():
    if sys.argv[1:2] == ["--setup"]:
        build_java()
        for c in sorted({p["crate"] for s in CHECKS.values() for p in s["parts"]}):
            build_crate(c)
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier":
            tier = a[1]
        elif a[0] == "--seed":
            seed = int(a[1])
        a = a[2:]
    try:
        return Check(pid, tier, seed).run()
    except CheckError as e:
        print("ERROR " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
