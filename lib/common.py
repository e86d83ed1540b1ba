"""Building, running and reporting: shared by all checks. Nothing here decides anything."""
import fcntl, json, os, re, resource, select, subprocess, sys, time, hashlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SOURIS_REPO", "/repo")
SPEC = os.path.join(V, "spec")
TARGET = os.path.join(V, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "LD_PRELOAD"):
        e.pop(k, None)
    return e


def work(prop):
    d = os.path.join(V, "work", prop)
    os.makedirs(d, exist_ok=True)
    return d


class Lock:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.p = os.path.join(TARGET, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo(args, cwd, what, extra=None, timeout=800):
    e = env()
    e.update(extra or {})
    with Lock("build"):
        p = subprocess.run(["cargo"] + args + ["--offline"], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise ToolError(f"building {what} failed:\n" + p.stdout[-6000:])
    return p.stdout


def build_conf():
    cargo(["build", "-q"], os.path.join(V, "harness", "conf"), "the executor")
    return os.path.join(TARGET, "debug", "conf")


def build_web():
    cargo(["build", "-q"], os.path.join(V, "harness", "web"), "the executor of handlers")
    return os.path.join(TARGET, "debug", "web")


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


class Runner:
    """One executor process; answers lines in order. A case that kills it is reported as such."""

    def __init__(self, binary, gb=3, timeout=60):
        self.binary, self.gb, self.timeout, self.p = binary, gb, timeout, None

    def start(self):
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits(self.gb), env=env())
        self.buf = b""

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def ask(self, case):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(case) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + self.timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                self.stop()
                return {"r": "hang"}
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                rc = self.p.wait()
                self.p = None
                if rc == 3:
                    raise ToolError("the executor could not read a case: " + json.dumps(case)[:300])
                return {"r": "abort", "rc": rc}
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


def execute(binary, cases, gb=3, timeout=60):
    """Runs every case; each process takes a share."""
    import threading
    out = [None] * len(cases)
    n = min(CPUS, max(1, len(cases) // 8))
    errs = []

    def share(k):
        r = Runner(binary, gb, timeout)
        try:
            for i in range(k, len(cases), n):
                out[i] = r.ask(cases[i])
        except Exception as e:
            errs.append(e)
        finally:
            r.stop()
    ts = [threading.Thread(target=share, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return out


def tlc(module, cfg, cwd, cases=None, workers=None, extra=(), timeout=800, xmx="6g", xss="64m", envx=None, jvm=()):
    """Runs TLC on spec/<module>.tla; gives its output and exit code."""
    meta = os.path.join(cwd, "states-" + module)
    tmp = meta + "-tmp"
    subprocess.run(["rm", "-rf", meta, tmp])
    os.makedirs(tmp)
    e = env()
    if cases:
        e["CASES"] = cases
    e.update(envx or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", f"-Xss{xss}", f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={tmp}", *jvm, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers or CPUS), "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg), *extra,
           module if os.path.isabs(module) else os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC did not finish {module} in {timeout} s")
    finally:
        subprocess.run(["rm", "-rf", meta, tmp])
    return p.returncode, p.stdout


def why(out):
    """what TLC complained about"""
    ls = [l[:300] for l in out.splitlines() if not l.startswith("<<")]
    k = next((i for i, l in enumerate(ls) if l.startswith("Error:")), 0)
    return "\n".join(ls[k:k + 25])[:3000]


def states(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def judge(prop, module, cases, timeout=800, part=""):
    """Has TLC judge recorded cases; gives the indices that were rejected, and the states it visited."""
    d = work(prop)
    f = os.path.join(d, f"cases{part}.ndjson")
    idx = list(range(len(cases)))
    odd = []
    while True:
        with open(f, "w") as h:
            for i in idx:
                h.write(json.dumps(cases[i]) + "\n")
        rc, out = tlc(module, module + ".cfg", d, cases=f, extra=["-continue"], timeout=timeout)
        bad = sorted({idx[int(x) - 1] for x in re.findall(r'<<"REJECTED", (\d+)>>', out)})
        if rc in (0, 12) and "states generated" in out:
            if states(out)[1] != 61 + len(idx):
                raise ToolError("TLC did not judge every case: " + why(out))
            return sorted(bad + odd), states(out)
        # the specification cannot even be evaluated on what the code answered: that case is rejected too
        m = re.findall(r'<<"CASE", (\d+)>>', out)
        st = re.findall(r"/\\ blk = (\d+)\s*\n/\\ at = (-?\d+)|/\\ at = (-?\d+)\s*\n/\\ blk = (\d+)", out)
        with open(os.path.join(d, "tlc.log"), "w") as h:
            h.write(out)
        if odd and len(odd) >= 5:  # enough of them, if that is what they are
            with open(f, "w") as h:
                h.write(json.dumps(cases[odd[0]]) + "\n")
            one, _ = tlc(module, module + ".cfg", d, cases=f, timeout=timeout)
            if one not in (0, 12):
                return sorted(set(bad + odd)), states(out)
        elif st:
            a, b, c, e = st[-1]
            n = int(b or c) * 61 + int(a or e)
            if 0 <= n < len(idx):
                odd.append(idx[n])
                sys.stderr.write("not even evaluated: " + short(cases[idx[n]], 400) + "\n" + "\n".join(l for l in out.splitlines() if "rror" in l)[:300] + "\n")
                del idx[n]
                continue
        raise ToolError("TLC failed: " + why(out) + " see " + d + "/tlc.log")


def evidence(prop, level, coverage, t0, violations, assumptions=()):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as h:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage, "assumptions": list(assumptions),
                   "wall_s": round(time.time() - t0, 2), "violations": violations}, h, indent=1)


def replay_file(prop, name, content):
    d = os.path.join(V, "work", prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, "w") as h:
        h.write(content if isinstance(content, str) else json.dumps(content, indent=1))
    return p


def violation(prop, path):
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def known(prop):
    """Entries of the known-findings file for this property: 'known: property=<id> key=<key> <what fails>'"""
    res = {}
    for l in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            res[m.group(2)] = m.group(3)
    return res


def short(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."
