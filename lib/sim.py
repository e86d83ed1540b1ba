"""The daemon under the scheduler: built from its own sources, with stand-ins for tokio, moka and axum::serve."""
import json, os, re, shutil, subprocess, tempfile, tomllib
from concurrent.futures import ThreadPoolExecutor
from common import *

SIMSRC = os.path.join(V, "harness", "sim")
INTER = os.path.join(TARGET, "interpose.so")


def build_interpose():
    src = os.path.join(V, "harness", "interpose", "interpose.c")
    with Lock("interpose"):
        if not os.path.exists(INTER) or os.path.getmtime(INTER) < os.path.getmtime(src):
            p = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", INTER + ".new", src, "-ldl", "-lpthread"], capture_output=True, text=True)
            if p.returncode:
                raise ToolError("building the interposer failed:\n" + p.stderr[-3000:])
            os.rename(INTER + ".new", INTER)
    return INTER


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


def value(v):
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, list):
        return "[" + ", ".join(value(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {value(x)}" for k, x in v.items()) + " }"
    return str(v)


def build_sim():
    d = os.path.join(work("sim"), "src")
    crate = os.path.join(REPO, "crates", "sourisd")
    with Lock("simsrc"):
        for n in ("core", "tokio", "moka", "axum"):
            for r, _, fs in os.walk(os.path.join(SIMSRC, n)):
                for f in fs:
                    p = os.path.join(r, f)
                    put(os.path.join(d, os.path.relpath(p, SIMSRC)), open(p).read().replace("SOURISDB", os.path.join(REPO, "crates", "sourisdb")))
        man = tomllib.load(open(os.path.join(crate, "Cargo.toml"), "rb"))
        deps = {}
        for k, v in man.get("dependencies", {}).items():
            v = {"version": v} if isinstance(v, str) else dict(v)
            if "path" in v:
                v["path"] = os.path.normpath(os.path.join(crate, v["path"]))
            if k in ("tokio", "moka", "axum"):
                v = {"package": "sim" + k, "path": os.path.join(d, k)}
            deps[k] = v
        pk = man["package"]
        t = f'[package]\nname = "sourisd-sim"\nversion = {json.dumps(pk["version"])}\nedition = {json.dumps(pk.get("edition", "2021"))}\npublish = false\n'
        t += f'[workspace]\n[[bin]]\nname = "sourisd-sim"\npath = {json.dumps(os.path.join(crate, "src", "main.rs"))}\n[dependencies]\n'
        t += "".join(f"{k} = {value(v)}\n" for k, v in deps.items())
        t += "[profile.dev]\nopt-level = 1\ndebug = 0\n"
        b = os.path.join(d, "bin")
        put(os.path.join(b, "Cargo.toml"), t)
        lock = os.path.join(b, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    cargo(["build", "-q"], b, "the simulated daemon", extra={"RUSTFLAGS": "-Awarnings"})
    build_interpose()
    return os.path.join(TARGET, "debug", "sourisd-sim")


def run_sim(binary, scenarios, timeout=600, gb=4):
    """Runs scenarios, several at a time; gives results in order (None for what did not come back)"""
    out = {}

    def part(k):
        mine = [s for i, s in enumerate(scenarios) if i % CPUS == k]
        if not mine:
            return
        root = tempfile.mkdtemp(prefix="souris-sim-", dir="/dev/shm")
        e = env()
        e.update(LD_PRELOAD=INTER, SIM_ROOT=os.path.join(root, "r"), HOME=root, RUST_LOG="off")
        p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=limits(gb), cwd=root)
        try:
            o, err = p.communicate("\n".join(json.dumps(s) for s in mine).encode() + b"\n", timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, err = p.communicate()
        finally:
            shutil.rmtree(root, ignore_errors=True)
        for l in o.decode().splitlines():
            r = json.loads(l)
            out[r["id"]] = r
        if err.strip():
            out.setdefault("err", err.decode()[-2000:])

    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(part, range(CPUS)))
    return [out.get(s["id"]) for s in scenarios], out.get("err", "")
