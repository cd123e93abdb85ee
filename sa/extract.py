"""Extraction: compile /repo's current tree with the MIR driver as rustc wrapper and load the dump.

The dump is rewritten on every call (the package is cleaned first and the old
dump file deleted), so a stale dump can never be analysed."""
import fcntl, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CACHE = os.path.join(VERIF, ".cache")
TARGET = os.path.join(CACHE, "target")
DRIVER_DIR = os.path.join(VERIF, "driver")
DRIVER = os.path.join(DRIVER_DIR, "target", "debug", "mirdump")
CONFIGS = {"all": ["--all-features"], "default": []}


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "MIRDUMP_OUT", "MIRDUMP_CRATES"):
        e.pop(k, None)
    return e


def _run(cmd, env, cwd, what):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ExtractError(f"{what} failed (rc {r.returncode}):\n{r.stdout[-4000:]}")
    return r.stdout


def sysroot(env):
    return subprocess.run(["rustc", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def build_driver():
    env = _env()
    _run(["cargo", "build", "--offline", "--quiet"], env, DRIVER_DIR, "building the MIR driver")
    if not os.path.exists(DRIVER):
        raise ExtractError("driver binary missing after build")


def extract(config, repo=REPO, target=TARGET):
    """-> dict(lib=..., bin=...) for one feature configuration."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as l:       # one extraction at a time
        fcntl.flock(l, fcntl.LOCK_EX)
        return _extract(config, repo, target)


def _extract(config, repo, target):
    env = _env()
    out = os.path.join(CACHE, "dump", config)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    env.update(
        LD_LIBRARY_PATH=os.path.join(sysroot(env), "lib"),
        RUSTFLAGS="-Zthreads=1 -Zmir-opt-level=0",
        RUSTC_WORKSPACE_WRAPPER=DRIVER,
        MIRDUMP_CRATES="toon",
        MIRDUMP_OUT=out,
        CARGO_TARGET_DIR=target,
    )
    _run(["cargo", "clean", "-p", "tru", "--locked", "--offline"], env, repo, "cargo clean -p")
    _run(["cargo", "check", *CONFIGS[config], "--lib", "--bins", "--locked", "--offline"], env, repo, "cargo check with the MIR driver")
    res = {}
    for k in ("lib", "bin"):
        p = os.path.join(out, f"toon.{k}.json")
        if not os.path.exists(p):
            raise ExtractError(f"driver wrote no dump for {k} ({config}); the wrapper was skipped")
        with open(p) as f:
            res[k] = json.load(f)
    return res


if __name__ == "__main__":
    t = time.time()
    build_driver()
    print(f"driver built {time.time()-t:.1f}s")
    for c in CONFIGS:
        t = time.time()
        d = extract(c)
        print(f"{c}: {len(d['lib']['bodies'])} lib bodies, {len(d['bin']['bodies'])} bin bodies, {time.time()-t:.1f}s")
