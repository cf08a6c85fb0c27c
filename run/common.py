"""Building, running TLC, reporting."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(TARGET, "debug", "twharness")
CLI = os.path.join(BUILD, "clitarget", "debug", "spl-token-wrap")
SBF = os.path.join(BUILD, "sbftarget", "sbpf-solana", "release", "libspl_token_wrap.so")
CHAIN = "/opt/vp/sbpf"  # what is installed to compile for the chain
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


LINKER = os.path.join(VERIF, "sbf", "linker.sh")


class ToolError(Exception):
    pass


def sources():
    """files of /repo that the build depends on"""
    r = []
    for top in ("program", "clients/cli", "Cargo.toml", "Cargo.lock", "rust-toolchain.toml", "idl.json"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            r.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
            r += [os.path.join(d, f) for f in sorted(fs)]
    return r


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def sh(cmd, log, timeout=1500, env=None, cwd=None):
    with open(log, "wb") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
    return r.returncode


def cargo_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/sbpf/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    e = dict(x.split("=", 1) for x in out.decode("utf8", "replace").split("\0") if "=" in x)
    return e


def forget(target):
    """cargo's belief that the crates of /repo are up to date (both layouts of its target folder)"""
    for d, ds, _ in os.walk(target):
        for x in list(ds):
            if x.startswith(("spl-token-wrap", "twharness")) and (d.endswith(".fingerprint") or os.path.basename(d) == "build"):
                shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds.remove(x)
        if d.count(os.sep) > target.count(os.sep) + 3:
            ds[:] = []


def build(which=("harness",)):
    """from /repo as it is now; what cargo believes about file times is not relied on"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for w in which:
            target = {"harness": TARGET, "cli": os.path.join(BUILD, "clitarget"), "sbf": os.path.join(BUILD, "sbftarget")}[w]
            own = [os.path.join(VERIF, "harness", "Cargo.toml")] + [
                os.path.join(d, f) for d, _, fs in os.walk(os.path.join(VERIF, "harness", "src")) for f in sorted(fs)]
            d = digest(sources() + (own if w == "harness" else [LINKER] if w == "sbf" else []))
            stamp = os.path.join(BUILD, w + ".stamp")
            binary = {"harness": HARNESS, "cli": CLI, "sbf": SBF}[w]
            if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == d:
                continue
            forget(target)
            env = cargo_env()
            env["CARGO_TARGET_DIR"] = target
            log = os.path.join(BUILD, w + ".build.log")
            if w == "harness":
                rc = sh(["cargo", "build", "--offline", "--locked"], log, env=env, cwd=os.path.join(VERIF, "harness"))
            elif w == "sbf":
                # as /opt/vp/sbpf/build-sbf.sh does, but with nothing written into /repo
                env.update(RUSTUP_TOOLCHAIN="nightly", CARGO_INCREMENTAL="0", CARGO_TARGET_SBPF_SOLANA_LINKER=LINKER,
                           __CARGO_TESTS_ONLY_SRC_ROOT=os.path.join(CHAIN, "rustsrc", "library"), RUSTC_BOOTSTRAP_SYNTHETIC_TARGET="1",
                           CARGO_PROFILE_RELEASE_OPT_LEVEL="s", CARGO_PROFILE_RELEASE_PANIC="abort",
                           RUSTFLAGS="-C target-cpu=v2 -C passes=lower-atomic")
                rc = sh(["cargo", "rustc", "--release", "--offline", "--locked", "--lib", "--target", os.path.join(CHAIN, "sbpf-solana.json"),
                         "-Zjson-target-spec", "-Zbuild-std=std,panic_abort", "-Zbuild-std-features=", "--crate-type", "cdylib",
                         "-p", "spl-token-wrap"], log, env=env, cwd=REPO)
            else:
                env["CARGO_PROFILE_DEV_DEBUG"] = "0"
                env["CARGO_INCREMENTAL"] = "0"
                rc = sh(["cargo", "build", "--offline", "--locked", "-p", "spl-token-wrap-cli"], log, env=env, cwd=REPO)
            if rc != 0:
                raise ToolError(f"{w} does not build, see {log}:\n" + open(log, errors="replace").read()[-3000:])
            with open(stamp, "w") as f:
                f.write(d)


def tlc(module, cfg, out, env=None, heap="3g", workers=1, timeout=3000, args=(), quiet_ok=False):
    """run TLC in spec/; returns its exit code, output in file `out`"""
    meta = out + ".meta"
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", gc, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg, *args, module]
    with open(out, "wb") as f:
        try:
            rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=SPEC, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module}/{cfg} took more than {timeout} s")
    shutil.rmtree(meta, ignore_errors=True)
    return rc


def strings(path):
    """what the specification printed: TLC writes strings in quotes"""
    with open(path, errors="replace") as f:
        for l in f:
            if l.startswith('"@'):
                yield l.strip()[1:-1]


def tlc_numbers(path):
    """states generated, distinct, depth"""
    t = open(path, errors="replace").read()
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states", t)
    g = [int(x.replace(",", "")) for x in m[-1]] if m else [0, 0]
    d = re.findall(r"depth of the complete state graph search is (\d+)", t)
    return g[0], g[1], int(d[-1]) if d else 0


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
                if m:
                    r.append(m.groups())
    return r


class Run:
    """one check of one property"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(BUILD, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.level = "model_checking"

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for what, replay in self.violations[:5]:
            print(f"VIOLATION property={self.prop} replay={replay}")
            print(f"  {what}")
        if len(self.violations) > 5:
            print(f"  ... and {len(self.violations) - 5} more")
        if not self.violations:
            shutil.rmtree(self.dir, ignore_errors=True)
            print(f"{self.prop} held on everything explored ({self.tier}, {ev['wall_s']} s)")
        return 1 if self.violations else 0


def parallel(jobs, n=CORES):
    with ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(*j) for j in jobs]
        return [f.result() for f in fs]
