"""Building and running the monitored workloads.

A leg is one build of the code in /repo together with a workload and its
monitors. It ends in one of three ways: held, violation, inconclusive.
"""
import concurrent.futures, json, os, re, resource, signal, subprocess, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
HARNESS = os.path.join(ROOT, "harness")
STABLE = "stable-x86_64-unknown-linux-gnu"

CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def env(**extra):
    e = {k: v for k, v in os.environ.items()
         if k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS",
                      "RUST_BACKTRACE", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e["TERM"] = "dumb"
    e["NO_COLOR"] = "1"
    e.update(extra)
    return e


class Proc:
    def __init__(self, rc, out, err, wall, timed_out):
        self.rc, self.out, self.err, self.wall, self.timed_out = rc, out, err, wall, timed_out


def run(cmd, timeout, environ=None, cwd=None, data_limit_gb=None):
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if data_limit_gb:
            b = data_limit_gb << 30
            resource.setrlimit(resource.RLIMIT_DATA, (b, b))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", env=environ or env(), cwd=cwd or ROOT, preexec_fn=pre)
    timed = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        timed = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    return Proc(p.returncode, out, err, time.time() - t, timed)


class Outcome(dict):
    """status, message, leg, command, plus what the monitors counted."""


def outcome(leg, status, message="", **kw):
    o = Outcome(leg=leg, status=status, message=message)
    o.update(kw)
    return o


SAN = re.compile(
    r"ERROR: (AddressSanitizer|LeakSanitizer)[^\n]*|WARNING: ThreadSanitizer:[^\n]*"
    r"|ERROR: ThreadSanitizer[^\n]*|error: Undefined Behavior:[^\n]*"
    r"|error: the evaluated program deadlocked[^\n]*|error: memory leaked[^\n]*")


def judge(leg, p, command):
    """Turn an ended workload process into an outcome."""
    base = dict(command=command, wall_s=round(p.wall, 1))
    m = SAN.search(p.err)
    result = None
    for line in p.out.splitlines():
        if line.startswith("@@RESULT "):
            try:
                result = json.loads(line[9:])
            except ValueError:
                pass
    if result:
        base.update(evaluations=result["evaluations"], distinct=result["distinct"],
                    counters=result["counters"], samples=result["samples"], where=result["where"])
    tail = p.err[-6000:]
    if m:
        at = max(0, m.start() - 200)
        return outcome(leg, "violation", m.group(0), detail=p.err[at:at + 6000], **base)
    if result and result["status"] == "violation":
        return outcome(leg, "violation", result["message"], detail=tail, **base)
    if p.timed_out:
        return outcome(leg, "inconclusive", "wall-clock limit", detail=tail, **base)
    if p.rc < 0 and -p.rc in CRASH:
        return outcome(leg, "violation", f"the process crashed: {signal.Signals(-p.rc).name}",
                       detail=tail, **base)
    if result and result["status"] == "held" and p.rc == 0:
        return outcome(leg, "held", **base)
    msg = result["message"] if result else f"no result, exit {p.rc}"
    return outcome(leg, "inconclusive", msg, detail=tail, **base)


def cargo(args, toolchain=STABLE, timeout=800, cwd=None, **extra):
    p = run(["cargo", *args], timeout, env(RUSTUP_TOOLCHAIN=toolchain, **extra), cwd=cwd)
    if p.rc != 0 and "--locked" in args and "lock file" in p.err and "needs to be updated" in p.err:
        # A dependency or version of /repo's crates changed: resolve anew.
        args = [a for a in args if a != "--locked"]
        p = run(["cargo", *args], timeout, env(RUSTUP_TOOLCHAIN=toolchain, **extra), cwd=cwd)
    return p


def build(crate, profile, timeout=800):
    """Build a harness crate natively; returns the directory of its binaries."""
    target = os.path.join(BUILD, crate)
    args = ["build", "--offline", "--locked", "--quiet",
            "--manifest-path", f"{HARNESS}/{crate}/Cargo.toml", "--target-dir", target]
    if profile == "release":
        args.append("--release")
    p = cargo(args, timeout=timeout)
    d = os.path.join(target, "release" if profile == "release" else "debug")
    return p, d


# The parquet writer allocates and frees large compression contexts; keeping
# the memory in the process makes the workloads many times faster.
MALLOC = dict(MALLOC_MMAP_THRESHOLD_="1073741824", MALLOC_TRIM_THRESHOLD_="8589934592",
              MALLOC_TOP_PAD_="67108864")


def native(prop, crate, profile, binary, seed, tier, budget, limit, shards=1, scale=1, phase=None):
    """Build and run a workload, in several processes with different seeds."""
    leg = f"{binary}-{profile}" + (f"-{phase}" if phase else "")
    p, d = build(crate, profile)
    if p.rc != 0:
        return outcome(leg, "inconclusive", "build failed", detail=p.err[-6000:])

    def one(k):
        cmd = [f"{d}/{binary}", prop, "--seed", str(seed + 1000 * k), "--tier", tier, "--budget", str(budget),
               "--scale", str(scale)] + (["--phase", phase] if phase else [])
        r = run(cmd, limit, env(**(MALLOC if crate == "expo" else {})), data_limit_gb=12)
        return judge(leg, r, " ".join(cmd))
    if shards == 1:
        return one(0)
    with concurrent.futures.ThreadPoolExecutor(max_workers=shards) as ex:
        outs = list(ex.map(one, range(shards)))
    return merge(leg, outs)


def merge(leg, outs):
    """One outcome from several; the first violation speaks for all."""
    rank = {"violation": 0, "inconclusive": 1, "held": 2}
    first = min(outs, key=lambda o: rank[o["status"]])
    merged = outcome(leg, first["status"], first["message"])
    merged.update({k: first[k] for k in ("command", "detail", "where") if k in first})
    merged["runs"] = len(outs)
    merged["evaluations"] = sum(o.get("evaluations", 0) for o in outs)
    merged["distinct"] = sum(o.get("distinct", 0) for o in outs)
    merged["wall_s"] = round(max(o.get("wall_s", 0) for o in outs), 1)
    merged["samples"] = [s for o in outs[:2] for s in o.get("samples", [])]
    c = {}
    for o in outs:
        for k, v in o.get("counters", {}).items():
            c[k] = c.get(k, 0) + v
    merged["counters"] = c
    return merged


def asan(prop, seed, tier, budget, limit):
    target = os.path.join(BUILD, "core-asan")
    p = cargo(["build", "--offline", "--locked", "--quiet", "--release", "--manifest-path",
               f"{HARNESS}/core/Cargo.toml", "--target-dir", target,
               "--target", "x86_64-unknown-linux-gnu"],
              toolchain="nightly", RUSTFLAGS="-Zsanitizer=address -Cdebuginfo=1 --cfg san")
    if p.rc != 0:
        return outcome("asan", "inconclusive", "build failed", detail=p.err[-4000:])
    cmd = [f"{target}/x86_64-unknown-linux-gnu/release/hcore", prop, "--seed", str(seed),
           "--tier", tier, "--budget", str(budget)]
    r = run(cmd, limit, env(ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=97"))
    return judge("asan", r, " ".join(cmd))


def tsan(prop, seed, tier, budget, limit):
    target = os.path.join(BUILD, "core-tsan")
    p = cargo(["build", "--offline", "--locked", "--quiet", "--release", "--manifest-path",
               f"{HARNESS}/core/Cargo.toml", "--target-dir", target, "-Zbuild-std",
               "--target", "x86_64-unknown-linux-gnu"],
              toolchain="nightly", RUSTFLAGS="-Zsanitizer=thread -Cdebuginfo=1 --cfg san")
    if p.rc != 0:
        return outcome("tsan", "inconclusive", "build failed", detail=p.err[-4000:])
    cmd = [f"{target}/x86_64-unknown-linux-gnu/release/hcore", prop, "--seed", str(seed),
           "--tier", tier, "--budget", str(budget)]
    r = run(cmd, limit, env(TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0"))
    return judge("tsan", r, " ".join(cmd))


def miri(prop, seed, tier, limit, seeds=1, flags=""):
    """Interpret the workload, each time under another schedule."""
    target = os.path.join(BUILD, "core-miri")
    outs = []
    end = time.time() + limit
    for k in range(seeds):
        left = end - time.time()
        if k and left < 5:
            break
        mf = f"-Zmiri-disable-isolation -Zmiri-seed={seed * 1000 + k} -Zmiri-preemption-rate=0.05 " \
             f"-Zmiri-ignore-leaks -Zmiri-permissive-provenance {flags}"
        cmd = ["miri", "run", "--offline", "--locked", "--quiet", "--manifest-path",
               f"{HARNESS}/core-miri/Cargo.toml", "--target-dir", target, "--bin", "hcore", "--",
               prop, "--seed", str(seed * 1000 + k), "--tier", tier]
        p = cargo(cmd, toolchain="nightly", timeout=max(left, 5), MIRIFLAGS=mf, RUSTFLAGS="-Awarnings")
        o = judge("miri", p, f"MIRIFLAGS='{mf}' cargo +nightly " + " ".join(cmd))
        outs.append(o)
        if o["status"] != "held":
            break
    # Running out of time after some schedules is not a failure.
    if len(outs) > 1 and outs[-1]["status"] == "inconclusive" and outs[-1]["message"] == "wall-clock limit":
        outs.pop()
    merged = merge("miri", outs)
    merged["wall_s"] = round(sum(o.get("wall_s", 0) for o in outs), 1)
    return merged
