#!/usr/bin/env python3
"""Runs the check of one property (see DESIGN.md).

    check.py C01            quick or thorough by VERIF_TIER, seed VERIF_SEED
    check.py --replay FILE  re-run one minimised failing case
    check.py --build        only build the harness

Exit 0: the property held on everything explored. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it does not. Anything else is an
error of the check itself.
"""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
CONFIGS = {
    # name: (target-cpu, cargo features, debug assertions and overflow checks):
    # the portable bitboard and the AVX2 one
    "default": ("x86-64", [], True),
    "simd": ("x86-64-v3", ["--features", "simd"], True),
    # as users ship it; compared with the others by C15
    "default-release": ("x86-64", [], False),
    "simd-release": ("x86-64-v3", ["--features", "simd"], False),
    # the feature without the instructions: falls back to the portable one
    "simd-fallback": ("x86-64", ["--features", "simd"], True),
}
# backends for other processors, their vector operations replaced by stand-ins
STANDINS = {"aarch64": "neon", "wasm32": "simd128"}
for _a in STANDINS:
    CONFIGS[_a] = ("x86-64", ["--features", "simd"], True)
MAIN = ["default", "simd"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CPUS = max(2, min(8, len(os.sched_getaffinity(0))))
T0 = time.time()


class CheckError(Exception):
    pass


def note(msg):
    print(f"[{time.time() - T0:6.1f}s] {msg}", flush=True)


# ------------------------------------------------------------------ building

def source_sum():
    """What the builds depend on in /repo."""
    h = hashlib.sha256()
    for base in ["src", "examples"]:
        for d, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def cargo_env(cpu, checked):
    env = dict(os.environ)
    env["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + env.get("PATH", "")
    env.update(
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        RUSTUP_AUTO_INSTALL="0",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        RUSTFLAGS=f"-C target-cpu={cpu}",
        CARGO_INCREMENTAL="0",
        CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=str(checked).lower(),
        CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=str(checked).lower(),
    )
    for k in ("CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        env.pop(k, None)
    return env


def standin_tree(arch):
    """A copy of the library in which this machine passes for `arch`, and the
    harness depending on it. Returns the directory."""
    base = os.path.join(TARGET, "standin-" + arch)
    for d in ["repo", "harness"]:
        shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(base, "repo", "src"))
    shutil.copy(os.path.join(REPO, "Cargo.toml"), os.path.join(base, "repo", "Cargo.toml"))
    chosen = False
    for d, _, files in os.walk(os.path.join(base, "repo", "src")):
        for f in files:
            p = os.path.join(d, f)
            with open(p) as fh:
                t = fh.read()
            u = re.sub(rf'target_arch\s*=\s*"{arch}"', 'target_arch = "x86_64"', t)
            chosen |= u != t
            u = re.sub(rf'target_feature\s*=\s*"{STANDINS[arch]}"', 'target_feature = "sse2"', u)
            u = re.sub(rf"\b(std|core)::arch::{arch}\b", f"crate::arch_stand_in::{arch}", u)
            if u != t:
                with open(p, "w") as fh:
                    fh.write(u)
    if not chosen:
        raise CheckError(f"nothing in the library is chosen by the processor {arch}")
    with open(os.path.join(base, "repo", "src", "lib.rs"), "a") as fh:
        fh.write(f"\nmod arch_stand_in {{\n    pub mod {arch};\n}}\n")
    d = os.path.join(base, "repo", "src", "arch_stand_in")
    os.makedirs(d)
    shutil.copy(os.path.join(VERIF, "standins", arch + ".rs"), d)
    shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(base, "harness"))
    p = os.path.join(base, "harness", "Cargo.toml")
    with open(p) as fh:
        t = fh.read()
    u = re.sub(r'path = "[^"]*"', 'path = "../repo"', t, count=1)
    with open(p, "w") as fh:
        fh.write(u)
    return base


def drop_stale(tdir, crate, built):
    # cargo goes by modification times; go by contents
    sums = os.path.join(tdir, f"sources.{crate}.sum")
    now = source_sum()
    old = open(sums).read() if os.path.exists(sums) else ""
    if old != now:
        fp = os.path.join(built, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r"(yasai|yv)-", d):
                    shutil.rmtree(os.path.join(fp, d))
    return sums, now


def build(cfg, crate="harness", what=("--bin", "yv"), out="yv"):
    """Build from /repo's working tree; returns the path of the binary."""
    cpu, feats, checked = CONFIGS[cfg]
    tdir = os.path.join(TARGET, cfg if crate != "fuzz" else "fuzz-" + cfg)
    os.makedirs(tdir, exist_ok=True)
    sums, now = drop_stale(tdir, crate, os.path.join(tdir, "release"))
    top = standin_tree(cfg) if cfg in STANDINS else VERIF
    cmd = ["cargo", "build", "--release", "--offline", "--quiet", "--target-dir", tdir]
    cmd += ["--manifest-path", os.path.join(top, crate, "Cargo.toml")]
    if crate != "cli":
        cmd += feats
    cmd += list(what)
    env = cargo_env(cpu, checked)
    if crate == "fuzz":
        env["RUSTC_WRAPPER"] = os.path.join(VERIF, "fuzz", "rustc-sancov.sh")
    r = subprocess.run(
        cmd,
        cwd=os.path.join(top, crate),
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )
    if r.returncode != 0:
        raise CheckError(f"build of {crate} ({cfg}) failed:\n{r.stdout[-4000:]}")
    with open(sums, "w") as fh:
        fh.write(now)
    return os.path.join(tdir, "release", out)


def has_avx2():
    try:
        return " avx2 " in open("/proc/cpuinfo").read().replace("\n", " ")
    except OSError:
        return False


FUZZERS = {}


def build_all(pid=None):
    """The two checked builds; for C15 (and to prepare) all of them."""
    cfgs = [c for c in CONFIGS if has_avx2() or CONFIGS[c][0] == "x86-64"]
    if pid != "C15":
        cfgs = [c for c in cfgs if c in MAIN]
    fuzzers = [c for c in cfgs if c in MAIN]
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(build, c, "fuzz", ("--bin", "yv-fuzz"), "yv-fuzz") for c in fuzzers]
        bs = [ex.submit(build, c) for c in cfgs]
        bins = {}
        for c, b in zip(cfgs, bs):
            try:
                bins[c] = b.result()
            except CheckError as e:
                # written for the library as it is; it may come to use more
                if c not in STANDINS:
                    raise
                note(f"no stand-in for {c}: {e}")
        cfgs = list(bins)
        for c, f in zip(fuzzers, fs):
            try:
                FUZZERS[c] = f.result()
            except CheckError as e:
                note(f"no coverage-guided search: {e}")
    note(f"built {', '.join(cfgs)}")
    return bins


# ------------------------------------------------------------------- running

THREAD_RUNS = {"quick": 60, "thorough": 1500}


def specs(binary):
    """Numbers of cases per property (for each build) and counting rules."""
    r = subprocess.run([binary, "specs"], stdout=subprocess.PIPE, text=True, check=True)
    return json.loads(r.stdout)


def cpu_limited(seconds):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (seconds, seconds + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return f


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


CRASHES = {signal.SIGSEGV, signal.SIGILL, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}


class Failure:
    def __init__(self, cfg, text, message, mode="case", order=0):
        self.cfg, self.text, self.message, self.mode = cfg, text, message, mode
        self.order = order


def gen_text(binary, pid, stream, case):
    r = subprocess.run(
        [binary, "gen", "--property", pid, "--seed", str(SEED), "--stream", str(stream), "--case", str(case)],
        stdout=subprocess.PIPE,
        text=True,
    )
    keep = [l for l in r.stdout.splitlines() if re.match(r"(start|other|ops) ", l)]
    return "\n".join(keep) + "\n"


def write_case(path, pid, cfg, text, message, mode="case"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fh:
        fh.write(f"property {pid}\nconfig {cfg}\nmode {mode}\n{text}")
        fh.write("message " + message.replace("\n", " ") + "\n")


def try_case(binary, path, cpu_s=60):
    """('held'|'violated'|'error', message) for one case file."""
    r = subprocess.run(
        [binary, "replay", path],
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        preexec_fn=cpu_limited(cpu_s),
    )
    if r.returncode == 0:
        return "held", ""
    if r.returncode == 1:
        return "violated", r.stdout.strip()
    if r.returncode == -signal.SIGXCPU:
        return "violated", f"no result after {cpu_s} s of processor time"
    if -r.returncode in CRASHES:
        return "violated", f"the process died of signal {-r.returncode}"
    return "error", f"exit {r.returncode}: {r.stdout.strip()}"


def worker_count(bins):
    """Workers for each build."""
    return max(1, round(CPUS / len(bins)))


def run_workers(pid, bins, cases, limit, rundir, same_stream):
    """Run the generated cases in every build; returns (results, failures)."""
    k = worker_count(bins)
    jobs = []
    for ci, (cfg, binary) in enumerate(bins.items()):
        stream = 0 if same_stream else ci
        d = os.path.join(rundir, cfg)
        os.makedirs(d)
        for j in range(k):
            cmd = [binary, "worker", "--property", pid, "--seed", str(SEED), "--stream", str(stream)]
            cmd += ["--cases", str(cases), "--stride", str(k), "--offset", str(j)]
            cmd += ["--limit-s", str(limit), "--dir", d]
            err = open(os.path.join(d, f"stderr.{j}"), "w")
            p = subprocess.Popen(cmd, stdout=err, stderr=err, preexec_fn=no_core)
            jobs.append(dict(cfg=cfg, stream=stream, dir=d, j=j, p=p, cmd=cmd, at=None, since=time.time()))
    failures, results = [], []
    live = list(jobs)
    while live:
        time.sleep(0.05)
        for job in list(live):
            rc = job["p"].poll()
            prog = os.path.join(job["dir"], f"progress.{job['j']}")
            at = None
            try:
                at = int.from_bytes(open(prog, "rb").read(8), "little")
            except OSError:
                pass
            if rc is None:
                if at != job["at"]:
                    job["at"], job["since"] = at, time.time()
                # ordinary cases take milliseconds
                if time.time() - job["since"] > 90 and at is not None and at < 2**63:
                    job["p"].kill()
                    job["p"].wait()
                    text = gen_text(bins[job["cfg"]], pid, job["stream"], at)
                    failures.append(Failure(job["cfg"], text, "no progress for 90 s", "hang", at))
                    live.remove(job)
                elif time.time() - job["since"] > 600:
                    job["p"].kill()
                    raise CheckError(f"worker stuck: {job['cmd']}")
                continue
            live.remove(job)
            if rc == 0:
                with open(os.path.join(job["dir"], f"result.{job['j']}")) as fh:
                    r = json.load(fh)
                r["cfg"] = job["cfg"]
                results.append(r)
                if r["fail"]:
                    f = r["fail"]
                    failures.append(Failure(job["cfg"], f["text"], f["message"], "case", f["case"]))
            elif -rc in CRASHES:
                if at is None or at >= 2**63:
                    raise CheckError(f"worker died of signal {-rc} outside a case: {job['cmd']}")
                text = gen_text(bins[job["cfg"]], pid, job["stream"], at)
                failures.append(Failure(job["cfg"], text, f"the process died of signal {-rc}", "crash", at))
            else:
                err = open(os.path.join(job["dir"], f"stderr.{job['j']}")).read()
                for o in live:
                    o["p"].kill()
                raise CheckError(f"worker exit {rc}: {' '.join(job['cmd'])}\n{err[-3000:]}")
    return results, failures


def settle(pid, bins, failures, rundir):
    """Minimise the first failure and write its replay file."""
    failures.sort(key=lambda f: (f.order, f.cfg))
    f = failures[0]
    binary = bins[f.cfg]
    tmp = os.path.join(rundir, "fail.case")
    write_case(tmp, pid, f.cfg, f.text, f.message, "case")
    text, message, mode = f.text, f.message, "case"
    if f.mode in ("hang", "crash"):
        verdict, msg = try_case(binary, tmp)
        if verdict == "error":
            raise CheckError(f"{f.message}, and replaying the case: {msg}\n{f.text}")
        if verdict == "held":
            if f.mode == "hang":
                raise CheckError(f"a worker made no progress, but its case replays well:\n{f.text}")
            mode, message = "run", f.message + " during the run; the case alone does not show it"
        else:
            message = msg
    else:
        verdict, msg = try_case(binary, tmp)
        if verdict == "violated":
            try:
                r = subprocess.run(
                    [binary, "shrink", tmp],
                    stdout=subprocess.PIPE,
                    stderr=subprocess.DEVNULL,
                    text=True,
                    timeout=120,
                    preexec_fn=no_core,
                )
                if r.returncode == 0:
                    lines = r.stdout.splitlines()
                    text = "\n".join(l for l in lines if re.match(r"(start|other|ops) ", l)) + "\n"
                    message = next((l[8:] for l in lines if l.startswith("message ")), message)
            except subprocess.TimeoutExpired:
                note("minimisation cut short")
        else:
            mode = "run"
            message += " (shows only in the course of a whole run)"
    return publish(pid, f.cfg, text, message, mode)


def publish(pid, cfg, text, message, mode):
    tag = hashlib.sha1((cfg + text + mode).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", f"{pid}-{tag}.case")
    if mode == "run":
        text = f"seed {SEED}\ntier {TIER}\n" + text
    write_case(path, pid, cfg, text, message, mode)
    print(text.strip())
    print(message)
    return path


# ---------------------------------------------------------- special phases

def compare_builds(bins, rundir):
    """C15: the digests of the same cases in all builds. Returns the number of
    comparisons and the first difference: (case, build, other build)."""
    a, *others = bins
    compared, first = 0, None
    for j in range(worker_count(bins)):
        x = open(os.path.join(rundir, a, f"digests.{j}"), "rb").read()
        for b in others:
            y = open(os.path.join(rundir, b, f"digests.{j}"), "rb").read()
            n = min(len(x), len(y)) // 8
            compared += n
            if x[: n * 8] != y[: n * 8]:
                i = next(i for i in range(n) if x[8 * i : 8 * i + 8] != y[8 * i : 8 * i + 8])
                d = (i * worker_count(bins) + j, a, b)
                if first is None or d < first:
                    first = d
    return compared, first


def settle_pair(bins, diff, rundir):
    case, a, b = diff
    text = case if isinstance(case, str) else gen_text(bins[a], "C15", 0, case)
    tmp = os.path.join(rundir, "fail.case")
    write_case(tmp, "C15", f"{a},{b}", text, "")
    try:
        r = subprocess.run(
            [bins[a], "shrink-pair", tmp, bins[b], "serve"],
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            text=True,
            timeout=120,
        )
        if r.returncode == 0:
            lines = r.stdout.splitlines()
            text = "\n".join(l for l in lines if re.match(r"(start|other|ops) ", l)) + "\n"
            write_case(tmp, "C15", f"{a},{b}", text, "")
    except subprocess.TimeoutExpired:
        note("minimisation cut short")
    return publish("C15", f"{a},{b}", text, pair_message(bins, a, b, tmp), "pair")


def describe(binary, path):
    return subprocess.run(
        [binary, "describe", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True
    ).stdout


def pair_message(bins, a, b, path):
    da, db = describe(bins[a], path).splitlines(), describe(bins[b], path).splitlines()
    for i in range(max(len(da), len(db))):
        x = da[i] if i < len(da) else "(nothing)"
        y = db[i] if i < len(db) else "(nothing)"
        if x != y:
            xs, ys = x.split(), y.split()
            return (
                f"builds differ at step {i}: {a} only: {' '.join(w for w in xs if w not in ys)[:600]}; "
                f"{b} only: {' '.join(w for w in ys if w not in xs)[:600]}"
            )
    return "builds differ"


def threads_phase(mode, bins, cases):
    """C18: fresh processes of several threads: some race for the first use of
    the library's shared tables, some look at the same few positions, some ask
    the same millions of times; or (mode handoff) clones are sent to other
    threads. That compiles only while positions can be sent; they need not."""
    ran, checks = 0, 0
    for cfg in bins:
        binary = bins[cfg]
        cmd = [binary, "threads"]
        if mode == "handoff":
            try:
                cmd = [build(cfg, "harness", ("--bin", "handoff"), "handoff")]
            except CheckError as e:
                note(f"clones are not sent to threads: {e}")
                return ran, checks, None
        for i in cases:
            rc, out = run_threads(cmd + ["--seed", str(SEED), "--case", str(i)])
            if rc is None:
                # once more, lest the machine was busy
                rc, out = run_threads(cmd + ["--seed", str(SEED), "--case", str(i)])
            ran += 1
            if rc == 0:
                checks += int(out.split()[1])
            elif rc is None or rc == 1 or -rc in CRASHES:
                out = "the threads never finish" if rc is None else out or f"the process died of signal {-rc}"
                lines = out.splitlines()
                text = "".join(l + "\n" for l in lines if re.match(r"(start|ops) ", l))
                text += f"threads-seed {SEED}\nthreads-case {i}\n"
                return ran, checks, publish("C18", cfg, text, lines[0], mode)
            else:
                raise CheckError(f"{mode} exit {rc}: {out}")
    return ran, checks, None


def run_threads(cmd):
    try:
        r = subprocess.run(
            cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120, preexec_fn=no_core
        )
    except subprocess.TimeoutExpired:
        return None, ""
    return r.returncode, r.stdout or (r.stderr if r.returncode not in (0, 1) and -r.returncode not in CRASHES else "")


HAMMER = 1_000_000  # as in harness/src/main.rs
FUZZ_SECONDS = {"quick": 16, "thorough": 900}


def fuzz_phase(pid, bins, rundir):
    """Coverage-guided search (libFuzzer) over byte-coded cases. Returns
    (what was covered, failures)."""
    per = max(1, CPUS // max(1, len(FUZZERS)))
    secs = int(os.environ.get("VERIF_FUZZ_SECONDS") or FUZZ_SECONDS[TIER])
    seeds = os.path.join(rundir, "seeds")
    os.makedirs(seeds)
    subprocess.run(
        [bins["default"], "corpus", "--property", pid, "--seed", str(SEED), "--cases", "300", "--dir", seeds], check=True
    )
    jobs = []
    for cfg, binary in FUZZERS.items():
        corpus = os.path.join(rundir, f"corpus-{cfg}")
        os.makedirs(corpus)
        for j in range(per):
            out = os.path.join(rundir, f"fuzz-{cfg}-{j}")
            env = dict(os.environ, YV_PROPERTY=pid, YV_OUT=out, RUST_BACKTRACE="0")
            other = next((c for c in MAIN if c != cfg and c in bins), cfg)
            if pid == "C15":
                env["YV_OTHER"] = bins[other]
            cmd = [binary, "-use_value_profile=1", "-max_len=" + ("400" if pid == "C18" else "200"), "-len_control=0"]
            cmd += [f"-seed={(SEED * 1000 + len(jobs)) % 2**31 + 1}", f"-max_total_time={secs}", "-timeout=120"]
            cmd += ["-rss_limit_mb=3000", "-print_final_stats=1", f"-artifact_prefix={out}.", corpus, seeds]
            log = open(out + ".log", "w")
            p = subprocess.Popen(cmd, stdout=log, stderr=log, env=env, cwd=rundir, preexec_fn=no_core)
            jobs.append((cfg, other, out, p, corpus))
    end = time.time() + secs + 180
    for _, _, _, p, _ in jobs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    failures = []
    got = dict(executions=0, cases=0, evaluations=0, edges={}, inputs_kept={}, samples=[], hashes=[])
    for n, (cfg, other, out, p, corpus) in enumerate(jobs):
        log = open(out + ".log", errors="replace").read()
        m = re.findall(r"number_of_executed_units: (\d+)", log) or re.findall(r"^#(\d+)", log, re.M)
        got["executions"] += int(m[-1]) if m else 0
        m = re.findall(r" cov: (\d+)", log)
        if m:
            got["edges"][cfg] = max(got["edges"].get(cfg, 0), int(m[-1]))
        got["inputs_kept"][cfg] = len(os.listdir(corpus))
        if os.path.exists(out + ".stats"):
            first, *samples = open(out + ".stats").read().splitlines()
            c, e = first.split()
            got["cases"] += int(c)
            got["evaluations"] += int(e)
            got["samples"] += samples[:1]
        if os.path.exists(out + ".hashes"):
            got["hashes"].append(out + ".hashes")
        if os.path.exists(out):
            lines = open(out).read().splitlines()
            text = "".join(l + "\n" for l in lines if re.match(r"(start|other|ops) ", l))
            msg = next((l[8:] for l in lines if l.startswith("message ")), "")
            f = Failure(cfg, text, msg, "pair" if pid == "C15" else "case", 2**62 + n)
            f.other = other
            failures.append(f)
            continue
        for a in sorted(os.listdir(rundir)):
            m = re.match(re.escape(os.path.basename(out)) + r"\.(crash|timeout)-", a)
            if not m:
                continue
            r = subprocess.run(
                [bins[cfg], "decode", "--property", pid, os.path.join(rundir, a)], stdout=subprocess.PIPE, text=True
            )
            if r.returncode != 0:
                continue
            tmp = os.path.join(rundir, "artifact.case")
            write_case(tmp, pid, cfg, r.stdout, "")
            verdict, msg = try_case(bins[cfg], tmp)
            if verdict == "violated":
                failures.append(Failure(cfg, r.stdout, msg, "crash", 2**62 + n))
            else:
                note(f"a fuzzer stopped ({a}), but its case replays: {verdict} {msg}\n{log[-1500:]}")
        if p.returncode not in (0, 77):
            note(f"a fuzzer ended with {p.returncode}: {log[-1000:]}")
    return got, failures


MIRI_CASES = {"quick": "800", "thorough": "8000"}
MIRI_SECONDS = {"quick": 65, "thorough": 900}


# other kinds of processors, which only an interpreter can stand for
FOREIGN = {"32-bit": "i686-unknown-linux-gnu", "big-endian": "s390x-unknown-linux-gnu"}


def miri_env(cfg, seed=None, tree=False):
    env = cargo_env(CONFIGS[cfg][0] if cfg in CONFIGS else "generic", True)
    if cfg in FOREIGN:
        env["RUSTFLAGS"] = ""
        env["XDG_CACHE_HOME"] = os.path.join(TARGET, "miri-" + cfg)
    env.pop("RUSTC_WRAPPER")
    env["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    env["MIRIFLAGS"] = "-Zmiri-ignore-leaks" + (" -Zmiri-tree-borrows" if tree else "")
    if seed is not None:
        env["MIRIFLAGS"] += f" -Zmiri-seed={seed}"
    return env


def miri_cmd(cfg, *args):
    cmd = ["cargo", "miri", "run", "-q", "--offline", "--target-dir", os.path.join(TARGET, "miri-" + cfg)]
    cmd += ["--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"), "--bin", "yv"]
    cmd += ["--target", FOREIGN[cfg]] if cfg in FOREIGN else CONFIGS[cfg][1]
    return [*cmd, "--", *args]


def miri_run(cfg, lines, threads, seed, out, tree=False):
    """Interpret the library on some cases, in a process of its own. What it
    does depends on nothing else (no clock, no random numbers)."""
    cmd = miri_cmd(cfg, "serve", "--threads", str(threads), "--lines", *lines)
    return subprocess.Popen(
        cmd,
        stdin=subprocess.DEVNULL,
        stdout=open(out + ".out", "w"),
        stderr=open(out + ".err", "w"),
        env=miri_env(cfg, seed, tree),
        start_new_session=True,
    )


def miri_end(p, lines, want, out, deadline):
    """Waits. (cases done, None or (case, message))"""
    try:
        p.wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    answers = r"[0-9a-f]{16}|failed|broken|threads disagree"
    got = [g for g in open(out + ".out").read().splitlines() if re.fullmatch(answers, g)]
    err = open(out + ".err", errors="replace").read()
    for i, g in enumerate(got):
        if g != want[i]:
            what = {"failed": "a panic or malformed moves", "threads disagree": "threads disagree"}
            return i, (lines[i], what.get(g, "another answer than natively"))
    m = re.search(r"^error: (Undefined Behavior: .*|the evaluated program deadlocked.*)$", err, re.M)
    if m:
        at = re.search(r"-->\s*(/repo/\S+)", err) or re.search(r"at (/repo/src/\S+?):?$", err, re.M)
        where = f" at {at.group(1)}" if at else ""
        return len(got), (lines[min(len(got), len(lines) - 1)], m.group(1) + where)
    if p.returncode not in (0, -signal.SIGKILL):
        m = re.search(r"^error.*$", err, re.M)
        note(f"the interpreter stopped: {m.group(0) if m else err[-500:]}")
    return len(got), None


def miri_lines(bins, threads):
    """Short cases: interpreting is slow."""
    # near-mates use the most tables
    pid, moves = ("C15", "5") if threads == 1 else ("C05", "1")
    cmd = [bins["default"], "lines", "--property", pid, "--seed", str(SEED), "--cases", MIRI_CASES[TIER], "--moves", moves]
    return subprocess.run(cmd, stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()


def native(bins, lines):
    """The answers of the ordinary build to cases."""
    r = subprocess.run([bins["default"], "serve"], input="\n".join(lines), stdout=subprocess.PIPE, text=True)
    got = r.stdout.splitlines()
    return got + ["?"] * (len(lines) - len(got))


def miri_phase(pid, bins, cfgs, rundir, threads):
    """The library interpreted by Miri, which knows undefined behaviour (out of
    bounds, uninitialised, misaligned or aliased memory, invalid values, data
    races) even where it has no visible effect. Returns (what was covered,
    replay)."""
    got = dict(cases=0, builds=[])
    base = os.path.join(rundir, "miri")
    os.makedirs(base)
    seconds = MIRI_SECONDS[TIER]
    lines = miri_lines(bins, threads)
    want = native(bins, lines)

    def prepare(cfg):
        tdir = os.path.join(TARGET, "miri-" + cfg)
        os.makedirs(tdir, exist_ok=True)
        sums, now = drop_stale(tdir, "harness", os.path.join(tdir, "miri", FOREIGN.get(cfg, "x86_64-unknown-linux-gnu"), "debug"))
        try:
            r = subprocess.run(
                miri_cmd(cfg, "serve", "--lines"), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                env=miri_env(cfg), text=True, timeout=300,
            )
        except (subprocess.TimeoutExpired, OSError) as e:
            return str(e)
        if r.returncode != 0:
            return r.stdout[-1500:]
        with open(sums, "w") as fh:
            fh.write(now)
        return None

    with ThreadPoolExecutor(2) as ex:
        prepared = list(zip(cfgs, ex.map(prepare, cfgs)))
        cfgs = [cfg for cfg, e in prepared if e is None]
        for cfg, e in prepared:
            if e is not None:
                note(f"{cfg} not interpreted: {e}")
    jobs = []
    k = max(1, CPUS // max(1, len(cfgs)))
    n = k * len(cfgs)
    for j in range(n):
        cfg, mine = cfgs[j % len(cfgs)], slice(j, None, n)
        out = os.path.join(base, str(j))
        p = miri_run(cfg, lines[mine], threads, SEED * 1000 + j, out)
        jobs.append((cfg, mine, out, p, SEED * 1000 + j))
    deadline = time.time() + seconds
    first, disputed = None, False
    for cfg, mine, out, p, seed in jobs:
        done, bad = miri_end(p, lines[mine], want[mine], out, deadline)
        got["cases"] += done
        if done and cfg not in got["builds"]:
            got["builds"].append(cfg)
        aliasing = bad and re.search(r"\btag\b", bad[1]) and "Data race" not in bad[1]
        if aliasing and disputed:
            bad = None
        elif aliasing and not first:
            # two models of aliasing are being discussed, the one used is
            # faster, the other more liberal: both have to object
            q = miri_run(cfg, [bad[0]], 1, seed, out + ".tree", True)
            if not miri_end(q, [bad[0]], native(bins, [bad[0]]), out + ".tree", time.time() + 200)[1]:
                note(f"only one model of aliasing objects: {bad[1]}")
                bad, disputed = None, True
        if bad and not first:
            first = cfg, seed, bad, f"{mine.start} {n}"
    if not first:
        return got, None
    cfg, seed, (line, message), share = first
    if threads == 1:
        # the simplest of some simpler cases that fails too
        start, _, ops = line.partition(";ops")
        ops = ops.split()
        tries = ["start lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1;ops"]
        tries += [f"{start};ops {' '.join(ops[:i])}".rstrip() for i in range(len(ops))]
        answers = native(bins, tries)
        ps = [miri_run(cfg, [t], 1, seed, os.path.join(base, f"s{i}")) for i, t in enumerate(tries)]
        for i, (t, p) in enumerate(zip(tries, ps)):
            _, bad = miri_end(p, [t], [answers[i]], os.path.join(base, f"s{i}"), time.time() + 100)
            if bad:
                line, message = bad
                for q in ps[i + 1 :]:
                    if q.poll() is None:
                        os.killpg(q.pid, signal.SIGKILL)
                        q.wait()
                break
    text = line.replace(";", "\n") + f"\nmiri {threads} {seed} {share}\n"
    return got, publish(pid, cfg, text, "interpreted by Miri: " + message, "miri")


def perft_cli(bins, depth):
    """C19: the shipped perft program against the reference model."""
    try:
        cli = build("default", "cli", ("--bin", "perft"), "perft")
    except CheckError as e:
        note(f"perft program not checked: {e}")
        return 0, None
    done = 0
    for d in range(1, depth + 1):
        want = {}
        r = subprocess.run([bins["default"], "divide", str(d)], stdout=subprocess.PIPE, text=True, check=True)
        for l in r.stdout.splitlines():
            m, n = l.split(": ")
            want[m] = int(n)
        r = subprocess.run([cli, str(d)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=cpu_limited(120))
        got = {}
        for l in r.stdout.splitlines():
            m = re.match(r"(\S+): (\d+)$", l)
            if m:
                got[m.group(1)] = int(m.group(2))
        m = re.search(r"Searched: (\d+) nodes", r.stdout)
        total = int(m.group(1)) if m else -1
        done += sum(want.values())
        if r.returncode != 0 or got != want or total != sum(want.values()):
            bad = [f"{k}: {got.get(k)} instead of {want.get(k)}" for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            msg = f"perft {d}: total {total}, reference {sum(want.values())}; {'; '.join(bad[:5])} (exit {r.returncode})"
            return done, publish("C19", "default", f"depth {d}\n", msg, "cli")
    return done, None


# ------------------------------------------------------------------- checks

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def merge(results, key):
    out = {}
    for r in results:
        for k, v in r[key].items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items(), key=lambda x: -x[1]))


def run_check(pid):
    limit = 240 if TIER == "quick" else 2700
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k}")
    bins = build_all(pid)
    b = specs(bins["default"]).get(pid)
    if b is None:
        raise CheckError(f"unknown property {pid}")
    cases = int(os.environ.get("VERIF_CASES") or b[TIER])
    rundir = os.path.join(TARGET, "run", f"{pid}-{os.getpid()}")
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    try:
        return explore(pid, b, cases, limit, bins, rundir)
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def explore(pid, b, cases, limit, bins, rundir):
    r = subprocess.run([bins["default"], "selftest"], stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise CheckError(f"the reference model fails its own test: {r.stdout}")
    results, failures = run_workers(pid, bins, cases, limit, rundir, pid == "C15")
    note(f"{sum(r['cases'] for r in results)} cases explored")
    replay, extra = None, {}
    if failures:
        replay = settle(pid, bins, failures, rundir)
    fuzz = None
    if FUZZERS and not replay:
        fuzz, failures = fuzz_phase(pid, bins, rundir)
        note(f"{fuzz['executions']} executions of the coverage-guided search")
        pairs = [f for f in failures if f.mode == "pair"]
        if pairs:
            replay = settle_pair(bins, (pairs[0].text, pairs[0].cfg, pairs[0].other), rundir)
        elif failures:
            replay = settle(pid, bins, failures, rundir)
    if pid == "C15" and not replay:
        compared, first = compare_builds(bins, rundir)
        extra["cases_compared_between_builds"] = compared
        if first is not None:
            replay = settle_pair(bins, first, rundir)
    if pid == "C18" and not replay:
        n = THREAD_RUNS[TIER]
        ran, checks, replay = threads_phase("threads", bins, [HAMMER, *range(n)])
        extra["multi_threaded_processes"] = ran
        extra["histories_observed_by_racing_threads"] = checks
        if not replay:
            ran, checks, replay = threads_phase("handoff", bins, range(n // 3))
            extra["processes_sending_clones_to_threads"] = ran
            extra["positions_compared_in_these"] = checks
    if pid in ("C15", "C16", "C18") and not replay:
        cfgs = list(FOREIGN) if pid == "C15" else list(bins)
        extra["interpreted_by_miri"], replay = miri_phase(pid, bins, cfgs, rundir, 2 if pid == "C18" else 1)
    if pid == "C19" and not replay:
        leaves, replay = perft_cli(bins, 4 if TIER == "quick" else 5)
        extra["leaves_compared_with_the_perft_program"] = leaves
    hashes = []
    for cfg in bins:
        d = os.path.join(rundir, cfg)
        hashes += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith("hashes.")]
    if fuzz:
        hashes += fuzz.pop("hashes")
        extra["coverage_guided"] = fuzz
    distinct = int(
        subprocess.run([bins["default"], "distinct"] + hashes, stdout=subprocess.PIPE, text=True, check=True).stdout
    )
    samples = []
    for r in sorted(results, key=lambda r: r["cfg"]):
        samples += r["samples"][:3]
    coverage = {
        "evaluations": sum(r["evals"] for r in results) + (fuzz["evaluations"] if fuzz else 0),
        "distinct_nontrivial": distinct,
        "rule": b["rule"],
        "samples": samples[:12],
        "cases": sum(r["cases"] for r in results) + (fuzz["cases"] if fuzz else 0),
        "cases_by_build": {c: sum(r["cases"] for r in results if r["cfg"] == c) for c in bins},
        "cut_by_time_limit": any(r["cut"] for r in results),
        "labels": merge(results, "labels"),
        "families": merge(results, "families"),
    }
    coverage.update(extra)
    ev = {
        "property": pid,
        "tier": TIER,
        "seed": SEED,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": [
            "inputs are valid shogi positions as DESIGN.md defines them and histories of legal moves",
            "the reference model in harness/src/model.rs states the rules (validated against published perft counts on every run)",
        ],
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if replay else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    note(f"{coverage['evaluations']} evaluations, {distinct} distinct non-trivial")
    if replay:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


def replay_file(path):
    t = open(path).read()

    def get(k):
        m = re.search(rf"^{k} (.*)$", t, re.M)
        return m.group(1).strip() if m else None

    pid, cfg, mode = get("property"), get("config"), get("mode")
    global SEED, TIER
    if mode == "run":
        SEED, TIER = int(get("seed")), get("tier")
        return run_check(pid)
    bins = build_all(pid)
    if mode == "cli":
        _, r = perft_cli(bins, int(get("depth")))
        bad = r is not None
    elif mode in ("threads", "handoff"):
        SEED = int(get("threads-seed"))
        _, _, r = threads_phase(mode, bins, [int(get("threads-case"))])
        bad = r is not None
    elif mode == "miri":
        threads, seed, j, n = (int(x) for x in get("miri").split())
        lines = [";".join(l for l in t.splitlines() if re.match(r"(start|ops)\b", l))]
        if threads > 1:
            SEED = seed // 1000
            lines = miri_lines(bins, threads)[j::n]
        want = native(bins, lines)
        with tempfile.TemporaryDirectory() as d:
            p = miri_run(cfg, lines, threads, seed, os.path.join(d, "x"))
            _, r = miri_end(p, lines, want, os.path.join(d, "x"), time.time() + 600)
        bad = r is not None
        if bad:
            print(r[1])
    elif mode == "pair":
        a, b = cfg.split(",")
        bad = describe(bins[a], path) != describe(bins[b], path)
        if bad:
            print(pair_message(bins, a, b, path))
    else:
        verdict, msg = try_case(bins[cfg], path)
        print(verdict, msg)
        if verdict == "error":
            return 2
        bad = verdict == "violated"
    if bad:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("the property holds on this case")
    return 0


def main():
    try:
        if sys.argv[1] == "--replay":
            return replay_file(sys.argv[2])
        if sys.argv[1] == "--build":
            build_all("C15")
            return 0
        return run_check(sys.argv[1])
    except CheckError as e:
        print(f"ERROR: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
