"""Shared machinery of the checks: mirror /repo, build a driver, run TLC on a specification, run the
driver, validate its traces with TLC, and report.  Nothing here decides a property: the TLA+
specifications do."""

import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BUGI_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPECS = os.path.join(VERIF, "specs")
DRIVERS = os.path.join(VERIF, "harness", "drivers")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CPUS = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building


def put_file(path, data):
    """write only when the content differs, so that cargo rebuilds exactly what changed"""
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def without_spacemath_impls(text):
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        if re.match(r"impl\b.*\bspacemath::.*\{$", lines[i]):
            end = next((j for j in range(i + 1, len(lines)) if lines[j] and not lines[j][0].isspace()), None)
            if end is not None and lines[end] == "}":
                lines[i : end + 1] = [""] * (end + 1 - i)
                i = end
        i += 1
    return "\n".join(lines)


def mirror(partial):
    """copy /repo's current sources to build/bugi, verbatim (or, partial, without what needs the
    missing crate spacemath, as the official build does)"""
    wanted = {}
    for top, _, names in os.walk(f"{REPO}/src"):
        for n in names:
            p = os.path.join(top, n)
            rel = os.path.relpath(p, REPO)
            with open(p, "rb") as f:
                data = f.read()
            if partial:
                if rel.startswith(("src/main.rs", "src/cli.yml", "src/file/", "src/mesher/")):
                    continue
                if rel.endswith(".rs"):
                    t = data.decode("utf-8", "surrogateescape")
                    if rel == "src/lib.rs":
                        t = re.sub(r"(?m)^(pub )?mod (file|mesher);$", "", t)
                    data = without_spacemath_impls(t).encode("utf-8", "surrogateescape")
            wanted[rel] = data
    with open(f"{REPO}/Cargo.toml", "rb") as f:
        manifest = f.read()
    if partial:
        manifest = re.sub(rb"(?m)^spacemath *=.*$", b"", manifest)
    manifest += b"\n"
    wanted["Cargo.toml"] = manifest
    out = f"{BUILD}/bugi"
    for rel, data in wanted.items():
        put_file(os.path.join(out, rel), data)
    for top, _, names in os.walk(f"{out}/src"):
        for n in names:
            p = os.path.join(top, n)
            if os.path.relpath(p, out) not in wanted:
                os.remove(p)
    for rel in ("Cargo.toml", "src/lib.rs"):
        with open(f"{VERIF}/harness/spacemath/{rel}", "rb") as f:
            put_file(f"{BUILD}/spacemath/{rel}", f.read())


def cargo_env():
    env = dict(os.environ)
    env.update(
        CARGO_TARGET_DIR=f"{BUILD}/target",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="1",
        RUSTFLAGS="--cfg bugi_verif --cap-lints allow",
        RUSTC_WRAPPER="",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    )
    home = env.get("HOME", "/root")
    env["PATH"] = f"{home}/.cargo/bin:/root/.cargo/bin:" + env.get("PATH", "")
    return env


class BuildLock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(f"{BUILD}/.lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def cargo_build(driver):
    r = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--bin", driver],
        cwd=DRIVERS,
        env=cargo_env(),
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
        timeout=800,
    )
    return r.returncode, r.stdout


def build_driver(driver, dest, needs_full=False):
    """build the driver against /repo's current tree; the binary is copied to dest so that a build for
    another check cannot replace it under us"""
    with BuildLock():
        mirror(False)
        rc, log = cargo_build(driver)
        if rc != 0 and not needs_full:
            mirror(True)
            rc2, log2 = cargo_build(driver)
            if rc2 == 0:
                rc, log = rc2, log2
        if rc != 0:
            raise ToolError(f"driver {driver} does not build against /repo:\n" + log[-6000:])
        shutil.copy2(f"{BUILD}/target/debug/{driver}", dest)


def build_cli(dest):
    """the repository's own binary (needs the full mirror)"""
    with BuildLock():
        mirror(False)
        r = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "-p", "bugi", "--bin", "bugi"],
            cwd=DRIVERS, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800,
        )
        if r.returncode != 0:
            raise ToolError("the bugi binary does not build:\n" + r.stdout[-4000:])
        shutil.copy2(f"{BUILD}/target/debug/bugi", dest)


# ---------------------------------------------------------------- TLC


def tlc_start(module, cfg, workdir, env=None, workers=1, heap="2g", fast=True, extra=()):
    """start TLC on specs/<module>.tla with specs/<cfg>"""
    tag = f"{module}.{time.time_ns()}"
    meta = os.path.join(workdir, f"meta.{tag}")
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    jit = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if fast else ["-XX:+UseParallelGC"]
    cmd = [
        "java", *jit, f"-Xmx{heap}", "-Xss32m", "-Djava.io.tmpdir=" + meta,
        "-cp", tla_classpath(), "tlc2.TLC",
        "-workers", str(workers), "-metadir", meta, "-noTE",
        "-config", os.path.join(SPECS, cfg), *extra, os.path.join(SPECS, module + ".tla"),
    ]
    log = os.path.join(workdir, f"tlc.{tag}.log")
    f = open(log, "wb")
    p = subprocess.Popen(cmd, cwd=meta, env=e, stdout=f, stderr=subprocess.STDOUT)
    return {"p": p, "log": log, "meta": meta, "f": f, "t0": time.time(), "name": f"{module}/{cfg}"}


def tlc_finish(h, timeout):
    left = timeout - (time.time() - h["t0"])
    try:
        rc = h["p"].wait(timeout=max(1, left))
    except subprocess.TimeoutExpired:
        h["p"].kill()
        raise ToolError(f"TLC on {h['name']} did not finish within {timeout} s")
    h["f"].close()
    with open(h["log"], errors="replace") as f:
        out = f.read()
    shutil.rmtree(h["meta"], ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return out, {
        "transitions": int(m[-1][0]) if m else 0,
        "states": int(m[-1][1]) if m else 0,
        "rc": rc,
        "wall_s": round(time.time() - h["t0"], 2),
        "log": h["log"],
    }


def tlc(module, cfg, workdir, env=None, workers=4, timeout=600, heap="6g", fast=False, extra=()):
    return tlc_finish(tlc_start(module, cfg, workdir, env, workers, heap, fast, extra), timeout)


_cp = None


def tla_classpath():
    global _cp
    if _cp is None:
        jars = [TLAJAR]
        d = os.path.dirname(TLAJAR)
        for top, _, names in os.walk(d):
            for n in sorted(names):
                if n.endswith(".jar") and "Community" in n:
                    jars.append(os.path.join(top, n))
        _cp = ":".join(jars)
    return _cp


# ---------------------------------------------------------------- driver


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(binary, mode, seed, tier, frm, to, out, workdir, scn=None, timeout=600, case_ms=20000):
    """run cases frm..to, in shards; a crash or a hang of the driver becomes the case's own event"""
    shards = max(1, min(CPUS, (to - frm) // 20))
    step = -(-(to - frm) // shards)
    jobs = []
    for s in range(shards):
        a, b = frm + s * step, min(to, frm + (s + 1) * step)
        if a < b:
            jobs.append({"at": a, "to": b, "file": f"{out}.{s}", "p": None, "crashes": 0})
    t0 = time.time()

    def start(j):
        scratch = f"{workdir}/scratch.{os.path.basename(j['file'])}"
        os.makedirs(scratch, exist_ok=True)
        cmd = [binary, mode, "--seed", str(seed), "--from", str(j["at"]), "--to", str(j["to"]), "--out", j["file"],
               "--tier", tier, "--scratch", scratch]
        if scn:
            cmd += ["--scn", scn]
        env = dict(os.environ)
        env["CASE_LIMIT_MS"] = str(case_ms)
        env["RUST_BACKTRACE"] = "0"
        j["p"] = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  preexec_fn=limits)

    for j in jobs:
        if os.path.exists(j["file"]):
            os.remove(j["file"])
        start(j)
    live = list(jobs)
    while live:
        for j in list(live):
            try:
                rc = j["p"].wait(timeout=0.05)
            except subprocess.TimeoutExpired:
                if time.time() - t0 > timeout:
                    for k in live:
                        k["p"].kill()
                    raise ToolError(f"driver {mode} did not finish within {timeout} s")
                continue
            done = last_id(j["file"], j["at"])
            if rc == 0:
                live.remove(j)
                continue
            if rc == 101:
                raise ToolError(f"driver {mode} failed outside a case (from {j['at']})")
            if rc != 3:  # killed by a signal, abort, stack overflow: the case after the last complete one
                done += 1
                with open(j["file"], "a") as f:
                    f.write(json.dumps({"id": done, "ev": [{"op": "abort", "rc": rc}]}) + "\n")
            j["crashes"] += 1
            if done + 1 >= j["to"] or j["crashes"] >= 6:
                live.remove(j)
                continue
            j["at"] = done + 1
            start(j)
    with open(out, "w") as o:
        for j in jobs:
            if os.path.exists(j["file"]):
                with open(j["file"]) as f:
                    shutil.copyfileobj(f, o)
                os.remove(j["file"])


def last_id(path, at):
    last = at - 1
    keep = []
    try:
        with open(path) as f:
            for line in f:
                try:
                    last = json.loads(line)["id"]
                    keep.append(line)
                except ValueError:
                    break
    except OSError:
        return last
    with open(path, "w") as f:
        f.writelines(keep)
    return last


# ---------------------------------------------------------------- trace validation


def validate(module, cfg, trace, workdir, timeout=600, env=None, fast=True):
    """TLC decides, case by case, whether the recorded events are a behaviour of the specification.
    Every TLC process reads its own share of the cases.
    Returns ({case index (0-based line) -> event number (from 1)}, stats)"""
    with open(trace) as f:
        lines = [x for x in f if x.strip()]
    n = len(lines)
    e = {}
    e.update(env or {})

    def start(idx, name):
        part = f"{trace}.{name}"
        with open(part, "w") as f:
            f.writelines(lines[i] for i in idx)
        return tlc_start(module, cfg, workdir, {"TRACE": part, **e}, 1, "3g", fast), idx, part

    def run(pending, pas, spare):
        """one pass over the cases; returns those it says something about"""
        nonlocal err
        shards = max(1, min(CPUS, len(pending) // 8))
        e["PASS"] = pas
        hs = [start(pending[k::shards], f"pass{pas}.{k}") for k in range(shards)]
        done = set()
        while hs:
            h, idx, part = hs.pop(0)
            try:
                out, st = tlc_finish(h, timeout)
            except ToolError as x:
                err = err or x
                continue
            os.remove(part)
            for c, l in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out):
                rej[idx[int(c) - 1]] = int(l)
            done.update(idx[int(c) - 1] for c in re.findall(r'<<"DONE", (\d+)>>', out))
            if pas == "1":
                tot["states"] += st["states"]
                tot["transitions"] += st["transitions"]
            if "Model checking completed. No error has been found." in out:
                continue
            # the specification has no value at what was recorded (a number beyond its range, a shape no
            # result can have): not a behaviour of it.  The case is rejected there, the others are read again.
            at = re.findall(r"/\\ c = (\d+)", out), re.findall(r"/\\ l = (\d+)", out)
            if not at[0] or not at[1] or spare == 0 or "The behavior up to this point" not in out:
                err = err or ToolError(f"trace validation {module} failed to run:\n" + tail(out))
                continue
            spare -= 1
            bad = int(at[0][-1]) - 1
            if "eval_error" not in tot:
                m = re.search(r"Error: (?s:.{0,1500}?)The behavior up to this point", out)
                tot["eval_error"] = m.group(0)[:1500] if m else tail(out)
            rej[idx[bad]] = int(at[1][-1])
            rest = [i for k, i in enumerate(idx) if k != bad and i not in done and i not in rej]
            if rest:
                hs.append(start(rest, f"again{pas}.{spare}"))
        return done

    rej, tot, err = {}, {"states": 0, "transitions": 0, "cases": n}, None
    full = [i for i in range(n) if json.loads(lines[i])["ev"]]
    done = run(full, "1", 40)
    left = [i for i in full if i not in done and i not in rej]
    if len(left) > 240:
        # a violation seen 240 times over is seen
        left = left[:: len(left) // 240]
    if left and not err:
        run(left, "2", 40)
        if not err and any(i not in rej for i in left):
            err = ToolError(f"trace validation {module}: a case was neither followed to its end nor rejected")
    if err and not rej:
        raise err
    return rej, tot


def tail(s, n=3500):
    return s[-n:]


# ---------------------------------------------------------------- known findings


def known_findings():
    """lines of /verif/KNOWN_FINDINGS: `known: property=<id> match=<regex over the rejected case's class> <text>`
    or `fixed: property=<id> <commit> <what failed>`"""
    res = []
    try:
        with open(f"{VERIF}/KNOWN_FINDINGS") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line.strip())
                if m:
                    res.append(m.groups())
    except OSError:
        pass
    return res
